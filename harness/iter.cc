// MLI 3.0 tile iterators: order, position and size of every tile, input windows of kernels with an aperture, element iteration.
#include "prelude.h"
#include "mli_iterator.hpp"
#include "spec.h"
#include "sx.h"
using namespace snps_arc::metaware::mli;
static const uint8_t PERM[24][4] = {{0,1,2,3},{0,1,3,2},{0,2,1,3},{0,2,3,1},{0,3,1,2},{0,3,2,1},{1,0,2,3},{1,0,3,2},{1,2,0,3},{1,2,3,0},{1,3,0,2},{1,3,2,0},{2,0,1,3},{2,0,3,1},{2,1,0,3},{2,1,3,0},{2,3,0,1},{2,3,1,0},{3,0,1,2},{3,0,2,1},{3,1,0,2},{3,1,2,0},{3,2,0,1},{3,2,1,0}};
static const uint8_t CNT[10][4] = {{1,1,1,1},{2,1,1,3},{3,2,1,1},{1,3,2,1},{2,2,2,2},{4,1,1,1},{1,1,2,5},{3,1,3,1},{1,4,1,2},{2,3,1,2}};
typedef TensorIterator<NoBuffer, 4, 4> It;
typedef Tensor<NoBuffer, 4> T4;

// Expected tiles, given for each dimension (not iteration axis) the number of tiles and their begin/size.
struct Exp { int cnt[4]; int64_t beg[4][8], sz[4][8]; bool atLeast; };
static void walk(It it, T4 full, const int32_t* order, const Exp& x, bool variants = true) {
  int total = 1; for (int d = 0; d < 4; d++) total *= x.cnt[d];
  sx_check(it.GetTotalCount() == (uint32_t)total, "number of tiles");
  int64_t str[4]; for (int d = 0; d < 4; d++) str[d] = full.get_mem_stride(d);
  It inc = it, off = it; int64_t cum[4] = {0, 0, 0, 0}, cumOff = 0;
  static int64_t seen[256][4]; static bool has[256]; for (int i = 0; i < 256; i++) has[i] = false;
  int idx[4] = {0, 0, 0, 0};                                      // per dimension
  for (int t = 0; t < total; t++) {
    T4 s = it.GetSubTensor(); int32_t ti[4]; it.get_tile_idx(ti); int64_t o = 0; int32_t ps[4]; it.get_pos(ps);
    sx_check(s.get_rank() == 4, "rank of the tile");
    for (int a = 0; a < 4; a++) {
      int d = order[a]; sx_check(ti[a] == idx[d], "tiles come in the iteration order");
      sx_check(it.is_first_tile(a) == (idx[d] == 0) && it.is_last_tile(a) == (idx[d] == x.cnt[d] - 1), "first and last tile flags");
      sx_check(ps[a] == x.beg[d][idx[d]], "position of the tile"); o += x.beg[d][idx[d]] * str[d];
      sx_check(s.get_dim(d) == (uint32_t)x.sz[d][idx[d]], "size of the tile"); sx_check(s.get_mem_stride(d) == str[d], "strides of the tile");
      sx_check(cum[d] == x.beg[d][idx[d]], "position increments add up to the position");
    }
    sx_check(s.get_offs() == (uint32_t)o, "offset of the tile"); sx_check((uint32_t)cumOff == (uint32_t)o, "offset increments add up to the offset");
    uint32_t u = it.get_update_idx(); sx_check(u < 256, "tile variant"); u = (uint32_t)sx_concrete(u);
    if (variants && has[u & 255]) for (int d = 0; d < 4; d++) sx_check(s.get_dim(d) == seen[u & 255][d], "tiles of one variant have one size");
    has[u & 255] = true; for (int d = 0; d < 4; d++) seen[u & 255][d] = s.get_dim(d);
    bool done = it.Next(); int32_t pi[4]; int32_t oi = 0; bool d2 = inc.Next(pi), d3 = off.Next(oi);
    for (int d = 0; d < 4; d++) cum[d] += pi[d];
    cumOff += oi;
    for (int a = 0; a < 4; a++) { int d = order[a]; if (++idx[d] < x.cnt[d]) break; idx[d] = 0; }
    sx_check(done == (t == total - 1) && d2 == done && d3 == done, "done after the last tile only");
  }
  int32_t ps[4]; it.get_pos(ps); for (int a = 0; a < 4; a++) { sx_check(ps[a] == 0 && it.is_first_tile(a), "back at the first tile"); sx_check(cum[a] == 0, "increments return to the origin"); }
  sx_check(cumOff == 0, "increments return to the origin");
}
static T4 mkFull(const int64_t* dim, int strides) {
  uint32_t sh[4]; int32_t st[4]; for (int d = 0; d < 4; d++) sh[d] = (uint32_t)dim[d];
  if (!strides) return T4(sh);
  static const int32_t ST[4] = {4099, 7, 513, 61}; for (int d = 0; d < 4; d++) st[d] = ST[d];
  return T4(sh, st);
}
// tile of ts elements, cnt tiles, the last one with `last` elements; first one shortened by skew
static void tileDim(Exp& x, int d, int cnt, int64_t& dim, uint32_t& ts, int64_t skew, int64_t lim, bool sym) {
  int64_t t = 1 + (d + cnt) % 4, last = 1 + d % t; if (sym) { t = sx_sym("tile", 1, lim); last = sx_sym("last", 1, lim); sx_assume(last <= t && skew < t); }
  if (cnt == 1) last = t;
  dim = (cnt - 1) * t + last - skew; ts = (uint32_t)t; sx_assume(dim >= t);
  x.cnt[d] = cnt; for (int k = 0; k < cnt; k++) { x.beg[d][k] = k ? k * t - skew : 0; x.sz[d][k] = (k == cnt - 1 ? dim : (k + 1) * t - skew) - x.beg[d][k]; }
}
extern "C" void it_plain() {
  int p = (int)sx_pick("order", 0, 23), c = (int)sx_pick("counts", 0, sx_tier() ? 9 : 1), sk = (int)sx_pick("skew", 0, 1), ax = (int)sx_pick("symbolic axis", 0, 3); if (!sx_tier()) c = (c * 5 + p) % 10;
  int32_t order[4]; for (int a = 0; a < 4; a++) order[a] = PERM[p][a];
  int64_t skew = sk ? sx_sym("skew", 1, sx_tier() ? 60 : 10) : 0; int64_t dim[4]; uint32_t ts[4]; Exp x;
  if (sk && (CNT[c][0] == 1 || (!sx_tier() && ax != (p & 3)))) { sx_cover("done"); return; }        // a shortened first tile needs a second one
  for (int a = 0; a < 4; a++) tileDim(x, order[a], CNT[c][a], dim[order[a]], ts[order[a]], a ? 0 : skew, sx_tier() ? 60 : 10, a == ax || (!a && sk));
  T4 full = mkFull(dim, p & 1);
  IteratorCfg<4> cfg(full, ts, order, (uint32_t)skew); It it(full, cfg);
  for (int a = 0; a < 4; a++) { sx_check(cfg.get_count(a) == x.cnt[order[a]], "tiles per dimension"); sx_check(cfg.get_order(a) == order[a], "iteration order"); }
  walk(it, full, order, x);
  if (!sk && p % 4 == 1) { It j(full, ts, order); walk(j, full, order, x); }
  sx_cover("done");
}
// input windows for output tiles of a kernel with aperture, stride and padding
extern "C" void it_window() {
  int p = (int)sx_pick("order", 0, 23), c = (int)sx_pick("counts", 0, sx_tier() ? 9 : 0), ax = (int)sx_pick("symbolic axis", 0, 3); if (!sx_tier()) c = (c * 5 + p + ax) % 10;
  int32_t order[4]; for (int a = 0; a < 4; a++) order[a] = PERM[p][a];
  int64_t dim[4], in[4]; uint32_t ts[4], ek[4], st[4], pad[4]; Exp x, y;
  for (int a = 0; a < 4; a++) tileDim(x, order[a], CNT[c][a], dim[order[a]], ts[order[a]], 0, sx_tier() ? 24 : 9, a == ax);
  for (int d = 0; d < 4; d++) {
    st[d] = 1 + (d + c) % 3; int64_t k = 1 + (d + p) % 3, pl = (p + c + d) % k, pr = (p + d) % k, rest = 0;
    if (pr > (dim[d] - 1) * st[d]) pr = 0;
    if ((dim[d] - 1) * st[d] + k - pl - pr < 1 || pl > ts[d] * st[d]) pl = 0;
    if (d == order[ax]) { k = sx_sym("aperture", 1, 9); pl = sx_sym("pre pad", 0, 8); pr = sx_sym("post pad", 0, 8); rest = sx_sym("unused", 0, st[d] - 1); }
    sx_assume(pl < k && pr < k && pl <= (int64_t)ts[d] * st[d]); ek[d] = (uint32_t)k; pad[d] = (uint32_t)pl;
    in[d] = (dim[d] - 1) * st[d] + k - pl - pr + rest; sx_assume(in[d] >= 1 && in[d] + pl >= k && (rest == 0 || pr == 0));
    y.cnt[d] = x.cnt[d]; for (int t = 0; t < y.cnt[d]; t++) { int64_t b = x.beg[d][t] * st[d] - pl, e = (x.beg[d][t] + x.sz[d][t] - 1) * st[d] + k - pl; if (b < 0) b = 0; if (e > in[d] || t == y.cnt[d] - 1) e = in[d]; y.beg[d][t] = b; y.sz[d][t] = e - b; }
  }
  T4 fo = mkFull(dim, 0), fi = mkFull(in, p & 1); It o(fo, ts, order);
  It it(fi, o, ek, st, pad); walk(it, fi, order, y, false); sx_cover("done");
}
// operands that follow only some of the output's dimensions: weights and their zero points
extern "C" void it_follow() {
  int c = (int)sx_pick("counts", 0, 9), kind = (int)sx_pick("operand", 0, 3), ax = sx_tier() ? (int)sx_pick("symbolic axis", 0, 3) : (c + kind) % 4;
  static const int32_t id5[5] = {0, 1, 2, 3, 4}; uint32_t sh[5] = {1, 1, 1, 1, 1}, ts[5] = {1, 1, 1, 1, 1}; int64_t dim[4]; Exp x; uint32_t t4;
  for (int a = 0; a < 4; a++) { tileDim(x, a, CNT[c][a], dim[a], t4, 0, 20, a == ax); sh[a + 1] = (uint32_t)dim[a]; ts[a + 1] = t4; }
  Tensor<NoBuffer, 5> out(sh); TensorIterator<NoBuffer, 5, 5> o(out, ts, id5); int total = 1; for (int d = 0; d < 4; d++) total *= x.cnt[d];
  uint32_t ws[5] = {2, 3, 5, 4, sh[4]}, zs[1] = {sh[4]}, ds[3] = {3, 5, sh[4]};
  static const int32_t co[5] = {1, 1, 1, 1, 0}, zo[5] = {kSkipIterDim, kSkipIterDim, kSkipIterDim, kSkipIterDim, 0}, dwo[5] = {kSkipIterDim, 0, 1, kSkipIterDim, 2}, last[5] = {kSkipIterDim, kSkipIterDim, kSkipIterDim, kSkipIterDim, 4};
  TensorIterator<NoBuffer, 5, 5> w(Tensor<NoBuffer, 5>(ws), o, nullptr, co); TensorIterator<NoBuffer, 1, 5> z(Tensor<NoBuffer, 1>(zs), o, zo, co); TensorIterator<NoBuffer, 3, 5> dw(Tensor<NoBuffer, 3>(ds), o, dwo, co); TensorIterator<NoBuffer, 5, 5> w2(Tensor<NoBuffer, 5>(ws), o, last, co); 
  int idx[4] = {0, 0, 0, 0};
  for (int t = 0; t < total; t++) {
    auto s = o.GetSubTensor(); int64_t cb = x.beg[3][idx[3]], cs = x.sz[3][idx[3]];
    sx_check(s.get_dim(4) == (uint32_t)cs, "output channels");
    if (kind == 0) { auto v = w.GetSubTensor(); for (int d = 0; d < 4; d++) sx_check(v.get_dim(d) == ws[d], "whole dimension"); sx_check(v.get_dim(4) == (uint32_t)cs && v.get_offs() == (uint32_t)cb, "channels follow the output"); sx_check(w.get_offset() == (int32_t)cb, "buffer offset follows the output"); }
    if (kind == 1) { auto v = z.GetSubTensor(); sx_check(v.get_dim(0) == (uint32_t)cs && v.get_offs() == (uint32_t)cb, "channels follow the output"); }
    if (kind == 2) { auto v = dw.GetSubTensor(); for (int d = 0; d < 2; d++) sx_check(v.get_dim(d) == ds[d], "whole dimension"); sx_check(v.get_dim(2) == (uint32_t)cs && v.get_offs() == (uint32_t)cb, "channels follow the output"); }
    if (kind == 3) { auto v = w2.GetSubTensor(); for (int d = 0; d < 4; d++) sx_check(v.get_dim(d) == ws[d], "whole dimension"); sx_check(v.get_dim(4) == (uint32_t)cs && v.get_offs() == (uint32_t)cb, "channels follow the output"); }
    bool done = o.Next(); sx_check(done == (t == total - 1), "done"); sx_check(w.Next() == done && z.Next() == done && dw.Next() == done && w2.Next() == done, "operands end together");
    for (int a = 0; a < 4; a++) { if (++idx[a] < x.cnt[a]) break; idx[a] = 0; }
  }
  sx_cover("done");
}
// element iteration over every tile of a tensor that lies in memory as a whole
extern "C" void it_elem() {
  typedef TensorIterator<InternalBuffer, 4, 4> E;  static const uint32_t SHP[6][4] = {{2, 3, 2, 2}, {1, 4, 1, 3}, {5, 1, 1, 1}, {1, 1, 1, 6}, {3, 1, 2, 4}, {4, 4, 1, 1}};
  int k = (int)sx_pick("shape", 0, 5), gap = (int)sx_pick("strides", 0, 2), m = (int)sx_pick("tiled dimensions", 0, 15); static const int32_t ord[4] = {0, 1, 2, 3}; uint32_t sh[4], ts[4]; int32_t st[4];
  for (int e = 3, q = 1; e >= 0; e--) { int d = gap == 2 ? 3 - e : e; sh[d] = SHP[k][d]; ts[d] = (m >> d) & 1 ? (sh[d] + 1) / 2 : sh[d]; st[d] = q; q = q * sh[d] + (gap == 1); }
  Tensor<InternalBuffer, 4> full(InternalBuffer(), sh, st); E it(full, ts, ord);
  uint32_t cnt[4]; int total = 1; for (int d = 0; d < 4; d++) { cnt[d] = (sh[d] + ts[d] - 1) / ts[d]; total *= cnt[d]; }
  int seen[512]; for (int i = 0; i < 512; i++) seen[i] = 0;
  uint32_t ti[4] = {0, 0, 0, 0};
  for (int t = 0; t < total; t++) {
    E e = it.GetSubTensorIterator(); uint32_t n[4], q[4] = {0, 0, 0, 0}; int32_t c[4]; int tot = 1;
    for (int d = 0; d < 4; d++) { uint32_t b = ti[d] * ts[d]; n[d] = sh[d] - b < ts[d] ? sh[d] - b : ts[d]; c[d] = (int32_t)n[d]; tot *= c[d]; sx_check(e.GetTensorShape(d) == c[d], "tile shape"); }
    e.SetCount(c);
    for (int i = 0; i < tot; i++) {
      int32_t want = 0; for (int d = 0; d < 4; d++) want += (ti[d] * ts[d] + q[d]) * st[d];
      sx_check(e.get_offset() == want, "element offset"); seen[want & 511]++;
      bool done = e.Next(); sx_check(done == (i == tot - 1), "last element"); for (int d = 0; d < 4; d++) { if (++q[d] < n[d]) break; q[d] = 0; }
    }
    bool done = it.Next(); sx_check(done == (t == total - 1), "last tile"); for (int a = 0; a < 4; a++) { int d = ord[a]; if (++ti[d] < cnt[d]) break; ti[d] = 0; }
  }
  sx_cover("done");
}
// a configuration with one dimension removed
extern "C" void it_drop() {
  int c = (int)sx_pick("counts", 0, 9), drop = (int)sx_pick("dropped axis", 0, 4), ax = sx_tier() ? (int)sx_pick("symbolic axis", 0, 3) : (c + drop) % 4; static const int32_t id5[5] = {0, 1, 2, 3, 4}, id4[4] = {0, 1, 2, 3};
  int64_t dim[4], in[4]; uint32_t ts[4], sh[5], t5[5], si[5], ek[5], st[5], pad[5]; Exp x, y;
  for (int a = 0; a < 4; a++) tileDim(x, a, CNT[c][a], dim[a], ts[a], 0, 20, a == ax);
  for (int d = 0, a = 0; d < 5; d++) {
    if (d == drop) { sh[d] = 3; t5[d] = 3; si[d] = 3; ek[d] = st[d] = 1; pad[d] = 0; continue; }
    ek[d] = 3; st[d] = 1 + a % 2; pad[d] = (a + c) % 3; if (pad[d] > ts[a] * st[d] || dim[a] < 2) pad[d] = 0; in[a] = (dim[a] - 1) * st[d] + 3 - pad[d];
    y.cnt[a] = x.cnt[a]; for (int t = 0; t < y.cnt[a]; t++) { int64_t b = x.beg[a][t] * st[d] - pad[d], e = (x.beg[a][t] + x.sz[a][t] - 1) * st[d] + 3 - pad[d]; if (b < 0) b = 0; if (e > in[a]) e = in[a]; y.beg[a][t] = b; y.sz[a][t] = e - b; }
    sh[d] = (uint32_t)dim[a]; t5[d] = ts[a]; si[d] = (uint32_t)in[a]; a++;
  }
  Tensor<NoBuffer, 5> fo(sh), fi(si); TensorIterator<NoBuffer, 5, 5> o(fo, t5, id5), w(fi, o, ek, st, pad);
  IteratorCfg<4> c4(w.get_config(), (uint32_t)drop); T4 f4 = mkFull(in, 0); It it(f4, c4); walk(it, f4, id4, y, false); sx_cover("done");
}
// views: every element keeps its place in memory
extern "C" void it_views() {
  int p = (int)sx_pick("order", 0, 23), ax = (int)sx_pick("axis", 0, 3), chunks = (int)sx_pick("chunks", 1, 3); uint32_t sh[4], pos[4], sz[4], q[4]; int32_t st[4]; int64_t off = 0;
  for (int d = 0; d < 4; d++) { sh[d] = (uint32_t)sx_sym("dim", 1, 50); if (d == ax) { sx_assume(sh[d] <= 16); sh[d] *= chunks; } st[d] = (int32_t)sx_sym("stride", 1, 5000); pos[d] = (uint32_t)sx_sym("pos", 0, 49); sz[d] = (uint32_t)sx_sym("size", 1, 50); sx_assume(pos[d] + sz[d] <= sh[d]); q[d] = (uint32_t)sx_sym("index", 0, 49); sx_assume(q[d] < sz[d]); off += (int64_t)(pos[d] + q[d]) * st[d]; }
  T4 t(sh, st), s = t.slice(pos, sz); sx_check(s.get_rank() == 4, "rank");
  for (int d = 0; d < 4; d++) sx_check(s.get_dim(d) == sz[d] && s.get_mem_stride(d) == st[d], "slice");
  sx_check(s.get_offs() + s.get_offset(q) == (uint32_t)off, "slice"); 
  uint32_t o[4], pq[4]; for (int d = 0; d < 4; d++) o[d] = PERM[p][d];
  T4 x = s.transpose(o); for (int d = 0; d < 4; d++) { pq[d] = q[o[d]]; sx_check(x.get_dim(d) == sz[o[d]], "transpose"); }
  sx_check(x.get_offs() + x.get_offset(pq) == (uint32_t)off && x.get_rank() == 4, "transpose");
  if (p < 2) {                                                    // split and combine the chosen axis
    auto v = t.split(ax, chunks, p); uint32_t i5[5]; sx_check(v.get_rank() == 5, "split"); uint32_t part = sh[ax] / chunks; uint32_t hi = (uint32_t)sx_sym("hi", 0, 2), lo = (uint32_t)sx_sym("lo", 0, 15); sx_assume(hi < (uint32_t)chunks && lo < part);
    int64_t want = 0; for (int d = 0, k = 0; d < 4; d++) { uint32_t e = d == ax ? hi * part + lo : q[d]; want += (int64_t)e * st[d]; if (d != ax) { sx_check(v.get_dim(k) == sh[d], "split"); i5[k++] = e; } else { sx_check(v.get_dim(k + !p) == (uint32_t)chunks && v.get_dim(k + p) == part, "split"); i5[k + !p] = hi; i5[k + p] = lo; k += 2; } }
    sx_check(v.get_offset(i5) == (uint32_t)want, "split");
    auto b = v.combine(ax, !p); uint32_t i4[4]; for (int d = 0; d < 4; d++) { i4[d] = d == ax ? hi * part + lo : q[d]; sx_check(b.get_dim(d) == sh[d], "combine"); }
    sx_check(b.get_rank() == 4, "combine"); sx_check(b.get_offs() + b.get_offset(i4) == (uint32_t)want, "combine");
  }
  sx_cover("done");
}
// buffer sizes handed to the memory planner
extern "C" void it_size() {
  int r = (int)sx_pick("rank", 1, 4); uint32_t sh[4]; int32_t st[4]; int64_t last = 0, cont = 1;
  for (int d = 0; d < r; d++) { sh[d] = (uint32_t)sx_sym("dim", 1, 40); st[d] = (int32_t)sx_sym("stride", 1, 5000); last += (int64_t)(sh[d] - 1) * st[d]; cont *= sh[d]; }
  sx_check(service::GetBufferSize(r, sh, st) == (uint32_t)(last + 1), "extent of a strided tensor"); sx_check(service::GetBufferSize(r, sh) == (uint32_t)cont, "extent of a contiguous tensor");
  if (r == 4) { T4 t(sh, st); sx_check(service::GetBufferSize(t) == (uint32_t)(last + 1), "extent of a tensor"); T4 u(sh); sx_check(service::GetBufferSize(u) == (uint32_t)cont, "extent of a tensor"); sx_check(t.get_total_elem_num() == (uint32_t)cont, "number of elements"); }
  sx_cover("done");
}
