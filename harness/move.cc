// Data movement: mli_mov_tensor_sync with every combination of padding, cropping, subsampling, permutation and placement; configuration helpers; DMA channel pool.
#include "tens.h"
static const Shape SH[4] = {S1(5), S2(3, 4), S3(2, 3, 3), S4(2, 2, 1, 2)};
static const mli_element_type EL[4] = {MLI_EL_FX_8, MLI_EL_FX_16, MLI_EL_SA_32, MLI_EL_SA_8};
static const uint8_t PERM4[24][4] = {{0,1,2,3},{0,1,3,2},{0,2,1,3},{0,2,3,1},{0,3,1,2},{0,3,2,1},{1,0,2,3},{1,0,3,2},{1,2,0,3},{1,2,3,0},{1,3,0,2},{1,3,2,0},{2,0,1,3},{2,0,3,1},{2,1,0,3},{2,1,3,0},{2,3,0,1},{2,3,1,0},{3,0,1,2},{3,0,2,1},{3,1,0,2},{3,1,2,0},{3,2,0,1},{3,2,1,0}};
static const uint8_t PERM3[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
static int nperm(int rank) { return rank == 4 ? 24 : rank == 3 ? 6 : rank == 2 ? 2 : 1; }
static void setPerm(mli_mov_cfg_t& c, int rank, int p) { for (int i = 0; i < 4; i++) c.perm_dim[i] = i; for (int i = 0; i < rank; i++) c.perm_dim[i] = rank == 4 ? PERM4[p][i] : rank == 3 ? PERM3[p][i] : rank == 2 ? (p ? 1 - i : i) : 0; }
// what to do with one source dimension of length n: offset and size are in padded coordinates
static int setOp(mli_mov_cfg_t& c, int d, int op, int n) {
  int dst = 0; c.offset[d] = 0; c.size[d] = 0; c.sub_sample_step[d] = 1; c.padding_pre[d] = c.padding_post[d] = 0;
  switch (op) {
    case 1: c.offset[d] = n > 1; c.size[d] = n > 1 ? n - 1 : 0; break;
    case 2: c.padding_pre[d] = 1; c.padding_post[d] = 1 + (d < 2); break;
    case 3: c.sub_sample_step[d] = 2; break;
    case 4: c.padding_pre[d] = 2; c.padding_post[d] = 1; c.offset[d] = 1; c.size[d] = n + 1; c.sub_sample_step[d] = 2; break;
    case 5: dst = 1; break;
    case 6: c.offset[d] = n - 1; c.size[d] = 1; dst = n - 1; break;
    case 7: c.offset[d] = n > 1; c.sub_sample_step[d] = 3; c.padding_post[d] = 2; break;
  }
  return dst;
}
struct Dst { mli_tensor t; char* base; int cells; int64_t v[1600]; };
// destination buffer of exactly the bytes that the request needs; every cell symbolic
static void mkDst(Dst& d, const Tn& a, const mli_mov_cfg_t& c, int mode, bool conc) {
  memset(&d.t, 0, sizeof d.t); int r = a.t.rank, sh[4], st[4]; int64_t span = 1;
  for (int i = 0; i < r; i++) { int s = c.perm_dim[i], n = c.size[s] ? c.size[s] : a.t.shape[s] - c.offset[s] + c.padding_pre[s] + c.padding_post[s]; sh[i] = (n + c.sub_sample_step[s] - 1) / c.sub_sample_step[s] + c.dst_offset[i]; }
  for (int i = r - 1, s = mode == 3 ? 2 : 1; i >= 0; i--) { st[i] = s; s = s * sh[i] + (mode ? 1 : 0); }
  for (int i = 0; i < r; i++) span += (int64_t)(sh[i] - 1) * st[i];
  int es = esize(a.t.el_type); d.base = (char*)sx_alloc(span * es, "destination"); d.cells = (int)span;
  for (int i = 0; i < span; i++) { d.v[i] = conc ? (i * 29 + 7) % 100 : sx_sym("old", elmin(a.t.el_type), elmax(a.t.el_type)); wrt(d.base, a.t.el_type, i, d.v[i]); }
  d.t.data.mem.pi8 = (int8_t*)d.base; d.t.data.capacity = (uint32_t)(span * es);
  for (int i = 0; i < r; i++) { if (mode == 2 || (mode == 4 && (i & 1))) d.t.mem_stride[i] = st[i]; }
}

static void run(const Tn& a, mli_mov_cfg_t& c, int mode) {
  int r = a.t.rank, sh[4], n[4]; Dst d;
  for (int i = 0; i < r; i++) { int s = c.perm_dim[i], len = c.size[s] ? c.size[s] : a.t.shape[s] - c.offset[s] + c.padding_pre[s] + c.padding_post[s]; n[i] = (len + c.sub_sample_step[s] - 1) / c.sub_sample_step[s]; sh[i] = n[i] + c.dst_offset[i]; }
  int st[4]; for (int i = r - 1, s = mode == 3 ? 2 : 1; i >= 0; i--) { st[i] = s; s = s * sh[i] + (mode ? 1 : 0); }
  for (int i = 0; i < 4; i++) c.dst_mem_stride[i] = i < r && (mode == 1 || mode == 3 || (mode == 4 && !(i & 1))) ? st[i] : 0;
  mkDst(d, a, c, mode, false);
  sx_check(mli_mov_tensor_sync(&a.t, &c, &d.t) == MLI_STATUS_OK, "status");
  sx_check(d.t.rank == a.t.rank && d.t.el_type == a.t.el_type, "rank and element type");
  for (int i = 0; i < r; i++) { sx_check((int)d.t.shape[i] == sh[i], "shape"); sx_check(d.t.mem_stride[i] == st[i], "memory stride"); }
  sx_check(d.t.data.mem.pi8 == (int8_t*)d.base, "data pointer");
  mli_element_type el = a.t.el_type;
  if (el == MLI_EL_FX_8 || el == MLI_EL_FX_16) sx_check(d.t.el_params.fx.frac_bits == a.t.el_params.fx.frac_bits, "fraction bits");
  else sx_check(d.t.el_params.sa.dim == a.t.el_params.sa.dim && d.t.el_params.sa.zero_point.mem.i16 == a.t.el_params.sa.zero_point.mem.i16 && d.t.el_params.sa.scale.mem.i16 == a.t.el_params.sa.scale.mem.i16 && d.t.el_params.sa.scale_frac_bits.mem.i8 == a.t.el_params.sa.scale_frac_bits.mem.i8, "quantisation parameters");
  int64_t want[1600]; for (int i = 0; i < d.cells; i++) want[i] = d.v[i];
  int64_t tot = 1; for (int i = 0; i < r; i++) tot *= n[i];
  for (int64_t k = 0; k < tot; k++) {
    int64_t q = k, dpos = 0, spos = 0; bool in = true;
    for (int i = r - 1; i >= 0; i--) {
      int64_t p = q % n[i]; q /= n[i]; int s = c.perm_dim[i]; dpos += (p + c.dst_offset[i]) * st[i];
      int64_t x = p * c.sub_sample_step[s] + c.offset[s] - c.padding_pre[s]; if (x < 0 || x >= (int64_t)a.t.shape[s]) in = false; spos += x * (a.t.mem_stride[s]);
    }
    want[dpos] = in ? rd(a.base, el, spos) : 0;
  }
  for (int i = 0; i < d.cells; i++) { int64_t g = rd(d.base, el, i); sx_obs(g); sx_check(g == want[i], "destination contents"); }
  sx_cover("done");
}
static void mkSrc(Tn& a, int rank, int el, int gap) {
  mk(a, EL[el], SH[rank - 1], gap, "source"); if (el < 2) setFx(a, 5 - el * 9); else setSa(a, el == 2 ? 0 : 17, 12345, 14); fillSym(a, "x");
}
// one operation per dimension, every rank, permutation and element size
extern "C" void mv_all() {
  int rank = (int)sx_pick("rank", 1, 4), o1 = (int)sx_pick("op", 0, 7), o2 = rank > 1 ? (int)sx_pick("op step", 0, 7) : 0, p = (int)sx_pick("permutation", 0, sx_tier() || rank < 4 ? nperm(rank) - 1 : 5), el, gap, mode;
  if (rank == 4 && !sx_tier()) p = (p * 4 + o1 + o2 * 3) % 24;
  if (sx_tier() || rank < 2) { el = (int)sx_pick("element", 0, 3); gap = (o1 + p) % 3; mode = (int)sx_pick("strides", 0, 4); } else { el = (o1 + o2 + p) % 4; mode = rank < 4 ? (int)sx_pick("strides", 0, 4) : (o2 + p * 2 + o1 * 3) % 5; gap = (o1 + 2 * o2 + p + mode) % 3; }
  Tn a; mkSrc(a, rank, el, gap); mli_mov_cfg_t c; memset(&c, 0, sizeof c); for (int i = 0; i < 4; i++) c.sub_sample_step[i] = 1; setPerm(c, rank, p);
  int dst[4] = {0, 0, 0, 0}; for (int s = 0; s < rank; s++) dst[s] = setOp(c, s, (o1 + o2 * s) % 8, a.t.shape[s]);
  for (int i = 0; i < rank; i++) c.dst_offset[i] = dst[c.perm_dim[i]];
  run(a, c, mode);
}
// per-axis quantised tensors: parameters follow the data along the quantised axis
extern "C" void mv_axis() {
  int rank = (int)sx_pick("rank", 1, 4), ax = (int)sx_pick("axis", 0, rank - 1), op = (int)sx_pick("op", 0, 7), p = (int)sx_pick("permutation", 0, sx_tier() || rank < 4 ? nperm(rank) - 1 : 7), own = (int)sx_pick("parameter memory", 0, 2), oo = sx_tier() ? (int)sx_pick("other ops", 0, 7) : (op * 3 + p + ax) % 8;
  if (rank == 4 && !sx_tier()) p = p * 3 + op % 3;
  Tn a; mk(a, (op + p) & 1 ? MLI_EL_SA_8 : MLI_EL_SA_32, SH[rank - 1], (op + p) % 3, "source"); fillRange(a, "x", -100, 100);
  int n = a.t.shape[ax]; int64_t zp[8], sc[8], sf[8]; for (int i = 0; i < n; i++) { zp[i] = sx_sym("zp", -128, 127); sc[i] = sx_sym("scale", 1, 32767); sf[i] = sx_sym("scale frac", 0, 31); }
  setSaAxis(a, ax, n, zp, sc, sf);
  mli_mov_cfg_t c; memset(&c, 0, sizeof c); for (int i = 0; i < 4; i++) c.sub_sample_step[i] = 1; setPerm(c, rank, p); int dst[4] = {0, 0, 0, 0};
  for (int s = 0; s < rank; s++) dst[s] = setOp(c, s, s == ax ? (own == 2 ? op : 0) : oo, a.t.shape[s]);
  int oax = 0; for (int i = 0; i < rank; i++) { c.dst_offset[i] = dst[c.perm_dim[i]]; if (c.perm_dim[i] == ax) oax = i; }
  Dst d; mkDst(d, a, c, 0, true); int len = c.size[ax] ? c.size[ax] : n - c.offset[ax] + c.padding_pre[ax] + c.padding_post[ax]; len = (len + c.sub_sample_step[ax] - 1) / c.sub_sample_step[ax]; int m = len + c.dst_offset[oax];
  int16_t *Z = 0, *S = 0; int8_t* F = 0; int64_t old[32];
  if (own == 2) {
    Z = (int16_t*)sx_alloc(2 * m, "zero points out"); S = (int16_t*)sx_alloc(2 * m, "scales out"); F = (int8_t*)sx_alloc(m, "scale frac out"); for (int i = 0; i < m; i++) { old[i] = sx_sym("old", -100, 100); Z[i] = (int16_t)old[i]; S[i] = (int16_t)old[i]; F[i] = (int8_t)old[i]; }
    d.t.el_params.sa.zero_point.mem.pi16 = Z; d.t.el_params.sa.scale.mem.pi16 = S; d.t.el_params.sa.scale_frac_bits.mem.pi8 = F; d.t.el_params.sa.zero_point.capacity = d.t.el_params.sa.scale.capacity = 2 * m; d.t.el_params.sa.scale_frac_bits.capacity = m;
  } else if (own == 1) d.t.el_params = a.t.el_params;
  sx_check(mli_mov_tensor_sync(&a.t, &c, &d.t) == MLI_STATUS_OK, "status"); sx_check(d.t.el_params.sa.dim == oax, "axis");
  if (own < 2) sx_check(d.t.el_params.sa.zero_point.mem.pi16 == a.t.el_params.sa.zero_point.mem.pi16 && d.t.el_params.sa.scale.mem.pi16 == a.t.el_params.sa.scale.mem.pi16 && d.t.el_params.sa.scale_frac_bits.mem.pi8 == a.t.el_params.sa.scale_frac_bits.mem.pi8, "shared parameters");
  else for (int i = 0; i < m; i++) {
    int64_t wz = old[i], ws = old[i], wf = old[i], x = (i - (int64_t)c.dst_offset[oax]) * c.sub_sample_step[ax] + c.offset[ax] - c.padding_pre[ax];
    if (i >= (int)c.dst_offset[oax]) { bool in = x >= 0 && x < n; wz = in ? zp[x] : 0; ws = in ? sc[x] : 1; wf = in ? sf[x] : 0; }
    sx_obs(Z[i]); sx_obs(S[i]); sx_obs(F[i]); sx_check(Z[i] == wz && S[i] == ws && F[i] == wf, "quantisation parameters along the axis");
  }
  sx_cover("done");
}
// configuration helpers
extern "C" void mv_cfg() {
  int which = (int)sx_pick("helper", 0, 6); int o[4], z[4], s[4], dO[4], st[4]; uint8_t pd[4], pl = (uint8_t)sx_sym("left", 0, 255), pr = (uint8_t)sx_sym("right", 0, 255), pt = (uint8_t)sx_sym("top", 0, 255), pb = (uint8_t)sx_sym("bottom", 0, 255);
  for (int i = 0; i < 4; i++) { o[i] = (int)sx_sym("offset", 0, 1 << 20); z[i] = (int)sx_sym("size", 0, 1 << 20); s[i] = (int)sx_sym("step", 1, 1 << 20); dO[i] = (int)sx_sym("dst offset", 0, 1 << 20); st[i] = (int)sx_sym("stride", 0, 1 << 30); pd[i] = (uint8_t)sx_sym("perm", 0, 3); }
  mli_mov_cfg_t c; memset(&c, 0x5a, sizeof c); mli_status r = MLI_STATUS_OK; bool so = false, ss = false, sst = false, sdo = false, ssd = false, sp = false; int P = -1;
  switch (which) {
    case 0: r = mli_mov_cfg_for_copy(&c); break;
    case 1: r = mli_mov_cfg_for_slice(&c, o, z, st); so = ss = ssd = true; break;
    case 2: r = mli_mov_cfg_for_concat(&c, dO, st); sdo = ssd = true; break;
    case 3: r = mli_mov_cfg_for_subsample(&c, s, st); sst = ssd = true; break;
    case 4: r = mli_mov_cfg_for_permute(&c, pd); sp = true; break;
    case 5: r = mli_mov_cfg_for_padding2d_chw(&c, pl, pr, pt, pb, st); ssd = true; P = 1; break;
    case 6: r = mli_mov_cfg_for_padding2d_hwc(&c, pl, pr, pt, pb, st); ssd = true; P = 0; break;
  }
  sx_check(r == MLI_STATUS_OK, "status");
  for (int i = 0; i < 4; i++) {
    sx_check(c.offset[i] == (uint32_t)(so ? o[i] : 0) && c.size[i] == (uint32_t)(ss ? z[i] : 0) && c.sub_sample_step[i] == (uint32_t)(sst ? s[i] : 1) && c.dst_offset[i] == (uint32_t)(sdo ? dO[i] : 0) && c.dst_mem_stride[i] == (ssd ? st[i] : 0) && c.perm_dim[i] == (sp ? pd[i] : i), "fields");
    int64_t a = P >= 0 && i == P ? pt : P >= 0 && i == P + 1 ? pl : 0, b = P >= 0 && i == P ? pb : P >= 0 && i == P + 1 ? pr : 0; sx_obs(c.padding_pre[i]); sx_check(c.padding_pre[i] == a && c.padding_post[i] == b, "padding fields");
  }
  mli_mov_cfg_t e; memset(&e, 0x5a, sizeof e); sx_check(mli_mov_cfg_all(&e, o, z, s, dO, st, pd, pl, pr, pt, pb) == MLI_STATUS_OK, "status");
  for (int i = 0; i < 4; i++) { sx_check(e.offset[i] == (uint32_t)o[i] && e.size[i] == (uint32_t)z[i] && e.sub_sample_step[i] == (uint32_t)s[i] && e.dst_offset[i] == (uint32_t)dO[i] && e.dst_mem_stride[i] == st[i] && e.perm_dim[i] == pd[i] && e.padding_pre[i] == (i == 0 ? pt : i == 1 ? pl : 0) && e.padding_post[i] == (i == 0 ? pb : i == 1 ? pr : 0), "fields (all)"); }
  sx_cover("done");
}
// histories of acquiring and releasing transfer channels
static int g_calls; static int32_t g_cookie;
static void callback(int32_t v) { g_calls++; g_cookie = v; }
extern "C" void mv_pool() {
  int base = (int)sx_pick("first channel", 0, 3) * 4, size = (int)sx_pick("channels", 1, 4), steps = sx_tier() ? 5 : 4;
  sx_check(mli_mov_set_num_dma_ch(base, size) == MLI_STATUS_OK, "pool"); mli_mov_handle_t h[5]; bool live[5]; int cnt = 0; int used[16]; for (int i = 0; i < 16; i++) used[i] = 0;
  for (int t = 0; t < steps; t++) {
    int act = (int)sx_pick("action", 0, 3 + (cnt < 3 ? cnt : 3));   // 0..3: acquire that many channels (0 = transfers without a channel); above: release one of the handles
    if (act <= 3) {
      mli_mov_handle_t& n = h[cnt]; memset(&n, 0, sizeof n); live[cnt] = false; mli_status r = mli_mov_acquire_handle(act, &n); sx_obs(r);
      bool can = false; for (int i = base; i + (act ? act : 1) <= base + size; i++) { bool f = true; for (int j = 0; j < act; j++) if (used[i + j]) f = false; if (f) can = true; }
      sx_check((r == MLI_STATUS_OK) == can, "a block of free channels is handed out exactly when the pool has one");
      if (r == MLI_STATUS_OK) { sx_check(n.num_ch == act && n.state == MLI_MOV_STATE_OPEN && n.dma_ch >= base && n.dma_ch + act <= base + size, "channels inside the pool"); for (int j = 0; j < act; j++) { sx_check(!used[n.dma_ch + j], "no channel belongs to two handles"); used[n.dma_ch + j] = 1; } live[cnt] = true; }
      cnt++;
    } else {
      int k = act - 4; if (!live[k]) continue; int f = h[k].dma_ch, m = h[k].num_ch; sx_check(mli_mov_release_handle(&h[k]) == MLI_STATUS_OK && h[k].state == MLI_MOV_STATE_INVALID, "release"); for (int j = 0; j < m; j++) used[f + j] = 0; live[k] = false;
    }
  }
  sx_cover("done");
}
// asynchronous protocol: prepare, start, poll, callback
extern "C" void mv_async() {
  sx_check(mli_mov_set_num_dma_ch(4, 3) == MLI_STATUS_OK, "pool"); int ch = (int)sx_pick("channels", 0, 2), cb = (int)sx_pick("callback", 0, 1), rank = (int)sx_pick("rank", 1, 3); int32_t cookie = (int32_t)sx_sym("cookie", INT32_MIN, INT32_MAX);
  Tn a; mkSrc(a, rank, rank, 1); Tn o; mk(o, a.t.el_type, SH[rank - 1], 0, "destination"); mli_mov_handle_t h; memset(&h, 0, sizeof h); mli_mov_cfg_t c; mli_mov_cfg_for_copy(&c); g_calls = 0;
  sx_check(mli_mov_acquire_handle(ch, &h) == MLI_STATUS_OK, "acquire"); sx_check(!mli_mov_isdone(&h), "not done before the start");
  if (cb) sx_check(mli_mov_registercallback(&h, callback, cookie) == MLI_STATUS_OK, "callback");
  sx_check(mli_mov_prepare(&h, &a.t, &c, &o.t) == MLI_STATUS_OK, "prepare"); sx_check(!mli_mov_isdone(&h) && g_calls == 0, "not done before the start");
  sx_check(mli_mov_start(&h, &a.t, &c, &o.t) == MLI_STATUS_OK && mli_mov_wait(&h) == MLI_STATUS_OK && mli_mov_isdone(&h), "done"); sx_check(g_calls == cb && (!cb || g_cookie == cookie), "the callback runs once with its cookie");
  for (int64_t k = 0; k < numel(a.t); k++) { int64_t g = rd(o.base, o.t.el_type, elOff(o.t, k)); sx_obs(g); sx_check(g == rd(a.base, a.t.el_type, elOff(a.t, k)), "contents"); }
  sx_check(mli_mov_release_handle(&h) == MLI_STATUS_OK, "release"); sx_cover("done");
}
// permute kernel
extern "C" void mv_permute() {
  int rank = (int)sx_pick("rank", 1, 4), p = (int)sx_pick("permutation", 0, nperm(rank) - 1), el = (int)sx_pick("element", 0, 2), gap = (int)sx_pick("gap", 0, 3), own = el == 2 ? (int)sx_pick("quantisation", 0, 3) : 0, ax = own > 0 ? (p + gap + own) % rank : 0;
  static const mli_element_type T[3] = {MLI_EL_FX_8, MLI_EL_FX_16, MLI_EL_SA_8}; Tn a, o; Guard g; mk(a, T[el], SH[rank - 1], gap & 1 ? 2 : 0, "in"); fillSym(a, "x"); mli_permute_cfg c; memset(&c, 0, sizeof c); mli_mov_cfg_t mc; memset(&mc, 0, sizeof mc); setPerm(mc, rank, p);
  Shape os; os.rank = rank; int oax = -1; for (int i = 0; i < 4; i++) { c.perm_dim[i] = mc.perm_dim[i]; os.d[i] = i < rank ? a.t.shape[c.perm_dim[i]] : 1; if (i < rank && c.perm_dim[i] == ax) oax = i; }
  mk(o, T[el], os, gap & 2 ? 3 : 0, "out"); guardInit(o, g); int n = a.t.shape[ax]; int64_t zp[8], sc[8], sf[8];
  for (int i = 0; i < n; i++) { zp[i] = sx_sym("zp", -128, 127); sc[i] = sx_sym("scale", 1, 32767); sf[i] = sx_sym("scale frac", -8, 31); }
  if (el < 2) setFx(a, (int)sx_sym("frac", 0, 7 + 8 * el)); else if (!own) setSa(a, zp[0], sc[0], sf[0]); else setSaAxis(a, ax, n, zp, sc, sf);
  if (own == 1) { o.t.el_params.sa.zero_point.mem.pi16 = 0; o.t.el_params.sa.scale.mem.pi16 = 0; o.t.el_params.sa.scale_frac_bits.mem.pi8 = 0; } else if (own == 2) o.t.el_params = a.t.el_params; else if (own == 3) { int64_t z[8] = {0}; setSaAxis(o, 0, n, z, z, z); sx_readonly(o.t.el_params.sa.zero_point.mem.pi16, 0); sx_readonly(o.t.el_params.sa.scale.mem.pi16, 0); sx_readonly(o.t.el_params.sa.scale_frac_bits.mem.pi8, 0); }
  sx_check((el == 0 ? mli_krn_permute_fx8 : el == 1 ? mli_krn_permute_fx16 : mli_krn_permute_sa8)(&a.t, &c, &o.t) == MLI_STATUS_OK, "status");
  for (int64_t k = 0; k < numel(o.t); k++) { int64_t q = k, s = 0; for (int i = rank - 1; i >= 0; i--) { s += (q % os.d[i]) * a.t.mem_stride[c.perm_dim[i]]; q /= os.d[i]; } int64_t got = rd(o.base, T[el], elOff(o.t, k)); sx_obs(got); sx_check(got == rd(a.base, T[el], s), "output element"); }
  if (el < 2) sx_check(o.t.el_params.fx.frac_bits == a.t.el_params.fx.frac_bits, "format");
  else if (!own) sx_check(o.t.el_params.sa.dim == -1 && o.t.el_params.sa.zero_point.mem.i16 == zp[0] && o.t.el_params.sa.scale.mem.i16 == sc[0] && o.t.el_params.sa.scale_frac_bits.mem.i8 == sf[0], "format");
  else { sx_check(o.t.el_params.sa.dim == oax, "axis"); if (own < 3) sx_check(o.t.el_params.sa.zero_point.mem.pi16 == a.t.el_params.sa.zero_point.mem.pi16 && o.t.el_params.sa.scale.mem.pi16 == a.t.el_params.sa.scale.mem.pi16 && o.t.el_params.sa.scale_frac_bits.mem.pi8 == a.t.el_params.sa.scale_frac_bits.mem.pi8, "shared parameters");
    for (int i = 0; i < n; i++) sx_check(o.t.el_params.sa.zero_point.mem.pi16[i] == zp[i] && o.t.el_params.sa.scale.mem.pi16[i] == sc[i] && o.t.el_params.sa.scale_frac_bits.mem.pi8[i] == sf[i], "parameters along the axis"); }
  guardCheck(o, g); sx_cover("done");
}
