// Lookup-table based kernels: tanh, sigmoid, softmax, L2 normalisation.
#include "tens.h"
#include "lutref.h"
enum Kind { SA8, FX16, FX8 };
#ifndef KIND
#define KIND SA8
#endif
#define E3(b) (KIND == SA8 ? b##_sa8 : KIND == FX16 ? b##_fx16 : b##_fx8)
static const bool sa = KIND == SA8; static const mli_element_type el = sa ? MLI_EL_SA_8 : KIND == FX16 ? MLI_EL_FX_16 : MLI_EL_FX_8; static const int W = KIND == FX16 ? 16 : 8;
static const Shape SH[6] = {S1(3), S2(2, 3), S3(2, 1, 3), S4(2, 2, 1, 2), S4(1, 2, 2, 2), S3(1, 2, 2)};
static int64_t clampTo(int64_t v, int64_t lo, int64_t hi) { v = v > hi ? hi : v; return v < lo ? lo : v; }
// table value at x (x has f fraction bits), 16-bit result with the table's output format
static int64_t lookup(const mli_lut& l, int64_t x, int f) {
  const int16_t* d = l.data.mem.pi16; int s = f - l.in_frac_bits;
  if (s <= 0) return d[clampTo((x << -s) + l.input_offset, 0, l.length - 1)];
  int pre = s > 15 ? s - 15 : 0; if (pre > 15) pre = 15; if (s > 15) s = 15; x >>= pre;
  int64_t i = clampTo((x >> s) + l.input_offset, 0, l.length - 2), fr = x & ((1 << s) - 1), a = d[i], b = d[i + 1];
  return (int16_t)(a - spec::sat(spec::rshift((int16_t)(a - b) * fr, s, 32), 16));   // (16 bits are enough for the built-in tables: l_acc_*)
}
static int64_t inFx(int64_t x, int64_t zp, int64_t sc, int sh, int f) { return spec::rshift((x - zp) * sc, sh - f, 32); }
// a user table with n arbitrary values
static mli_lut userLut(int n, int inf, int outf, int off) {
  mli_lut l; memset(&l, 0, sizeof l); l.type = MLI_EL_FX_16; l.length = n; l.in_frac_bits = inf; l.out_frac_bits = outf; l.input_offset = off;
  int16_t* d = (int16_t*)sx_alloc(2 * n, "table"); for (int i = 0; i < n; i++) d[i] = (int16_t)sx_sym("table", -16384, 16383); sx_readonly(d, 1); l.data.mem.pi16 = d; l.data.capacity = 2 * n; return l;
}
static void act(bool tanhFn, mli_lut& l, int si, int gap, int f, int64_t sc, int ssh, int sym = 1) {
  Tn a, o; Guard g; mk(a, el, SH[si], gap & 1 ? 2 : 0, "in"); mk(o, el, SH[si], gap & 2 ? 3 : 0, "out"); int64_t zp = 0;
  if (sa) { zp = si == 0 ? sx_sym("zp", -128, 127) : si * 41 - 120; setSa(a, zp, sc, ssh); } else setFx(a, f);
  int64_t n = numel(a.t); for (int64_t k = 0; k < n; k++) wrt(a.base, el, elOff(a.t, k), (k + si + gap) % n < sym ? sx_sym("x", elmin(el), elmax(el)) : spec::sat((k * 57 + gap * 11) % 200 - 100, 8) * (el == MLI_EL_FX_16 ? 241 : 1)); sx_readonly(a.base, 1); guardInit(o, g);
  mli_status st = tanhFn ? E3(mli_krn_tanh)(&a.t, &l, &o.t) : E3(mli_krn_sigm)(&a.t, &l, &o.t); sx_check(st == MLI_STATUS_OK, "status");
  int64_t zo = tanhFn ? 0 : -128; int so = tanhFn ? 7 : 8;
  for (int64_t k = 0; k < numel(o.t); k++) {
    int64_t x = rd(a.base, el, elOff(a.t, k)), v;
    if (sa) { int ff = 8 + l.in_frac_bits; v = lookup(l, inFx(x, zp, sc, ssh, ff), ff); v = spec::sat(spec::rshift(v, l.out_frac_bits - so, 32) + zo, 8); }
    else { v = lookup(l, x, f); v = spec::sat(spec::rshift(v, 16 - W, 16), W); }
    int64_t got = rd(o.base, el, elOff(o.t, k)); sx_obs(got); sx_check(got == v, "output value");
  }
  if (sa) sx_check(o.t.el_params.sa.zero_point.mem.i16 == zo && o.t.el_params.sa.scale.mem.i16 == 1 && o.t.el_params.sa.scale_frac_bits.mem.i8 == so && o.t.el_params.sa.dim == -1, "output format");
  else sx_check(o.t.el_params.fx.frac_bits == W - 1, "output format");
  guardCheck(o, g); sx_cover("done");
}
static const int FRC[5] = {12, 7, 4, 15, 2};
static const int64_t SCL[5][2] = {{21846, 19}, {16384, 16}, {30001, 20}, {1, 3}, {32767, 11}};
static mli_lut builtin(bool tanhFn) {
  mli_lut l; memset(&l, 0, sizeof l); int n = tanhFn ? mli_krn_tanh_get_lut_size() : mli_krn_sigm_get_lut_size(); l.data.mem.pi16 = (int16_t*)sx_alloc(n, "table"); l.data.capacity = n;
  sx_check((tanhFn ? mli_krn_tanh_create_lut(&l) : mli_krn_sigm_create_lut(&l)) == MLI_STATUS_OK, "table creation"); sx_check(l.length * 2 == n, "table size"); sx_readonly(l.data.mem.pi16, 1); return l;
}
extern "C" void l_tanh() { int p = (int)sx_pick("format", 0, 4), si = (int)sx_pick("shape", 0, 5); mli_lut l = builtin(true); act(true, l, si, (si + p) & 3, FRC[p], SCL[p][0], (int)SCL[p][1]); }
extern "C" void l_sigm() { int p = (int)sx_pick("format", 0, 4), si = (int)sx_pick("shape", 0, 5); mli_lut l = builtin(false); act(false, l, si, (si + p) & 3, FRC[p], SCL[p][0], (int)SCL[p][1]); }
// tables of arbitrary contents, length and format
extern "C" void l_table() { int p = (int)sx_pick("format", 0, 4), n = (int)sx_pick("length", 2, 6), inf = (int)sx_pick("table frac", 0, 2) * 3; mli_lut l = userLut(n, inf, 15, (n * 7 + p) % (n + 1)); act(p & 1, l, n % 2 ? 0 : 5, p & 3, FRC[p], SCL[p][0], (int)SCL[p][1]); }
// accuracy of the built-in tables: compared with the function itself between table nodes
static void accuracy(bool tanhFn, int f, int node) {
  mli_lut l = builtin(tanhFn); const int64_t* T = tanhFn ? TANH_T : SIGM_T; int lo = tanhFn ? TANH_LO : SIGM_LO, hi = tanhFn ? TANH_HI : SIGM_HI, den = tanhFn ? TANH_DEN : SIGM_DEN; int lg = tanhFn ? 5 : 4;
  int64_t x0, x1; int s = f - lg;   // the segment [node, node+1) of the reference grid, or everything beyond it
  if (s < 0) { sx_cover("done"); return; }
  x0 = (int64_t)node << s; x1 = ((int64_t)(node + 1) << s) - 1; if (node < lo) x0 = -32768; if (node >= hi) x1 = 32767; if (x0 < -32768) x0 = -32768; if (x1 > 32767) x1 = 32767;
  if (x0 > x1) { sx_cover("done"); return; }
  int64_t x = sx_sym("x", x0, x1); Tn a, o; mk(a, MLI_EL_FX_16, S1(1), 0, "in"); mk(o, MLI_EL_FX_16, S1(1), 0, "out"); setFx(a, f); wrt(a.base, MLI_EL_FX_16, 0, x);
  sx_check((tanhFn ? mli_krn_tanh_fx16(&a.t, &l, &o.t) : mli_krn_sigm_fx16(&a.t, &l, &o.t)) == MLI_STATUS_OK, "status"); (void)den;
  int64_t y = at(o, 0) * 32768, ref, tol = 8 * 32768; sx_obs(at(o, 0));
  if (node < lo) { sx_check(y >= (tanhFn ? -((int64_t)1 << 30) : 0) && y <= T[0] + tol, "lower end"); }
  else if (node >= hi) { sx_check(y <= ((int64_t)1 << 30) && y >= T[hi - lo] - tol, "upper end"); }
  else { int64_t a0 = T[node - lo], b0 = T[node - lo + 1]; ref = a0 + (((b0 - a0) * (x - ((int64_t)node << s))) >> s); int64_t d = y - ref; sx_check(d <= tol && d >= -tol, "within 8 units of the last place of the function"); }
  sx_cover("done");
}
extern "C" void l_acc_tanh() { int f = sx_tier() ? (int)sx_pick("frac", 5, 15) : 9 + 3 * (int)sx_pick("frac3", 0, 2); accuracy(true, f, (int)sx_pick("node", TANH_LO - 1, TANH_HI)); }
extern "C" void l_acc_sigm() { int f = sx_tier() ? (int)sx_pick("frac", 4, 15) : 8 + 3 * (int)sx_pick("frac3", 0, 2); accuracy(false, f, (int)sx_pick("node", SIGM_LO - 1, SIGM_HI)); }
// softmax and L2 normalisation along an axis
static mli_lut tab(int32_t (*sz)(), mli_status (*mkl)(mli_lut*)) { mli_lut l; memset(&l, 0, sizeof l); int n = sz(); l.data.mem.pi16 = (int16_t*)sx_alloc(n, "table"); l.data.capacity = n; sx_check(mkl(&l) == MLI_STATUS_OK, "table creation"); sx_check(l.length * 2 == n, "table size"); sx_readonly(l.data.mem.pi16, 1); return l; }
static const Shape SA[6] = {S1(3), S2(2, 2), S3(2, 1, 2), S4(1, 2, 1, 2), S2(1, 3), S3(2, 2, 1)};
template <class F> static void overAxis(const mli_tensor& t, int axis, F f) {   // f(list of element numbers, count) for every slice along the axis
  int64_t n = numel(t), len = axis < 0 ? n : t.shape[axis], inner = 1; if (axis >= 0) for (unsigned i = axis + 1; i < t.rank; i++) inner *= t.shape[i]; int64_t idx[8];
  for (int64_t b = 0; b < n / len; b++) { int64_t base = axis < 0 ? 0 : (b / inner) * inner * len + b % inner; for (int64_t j = 0; j < len; j++) idx[j] = base + j * (axis < 0 ? 1 : inner); f(idx, (int)len); }
}
static void norml(bool soft, int si, int axis, int gap, int p, int sym) {
  int64_t sw = soft || KIND == FX16 ? (elmax(el) + 1) / 32 : elmax(el) * 2 + 2; int seg = soft || KIND == FX16 ? (si == 0 && axis < 0 && !(soft && KIND == FX16)) || sx_tier() ? (int)sx_pick("segment", 0, 63) : (int)sx_pick("segment6", 0, 5) * 12 + gap : 0; int64_t x0 = elmin(el) + sw * seg, x1 = x0 + sw - 1;   // range of the symbolic elements on this path
  Shape s = SA[si]; Tn a, o; Guard g; mk(a, el, s, gap & 1 ? 2 : 0, "in"); mk(o, el, s, gap & 2 ? 3 : 0, "out"); int64_t zp = 0, sc = SCL[p][0]; int ssh = (int)SCL[p][1], f = FRC[p];
  if (sa) { static const int64_t Z[5] = {5, -128, 127, 0, -37}; zp = Z[p]; setSa(a, zp, sc, ssh); } else setFx(a, f);
  int64_t n = numel(a.t); auto symAt = [&](int64_t k) { return (k + p) % n < sym; };
  for (int64_t k = 0; k < n; k++) wrt(a.base, el, elOff(a.t, k), symAt(k) ? sx_sym("x", x0, x1) : spec::sat((k * 37 + p * 11) % 100 - 50, 8) * (el == MLI_EL_FX_16 ? 97 : 1)); sx_readonly(a.base, 1); guardInit(o, g);
  mli_lut l = soft ? tab(mli_krn_softmax_get_lut_size, mli_krn_softmax_create_lut) : tab(mli_krn_l2_normalize_get_lut_size, mli_krn_l2_normalize_create_lut);
  int64_t zo = soft ? -128 : 0; int so = sa ? (soft ? 8 : 7) : W - 1;
  auto sum = [&](int64_t* ix, int cnt, int64_t* e) {
    int64_t x[8], m = 0, S = 0; for (int j = 0; j < cnt; j++) { x[j] = rd(a.base, el, elOff(a.t, ix[j])); if (j == 0 || x[j] > m) m = x[j]; }
    for (int j = 0; j < cnt; j++) { if (soft) { e[j] = sa ? lookup(l, inFx(x[j], m, sc, ssh, 8 + l.in_frac_bits), 8 + l.in_frac_bits) : lookup(l, x[j] - m, f); S += e[j]; } else { e[j] = x[j] - zp; S += e[j] * e[j]; } }
    return S; };
  // one path per magnitude of the sum of each slice that contains a symbolic element
  overAxis(o.t, axis, [&](int64_t* ix, int cnt) { int64_t e[8]; bool sy = false; for (int j = 0; j < cnt; j++) if (symAt(ix[j])) sy = true; if (sy) { int64_t S = sum(ix, cnt, e); int c = (int)sx_pick("magnitude", soft ? 15 : 0, soft ? 17 : 2 * W + 2); sx_assume(c ? S >= ((int64_t)1 << (c - 1)) && S < ((int64_t)1 << c) : S == 0); } });
  if (soft) { mli_softmax_cfg c; memset(&c, 0, sizeof c); c.axis = axis; sx_check((sa ? mli_krn_softmax_sa8 : mli_krn_softmax_fx16)(&a.t, &l, &c, &o.t) == MLI_STATUS_OK, "status"); }
  else { mli_l2_normalize_cfg c; memset(&c, 0, sizeof c); c.axis = axis; sx_check((sa ? mli_krn_l2_normalize_sa8 : mli_krn_l2_normalize_fx16)(&a.t, &a.t, &l, &c, &o.t) == MLI_STATUS_OK, "status"); }
  overAxis(o.t, axis, [&](int64_t* ix, int cnt) {
    int64_t e[8], k = 0, S = sum(ix, cnt, e); int sh = 0;
    if (soft) {
      int nn = spec::norm(S, 32); int64_t mn = spec::sat(spec::rshift(S, 16 - nn, 32), 16); k = ((int64_t)1 << 29) / mn; if (k > 32767) k = 32767; sh = 2 * l.out_frac_bits + 15 - nn - so; if (sh > 31) sh = 31;
    } else { int ns = 48 - spec::norm(S, 64); if (ns & 1) ns++; k = lookup(l, spec::sat(spec::rshift(S, ns, 64), 16), 8); sh = l.out_frac_bits + ((ns + 8) >> 1) - so; }
    for (int j = 0; j < cnt; j++) {
      int64_t v = spec::rshift(k * e[j], sh, 32); v = sa && soft ? spec::sat(v + zo, 8) : spec::sat(v, W);
      int64_t got = rd(o.base, el, elOff(o.t, ix[j])); sx_obs(got); sx_check(got == v, "output value");
    }
  });
  if (sa) sx_check(o.t.el_params.sa.zero_point.mem.i16 == zo && o.t.el_params.sa.scale.mem.i16 == 1 && o.t.el_params.sa.scale_frac_bits.mem.i8 == so && o.t.el_params.sa.dim == -1, "output format");
  else sx_check(o.t.el_params.fx.frac_bits == so, "output format");
  guardCheck(o, g); sx_cover("done");
}
extern "C" void l_softmax() { int si = (int)sx_pick("shape", KIND == FX16 && !sx_tier(), 5), ax = (int)sx_pick("axis", -1, SA[si].rank - 1), p = sx_tier() ? (int)sx_pick("format", 0, 4) : (si + ax + 1) % 5; norml(true, si, ax, (si + ax + 1) & 3, p, sx_tier() ? 2 : 1); }
extern "C" void l_l2() { int si = (int)sx_pick("shape", 0, 5), ax = (int)sx_pick("axis", -1, SA[si].rank - 1), p = sx_tier() ? (int)sx_pick("format", 0, 4) : (si + ax + 1) % 5; norml(false, si, ax, (si + ax + 1) & 3, p, sx_tier() ? 2 : 1); }
