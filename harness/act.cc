// MLI 2.0 ReLU, leaky ReLU and parametric ReLU.
#include "tens.h"
enum Kind { SA8, FX16, FX8 };
#ifndef KIND
#define KIND SA8
#endif
#define E3(b) (KIND == SA8 ? b##_sa8 : KIND == FX16 ? b##_fx16 : b##_fx8)
static const bool sa = KIND == SA8; static const mli_element_type el = sa ? MLI_EL_SA_8 : KIND == FX16 ? MLI_EL_FX_16 : MLI_EL_FX_8; static const int W = KIND == FX16 ? 16 : 8;
static const Shape SH[7] = {S1(3), S2(2, 3), S3(2, 1, 3), S4(2, 2, 1, 2), S4(1, 2, 2, 2), S3(3, 2, 1), S1(1)};
static const int64_t SC[6][4] = {{21846, 15, 17001, 14}, {16384, 14, 16384, 14}, {30001, 25, 19000, 8}, {20001, 2, 16390, 17}, {1, 0, 32767, 14}, {32767, 7, 1, 0}};
extern "C" void a_relu() {
  int ty = (int)sx_pick("type", 0, 3), q = (int)sx_pick("params", 0, 5), si = (int)sx_pick("shape", 0, 5), gap = (si + q) & 3;
  static const mli_relu_type T[4] = {MLI_RELU_NONE, MLI_RELU_GEN, MLI_RELU_6, MLI_RELU_1}; static const int fr[6] = {7, 0, 3, -2, 12, 4};
  Tn a, o; Guard g; mk(a, el, SH[si], gap & 1 ? 2 : 0, "in"); mk(o, el, SH[si], gap & 2 ? 3 : 0, "out");
  int64_t z = 0, sc = SC[q][0], sh = SC[q][1]; if (sa) { z = sx_sym("zp", -128, 127); setSa(a, z, sc, sh); } else { sh = fr[q]; setFx(a, (int)sh); }
  fillSym(a, "x"); guardInit(o, g);
  mli_relu_cfg cfg; memset(&cfg, 0, sizeof cfg); cfg.type = T[ty];
  sx_check(E3(mli_krn_relu)(&a.t, &cfg, &o.t) == MLI_STATUS_OK, "status");
  int64_t lo, hi; reluLim(cfg.type, sa, W, z, sc, sh, lo, hi);
  for (int64_t k = 0; k < numel(o.t); k++) {
    int64_t v = rd(a.base, el, elOff(a.t, k)), got = rd(o.base, el, elOff(o.t, k)); v = v < lo ? lo : v; v = v > hi ? hi : v;
    sx_obs(got); sx_check(got == v, "output value");
  }
  if (sa) sx_check(o.t.el_params.sa.zero_point.mem.i16 == z && o.t.el_params.sa.scale.mem.i16 == sc && o.t.el_params.sa.scale_frac_bits.mem.i8 == sh, "output keeps the input's format");
  else sx_check(o.t.el_params.fx.frac_bits == sh, "output keeps the input's format");
  guardCheck(o, g); sx_cover("done");
}
// x >= 0: identity (rescaled), x < 0: slope * x
struct Neg { int64_t sc; int sh; };
struct Idn { int64_t sc; int sh; };
static Idn identity(int q) {
  Idn r; int64_t si = SC[q][0], so = SC[q][2]; int pre = spec::norm(si, 32) - spec::norm(so, 16); int64_t v = (si << pre) / so; int ns = 16 - spec::norm(v, 32);
  r.sc = spec::sat(spec::rshift(v, ns, 32), 16); r.sh = (int)(pre + SC[q][1] - SC[q][3] - ns);
  if (r.sh < 0) { r.sc = spec::shl_sat(r.sc, -r.sh, 16); r.sh = 0; } return r;
}
static Neg slopeSa(Idn id, int64_t al, int64_t zpa, int64_t sca, int sha) {
  Neg r; int64_t v = (al - zpa) * sca; int n = spec::norm(v, 32); r.sh = id.sh + sha - (16 - n);
  v = spec::sat(spec::rshift(v, 16 - n, 32), 16); v *= id.sc; n = spec::norm(v, 32); r.sh -= 16 - n; r.sc = spec::sat(spec::rshift(v, 16 - n, 32), 16); return r;
}
static int64_t oneSa(int64_t x, int64_t z, Idn id, Neg ng, int64_t zo) {
  int64_t v; if (x >= z) v = spec::rshift((x - z) * id.sc, id.sh, 32); else v = spec::rshift((x - z) * ng.sc, ng.sh, 32);
  return spec::sat(spec::sadd(v, zo, 32), 8);
}
static int64_t oneFx(int64_t x, int64_t s, int fs) { int64_t p = x > 0 ? x : 0, n = x < 0 ? x : 0; if (fs > 31) fs = 31; return spec::sat(p + spec::sat(spec::rshift(n * s, fs, 32), W), W); }
static const int64_t SLS[4][3] = {{16384, 15, 0}, {21000, 20, -128}, {32767, 13, 127}, {9001, 14, 13}};
static void leaky(int si, int gap, int q, int axis, int64_t slo = 1, int64_t shi = 0) {     // axis -2: leaky relu, otherwise prelu
  Tn a, s, o; Guard g; Shape sh = SH[si]; mk(a, el, sh, gap & 1 ? 2 : 0, "in"); mk(o, el, sh, gap & 2 ? 3 : 0, "out");
  Shape ss = {0, {0, 0, 0, 0}}; bool imm = axis < 0 && (gap & 1);
  if (axis < 0) { ss = imm ? ss : S1(1); } else { ss = sh; for (int i = 0; i < sh.rank; i++) if (i != axis) ss.d[i] = 1; }
  mk(s, el, ss, 0, "slope"); int64_t z = 0, zo = 0; const int64_t* sl = SLS[q & 3]; int fs = q * 3;
  if (sa) { z = sx_sym("zp", -128, 127); zo = sx_sym("zpo", -128, 127); setSa(a, z, SC[q][0], SC[q][1]); setSa(o, zo, SC[q][2], SC[q][3]); setSa(s, sl[2], sl[0], sl[1]); }
  else { setFx(a, 7 - q); setFx(o, 7 - q); setFx(s, fs); }
  int n = (int)numel(s.t); int64_t al[5]; static const int64_t cal[5] = {-128, 77, 0, 127, -3};
  for (int i = 0; i < n; i++) { al[i] = KIND == FX8 ? sx_sym("slope", -128, 127) : slo <= shi ? sx_sym("slope", slo, shi) : cal[(i + q + gap) % 5] * (sa || i == q ? 1 : 255); wrt(s.base, el, i, al[i]); } sx_readonly(s.base, 1);
  if (s.t.rank == 0) { s.t.data.mem.pi8 = 0; if (el == MLI_EL_FX_16) s.t.data.mem.i16 = (int16_t)al[0]; else s.t.data.mem.i8 = (int8_t)al[0]; }
  fillSym(a, "x"); guardInit(o, g);
  if (axis == -2) sx_check(E3(mli_krn_leaky_relu)(&a.t, &s.t, &o.t) == MLI_STATUS_OK, "status");
  else { mli_prelu_cfg c; memset(&c, 0, sizeof c); c.axis = axis; sx_check(E3(mli_krn_prelu)(&a.t, &s.t, &c, &o.t) == MLI_STATUS_OK, "status"); }
  Idn id = identity(q); Neg ng[5]; if (sa) for (int i = 0; i < n; i++) ng[i] = slopeSa(id, al[i], sl[2], sl[0], (int)sl[1]);
  for (int64_t k = 0; k < numel(o.t); k++) {
    int c = 0; if (axis >= 0) { int64_t r = k; for (int i = sh.rank - 1; i >= 0; i--) { if (i == axis) c = (int)(r % sh.d[i]); r /= sh.d[i]; } }
    int64_t x = rd(a.base, el, elOff(a.t, k)), got = rd(o.base, el, elOff(o.t, k)), v = sa ? oneSa(x, z, id, ng[c], zo) : oneFx(x, al[c], fs);
    sx_obs(got); sx_check(got == v, "output value");
  }
  guardCheck(o, g); sx_cover("done");
}
extern "C" void a_leaky() { int si = (int)sx_pick("shape", 0, 5), q = sx_tier() || si == 0 ? (int)sx_pick("params", 0, 5) : si; leaky(si, sx_tier() ? (int)sx_pick("gap", 0, 3) : (si + q) & 3, q, -2); }
extern "C" void a_prelu() { int si = (int)sx_pick("shape", 0, 5); int ax = (int)sx_pick("axis", -1, SH[si].rank - 1); int q = sx_tier() ? (int)sx_pick("params", 0, 5) : (si + ax + 1) % 6; leaky(si, sx_tier() ? (int)sx_pick("gap", 0, 3) : (si + q) & 3, q, ax); }
// any slope: one path per number of leading sign bits
extern "C" void a_slope() {
  int q = (int)sx_pick("params", 0, 5), n = (int)sx_pick("class", -W, W); int64_t lo, hi;
  if (sa) { lo = n * 16 + (sx_tier() ? sx_pick("slope", 0, 15) : (q * 5 + n) & 15); hi = lo; if (lo < -128 || hi > 127) { sx_cover("done"); return; } }
  else { int64_t b = (int64_t)1 << (n < 0 ? -n - 1 : n); lo = n < 0 ? -b : n == 0 ? 0 : b / 2; hi = n < 0 ? -b / 2 - 1 : n == 0 ? 0 : b - 1; if (n == W) { sx_cover("done"); return; } if (n < 0 && b == 1) hi = -1; }
  leaky(6, 0, q, -2, lo, hi);
}
