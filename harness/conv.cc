// MLI 2.0 convolution family: general, depthwise, group and transposed, every data type and fixed-kernel variant.
#include "tens.h"
typedef mli_status (*Kfn)(const mli_tensor*, const mli_tensor*, const mli_tensor*, const mli_conv2d_cfg*, mli_tensor*);
enum Kind { SA8, FX16, FX168 };
enum Mode { GEN, DW, GRP, TR };
struct CP { Kind kind; Mode mode; Kfn f; int kh, kw, H, W, ic, oc, g; int sh, sw, dh, dw, pt, pl, pb, pr; int gap, relu, wdim, fr, bsym; };
static const int FR[4][4] = {{7, 7, 10, 7}, {10, 4, 7, 2}, {0, 3, 12, 9}, {15, 7, 7, 0}};  // in, w, bias, out fraction bits
static void run(const CP& p) {
  int ekh = (p.kh - 1) * p.dh + 1, ekw = (p.kw - 1) * p.dw + 1; int oh, ow;
  if (p.mode == TR) { oh = (p.H - 1) * p.sh + p.kh - p.pt - p.pb; ow = (p.W - 1) * p.sw + p.kw - p.pl - p.pr; }
  else { sx_assume(p.H + p.pt + p.pb >= ekh && p.W + p.pl + p.pr >= ekw); oh = (p.H + p.pt + p.pb - ekh) / p.sh + 1; ow = (p.W + p.pl + p.pr - ekw) / p.sw + 1; }
  sx_assume(oh > 0 && ow > 0);
  mli_conv2d_cfg cfg; memset(&cfg, 0, sizeof cfg);
  cfg.padding_top = p.pt; cfg.padding_bottom = p.pb; cfg.padding_left = p.pl; cfg.padding_right = p.pr; cfg.stride_height = p.sh; cfg.stride_width = p.sw; cfg.dilation_height = p.dh; cfg.dilation_width = p.dw;
  cfg.relu.type = p.relu == 0 ? MLI_RELU_NONE : p.relu == 1 ? MLI_RELU_GEN : p.relu == 2 ? MLI_RELU_6 : MLI_RELU_1;
  int wic = p.mode == DW ? 1 : p.mode == GRP ? p.ic / p.g : p.ic; int og = p.mode == GRP ? p.oc / p.g : p.oc;
  Tn in, w, b, o; Guard g; bool sa = p.kind == SA8; mli_element_type io = sa ? MLI_EL_SA_8 : MLI_EL_FX_16, we = sa ? MLI_EL_SA_8 : p.kind == FX16 ? MLI_EL_FX_16 : MLI_EL_FX_8, be = sa ? MLI_EL_SA_32 : we;
  mk(in, io, S3(p.H, p.W, p.ic), p.gap, "input"); mk(w, we, S4(p.kh, p.kw, wic, p.oc), p.gap, "weights"); mk(b, be, S1(p.oc), 0, "bias"); mk(o, io, S3(oh, ow, p.oc), p.gap, "output");
  int64_t zpi = 0, zpo = 0, sout = 1, shout = 0; int64_t sw[4] = {19000, 31001, 16385, 25000}, fw[4] = {17, 18, 16, 19};
  if (sa) {
    zpi = sx_sym("zp_in", -128, 127); zpo = sx_sym("zp_out", -128, 127); sout = 17001; shout = p.relu ? 15 : 12;
    setSa(in, zpi, 21846, 15); setSa(o, zpo, sout, shout);
    int64_t zz[4] = {0, 0, 0, 0}, sb[4] = {1, 1, 1, 1}, fb[4] = {0, 0, 0, 0};
    if (p.wdim >= 0) { setSaAxis(w, 3, p.oc, zz, sw, fw); setSaAxis(b, 0, p.oc, zz, sb, fb); } else { setSa(w, 0, sw[0], fw[0]); setSa(b, 0, 1, 0); }
  } else { setFx(in, FR[p.fr][0]); setFx(w, FR[p.fr][1]); setFx(b, FR[p.fr][2]); setFx(o, FR[p.fr][3]); shout = FR[p.fr][3]; }
  fillSym(in, "in"); fillSym(w, "w"); if (sa) fillRange(b, "b", -(1 << 15), (1 << 15) - 1); else fillSym(b, "b"); guardInit(o, g);
  mli_status st = p.f(&in.t, &w.t, &b.t, &cfg, &o.t);
  sx_check(st == MLI_STATUS_OK, "status");
  int64_t lo, hi; reluLim(cfg.relu.type, sa, sa ? 8 : 16, zpo, sout, shout, lo, hi);
  Rq r; if (sa) r = rqInOut(21846, 15, sout, shout);
  int AW = p.kind == FX16 ? 64 : 32; int bs = FR[p.fr][0] + FR[p.fr][1] - FR[p.fr][2], os = FR[p.fr][0] + FR[p.fr][1] - FR[p.fr][3];
  for (int y = 0; y < oh; y++) for (int x = 0; x < ow; x++) for (int c = 0; c < p.oc; c++) {
    int64_t acc = 0; int c0 = p.mode == DW ? c : p.mode == GRP ? (c / og) * wic : 0;
    for (int i = 0; i < p.kh; i++) for (int j = 0; j < p.kw; j++) {
      int yy, xx;
      if (p.mode == TR) { int a = y + p.pt - i, bb = x + p.pl - j; if (a < 0 || bb < 0 || a % p.sh || bb % p.sw) continue; yy = a / p.sh; xx = bb / p.sw; }
      else { yy = y * p.sh - p.pt + i * p.dh; xx = x * p.sw - p.pl + j * p.dw; }
      if (yy < 0 || yy >= p.H || xx < 0 || xx >= p.W) continue;
      for (int k = 0; k < wic; k++) acc += (at(in, yy, xx, c0 + k) - zpi) * at(w, i, j, k, c);
    }
    int64_t v; int q = p.wdim >= 0 ? c : 0;
    if (sa) v = requantSa8(acc + biasSa32(at(b, c)), r, sw[q], fw[q], zpo);
    else v = spec::sat(spec::rshift(spec::sadd(acc, spec::rshift(at(b, c), -bs, AW), AW), os, AW), 16);
    if (p.relu) { v = v > hi ? hi : v; v = v < lo ? lo : v; }
    sx_obs(at(o, y, x, c)); sx_check(at(o, y, x, c) == v, "output value");
  }
  guardCheck(o, g); sx_cover("done");
}
static CP base(Kind k, Mode m, Kfn f) { CP p; memset(&p, 0, sizeof p); p.kind = k; p.mode = m; p.f = f; p.sh = p.sw = p.dh = p.dw = 1; p.wdim = 3; p.ic = p.oc = 2; p.g = 1; p.H = p.W = 3; return p; }
#define SEL(k, a, b, c) ((k) == SA8 ? (Kfn)a : (k) == FX16 ? (Kfn)b : (Kfn)c)
#ifndef KIND
#define KIND SA8
#endif
#define FN(base) SEL(KIND, base##_sa8_sa8_sa32, base##_fx16, base##_fx16_fx8_fx8)
#define FNK(base, k) SEL(KIND, base##_sa8_sa8_sa32_##k, base##_fx16_##k, base##_fx16_fx8_fx8_##k)
// geometry: kernel, stride, dilation, padding, memory strides
static void geom(CP& p, int maxkh, int maxkw, bool dil) {
  int T = (int)sx_tier();
  p.kh = (int)sx_pick("kh", 1, maxkh); p.kw = (int)sx_pick("kw", 1, maxkw); p.sh = (int)sx_pick("stride_h", 1, 2); p.sw = T ? (int)sx_pick("stride_w", 1, 2) : 3 - p.sh;
  if (dil) { p.dh = (int)sx_pick("dil_h", 1, 2); p.dw = T ? (int)sx_pick("dil_w", 1, 2) : 1 + ((p.sh + p.dh) & 1); }
  int pd = (int)sx_pick("pads", 0, 3); int ekh = (p.kh - 1) * p.dh + 1, ekw = (p.kw - 1) * p.dw + 1;   // padding is smaller than the kernel
  p.pt = pd & 1 && ekh > 1; p.pb = pd == 3 && ekh > 1; p.pl = pd & 2 && ekw > 1; p.pr = pd == 1 && ekw > 1; if (pd == 3 && ekh > 2) p.pt = 2;
  p.gap = T ? (int)sx_pick("gap", 0, 1) : (p.kh + p.kw + p.sh + pd / 2 + p.dh) & 1;
}
extern "C" void conv_gen() { CP p = base(KIND, GEN, FN(mli_krn_conv2d_hwcn)); geom(p, 3, 2, true); p.W = 4; p.fr = (p.kh + p.gap + p.sh) & 3; p.wdim = (p.kw + p.dh) & 1 ? 3 : -1; run(p); }
extern "C" void conv_k1() { CP p = base(KIND, GEN, FNK(mli_krn_conv2d_hwcn, k1x1)); p.kh = p.kw = 1; p.sh = (int)sx_pick("stride_h", 1, 2); p.sw = (int)sx_pick("stride_w", 1, 2); p.gap = (int)sx_pick("gap", 0, 1); p.ic = (int)sx_pick("ic", 1, 3); p.H = 2; p.W = 3; p.fr = p.gap + 2 * (p.sh - 1); p.wdim = p.sw & 1 ? 3 : -1; run(p); }
static void fixedk(CP& p, int k) { p.kh = p.kw = k; p.sh = (int)sx_pick("stride_h", 1, 2); p.sw = 3 - p.sh; int pd = (int)sx_pick("pads", 0, 3); p.pt = pd & 1; p.pb = (pd >> 1) * (k / 2); p.pl = pd >> 1; p.pr = pd & 1; p.H = k; p.W = k + 1; p.gap = sx_tier() ? (int)sx_pick("gap", 0, 1) : (p.sh + pd / 2) & 1; p.fr = pd; p.wdim = pd & 1 ? 3 : -1; }
extern "C" void conv_k3() { CP p = base(KIND, GEN, FNK(mli_krn_conv2d_hwcn, k3x3)); fixedk(p, 3); run(p); }
extern "C" void conv_k5() { CP p = base(KIND, GEN, FNK(mli_krn_conv2d_hwcn, k5x5)); fixedk(p, 5); p.ic = 1; run(p); }
extern "C" void conv_relu() { CP p = base(KIND, GEN, FN(mli_krn_conv2d_hwcn)); p.kh = 1; p.kw = 2; p.H = 1; p.W = 2; p.relu = (int)sx_pick("relu", 0, 3); p.fr = (int)sx_pick("frac", 0, 3); run(p); }
extern "C" void dw_gen() { CP p = base(KIND, DW, FN(mli_krn_depthwise_conv2d_hwcn)); geom(p, 3, 2, true); p.W = 4; p.fr = (p.kh + p.gap + p.sh) & 3; p.wdim = (p.kw + p.dh) & 1 ? 3 : -1; run(p); }
extern "C" void dw_k3() { CP p = base(KIND, DW, FNK(mli_krn_depthwise_conv2d_hwcn, k3x3)); fixedk(p, 3); run(p); }
extern "C" void dw_k5() { CP p = base(KIND, DW, FNK(mli_krn_depthwise_conv2d_hwcn, k5x5)); fixedk(p, 5); run(p); }
extern "C" void dw_relu() { CP p = base(KIND, DW, FN(mli_krn_depthwise_conv2d_hwcn)); p.kh = 1; p.kw = 2; p.H = 1; p.W = 2; p.relu = (int)sx_pick("relu", 0, 3); p.fr = (int)sx_pick("frac", 0, 3); run(p); }
extern "C" void grp_gen() { CP p = base(KIND, GRP, FN(mli_krn_group_conv2d_hwcn)); p.g = (int)sx_pick("groups", 1, 2); geom(p, 2, 2, true); p.W = 3; p.ic = 2 * p.g; p.oc = p.g == 1 ? 2 : 4; p.fr = (p.kh + p.gap + p.sh) & 3; p.wdim = (p.kw + p.dh) & 1 ? 3 : -1; run(p); }
extern "C" void grp_k3() { CP p = base(KIND, GRP, FNK(mli_krn_group_conv2d_hwcn, k3x3)); p.g = 2; p.ic = 2; p.oc = 4; fixedk(p, 3); run(p); }
extern "C" void grp_k5() { CP p = base(KIND, GRP, FNK(mli_krn_group_conv2d_hwcn, k5x5)); p.g = 2; fixedk(p, 5); run(p); }
extern "C" void grp_relu() { CP p = base(KIND, GRP, FN(mli_krn_group_conv2d_hwcn)); p.g = 2; p.kh = 1; p.kw = 1; p.H = 1; p.W = 2; p.relu = (int)sx_pick("relu", 0, 3); p.fr = (int)sx_pick("frac", 0, 3); run(p); }
static void trans(CP& p) { int pd = (int)sx_pick("pads", 0, 3); p.pt = pd & 1 && p.kh > 1; p.pb = pd >> 1 && p.kh > 1; p.pl = pd >> 1 && p.kw > 1; p.pr = pd & 1 && p.kw > 1; if (pd == 3 && p.kh > 3) p.pt = 2; p.gap = sx_tier() ? (int)sx_pick("gap", 0, 1) : (p.kh + p.kw / 2 + p.sh + pd / 2) & 1; p.H = 2; p.W = 3; p.fr = pd; p.wdim = pd & 1 ? 3 : -1; }
extern "C" void tr_gen() { CP p = base(KIND, TR, FN(mli_krn_transpose_conv2d_hwcn)); p.kh = (int)sx_pick("kh", 1, 3); p.kw = (int)sx_pick("kw", 2, 4); p.sh = (int)sx_pick("stride_h", 1, 3); p.sw = (int)sx_pick("stride_w", 1, 2); sx_assume(p.kh >= p.sh && p.kw >= p.sw); trans(p); run(p); }
extern "C" void tr_k2() { CP p = base(KIND, TR, FNK(mli_krn_transpose_conv2d_hwcn, k2x2_str2)); p.kh = p.kw = 2; p.sh = p.sw = 2; trans(p); run(p); }
extern "C" void tr_k4() { CP p = base(KIND, TR, FNK(mli_krn_transpose_conv2d_hwcn, k4x4_str2)); p.kh = p.kw = 4; p.sh = p.sw = 2; trans(p); run(p); }
extern "C" void tr_relu() { CP p = base(KIND, TR, FN(mli_krn_transpose_conv2d_hwcn)); p.kh = 1; p.kw = 2; p.sw = 2; p.H = 1; p.W = 1; p.relu = (int)sx_pick("relu", 0, 3); p.fr = (int)sx_pick("frac", 0, 3); run(p); }
