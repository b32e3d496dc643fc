// MLI 2.0 fully connected.
#include "tens.h"
typedef mli_status (*Ffn)(const mli_tensor*, const mli_tensor*, const mli_tensor*, const mli_fully_connected_cfg*, mli_tensor*);
enum Kind { SA8, SA8X, FX16, FX168, FX8 };
#ifndef KIND
#define KIND SA8
#endif
struct FP { int rank, in, out, gap, relu, wdim, fr, big; };
static const int FR[4][4] = {{7, 7, 10, 7}, {10, 4, 7, 2}, {0, 13, 12, 9}, {15, 7, 7, 0}};
static void run(const FP& p) {
  const bool sa = KIND == SA8 || KIND == SA8X;
  Ffn f = KIND == SA8 ? mli_krn_fully_connected_sa8_sa8_sa32 : KIND == SA8X ? mli_krn_fully_connected_sa8_sa8_sa32_ext_bias : KIND == FX16 ? mli_krn_fully_connected_fx16 : KIND == FX168 ? mli_krn_fully_connected_fx16_fx8_fx8 : mli_krn_fully_connected_fx8;
  mli_element_type io = sa ? MLI_EL_SA_8 : KIND == FX8 ? MLI_EL_FX_8 : MLI_EL_FX_16, we = sa ? MLI_EL_SA_8 : KIND == FX16 ? MLI_EL_FX_16 : MLI_EL_FX_8, be = sa ? MLI_EL_SA_32 : we; int Wd = io == MLI_EL_FX_16 ? 16 : 8;
  Tn in, w, b, o; Guard g; int n = p.in;
  if (p.rank == 1) mk(in, io, S1(n), 0, "input"); else if (p.rank == 2) { mk(in, io, S2(2, n), 0, "input"); n *= 2; } else { mk(in, io, S3(1, 2, n), 0, "input"); n *= 2; }
  mk(w, we, S2(n, p.out), p.gap, "weights"); mk(b, be, S1(p.out), 0, "bias"); mk(o, io, S1(p.out), 0, "output");
  int64_t zpi = 0, zpo = 0, sout = 1, shout = 0, sw[4] = {19000, 31001, 16385, 25000}, fw[4] = {17, 18, 16, 19};
  if (sa) {
    zpi = p.big ? 3 - 20 * p.big : sx_sym("zp_in", -128, 127); zpo = sx_sym("zp_out", -128, 127); sout = 17001; shout = p.relu ? 15 : 12; setSa(in, zpi, 21846, 15); setSa(o, zpo, sout, shout);
    int64_t zz[4] = {0, 0, 0, 0}, sb[4] = {1, 1, 1, 1}, fb[4] = {0, 0, 0, 0};
    if (p.wdim >= 0) { setSaAxis(w, 1, p.out, zz, sw, fw); setSaAxis(b, 0, p.out, zz, sb, fb); } else { setSa(w, 0, sw[0], fw[0]); setSa(b, 0, 1, 0); }
  } else { setFx(in, FR[p.fr][0]); setFx(w, FR[p.fr][1]); setFx(b, FR[p.fr][2]); setFx(o, FR[p.fr][3]); shout = FR[p.fr][3]; }
  mli_fully_connected_cfg cfg; memset(&cfg, 0, sizeof cfg); cfg.relu.type = p.relu == 0 ? MLI_RELU_NONE : p.relu == 1 ? MLI_RELU_GEN : p.relu == 2 ? MLI_RELU_6 : MLI_RELU_1;
  if (p.big) {   // large biases: everything else concrete
    for (int i = 0; i < n; i++) { wrt(in.base, io, i, (i * 37 + 11 * p.big) % 120 - 60); for (int c = 0; c < p.out; c++) wrt(w.base, we, i * w.t.mem_stride[0] + c, (i * 53 + c * 29 + p.big * 7) % 250 - 125); }
    fillSym(b, "b");
  } else { fillSym(in, "in"); fillSym(w, "w"); if (sa) fillRange(b, "b", -(1 << 15), (1 << 15) - 1); else fillSym(b, "b"); } guardInit(o, g);
  mli_tensor before = in.t; mli_status st = f(&in.t, &w.t, &b.t, &cfg, &o.t); sx_check(st == MLI_STATUS_OK, "status");
  sx_check(before.rank == in.t.rank && before.shape[0] == in.t.shape[0] && before.data.mem.pi8 == in.t.data.mem.pi8, "the input tensor is left as it was");
  int64_t lo, hi; reluLim(cfg.relu.type, sa, Wd, zpo, sout, shout, lo, hi);
  Rq r; if (sa) r = rqInOut(21846, 15, sout, shout);
  int AW = KIND == FX16 ? 64 : 32, bs = FR[p.fr][0] + FR[p.fr][1] - FR[p.fr][2], os = FR[p.fr][0] + FR[p.fr][1] - FR[p.fr][3];
  for (int c = 0; c < p.out; c++) {
    int64_t acc = 0; int q = p.wdim >= 0 ? c : 0;
    for (int i = 0; i < n; i++) acc += (rd(in.base, io, i) - (KIND == SA8X ? 0 : zpi)) * at(w, i, c);
    int64_t v = sa ? requantSa8(acc + biasSa32(at(b, c)), r, sw[q], fw[q], zpo) : spec::sat(spec::rshift(spec::sadd(acc, spec::rshift(at(b, c), -bs, AW), AW), os, AW), Wd);
    if (p.relu) { v = v > hi ? hi : v; v = v < lo ? lo : v; }
    sx_obs(at(o, c)); sx_check(at(o, c) == v, "output value");
  }
  sx_check(o.t.rank == 1 && (int)o.t.shape[0] == p.out, "output shape"); guardCheck(o, g); sx_cover("done");
}
extern "C" void fc_gen() { FP p; memset(&p, 0, sizeof p); p.rank = (int)sx_pick("rank", 1, 3); p.in = (int)sx_pick("in", 1, sx_tier() ? 9 : 5); p.out = (int)sx_pick("out", 1, 3); p.gap = (p.in + p.out + p.rank) & 1 ? 2 : 0; p.fr = (p.in + p.rank) & 3; p.wdim = (p.in + p.out) & 1 ? 1 : -1; run(p); }
extern "C" void fc_relu() { FP p; memset(&p, 0, sizeof p); p.rank = 1; p.in = 2; p.out = 2; p.relu = (int)sx_pick("relu", 0, 3); p.fr = (int)sx_pick("frac", 0, 3); p.wdim = p.fr & 1 ? 1 : -1; run(p); }
extern "C" void fc_bias() { FP p; memset(&p, 0, sizeof p); p.rank = 1; p.in = 2; p.out = 1; p.big = (int)sx_pick("set", 1, sx_tier() ? 6 : 2); p.fr = p.big & 3; p.wdim = p.big & 1 ? 1 : -1; run(p); }
