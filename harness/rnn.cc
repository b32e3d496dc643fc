// Recurrent kernels: rnn_dense against its definition; LSTM and GRU cells against the composition of basic kernels over the whole sequence.
#include "tens.h"
enum Kind { SA8, FX16, FX168 };
#ifndef KIND
#define KIND SA8
#endif
#define E3(b) (KIND == SA8 ? b##_sa8_sa8_sa32 : KIND == FX16 ? b##_fx16 : b##_fx16_fx8_fx8)
#define A3(b) (KIND == SA8 ? b##_sa8 : b##_fx16)
static const bool sa = KIND == SA8; static const mli_element_type io = sa ? MLI_EL_SA_8 : MLI_EL_FX_16, we = sa ? MLI_EL_SA_8 : KIND == FX16 ? MLI_EL_FX_16 : MLI_EL_FX_8, be = sa ? MLI_EL_SA_32 : we; static const int W = sa ? 8 : 16;
static const int64_t SI[3][2] = {{21846, 15}, {30001, 18}, {16999, 14}}, SWT[4][2] = {{19000, 17}, {31001, 18}, {16385, 16}, {25000, 19}};
static void setIo(Tn& x, int k, int64_t zp, int frac) { if (sa) setSa(x, zp, SI[k % 3][0], SI[k % 3][1]); else setFx(x, frac); }
struct Mul { int64_t m; int s; };
static Mul outMul(Rq r, int64_t sw, int64_t fw) { Mul x; x.m = (int64_t)r.ratio * sw; x.s = r.ratio_sh + (int)fw;
#ifndef FULL_ACCU
  int n = spec::norm(x.m, 32); x.m <<= n; x.s += n;
#endif
  if (x.s > 63) x.s = 63; return x; }
extern "C" void r_dense() {
  int num = (int)sx_pick("inputs", 1, 2), n = (int)sx_pick("elements", 1, 3), out = (int)sx_pick("outputs", 1, sx_tier() ? 3 : 2), set = (int)sx_pick("formats", 0, 2), gap = (n + out + num) & 1 ? 2 : 0;
  static const int FI[3][2] = {{7, 10}, {12, 3}, {0, 15}}, FW[3][2] = {{7, 5}, {13, 12}, {7, 6}}, FB[3] = {10, 14, 3}, FO[3] = {7, 12, 4};
  Tn x[2], w[2], b, o; Guard g; const mli_tensor *xs[2], *ws[2]; int64_t zi[2] = {0, 0}, zo = 0; int len[2];
  for (int i = 0; i < num; i++) {
    len[i] = i ? 4 - n : n; if ((i + n) & 1) { mk(x[i], io, S1(len[i]), 0, "input"); } else mk(x[i], io, S2(1, len[i]), 0, "input"); mk(w[i], we, S2(len[i], out), gap, "weights"); xs[i] = &x[i].t; ws[i] = &w[i].t;
    if (sa) { zi[i] = sx_sym("zp", -128, 127); setSa(w[i], 0, SWT[(set + i) & 3][0], SWT[(set + i) & 3][1]); } else setFx(w[i], FW[set][i]); setIo(x[i], set + i, zi[i], FI[set][i]); fillSym(x[i], "x"); fillSym(w[i], "w");
  }
  mk(b, be, S1(out), 0, "bias"); mk(o, io, S1(out), 0, "out"); if (sa) { zo = sx_sym("zp out", -128, 127); setSa(b, 0, 1, 0); setSa(o, zo, 25001, 12); fillRange(b, "b", -(1 << 15), (1 << 15) - 1); } else { setFx(b, FB[set]); setFx(o, FO[set]); fillSym(b, "b"); } guardInit(o, g);
  mli_rnn_dense_cfg c; c.inputs_num = num; sx_check(E3(mli_krn_rnn_dense)(xs, ws, &b.t, &c, &o.t) == MLI_STATUS_OK, "status");
  int AW = KIND == FX16 ? 64 : 32;
  for (int q = 0; q < out; q++) {
    int64_t S = 0;
    for (int i = 0; i < num; i++) {
      int64_t acc = 0; for (int k = 0; k < len[i]; k++) acc += (rd(x[i].base, io, k) - zi[i]) * at(w[i], k, q);
      if (sa) { if (i == 0) acc += biasSa32(at(b, q)); Mul m = outMul(rqInOut(SI[(set + i) % 3][0], SI[(set + i) % 3][1], 25001, 12), SWT[(set + i) & 3][0], SWT[(set + i) & 3][1]); acc = spec::sat(spec::rshift(acc * m.m, m.s, 64), 32); }
      else { if (i == 0) acc = spec::sadd(acc, spec::rshift(at(b, q), -(FI[set][0] + FW[set][0] - FB[set]), AW), AW); acc = spec::rshift(acc, FI[set][i] + FW[set][i] - FO[set], AW); }
      S = spec::sadd(S, acc, AW);
    }
    int64_t v = sa ? spec::sat(spec::sat(spec::sat(S, 16) + zo, 16), 8) : spec::sat(S, W);
    sx_obs(at(o, q)); sx_check(at(o, q) == v, "output value");
  }
  guardCheck(o, g); sx_cover("done");
}
static mli_lut tab(int32_t (*sz)(), mli_status (*mkl)(mli_lut*)) { mli_lut l; memset(&l, 0, sizeof l); int n = sz(); l.data.mem.pi16 = (int16_t*)sx_alloc(n, "table"); l.data.capacity = n; sx_check(mkl(&l) == MLI_STATUS_OK, "table"); sx_readonly(l.data.mem.pi16, 1); return l; }
// one-row tensor on its own memory with the given format
static Tn row(int n, const mli_element_params& p, const char* nm) { Tn t; mk(t, io, S1(n), 0, nm); t.t.el_params = p; return t; }
static mli_tensor view(const mli_tensor& t, int64_t off, int n) { mli_tensor v; memset(&v, 0, sizeof v); v.rank = 1; v.shape[0] = n; v.mem_stride[0] = 1; v.el_type = t.el_type; v.el_params = t.el_params; v.data.mem.pi8 = t.data.mem.pi8 + off * esize(t.el_type); v.data.capacity = n * esize(t.el_type); return v; }
static mli_tensor gateOf(const mli_tensor& w, int g) { mli_tensor v; memset(&v, 0, sizeof v); v.rank = w.rank - 1; for (unsigned i = 0; i < v.rank; i++) { v.shape[i] = w.shape[i + 1]; v.mem_stride[i] = w.mem_stride[i + 1]; } v.el_type = w.el_type; v.el_params = w.el_params; v.data.mem.pi8 = w.data.mem.pi8 + (int64_t)g * w.mem_stride[0] * esize(w.el_type); v.data.capacity = w.data.capacity;
  if (sa && w.el_params.sa.dim == 0) { v.el_params.sa.dim = -1; v.el_params.sa.scale.mem.i16 = w.el_params.sa.scale.mem.pi16[g]; v.el_params.sa.scale_frac_bits.mem.i8 = w.el_params.sa.scale_frac_bits.mem.pi8[g]; v.el_params.sa.zero_point.mem.i16 = w.el_params.sa.zero_point.mem.pi16[g]; } return v; }
struct Cell { int seq, I, O, dir, all, act, set, wdim; Tn in, prev, wi, wo, b, cell, out; mli_lut th, sg; mli_rnn_cell_cfg cfg; };
static mli_element_params fmt(int64_t zp, int k, int frac) { mli_element_params p; memset(&p, 0, sizeof p); if (sa) { p.sa.type = MLI_EL_PARAM_SC16_ZP16; p.sa.dim = -1; p.sa.zero_point.mem.i16 = (int16_t)zp; p.sa.scale.mem.i16 = (int16_t)SI[k % 3][0]; p.sa.scale_frac_bits.mem.i8 = (int8_t)SI[k % 3][1]; } else p.fx.frac_bits = (int8_t)frac; return p; }
static mli_element_params raw(int64_t zp, int64_t sc, int64_t sf, int frac) { mli_element_params p = fmt(zp, 0, frac); if (sa) { p.sa.scale.mem.i16 = (int16_t)sc; p.sa.scale_frac_bits.mem.i8 = (int8_t)sf; } return p; }
static void mkCell(Cell& c, int gates) {
  static const int F[3][7] = {{7, 7, 7, 7, 7, 11, 13}, {12, 13, 6, 5, 10, 12, 14}, {3, 15, 7, 7, 6, 13, 15}};   // in, prev, weights in, weights out, bias, cell, out
  const int* f = F[c.set]; int gap = (c.set + c.seq) & 1;
  mk(c.in, io, S2(c.seq, c.I), 0, "input"); mk(c.prev, io, S1(c.O), 0, "previous output"); mk(c.wi, we, S3(gates, c.I, c.O), gap, "weights in"); mk(c.wo, we, S3(gates, c.O, c.O), gap ? 2 : 0, "weights out"); mk(c.b, be, S2(gates, c.O), 0, "bias"); mk(c.cell, io, S1(c.O), 0, "cell"); mk(c.out, io, S2(c.all ? c.seq : 1, c.O), 0, "output");
  c.in.t.el_params = fmt(c.set * 9 - 4, c.set, f[0]); c.prev.t.el_params = fmt(11 - c.set * 5, c.set + 1, f[1]); c.cell.t.el_params = fmt(c.set * 3 - 5, c.set + 2, f[5]); c.out.t.el_params = fmt(c.set * 7 - 9, c.set + (c.act & 1), f[6]);
  if (sa) { int64_t z[4] = {0}, s[4], h[4], s2[4], h2[4], o1[4] = {1, 1, 1, 1}; for (int i = 0; i < 4; i++) { s[i] = SWT[i][0]; h[i] = SWT[i][1]; s2[i] = SWT[(i + 1) & 3][0]; h2[i] = SWT[(i + 2) & 3][1]; }
    if (c.wdim) { setSaAxis(c.wi, 0, gates, z, s, h); setSaAxis(c.wo, 0, gates, z, s2, h2); setSaAxis(c.b, 0, gates, z, o1, z); } else { setSa(c.wi, 0, s[c.set], h[c.set]); setSa(c.wo, 0, s2[c.set], h2[c.set]); setSa(c.b, 0, 1, 0); } }
  else { setFx(c.wi, f[2]); setFx(c.wo, f[3]); setFx(c.b, f[4]); }
  fillSym(c.in, "x"); fillSym(c.prev, "h"); fillSym(c.wi, "wi"); fillSym(c.wo, "wo"); if (sa) fillRange(c.b, "b", -(1 << 15), (1 << 15) - 1); else fillSym(c.b, "b");
  c.th = tab(mli_krn_tanh_get_lut_size, mli_krn_tanh_create_lut); c.sg = tab(mli_krn_sigm_get_lut_size, mli_krn_sigm_create_lut); memset(&c.cfg, 0, sizeof c.cfg);
  c.cfg.direction = c.dir ? RNN_DIR_BACKWARD : RNN_DIR_FORWARD; c.cfg.results = c.all ? RNN_OUT_ALL : RNN_OUT_LAST; c.cfg.act = c.act == 0 ? RNN_ACT_NONE : c.act == 1 ? RNN_ACT_TANH : RNN_ACT_SIGM; int sz = gates * c.O * esize(io); c.cfg.scratch_data.mem.pi8 = (int8_t*)sx_alloc(sz, "scratch"); c.cfg.scratch_data.capacity = sz;
}
static void dense(Cell& c, const mli_tensor& x, const mli_tensor& h, int g, mli_tensor& o) {
  mli_tensor wi = gateOf(c.wi.t, g), wo = gateOf(c.wo.t, g), b = gateOf(c.b.t, g); const mli_tensor *xs[2] = {&x, &h}, *ws[2] = {&wi, &wo}; mli_rnn_dense_cfg d; d.inputs_num = 2; sx_check(E3(mli_krn_rnn_dense)(xs, ws, &b, &d, &o) == MLI_STATUS_OK, "dense");
}
static void act(bool tanhFn, Cell& c, mli_tensor& x, mli_tensor& o) { sx_check((tanhFn ? A3(mli_krn_tanh)(&x, &c.th, &o) : A3(mli_krn_sigm)(&x, &c.sg, &o)) == MLI_STATUS_OK, "activation"); }
static void finish(Cell& c, const Tn& want, int64_t steps) {
  sx_check(c.out.t.rank == 2 && (int)c.out.t.shape[0] == (c.all ? c.seq : 1) && (int)c.out.t.shape[1] == c.O && c.out.t.mem_stride[0] == c.O && c.out.t.mem_stride[1] == 1, "output shape"); (void)steps;
  for (int t = 0; t < (c.all ? c.seq : 1); t++) for (int k = 0; k < c.O; k++) { int64_t got = rd(c.out.base, io, t * c.O + k); sx_obs(got); sx_check(got == rd(want.base, io, (c.all ? t : c.seq - 1) * c.O + k), "output value"); }
}
static void pickCell(Cell& c, bool lstm) {
  c.seq = (int)sx_pick("sequence", 1, sx_tier() ? 3 : 2); c.dir = (int)sx_pick("backward", 0, 1); c.all = (int)sx_pick("all results", 0, 1); c.act = lstm ? (int)sx_pick("activation", 0, 2) : 0; c.set = sx_tier() ? (int)sx_pick("formats", 0, 2) : (c.seq + c.dir + c.all * 2 + c.act) % 3; c.wdim = sa ? (int)sx_pick("per gate", 0, 1) : 0;
  c.I = 1 + (c.set + c.dir) % 2; c.O = 2 - (c.set + c.act + c.all) % 2; if (sa && !sx_tier()) { c.O = c.seq == 1 ? 2 : 1; c.I = 3 - c.O; }
}
extern "C" void r_lstm() {
  Cell c; pickCell(c, true); mkCell(c, 4); Tn cell2 = row(c.O, c.cell.t.el_params, "cell (step by step)"); for (int k = 0; k < c.O; k++) { int64_t v = sx_sym("c", elmin(io), elmax(io)); wrt(c.cell.base, io, k, v); wrt(cell2.base, io, k, v); }
  mli_element_params oute = c.out.t.el_params, celle = c.cell.t.el_params;
  sx_check(E3(mli_krn_lstm_cell)(&c.in.t, &c.prev.t, &c.wi.t, &c.wo.t, &c.b.t, &c.th, &c.sg, &c.cfg, &c.cell.t, &c.out.t) == MLI_STATUS_OK, "status");
  int ff = 10, fm = c.in.t.el_params.fx.frac_bits + c.wi.t.el_params.fx.frac_bits; if (!sa && fm < ff) ff = fm; mli_element_params ire = raw(0, 1, 4, ff);
  Tn want; mk(want, io, S2(c.seq, c.O), 0, "expected"); want.t.el_params = oute; mli_tensor h = view(c.prev.t, 0, c.O);
  for (int t = 0; t < c.seq; t++) {
    mli_tensor x = view(c.in.t, (int64_t)(c.dir ? c.seq - 1 - t : t) * c.I, c.I); Tn gt[4], av[4]; 
    for (int g = 0; g < 4; g++) { gt[g] = row(c.O, ire, "gate"); av[g] = row(c.O, ire, "activated gate"); dense(c, x, h, g, gt[g].t); act(g == 1, c, gt[g].t, av[g].t); }   // input, new information, forget, output
    Tn a = row(c.O, celle, "kept"), b = row(c.O, av[1].t.el_params, "added"), o1 = row(c.O, oute, "activated cell"); mli_tensor ho = view(want.t, t * c.O, c.O); ho.el_params = oute;
    sx_check(A3(mli_krn_eltwise_mul)(&cell2.t, &av[2].t, &a.t) == MLI_STATUS_OK && A3(mli_krn_eltwise_mul)(&av[1].t, &av[0].t, &b.t) == MLI_STATUS_OK && A3(mli_krn_eltwise_add)(&a.t, &b.t, &cell2.t) == MLI_STATUS_OK, "element-wise");
    if (c.act) { act(c.act == 1, c, cell2.t, o1.t); sx_check(A3(mli_krn_eltwise_mul)(&o1.t, &av[3].t, &ho) == MLI_STATUS_OK, "element-wise"); } else sx_check(A3(mli_krn_eltwise_mul)(&cell2.t, &av[3].t, &ho) == MLI_STATUS_OK, "element-wise");
    h = ho; h.el_params = oute;
  }
  finish(c, want, c.seq); for (int k = 0; k < c.O; k++) { sx_obs(rd(c.cell.base, io, k)); sx_check(rd(c.cell.base, io, k) == rd(cell2.base, io, k), "final cell state"); } sx_cover("done");
}
extern "C" void r_gru() {
  Cell c; pickCell(c, false); mkCell(c, 3); mli_element_params oute = c.out.t.el_params;
  sx_check(E3(mli_krn_gru_cell)(&c.in.t, &c.prev.t, &c.wi.t, &c.wo.t, &c.b.t, &c.th, &c.sg, &c.cfg, &c.out.t) == MLI_STATUS_OK, "status");
  int ff = 11, fm = c.in.t.el_params.fx.frac_bits + c.wi.t.el_params.fx.frac_bits; if (!sa && fm < ff) ff = fm; mli_element_params ire = raw(0, 21, 9, ff);
  Tn want; mk(want, io, S2(c.seq, c.O), 0, "expected"); want.t.el_params = oute; mli_tensor h = view(c.prev.t, 0, c.O);
  Tn one; mk(one, io, S1(1), 0, "one"); wrt(one.base, io, 0, elmax(io)); one.t.el_params = raw(-128, 1, 8, 15);
  for (int t = 0; t < c.seq; t++) {
    mli_tensor x = view(c.in.t, (int64_t)(c.dir ? c.seq - 1 - t : t) * c.I, c.I); Tn gt[3], av[3]; 
    for (int g = 0; g < 3; g++) { gt[g] = row(c.O, ire, "gate"); av[g] = row(c.O, ire, "activated gate"); }
    dense(c, x, h, 0, gt[0].t); dense(c, x, h, 1, gt[1].t); act(false, c, gt[0].t, av[0].t); act(false, c, gt[1].t, av[1].t);   // update, reset
    Tn rh = row(c.O, h.el_params, "reset hidden"), kept = row(c.O, h.el_params, "kept"), inv = row(c.O, av[0].t.el_params, "1 - update"), n2 = row(c.O, oute, "new part"); mli_tensor ho = view(want.t, t * c.O, c.O); ho.el_params = oute;
    sx_check(A3(mli_krn_eltwise_mul)(&av[1].t, &h, &rh.t) == MLI_STATUS_OK && A3(mli_krn_eltwise_mul)(&h, &av[0].t, &kept.t) == MLI_STATUS_OK && A3(mli_krn_eltwise_sub)(&one.t, &av[0].t, &inv.t) == MLI_STATUS_OK, "element-wise");
    dense(c, x, rh.t, 2, gt[2].t); act(true, c, gt[2].t, av[2].t);
    sx_check(A3(mli_krn_eltwise_mul)(&av[2].t, &inv.t, &n2.t) == MLI_STATUS_OK && A3(mli_krn_eltwise_add)(&n2.t, &kept.t, &ho) == MLI_STATUS_OK, "element-wise");
    h = ho; h.el_params = oute;
  }
  finish(c, want, c.seq); sx_cover("done");
}
