// Parameter checking: a call is accepted exactly when the documented conditions hold (all fields symbolic), and an accepted tensor lies within its memory.
#include "tens.h"
extern "C" {
mli_status mli_chk_tensor(const mli_tensor* in, bool check_bank, bool check_quant);
}
bool mli_chk_tensors_not_overlapped(const mli_tensor*, const mli_tensor*);
#include "mli_check.h"
// tensor under test: fields with independent symbolic values
struct Ct { mli_tensor t; int rank; int64_t sh[4], st[4], cap; mli_element_type el; };
static char* heap() { static char* h; if (!h) h = (char*)sx_alloc(8, "data"); return h; }
static void base(Ct& c, mli_element_type el, Shape s) {
  memset(&c, 0, sizeof c); c.rank = s.rank; c.el = el; int64_t st = 1; for (int i = s.rank - 1; i >= 0; i--) { c.sh[i] = s.d[i]; c.st[i] = st; st *= s.d[i]; } c.cap = st * esize(el);
  c.t.data.mem.pi8 = (int8_t*)heap(); if (el == MLI_EL_SA_8 || el == MLI_EL_SA_32) { c.t.el_params.sa.dim = -1; c.t.el_params.sa.scale.mem.i16 = 1; }
}
static void fin(Ct& c) { c.t.rank = c.rank; c.t.el_type = c.el; for (int i = 0; i < 4; i++) { c.t.shape[i] = (uint32_t)c.sh[i]; c.t.mem_stride[i] = (int32_t)c.st[i]; } c.t.data.capacity = (uint32_t)c.cap; }
static void symLayout(Ct& c, const char* n, int64_t smax, int64_t stmax) { for (int i = 0; i < c.rank; i++) { c.sh[i] = sx_sym(n, 0, smax); c.st[i] = sx_sym(n, -2, stmax); } c.cap = sx_sym(n, 0, 4 * stmax * smax); }
static bool inMem(const Ct& c) { int64_t last = 1; for (int i = 0; i < c.rank; i++) last += (c.sh[i] - 1) * c.st[i]; return last * esize(c.el) <= c.cap; }
static bool valid(const Ct& c) { bool ok = c.cap <= INT32_MAX; int64_t p = 1; for (int i = c.rank - 1; i >= 0; i--) { ok = ok & (c.st[i] > 0) & (c.sh[i] > 0) & (c.st[i] >= p); p = c.sh[i] * c.st[i]; } return ok & inMem(c); }
static bool inner1(const Ct& c) { return c.st[c.rank - 1] == 1; }
static bool contiguous(const Ct& c) { bool ok = true; int64_t p = 1; for (int i = c.rank - 1; i >= 0; i--) { ok = ok & (c.st[i] == p); p = c.sh[i] * c.st[i]; } return ok; }
static int64_t count(const Ct& c) { int64_t n = 1; for (int i = 0; i < c.rank; i++) n *= c.sh[i]; return n; }
static bool sameShape(const Ct& a, const Ct& b) { if (a.rank != b.rank) return false; bool ok = true; for (int i = 0; i < a.rank; i++) ok = ok & (a.sh[i] == b.sh[i]); return ok; }
static void verdict(mli_status st, bool want) { sx_check((st == MLI_STATUS_OK) == want, "accepted exactly when the documented conditions hold"); sx_cover("done"); }
static const mli_element_type EL[5] = {MLI_EL_FX_8, MLI_EL_FX_16, MLI_EL_SA_8, MLI_EL_SA_32, MLI_EL_FP_32};

// a tensor is valid only if every element lies in its memory: the full 32-bit range of every field
extern "C" void k_tensor() {
  int rank = (int)sx_pick("rank", 1, 4), e = (int)sx_pick("element type", 0, 4), sgn = (int)sx_pick("positive", 0, 1); Ct c; base(c, EL[e], Shape{rank, {1, 1, 1, 1}});
  // positive fields: up to two dimensions with the full range; in more dimensions one varies at a time
  int wide = sgn && rank > 2 ? (int)sx_pick("wide dimension", 0, rank - 1) : -1;
  for (int i = 0; i < rank; i++) {
    if (!sgn) { c.sh[i] = sx_sym("shape", 0, UINT32_MAX); c.st[i] = sx_sym("stride", INT32_MIN, INT32_MAX); }
    else if (wide < 0 || wide == i) { c.sh[i] = 1 + sx_sym("shape - 1", 0, INT32_MAX - 1); c.st[i] = sx_sym("stride", 1, INT32_MAX); }
    else { c.sh[i] = 3; c.st[i] = i > wide ? (i == rank - 1 ? 1 : i == rank - 2 ? 3 : 11) : (int64_t)1 << (30 - i); }
  }
  c.cap = sx_sym("capacity", 0, UINT32_MAX); fin(c);
  mli_status st = mli_chk_tensor(&c.t, false, true);
  bool pos = true; for (int i = 0; i < rank; i++) pos = pos & (c.st[i] > 0) & (c.sh[i] > 0) & (c.sh[i] <= INT32_MAX);
  sx_check(!(st == MLI_STATUS_OK) | (pos & (c.cap <= INT32_MAX)), "accepted shapes and strides are positive");
  if (sgn) { bool in = true; int64_t last = 1; for (int i = 0; i < rank; i++) { int64_t term = (c.sh[i] - 1) * c.st[i]; sx_check(term >= 0, "extent"); sx_assume(term >= 0); in = in & (term <= c.cap); last += term; }
  sx_check(!(st == MLI_STATUS_OK) | (in & (last * esize(EL[e]) <= c.cap)), "every element of an accepted tensor lies in its memory"); }
  sx_cover("done");
}
extern "C" void k_tensor_small() {
  int rank = (int)sx_pick("rank", 0, 5), e = (int)sx_pick("element type", 0, 4), null = (int)sx_pick("null data", 0, 1); Ct c; base(c, EL[e], Shape{rank > 4 ? 4 : rank, {1, 1, 1, 1}}); symLayout(c, "field", 9, 700); fin(c); c.t.rank = rank; if (null) c.t.data.mem.pi8 = nullptr;
  verdict(mli_chk_tensor(&c.t, false, true), rank <= 4 && !null && valid(c));
}
extern "C" void k_quant() {
  int e = (int)sx_pick("element type", 2, 3), axis = (int)sx_pick("axis", -1, 3), bad = (int)sx_pick("short array", 0, 3); Ct c; base(c, EL[e], S2(3, 3)); fin(c); int64_t z[3], s[3], f[3];
  for (int i = 0; i < 3; i++) { z[i] = sx_sym("zp", -32768, 32767); s[i] = sx_sym("scale", -32768, 32767); f[i] = sx_sym("frac", -128, 127); }
  Tn x; x.t = c.t; if (axis < 0) setSa(x, z[0], s[0], f[0]); else setSaAxis(x, axis > 1 ? 1 : axis, 3, z, s, f); x.t.el_params.sa.dim = (int8_t)axis; int64_t cut = sx_sym("capacity", 0, 6);
  if (bad == 1) x.t.el_params.sa.zero_point.capacity = (uint32_t)cut; if (bad == 2) x.t.el_params.sa.scale.capacity = (uint32_t)cut; if (bad == 3) x.t.el_params.sa.scale_frac_bits.capacity = (uint32_t)cut;
  bool ok = axis < 2; if (axis < 0) ok = ok & (s[0] > 0) & (bad == 0 || cut == 0); else for (int i = 0; i < 3; i++) ok = ok & (s[i] > 0); if (axis >= 0 && bad) ok = ok & (cut >= (bad == 3 ? 3 : 6));
  verdict(mli_chk_tensor(&x.t, false, true), ok);
}
extern "C" void k_overlap() {
  Ct a, b; base(a, MLI_EL_FX_8, S1(4)); base(b, MLI_EL_FX_16, S1(4)); char* h = (char*)sx_alloc(4000, "memory"); int64_t pa = sx_sym("first", 0, 2000), pb = sx_sym("second", 0, 2000); a.cap = sx_sym("first size", 1, 2000); b.cap = sx_sym("second size", 1, 2000); fin(a); fin(b);
  a.t.data.mem.pi8 = (int8_t*)h + pa; b.t.data.mem.pi8 = (int8_t*)h + pb; bool apart = (pa + a.cap <= pb) | (pb + b.cap <= pa);
  sx_check(mli_chk_tensors_not_overlapped(&a.t, &b.t) == apart, "overlap of two memory regions"); sx_check(mli_chk_tensors_not_overlapped(&b.t, &a.t) == apart, "overlap is symmetric");
  // regions 4 GiB apart or more never overlap, whatever the low halves of their addresses
  uintptr_t far = (uintptr_t)(h + pa) + ((uintptr_t)sx_sym("distance", 1, 1 << 20) << 32); b.t.data.mem.pi8 = (int8_t*)far; sx_check(mli_chk_tensors_not_overlapped(&a.t, &b.t), "distant regions do not overlap"); sx_cover("done");
}
// ---- convolutions
struct Cv { Ct in, w, b, o; mli_conv2d_cfg c; int64_t v[8]; };   // v: stride w, h, padding l, r, t, b, dilation w, h
static void cfgOf(Cv& x) { memset(&x.c, 0, sizeof x.c); x.c.stride_width = (uint8_t)x.v[0]; x.c.stride_height = (uint8_t)x.v[1]; x.c.padding_left = (uint8_t)x.v[2]; x.c.padding_right = (uint8_t)x.v[3]; x.c.padding_top = (uint8_t)x.v[4]; x.c.padding_bottom = (uint8_t)x.v[5]; x.c.dilation_width = (uint8_t)x.v[6]; x.c.dilation_height = (uint8_t)x.v[7]; }
enum { CONV, DW, GRP, TR };
static const mli_element_type NEXT[5] = {MLI_EL_FX_16, MLI_EL_SA_8, MLI_EL_SA_32, MLI_EL_FX_8, MLI_EL_FX_8};
static void convChk(int op, int kind) {
  int focus = (int)sx_pick("varied", 0, 7);   // 0 input 1 weights 2 bias 3 output layout, 4 geometry, 5 ranks, 6 types, 7 formats
  static const mli_element_type T[3][3] = {{MLI_EL_FX_16, MLI_EL_FX_16, MLI_EL_FX_16}, {MLI_EL_FX_16, MLI_EL_FX_8, MLI_EL_FX_8}, {MLI_EL_SA_8, MLI_EL_SA_8, MLI_EL_SA_32}}; bool sa = kind == 2;
  Cv x; int IC = 4, OC = op == DW ? 4 : 6, D = op == DW ? 1 : op == GRP ? 2 : 4; const int64_t V[8] = {2, 1, 1, 0, 1, 1, op == TR ? 1 : 2, 1};
  base(x.in, T[kind][0], S3(5, 6, IC)); base(x.w, T[kind][1], S4(3, 2, D, OC)); base(x.b, T[kind][2], S1(OC)); base(x.o, T[kind][0], op == TR ? S3(5, 11, OC) : S3(5, 3, OC)); for (int i = 0; i < 8; i++) x.v[i] = V[i];
  Ct* all[4] = {&x.in, &x.w, &x.b, &x.o}; bool ok = true, typesOk = true, ranksOk = true; int64_t f[4] = {5, 6, 7, 8}, z[4] = {0}, dim[4] = {-1, -1, -1, -1};
  if (focus < 4) symLayout(*all[focus], "field", 7, 80);
  if (focus == 4) {   // room for every shape
    for (int k = 0; k < 4; k++) { Ct& c = *all[k]; for (int i = 0; i < c.rank; i++) { int64_t st = 1; for (int j = i + 1; j < c.rank; j++) st *= 8; c.st[i] = st; } c.cap = 100000; if (k != 2) { c.sh[0] = sx_sym("size", 1, 8); c.sh[1] = sx_sym("size", 1, 8); } }
    static const int G = 3; int g = (int)sx_pick("geometry", 0, G); for (int i = 0; i < 8; i++) { if ((i & 1) == (g & 1)) x.v[i] = sx_sym("cfg", 0, i < 2 ? 3 : 8); else if (i >= 6 && (g & 2) && op != TR) x.v[i] = 1; }
  }
  if (focus == 5) { int which = (int)sx_pick("tensor", 0, 3), r = (int)sx_pick("rank", 1, 4); ranksOk = r == all[which]->rank; all[which]->rank = r; for (int i = 0, k = r; i < k; i++) { int64_t st = 1; for (int j = i + 1; j < r; j++) st *= 8; all[which]->st[i] = st; if (all[which]->sh[i] == 0) all[which]->sh[i] = 1; } all[which]->cap = 100000; }
  if (focus == 6) { int which = (int)sx_pick("tensor", 0, 3); mli_element_type n = EL[sx_pick("type", 0, 4)]; typesOk = n == all[which]->el; if (!typesOk && (n == MLI_EL_SA_8 || n == MLI_EL_SA_32 || all[which]->el == MLI_EL_SA_8 || all[which]->el == MLI_EL_SA_32)) { memset(&all[which]->t.el_params, 0, sizeof all[which]->t.el_params); if (n == MLI_EL_SA_8 || n == MLI_EL_SA_32) { all[which]->t.el_params.sa.dim = -1; all[which]->t.el_params.sa.scale.mem.i16 = 1; } } all[which]->el = n; all[which]->cap = 100000; }
  if (focus == 7) for (int k = 0; k < 4; k++) { f[k] = sx_sym("frac", 0, 15); z[k] = sx_sym("zp", -300, 300); }
  bool params = true;
  for (int k = 0; k < 4; k++) { fin(*all[k]); if (all[k]->el == MLI_EL_FX_8 || all[k]->el == MLI_EL_FX_16) all[k]->t.el_params.fx.frac_bits = (int8_t)f[k]; else if (focus == 7) { all[k]->t.el_params.sa.zero_point.mem.i16 = (int16_t)z[k]; bool io = k == 0 || k == 3; params = params & (io ? (z[k] >= -128) & (z[k] <= 127) : z[k] == 0); } }
  if (!sa && focus != 6) params = (f[2] <= f[0] + f[1]) & (f[3] <= f[0] + f[1]);
  char* mem = (char*)sx_alloc(8, "output data"); x.o.t.data.mem.pi8 = (int8_t*)mem; if (focus >= 4) { x.o.t.data.mem.pi8 = (int8_t*)((uintptr_t)heap() + 1000000); } else { x.o.t.data.mem.pi8 = (int8_t*)((uintptr_t)heap() + 1000000); }
  cfgOf(x);
  ok = ok & typesOk & ranksOk & params; for (int k = 0; k < 4; k++) ok = ok & valid(*all[k]) & inner1(*all[k]);
  int64_t sw = x.v[0], sh = x.v[1], pl = x.v[2], pr = x.v[3], pt = x.v[4], pb = x.v[5], dw = x.v[6], dh = x.v[7], kh = x.w.sh[0], kw = x.w.sh[1], ekw = (kw - 1) * dw + 1, ekh = (kh - 1) * dh + 1;
  ok = ok & (x.b.sh[0] == x.w.sh[3]) & (x.o.sh[2] == x.w.sh[3]) & (sw > 0) & (sh > 0) & (dw > 0) & (dh > 0) & (pl < ekw) & (pr < ekw) & (pt < ekh) & (pb < ekh);
  if (op == CONV || op == TR) ok = ok & (x.in.sh[2] == x.w.sh[2]);
  if (op == DW) ok = ok & (x.w.sh[2] == 1) & (x.in.sh[2] == x.w.sh[3]);
  if (op == GRP) { bool g = false; for (int64_t ic = 1; ic <= 7; ic++) for (int64_t d = 1; d <= ic; d++) if (ic % d == 0) for (int64_t oc = ic / d; oc <= 7; oc += ic / d) g = g | ((x.in.sh[2] == ic) & (x.w.sh[2] == d) & (x.w.sh[3] == oc)); ok = ok & g; }
  if (op == TR) ok = ok & (dw == 1) & (dh == 1) & (sw <= kw) & (sh <= kh) & (x.o.sh[1] == (x.in.sh[1] - 1) * sw + 1 + (kw - pl - 1) + (kw - pr - 1) - kw + 1) & (x.o.sh[0] == (x.in.sh[0] - 1) * sh + 1 + (kh - pt - 1) + (kh - pb - 1) - kh + 1);
  else ok = ok & ((x.o.sh[1] - 1) * sw + ekw <= x.in.sh[1] + pl + pr) & ((x.o.sh[0] - 1) * sh + ekh <= x.in.sh[0] + pt + pb);
  mli_status st;
#define CK(n) (kind == 0 ? n##_fx16(&x.in.t, &x.w.t, &x.b.t, &x.c, &x.o.t, 0) : kind == 1 ? n##_fx16_fx8_fx8(&x.in.t, &x.w.t, &x.b.t, &x.c, &x.o.t, 0) : n##_sa8_sa8_sa32(&x.in.t, &x.w.t, &x.b.t, &x.c, &x.o.t, 0))
  st = op == CONV ? CK(mli_chk_conv2d_hwcn) : op == DW ? CK(mli_chk_depthwise_conv2d_hwcn) : op == TR ? CK(mli_chk_transpose_conv2d_hwcn) :
    kind == 0 ? mli_chk_group_conv2d_hwcn_fx16(&x.in.t, &x.w.t, &x.b.t, &x.c, &x.o.t) : kind == 1 ? mli_chk_group_conv2d_hwcn_fx16_fx8_fx8(&x.in.t, &x.w.t, &x.b.t, &x.c, &x.o.t) : mli_chk_group_conv2d_hwcn_sa8_sa8_sa32(&x.in.t, &x.w.t, &x.b.t, &x.c, &x.o.t);
  verdict(st, ok);
}
#ifndef KIND
#define KIND 0
#endif
extern "C" void k_conv() { convChk(CONV, KIND); }
extern "C" void k_dw() { convChk(DW, KIND); }
extern "C" void k_grp() { convChk(GRP, KIND); }
extern "C" void k_tr() { convChk(TR, KIND); }
// ---- other kernels: the fields of one tensor vary at a time, then geometry, ranks, types, formats
static bool isSaT(mli_element_type e) { return e == MLI_EL_SA_8 || e == MLI_EL_SA_32; }
static void retype(Ct& c, mli_element_type n) { if (isSaT(n) != isSaT(c.el)) { memset(&c.t.el_params, 0, sizeof c.t.el_params); if (isSaT(n)) { c.t.el_params.sa.dim = -1; c.t.el_params.sa.scale.mem.i16 = 1; } } c.el = n; c.cap = 100000; }
static void rerank(Ct& c, int r) { c.rank = r; for (int i = 0; i < r; i++) { int64_t st = 1; for (int j = i + 1; j < r; j++) st *= 8; c.st[i] = st; if (c.sh[i] == 0) c.sh[i] = 1; } c.cap = 100000; }
static void away(Ct& o) { o.t.data.mem.pi8 = (int8_t*)((uintptr_t)heap() + 1000000); }
static const mli_element_type KT[3] = {MLI_EL_FX_16, MLI_EL_FX_8, MLI_EL_SA_8};
static bool zpByte(Ct& c, const char* n) { if (!isSaT(c.el)) return true; int64_t z = sx_sym(n, -300, 300); c.t.el_params.sa.zero_point.mem.i16 = (int16_t)z; return (z >= -128) & (z <= 127); }
// varies the k-th of n tensors: layout (mode 0), rank (1), type (2); wantType tells whether the types still match
static void vary(Ct** all, int k, int mode, bool& same) { Ct& c = *all[k]; if (mode == 0) symLayout(c, "field", 7, 80); else if (mode == 1) { int r = (int)sx_pick("rank", 1, 4); same = r == c.rank; rerank(c, r); } else { mli_element_type n = EL[sx_pick("type", 0, 4)]; same = n == c.el; if (!same) retype(c, n); } }
extern "C" void k_pool() {
  int kind = KIND, op = (int)sx_pick("max", 0, 1), focus = (int)sx_pick("varied", 0, 3), mode = 0; if (focus < 2) mode = (int)sx_pick("field", 0, 2);
  Ct a, o; base(a, KT[kind], S3(5, 6, 4)); base(o, KT[kind], S3(3, 3, 4)); Ct* all[2] = {&a, &o}; bool same = true; int64_t v[8] = {2, 2, 3, 3, 1, 0, 1, 1};   // stride w, h, kernel w, h, padding l, r, t, b
  if (focus < 2) vary(all, focus, mode, same);
  if (focus == 2) { for (Ct* c : all) { c->st[2] = 1; c->st[1] = 8; c->st[0] = 64; c->cap = 100000; c->sh[0] = sx_sym("size", 1, 8); c->sh[1] = sx_sym("size", 1, 8); c->sh[2] = sx_sym("channels", 1, 8); } int par = (int)sx_pick("side", 0, 1); for (int i = 0; i < 8; i++) if ((i < 4 ? (i & 1) : i >= 6) == par) v[i] = sx_sym("cfg", 0, i < 2 ? 3 : 8); }
  bool ok = true; if (focus == 3) { ok = zpByte(a, "zp in"); ok = (op == 0 ? ok & zpByte(o, "zp out") : true); }
  fin(a); fin(o); away(o); mli_pool_cfg c; memset(&c, 0, sizeof c); c.stride_width = (uint8_t)v[0]; c.stride_height = (uint8_t)v[1]; c.kernel_width = (uint8_t)v[2]; c.kernel_height = (uint8_t)v[3]; c.padding_left = (uint8_t)v[4]; c.padding_right = (uint8_t)v[5]; c.padding_top = (uint8_t)v[6]; c.padding_bottom = (uint8_t)v[7];
  ok = ok & same & valid(a) & valid(o) & inner1(a) & inner1(o) & (v[0] > 0) & (v[1] > 0) & (v[4] < v[2]) & (v[5] < v[2]) & (v[6] < v[3]) & (v[7] < v[3]) & (a.sh[2] == o.sh[2]) & ((o.sh[1] - 1) * v[0] + v[2] <= a.sh[1] + v[4] + v[5]) & ((o.sh[0] - 1) * v[1] + v[3] <= a.sh[0] + v[6] + v[7]);
  if (a.rank != 3 || o.rank != 3) ok = false;
#define CK3(n, ...) (kind == 0 ? n##_fx16(__VA_ARGS__) : kind == 1 ? n##_fx8(__VA_ARGS__) : n##_sa8(__VA_ARGS__))
  verdict(op ? CK3(mli_chk_maxpool_hwc, &a.t, &c, &o.t) : CK3(mli_chk_avepool_hwc, &a.t, &c, &o.t), ok);
}
extern "C" void k_fc() {
  static const mli_element_type T[4][3] = {{MLI_EL_FX_16, MLI_EL_FX_16, MLI_EL_FX_16}, {MLI_EL_FX_8, MLI_EL_FX_8, MLI_EL_FX_8}, {MLI_EL_SA_8, MLI_EL_SA_8, MLI_EL_SA_32}, {MLI_EL_FX_16, MLI_EL_FX_8, MLI_EL_FX_8}};
  int kind = KIND == 1 ? (int)(sx_pick("8-bit weights only", 0, 1) ? 3 : 1) : KIND, focus = (int)sx_pick("varied", 0, 4), mode = 0; if (focus < 4) mode = (int)sx_pick("field", 0, 2);
  Ct a, w, b, o; base(a, T[kind][0], S2(2, 3)); base(w, T[kind][1], S2(6, 4)); base(b, T[kind][2], S1(4)); base(o, T[kind][0], S1(4)); Ct* all[4] = {&a, &w, &b, &o}; bool same = true, ok = true;
  if (focus < 4) vary(all, focus, mode, same);
  int64_t f[4] = {5, 6, 7, 8}; if (focus == 4) { for (int i = 0; i < 4; i++) f[i] = sx_sym("frac", 0, 15); for (int k = 0; k < 4; k++) if (isSaT(all[k]->el)) { bool r = zpByte(*all[k], "zp"); ok = ok & (k == 0 || k == 3 ? r : all[k]->t.el_params.sa.zero_point.mem.i16 == 0); } }
  for (int k = 0; k < 4; k++) { fin(*all[k]); if (all[k]->el == MLI_EL_FX_8 || all[k]->el == MLI_EL_FX_16) all[k]->t.el_params.fx.frac_bits = (int8_t)f[k]; } away(o); mli_fully_connected_cfg c; memset(&c, 0, sizeof c);
  if (kind != 2 && !(focus < 4 && mode == 2)) ok = ok & (f[2] <= f[0] + f[1]) & (f[3] <= f[0] + f[1]);
  bool rk = w.rank == 2 && b.rank == 1 && o.rank == 1; for (Ct* x : all) ok = ok & valid(*x);
  ok = ok & same & rk & contiguous(a) & contiguous(b) & contiguous(o) & inner1(w) & (count(a) == w.sh[0]) & (b.sh[0] == w.sh[1]) & (o.sh[0] == w.sh[1]); if (focus < 4 && mode == 1 && focus == 0) ok = a.rank >= 1 && count(a) == w.sh[0] && contiguous(a);
  verdict(kind == 0 ? mli_chk_fully_connected_fx16(&a.t, &w.t, &b.t, &c, &o.t) : kind == 1 ? mli_chk_fully_connected_fx8(&a.t, &w.t, &b.t, &c, &o.t) : kind == 3 ? mli_chk_fully_connected_fx16_fx8_fx8(&a.t, &w.t, &b.t, &c, &o.t) : mli_chk_fully_connected_sa8_sa8_sa32(&a.t, &w.t, &b.t, &c, &o.t), ok);
}
// same-shape kernels: relu, table activations and softmax/L2 (axis), leaky relu (slope), element-wise
extern "C" void k_act() {
  int kind = KIND, op = (int)sx_pick("kernel", 0, 4), rank = (int)sx_pick("rank", 1, 4), focus = (int)sx_pick("varied", 0, 2), mode = 0; if (focus < 2) mode = (int)sx_pick("field", 0, 2); if (kind == 1 && op == 3) return;
  Shape s{rank, {2, 3, 2, 3}}; Ct a, o, l; base(a, KT[kind], s); base(o, KT[kind], s); base(l, KT[kind], S1(1)); Ct* all[2] = {&a, &o}; bool same = true, ok = true; if (focus < 2) vary(all, focus, mode, same);
  int64_t axis = sx_sym("axis", -1, 4), f = 3; if (focus == 2) { ok = zpByte(a, "zp in"); if (op == 4) { if (isSaT(a.el)) ok = ok & zpByte(o, "zp out"); else f = sx_sym("frac", 0, 7); } }
  for (Ct* x : {&a, &o, &l}) fin(*x); away(o); if (!isSaT(a.el)) a.t.el_params.fx.frac_bits = 3; if (!isSaT(o.el)) o.t.el_params.fx.frac_bits = (int8_t)f;
  ok = ok & same & valid(a) & valid(o) & inner1(a) & inner1(o) & sameShape(a, o); if (op == 2 || op == 3) ok = ok & (axis < a.rank); if (op == 4 && kind != 2) ok = ok & (f == 3);
  mli_relu_cfg rc; rc.type = MLI_RELU_GEN; mli_softmax_cfg sc; sc.axis = (int8_t)axis; mli_l2_normalize_cfg lc; lc.axis = (int8_t)axis;
  verdict(op == 0 ? CK3(mli_chk_relu, &a.t, &rc, &o.t) : op == 1 ? CK3(mli_chk_basic_activation, &a.t, &o.t) : op == 2 ? CK3(mli_chk_softmax, &a.t, &sc, &o.t) : op == 3 ? (kind ? mli_chk_l2_normalize_sa8(&a.t, &lc, &o.t) : mli_chk_l2_normalize_fx16(&a.t, &lc, &o.t)) : CK3(mli_chk_leaky_relu, &a.t, &l.t, &o.t), ok);
}
extern "C" void k_elt() {
  int kind = KIND, rank = (int)sx_pick("rank", 1, 3), focus = (int)sx_pick("varied", 0, 4), mode = 0; if (focus < 3) mode = (int)sx_pick("field", 0, 2); int scal = (int)sx_pick("scalar operand", 0, 2);
  Shape s{rank, {2, 3, 2, 3}}; Ct a, b, o; base(a, KT[kind], s); base(b, KT[kind], s); base(o, KT[kind], s); Ct* all[3] = {&a, &b, &o}; bool same = true, ok = true; if (focus < 3) vary(all, focus, mode, same);
  if (focus == 3) for (Ct* c : all) ok = ok & zpByte(*c, "zp");
  // rank-0 scalars hold the value, the fields of other tensors must agree
  bool sa1 = scal == 1 && !(focus == 0), sb1 = scal == 2 && !(focus == 1); if (sa1) a.rank = 0; if (sb1) b.rank = 0; for (Ct* c : all) fin(*c); away(o);
  bool one1 = sa1 || (count(a) == 1), one2 = sb1 || (count(b) == 1);
  ok = ok & same & valid(o) & inner1(o); if (!sa1) ok = ok & valid(a); if (!sb1) ok = ok & valid(b);
  bool i1 = sa1 ? true : inner1(a), i2 = sb1 ? true : inner1(b), ab = sameShape(a, b), ao = sameShape(a, o), bo = sameShape(b, o);
  ok = ok & (one1 | i1) & (one2 | i2) & (one1 | one2 | ab) & (one1 ? bo : ao);
  if (mode == 1) { if (focus == 2) ok = valid(o) & (one1 ? sameShape(b, o) : sameShape(a, o)) & (one1 | one2 | ab); else ok = valid(a) & valid(b) & (one1 | one2 | ab) & (one1 ? bo : ao); }
  verdict(CK3(mli_chk_eltwise, &a.t, &b.t, &o.t), ok);
}
extern "C" void k_perm() {
  int kind = KIND, focus = (int)sx_pick("varied", 0, 3), mode = 0; if (focus < 2) mode = (int)sx_pick("field", 0, 2); int rank = (int)sx_pick("rank", 1, 4);
  Ct a, o; base(a, KT[kind], Shape{rank, {2, 3, 4, 5}}); base(o, KT[kind], Shape{rank, {2, 3, 4, 5}}); Ct* all[2] = {&a, &o}; bool same = true, ok = true; int64_t p[4];
  for (int i = 0; i < 4; i++) p[i] = i; if (focus < 2) vary(all, focus, mode, same); if (focus >= 2) { for (int i = 0; i < rank; i++) p[i] = sx_sym("permuted", 0, 5); if (focus == 3) { for (int i = 0; i < rank; i++) { o.sh[i] = sx_sym("shape", 1, 6); o.st[i] = 0; } int64_t st = 1; for (int i = rank - 1; i >= 0; i--) { o.st[i] = st; st *= 6; } o.cap = 100000; } }
  fin(a); fin(o); away(o); mli_permute_cfg c; memset(&c, 0, sizeof c); for (int i = 0; i < 4; i++) c.perm_dim[i] = (uint8_t)p[i];
  ok = ok & same & valid(a) & valid(o); if (a.rank != o.rank) ok = false;
  for (int i = 0; i < a.rank; i++) { ok = ok & (p[i] < a.rank); for (int j = 0; j < i; j++) ok = ok & (p[i] != p[j]); bool m = false; for (int j = 0; j < a.rank; j++) m = m | ((p[i] == j) & (o.sh[i] == a.sh[j])); ok = ok & m; }
  verdict(CK3(mli_chk_permute, &a.t, &c, &o.t), ok);
}
extern "C" void k_argmax() {
  int kind = KIND, focus = (int)sx_pick("varied", 0, 2), mode = 0; if (focus < 2) mode = (int)sx_pick("field", 0, 2); int axis = (int)sx_pick("axis", -1, 3);
  Ct a, o; base(a, KT[kind], S3(2, 3, 4)); int dim = axis < 0 || axis > 2 ? 1 : (int)a.sh[axis]; base(o, MLI_EL_SA_32, S2(dim, 2)); Ct* all[2] = {&a, &o}; bool same = true, ok = true; int64_t k = 2; if (focus < 2) vary(all, focus, mode, same); if (focus == 2) { k = sx_sym("topk", -2, 30); o.sh[0] = sx_sym("dim", 1, 5); o.sh[1] = sx_sym("k", 1, 30); o.st[1] = 1; o.st[0] = o.sh[1]; o.cap = 100000; }
  fin(a); fin(o); away(o); mli_argmax_cfg c; memset(&c, 0, sizeof c); c.axis = axis; c.topk = (int32_t)k;
  int64_t n = count(a), d = 1; if (axis >= 0 && axis < a.rank) d = a.sh[axis]; int64_t slice = 1; for (int i = 0; i < a.rank; i++) if (i != axis) slice *= a.sh[i];
  ok = ok & (axis < a.rank) & valid(a) & valid(o) & inner1(a); if (o.rank == 2) ok = ok & contiguous(o) & (o.sh[0] == d) & (o.sh[1] == k) & (k <= slice); else ok = false; if (mode == 2) ok = ok & same;
  verdict(kind == 0 ? mli_chk_argmax_fx16(&a.t, &c, &o.t) : mli_chk_argmax_sa8(&a.t, &c, &o.t), ok); (void)n;
}
extern "C" void k_sub() {
  int rank = (int)sx_pick("rank", 1, 4), sub = (int)sx_pick("sub-tensor rank", 0, 5); Ct a; base(a, MLI_EL_FX_8, Shape{rank, {2, 3, 4, 5}}); fin(a); mli_tensor o; memset(&o, 0, sizeof o); mli_sub_tensor_cfg c; memset(&c, 0, sizeof c); bool ok = sub <= rank;
  for (int i = 0; i < rank; i++) { int64_t off = sx_sym("offset", 0, UINT32_MAX), sz = sx_sym("size", 0, UINT32_MAX); c.offset[i] = (uint32_t)off; c.size[i] = (uint32_t)sz; ok = ok & (off < a.sh[i]) & (off + sz <= a.sh[i]); } c.sub_tensor_rank = (uint32_t)sub;
  verdict(mli_chk_create_subtensor(&a.t, &c, &o), ok);
}
extern "C" void k_cvt() {
  int se = (int)sx_pick("from", 0, 4), de = (int)sx_pick("to", 0, 4), focus = (int)sx_pick("varied", 0, 2), mode = 0; if (focus < 2) mode = (int)sx_pick("field", 0, 1);
  Ct a, o; base(a, EL[se], S2(3, 4)); base(o, EL[de], S2(3, 4)); Ct* all[2] = {&a, &o}; bool same = true; if (focus < 2) vary(all, focus, mode, same); fin(a); fin(o); away(o); bool ok = valid(a) & valid(o) & inner1(a) & inner1(o) & sameShape(a, o);
  if (focus == 2) { int place = (int)sx_pick("same memory", 0, 1), ia = (int)sx_pick("axis from", -1, 1), io = (int)sx_pick("axis to", -1, 1); int64_t z[4] = {0}, sc[4] = {1, 2, 3, 4}, fb[4] = {0}; if (place) o.t.data = a.t.data, o.t.data.capacity = a.t.data.capacity = 100;
    if (isSaT(EL[se]) && ia >= 0) { Tn x; x.t = a.t; setSaAxis(x, ia, (int)a.sh[ia], z, sc, fb); a.t = x.t; } if (isSaT(EL[de]) && io >= 0) { Tn x; x.t = o.t; setSaAxis(x, io, (int)a.sh[io], z, sc, fb); o.t = x.t; }
    if (isSaT(EL[se]) && isSaT(EL[de])) ok = ia == io || ia < 0 || io < 0; }
  verdict(mli_chk_convert_tensor(&a.t, &o.t), ok);
}
