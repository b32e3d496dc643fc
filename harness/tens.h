// MLI 2.0 tensor construction for harnesses.
#pragma once
#include "sx.h"
#include "spec.h"
#include "mli_api.h"
#include <string.h>

struct Shape { int rank; int d[4]; };
static inline Shape S1(int a) { return {1, {a, 0, 0, 0}}; }
static inline Shape S2(int a, int b) { return {2, {a, b, 0, 0}}; }
static inline Shape S3(int a, int b, int c) { return {3, {a, b, c, 0}}; }
static inline Shape S4(int a, int b, int c, int d) { return {4, {a, b, c, d}}; }
static inline int esize(mli_element_type t) { return t == MLI_EL_FX_16 ? 2 : (t == MLI_EL_SA_32 || t == MLI_EL_FP_32) ? 4 : 1; }
static inline int64_t elmin(mli_element_type t) { return t == MLI_EL_FX_16 ? -32768 : t == MLI_EL_SA_32 ? INT32_MIN : -128; }
static inline int64_t elmax(mli_element_type t) { return t == MLI_EL_FX_16 ? 32767 : t == MLI_EL_SA_32 ? INT32_MAX : 127; }
static inline int64_t rd(const void* p, mli_element_type t, int64_t i) { return t == MLI_EL_FX_16 ? (int64_t)((const int16_t*)p)[i] : t == MLI_EL_SA_32 ? (int64_t)((const int32_t*)p)[i] : (int64_t)((const int8_t*)p)[i]; }
static inline void wrt(void* p, mli_element_type t, int64_t i, int64_t v) { if (t == MLI_EL_FX_16) ((int16_t*)p)[i] = (int16_t)v; else if (t == MLI_EL_SA_32) ((int32_t*)p)[i] = (int32_t)v; else ((int8_t*)p)[i] = (int8_t)v; }

// A tensor with its backing store.  gap: extra elements after each innermost row / plane.
struct Tn { mli_tensor t; char* base; int64_t off; int elems; bool guarded; };
// offset (in elements) of a multi-index given by linear number k
static inline int64_t elOff(const mli_tensor& t, int64_t k) { int64_t o = 0; for (int i = (int)t.rank - 1; i >= 0; i--) { o += (k % t.shape[i]) * t.mem_stride[i]; k /= t.shape[i]; } return o; }
static inline int64_t numel(const mli_tensor& t) { int64_t n = 1; for (unsigned i = 0; i < t.rank; i++) n *= t.shape[i]; return n; }
static inline void mk(Tn& x, mli_element_type el, Shape s, int gap, const char* name) {
  memset(&x, 0, sizeof x);
  x.t.el_type = el; x.t.rank = s.rank; int64_t st = 1;
  for (int i = s.rank - 1; i >= 0; i--) { x.t.shape[i] = s.d[i]; x.t.mem_stride[i] = (int32_t)st; st = st * s.d[i] + gap; }
  int64_t span = 1; for (int i = 0; i < s.rank; i++) span += (int64_t)(s.d[i] - 1) * x.t.mem_stride[i];
  x.elems = (int)span; x.base = (char*)sx_alloc(span * esize(el), name);
  x.t.data.mem.pi8 = (int8_t*)x.base; x.t.data.capacity = (uint32_t)(span * esize(el));
  if (el == MLI_EL_SA_8 || el == MLI_EL_SA_32) { x.t.el_params.sa.type = MLI_EL_PARAM_SC16_ZP16; x.t.el_params.sa.dim = -1; x.t.el_params.sa.scale.mem.i16 = 1; }
}
// every element an unconstrained symbolic value; gap elements stay uninitialised; object read-only
static inline void fillSym(Tn& x, const char* name) {
  int64_t n = numel(x.t); for (int64_t k = 0; k < n; k++) wrt(x.base, x.t.el_type, elOff(x.t, k), sx_sym(name, elmin(x.t.el_type), elmax(x.t.el_type)));
  sx_readonly(x.base, 1);
}
static inline void fillRange(Tn& x, const char* name, int64_t lo, int64_t hi) {
  int64_t n = numel(x.t); for (int64_t k = 0; k < n; k++) wrt(x.base, x.t.el_type, elOff(x.t, k), sx_sym(name, lo, hi));
  sx_readonly(x.base, 1);
}
// output: gap elements hold symbolic values that must survive
static inline bool isGap(const mli_tensor& t, int64_t e) { for (unsigned i = 0; i < t.rank; i++) { int64_t q = e / t.mem_stride[i]; if (q >= t.shape[i]) return true; e -= q * t.mem_stride[i]; } return e != 0; }
struct Guard { int64_t v[64]; };
static inline void guardInit(Tn& x, Guard& g) { int n = 0; for (int e = 0; e < x.elems && n < 64; e++) if (isGap(x.t, e)) { g.v[n] = sx_sym("gap", elmin(x.t.el_type), elmax(x.t.el_type)); wrt(x.base, x.t.el_type, e, g.v[n]); n++; } }
static inline void guardCheck(Tn& x, Guard& g) { int n = 0; for (int e = 0; e < x.elems && n < 64; e++) if (isGap(x.t, e)) { sx_check(rd(x.base, x.t.el_type, e) == g.v[n], "elements of the output buffer outside the tensor keep their value"); n++; } }
static inline int64_t at(const Tn& x, int64_t i0, int64_t i1 = 0, int64_t i2 = 0, int64_t i3 = 0) { return rd(x.base, x.t.el_type, i0 * x.t.mem_stride[0] + i1 * x.t.mem_stride[1] + i2 * x.t.mem_stride[2] + i3 * x.t.mem_stride[3]); }
static inline void setFx(Tn& x, int frac) { x.t.el_params.fx.frac_bits = (int8_t)frac; }
static inline void setSa(Tn& x, int64_t zp, int64_t scale, int64_t sh) { x.t.el_params.sa.dim = -1; x.t.el_params.sa.zero_point.mem.i16 = (int16_t)zp; x.t.el_params.sa.scale.mem.i16 = (int16_t)scale; x.t.el_params.sa.scale_frac_bits.mem.i8 = (int8_t)sh; x.t.el_params.sa.zero_point.capacity = x.t.el_params.sa.scale.capacity = x.t.el_params.sa.scale_frac_bits.capacity = 0; }
// per-axis parameters: arrays of n entries
static inline void setSaAxis(Tn& x, int dim, int n, const int64_t* zp, const int64_t* scale, const int64_t* sh) {
  int16_t* z = (int16_t*)sx_alloc(2 * n, "zero points"); int16_t* s = (int16_t*)sx_alloc(2 * n, "scales"); int8_t* f = (int8_t*)sx_alloc(n, "scale frac bits");
  for (int i = 0; i < n; i++) { z[i] = (int16_t)zp[i]; s[i] = (int16_t)scale[i]; f[i] = (int8_t)sh[i]; }
  x.t.el_params.sa.dim = dim; x.t.el_params.sa.zero_point.mem.pi16 = z; x.t.el_params.sa.zero_point.capacity = 2 * n; x.t.el_params.sa.scale.mem.pi16 = s; x.t.el_params.sa.scale.capacity = 2 * n; x.t.el_params.sa.scale_frac_bits.mem.pi8 = f; x.t.el_params.sa.scale_frac_bits.capacity = n;
  sx_readonly(z, 1); sx_readonly(s, 1); sx_readonly(f, 1);
}
// ---- requantisation of weight-based sa8 kernels (independent statement of the 2.0 arithmetic)
struct Rq { int ratio, ratio_sh; };
static inline Rq rqInOut(int64_t sin, int64_t shin, int64_t sout, int64_t shout) {
  Rq r; int n1 = spec::norm(sin, 32); int64_t u = (sin << n1) / sout; int n2 = spec::norm(u, 32);
  r.ratio = (int)spec::sat(spec::rshift(u, 16 - n2, 32), 16); r.ratio_sh = (int)(shin + n1 - shout - (16 - n2)); return r;
}
static inline int64_t requantSa8(int64_t acc, Rq r, int64_t sw, int64_t shw, int64_t zpo) {
  int64_t mul = (int64_t)r.ratio * sw; int shift = r.ratio_sh + (int)shw; int pre = 0;
#ifndef FULL_ACCU
  int n = spec::norm(mul, 32); mul <<= n; shift += n;
  mul = spec::rshift(mul, 16, 32); shift -= 16;
  pre = shift - 21; if (pre < 0) pre = 0; if (pre > 8) pre = 8;
  acc = spec::sat(spec::rshift(acc, pre, 32), 16);
#endif
  int sh = shift - pre; if (sh > 63) sh = 63;
  int64_t v = spec::sat(spec::rshift(acc * mul, sh, 64), 16);
  return spec::sat(spec::sat(v + zpo, 16), 8);
}
static inline int64_t biasSa32(int64_t b) {
#ifndef FULL_ACCU
  int n = spec::norm(b, 32); int s = 16 - n; if (s < 0) s = 0; return (b >> s) * ((int64_t)1 << s);
#else
  return b;
#endif
}
// ReLU limits (type, zero point, scale of the output)
static inline void reluLim(mli_relu_type ty, bool asym, int W, int64_t zp, int64_t scale, int64_t sh, int64_t& lo, int64_t& hi) {
  int64_t zero = asym ? zp : 0, sc = asym ? scale : 1; lo = spec::minOf(W); hi = spec::maxOf(W);
  if (ty == MLI_RELU_GEN) lo = zero > lo ? zero : lo;
  else if (ty == MLI_RELU_6) { int64_t six = sh >= 0 ? (sh < 28 ? ((int64_t)6 << sh) / sc : hi) : (sh > -3 ? ((int64_t)6 >> -sh) / sc : 0); six += zero; lo = zero > lo ? zero : lo; hi = six < hi ? six : hi; }
  else if (ty == MLI_RELU_1) { int64_t one = sh >= 0 ? (sh < 30 ? ((int64_t)1 << sh) / sc : hi) : 0; int64_t a = zero - one, b = zero + one; lo = a > lo ? a : lo; hi = b < hi ? b : hi; }
}

// sa8 -> sa8 requantisation: scale * 2^-shift approximates in_scale / out_scale; offset = out_zp - scale * in_zp
struct RP { int64_t scale; int shift; int64_t offset; };
static inline RP requantParams(int64_t sin, int64_t shin, int64_t zin, int64_t sout, int64_t shout, int64_t zout) {
  RP r; int pre = spec::norm(sin, 32) - spec::norm(sout, 16); int64_t q = (sin << pre) / sout; int ns = 16 - spec::norm(q, 32);
  r.scale = spec::sat(spec::rshift(q, ns, 32), 16); r.shift = (int)(pre + shin - shout - ns);
  r.offset = spec::sat(zout - spec::sat(spec::rshift(r.scale * zin, r.shift, 32), 16), 16); return r;
}
