// Fixed point primitives (lib/src/pal/ref/mli_math.h) against exact integer arithmetic.
#include "sx.h"
#include "spec.h"
#include "mli_config.h"
#include "mli_types.h"
#include "mli_debug.h"
#include "mli_math.h"
template <typename T> static int64_t symT(const char* n) { return sx_sym(n, std::numeric_limits<T>::lowest(), std::numeric_limits<T>::max()); }
#define EQ(a, b, label) do { int64_t r_ = (int64_t)(a); sx_obs(r_); sx_check(r_ == (int64_t)(b), label); } while (0)
// value of the real quotient x / 2^n rounded per the configured mode, from the definition of rounding (no saturation)
template <typename T> static void nearest(int64_t x, int n, int64_t r) {
  const int W = sizeof(T) * 8;
  if (n < 1 || n >= W || W == 64) return;      // distance form needs headroom: checked for 8, 16, 32 bit types
  int64_t d2 = 2 * x - r * ((int64_t)2 << n) / 1; d2 = 2 * (x - r * ((int64_t)1 << n));   // twice the distance, |d2| <= 2^n
  int64_t u = (int64_t)1 << n;
#ifdef ROUND_MODE_UP
  if (x + u / 2 <= spec::maxOf(W)) sx_check(d2 >= -u && d2 < u, "rounded right shift is the nearest integer, ties upwards");
#else
  sx_check(d2 >= -u && d2 <= u, "rounded right shift is a nearest integer");
  if (d2 == u || d2 == -u) sx_check((r & 1) == 0, "ties go to the even integer");
#endif
}
template <typename T> static void shifts() {
  const int W = sizeof(T) * 8; int n = (int)sx_pick("n", -(W + 3), W + 3); int64_t x = symT<T>("x");
  EQ(mli_math_asr_rnd_fx<T>((T)x, n), spec::rshift(x, n, W), "rounding shift right / saturating shift left");
  nearest<T>(x, n, mli_math_asr_rnd_fx<T>((T)x, n));
  EQ(mli_math_asl_rnd_fx<T>((T)x, n), spec::rshift(x, -n, W), "rounding shift left");
  int64_t fl = n >= W ? (x < 0 ? -1 : 0) : n >= 0 ? (x >> n) : spec::shl_sat(x, -n, W);
  EQ(mli_math_asr_fx<T>((T)x, n), fl, "arithmetic shift right");
  int64_t fl2 = -n >= W ? (x < 0 ? -1 : 0) : n < 0 ? (x >> -n) : spec::shl_sat(x, n, W);
  EQ(mli_math_asl_fx<T>((T)x, n), fl2, "saturating shift left");
  EQ((mli_math_ashift_right_fx<T>((T)x, n)), spec::rshift(x, n, W), "ashift_right");
  if (n >= 0 && n < W) EQ(mli_math_sat_fx<T>((T)x, n), spec::sat(x, W - n), "saturation to fewer bits");
  sx_cover("done");
}
extern "C" void m_shift8() { shifts<int8_t>(); }
extern "C" void m_shift16() { shifts<int16_t>(); }
extern "C" void m_shift32() { shifts<int32_t>(); }
extern "C" void m_shift64() { shifts<int64_t>(); }
template <typename T> static void arith() {
  const int W = sizeof(T) * 8; int64_t x = symT<T>("x"), y = symT<T>("y");
  EQ(mli_math_add_fx<T>((T)x, (T)y), spec::sadd(x, y, W), "saturating add");
  int64_t d; if (W < 64) d = spec::sat(x - y, W); else { if (y < 0) d = x > INT64_MAX + y ? INT64_MAX : x - y; else d = x < INT64_MIN + y ? INT64_MIN : x - y; }
  EQ(mli_math_sub_fx<T>((T)x, (T)y), d, "saturating subtract");
  EQ(mli_math_neg_fx<T>((T)x), x == spec::minOf(W) ? spec::maxOf(W) : -x, "saturating negate");
  EQ(mli_math_abs_fx<T>((T)x), x == spec::minOf(W) ? spec::maxOf(W) : x < 0 ? -x : x, "saturating abs");
  EQ(mli_math_max_fx<T>((T)x, (T)y), x > y ? x : y, "max"); EQ(mli_math_min_fx<T>((T)x, (T)y), x < y ? x : y, "min");
  EQ(mli_math_limit_fx<T>((T)x), x < 0 ? spec::minOf(W) : spec::maxOf(W), "limit");
  sx_cover("done");
}
extern "C" void m_arith() { int t = (int)sx_pick("type", 0, 3); if (t == 0) arith<int8_t>(); else if (t == 1) arith<int16_t>(); else if (t == 2) arith<int32_t>(); else arith<int64_t>(); }
template <typename T> static void normT() {
  const int W = sizeof(T) * 8; int64_t x = symT<T>("x"); int n = mli_math_norm_fx<T, int>((T)x); sx_obs(n);
  sx_check(n >= 0 && n <= W - 1, "norm in range");
  if (x == 0) sx_check(n == W - 1, "norm of zero");
  else {
    n = (int)sx_concrete(n);
    int64_t y = (int64_t)((uint64_t)x << n); bool fits = (y >> n) == x && y >= spec::minOf(W) && y <= spec::maxOf(W);
    sx_check(fits, "x << norm(x) does not overflow");
    if (x != -1) sx_check(y >= ((int64_t)1 << (W - 2)) || y < -((int64_t)1 << (W - 2)), "x << norm(x) is normalised");
    else sx_check(n == W - 1, "norm of -1");
  }
  sx_cover("done");
}
extern "C" void m_norm() { int t = (int)sx_pick("type", 0, 3); if (t == 0) normT<int8_t>(); else if (t == 1) normT<int16_t>(); else if (t == 2) normT<int32_t>(); else normT<int64_t>(); }
// casts: round, then saturate to the destination
template <typename I, typename O> static void castT(int n, int64_t x) { EQ((mli_math_cast_fx<I, O>((I)x, n)), spec::sat(spec::rshift(x, n, sizeof(I) * 8), sizeof(O) * 8), "cast: shift, round, saturate"); }
extern "C" void m_cast() {
  int t = (int)sx_pick("kind", 0, 12);
  static const int WI[13] = {16, 8, 8, 16, 32, 32, 32, 64, 64, 64, 32, 32, 32};
  int W = WI[t], n = (int)sx_pick("n", -(W + 1), W + 1); int64_t x = sx_sym("x", spec::minOf(W), spec::maxOf(W));
  switch (t) {
    case 0: castT<int16_t, int8_t>(n, x); break; case 1: castT<int8_t, int8_t>(n, x); break;
    case 2: EQ((mli_math_cast_fx<int8_t, int16_t>((int8_t)x, n)), spec::rshift(x, n, 16), "widening cast"); break;
    case 3: castT<int16_t, int16_t>(n, x); break; case 4: castT<int32_t, int8_t>(n, x); break; case 5: castT<int32_t, int16_t>(n, x); break; case 6: castT<int32_t, int32_t>(n, x); break;
    case 7: castT<int64_t, int8_t>(n, x); break; case 8: castT<int64_t, int16_t>(n, x); break; case 9: castT<int64_t, int32_t>(n, x); break;
    case 10: EQ((mli_math_acc_cast_fx<int8_t, mli_acc32_t>((int32_t)x, n)), spec::sat(spec::rshift(x, n, 32), 8), "accumulator to 8 bit"); break;
    case 11: EQ((mli_math_acc_cast_fx<int16_t, mli_acc32_t>((int32_t)x, n)), spec::sat(spec::rshift(x, n, 32), 16), "accumulator to 16 bit"); break;
    case 12: EQ((mli_math_acc_ashift_fx<mli_acc32_t>((int32_t)x, n)), spec::rshift(x, n, 32), "accumulator shift"); break;
  }
  sx_cover("done");
}
extern "C" void m_cast_nosh() {
  int64_t x = sx_sym("x", INT32_MIN, INT32_MAX), y = sx_sym("y", INT64_MIN, INT64_MAX);
  EQ((mli_math_cast_fx<int32_t, int16_t>((int32_t)x)), spec::sat(x, 16), "32 to 16 saturating"); EQ((mli_math_cast_fx<int64_t, int16_t>(y)), spec::sat(y, 16), "64 to 16 saturating");
  sx_cover("done");
}
// bias of a 16-bit kernel aligned to the 40-bit accumulator: shift must not wrap at 32 bits
extern "C" void m_cast_acc40() { int n = (int)sx_pick("n", -24, 17); int64_t x = sx_sym("x", -32768, 32767); EQ((mli_math_cast_fx<int16_t, mli_acc40_t>((int16_t)x, n)), spec::rshift(x, n, 64), "16-bit value to the wide accumulator"); sx_cover("done"); }
extern "C" void m_normcast() {   // mli_math_norm_cast_fx: value == mantissa * 2^shift up to truncation of a rounding step
  int64_t x = sx_sym("x", INT32_MIN, INT32_MAX); int32_t sh; int16_t m = mli_math_norm_cast_fx<int32_t, int16_t>((int32_t)x, &sh);
  int s = (int)sx_concrete(sh); sx_obs(m); sx_obs(s);
  sx_check(m == spec::sat(spec::rshift(x, s, 32), 16), "mantissa"); sx_check(s <= 16 && s >= -15, "shift range");
  sx_check(x == 0 || m > 16383 || m < -16383, "mantissa is normalised");
  sx_cover("done");
}
extern "C" void m_mul() {
  int64_t a = sx_sym("a", -128, 127), b = sx_sym("b", -128, 127), c = sx_sym("c", -32768, 32767), d = sx_sym("d", -32768, 32767), acc = sx_sym("acc", -(1 << 30), 1 << 30), wide = sx_sym("wide", -((int64_t)1 << 39), ((int64_t)1 << 39) - 1), e = sx_sym("e", INT32_MIN, INT32_MAX), f = sx_sym("f", INT32_MIN, INT32_MAX);
  EQ((mli_math_mac_fx<int8_t, int8_t, mli_acc32_t>((int32_t)acc, (int8_t)a, (int8_t)b)), acc + a * b, "mac 8x8");
  EQ((mli_math_mac_fx<int16_t, int8_t, mli_acc32_t>((int32_t)acc, (int16_t)c, (int8_t)b)), acc + c * b, "mac 16x8");
  EQ((mli_math_mac_fx<int8_t, int16_t, mli_acc32_t>((int32_t)acc, (int8_t)a, (int16_t)d)), acc + a * d, "mac 8x16");
  EQ((mli_math_mac_fx<int16_t, int16_t, mli_acc40_t>(wide, (int16_t)c, (int16_t)d)), wide + c * d, "mac 16x16");
  EQ((mli_math_mul_fx<int32_t, int64_t>((int32_t)e, (int32_t)f)), e * f, "mul 32x32");
  EQ((mli_math_mul_fx<int16_t, int32_t>((int16_t)c, (int16_t)d)), c * d, "mul 16x16");
  sx_cover("done");
}
