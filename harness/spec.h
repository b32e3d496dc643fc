// Independent arithmetic specification used by the harnesses (never calls library code).
#pragma once
#include <cstdint>
namespace spec {
constexpr int64_t maxOf(int W) { return W == 64 ? INT64_MAX : ((int64_t)1 << (W - 1)) - 1; }
constexpr int64_t minOf(int W) { return -maxOf(W) - 1; }
static inline int64_t sat(int64_t x, int W) { int64_t r = x; if (r > maxOf(W)) r = maxOf(W); if (r < minOf(W)) r = minOf(W); return r; }
// x + y saturated to W bits (operands are W-bit values)
static inline int64_t sadd(int64_t x, int64_t y, int W) {
  if (W < 64) return sat(x + y, W);
  if (y > 0) { if (x > INT64_MAX - y) return INT64_MAX; } else { if (x < INT64_MIN - y) return INT64_MIN; }
  return x + y;
}
// x * 2^n saturated to W bits
static inline int64_t shl_sat(int64_t x, int n, int W) {
  if (n >= W) { if (x == 0) return 0; return x < 0 ? minOf(W) : maxOf(W); }
  if (W <= 32 && n <= 31) return sat(x * ((int64_t)1 << n), W);
  int64_t hi = maxOf(W) >> n, lo = minOf(W) >> n;
  if (x > hi) return maxOf(W);
  if (x < lo) return minOf(W);
  return x * (int64_t)((uint64_t)1 << n);
}
// rounding arithmetic shift of a W-bit value; n > 0 right, n < 0 saturating left.  The rounding mode is the
// one the library was configured with; in mode UP the rounding constant is added with saturation.
static inline int64_t rshift(int64_t x, int n, int W) {
  if (n == 0) return x;
  if (n < 0) return shl_sat(x, -n, W);
  if (n >= W) return 0;
#ifdef ROUND_MODE_UP
  return sadd(x, (int64_t)1 << (n - 1), W) >> n;
#else
  // half to even, as a bit formula (m_shift* of math.cc compares it with the definition by remainders)
  int64_t r = x >> n, half = (int64_t)((uint64_t)1 << (n - 1)), mask = half - 1;
  if ((x & half) != 0 && ((r & 1) != 0 || (x & mask) != 0)) return sadd(r, 1, W);
  return r;
#endif
}
static inline int norm(int64_t x, int W) {   // number of redundant sign bits
  if (x == 0) return W - 1;
  int n = 0; int64_t lim = (int64_t)1 << (W - 2);
  while (!(x >= lim || x < -lim)) { lim >>= 1; n++; }
  return n;
}
}  // namespace spec
