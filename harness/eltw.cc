// MLI 2.0 element-wise add, sub, mul, min, max (with scalar broadcast).
#include "tens.h"
typedef mli_status (*Efn)(const mli_tensor*, const mli_tensor*, mli_tensor*);
enum Kind { SA8, FX16, FX8 };
#ifndef KIND
#define KIND SA8
#endif
enum Op { ADD, SUB, MUL, MIN, MAX };
#define E3(b) (KIND == SA8 ? b##_sa8 : KIND == FX16 ? b##_fx16 : b##_fx8)
static int64_t norm32(int64_t v, int W, int& sh) { int n = spec::norm(v, 32); sh = (32 - W) - n; return W == 32 ? spec::rshift(v, sh, 32) : spec::sat(spec::rshift(v, sh, 32), 16); }
static int clampExtra(int post, int up) { int s = 0; if (post > up) s = post - up; if (post < -31) s = post + 31; return s; }
static const int64_t SC[4][6] = {{21846, 15, 30001, 14, 17001, 13}, {16384, 14, 16384, 14, 16384, 14}, {30001, 25, 16999, 3, 19000, 8}, {20001, 2, 32767, 28, 16390, 17}};
static const int FRB[6][3] = {{7, 7, 7}, {3, 9, 5}, {9, 3, 12}, {0, 0, 15}, {15, 12, 0}, {-2, 4, 1}};
static void run(Op op, int sh, int gap, int qs) {    // sh: 0 same shapes, 1 first scalar, 2 second scalar, 3 both scalars
  Efn f = op == ADD ? E3(mli_krn_eltwise_add) : op == SUB ? E3(mli_krn_eltwise_sub) : op == MUL ? E3(mli_krn_eltwise_mul) : op == MIN ? E3(mli_krn_eltwise_min) : E3(mli_krn_eltwise_max);
  const bool sa = KIND == SA8, mm = op == MIN || op == MAX; mli_element_type el = sa ? MLI_EL_SA_8 : KIND == FX16 ? MLI_EL_FX_16 : MLI_EL_FX_8; int W = KIND == FX16 ? 16 : 8;
  Shape big[6] = {S1(5), S2(2, 3), S3(2, 1, 3), S4(2, 2, 1, 2), S4(1, 2, 2, 2), S3(1, 2, 2)}; int si = sx_tier() ? (int)sx_pick("shape", 0, 5) : (sh + gap + qs) & 3;
  Tn a, b, o; Guard g; Shape one[3] = {S1(1), S2(1, 1), {0, {0, 0, 0, 0}}}; int sr = (si + sh + op) % 3;
  if (sh & 1) mk(a, el, one[sr], 0, "in1"); else mk(a, el, big[si], gap & 1 ? 2 : 0, "in1");
  if (sh & 2) mk(b, el, one[sh == 3 && sr == 2 ? 0 : sr], 0, "in2"); else mk(b, el, big[si], gap & 2 ? 1 : 0, "in2");
  if (sh == 3) mk(o, el, one[sr == 2 ? 0 : sr], 0, "out"); else mk(o, el, big[si], gap & 2 ? 3 : 0, "out");
  int64_t z1 = 0, z2 = 0, zo = 0, c1 = SC[qs & 3][0], c2 = SC[qs & 3][2], co = SC[qs & 3][4]; int s1 = (int)SC[qs & 3][1], s2 = (int)SC[qs & 3][3], so = (int)SC[qs & 3][5];
  int f1 = FRB[qs][0], f2 = FRB[qs][1], fo = FRB[qs][2]; if (mm) { c2 = c1; s2 = s1; f2 = f1; }
  if (sa) { z1 = sx_sym("zp1", -128, 127); z2 = mm ? z1 : sx_sym("zp2", -128, 127); zo = sx_sym("zpo", -128, 127); setSa(a, z1, c1, s1); setSa(b, z2, c2, s2); setSa(o, zo, co, so); }
  else { setFx(a, f1); setFx(b, f2); setFx(o, fo); }
  // a rank-0 operand holds its value itself instead of a pointer to it
  fillSym(a, "a"); fillSym(b, "b");
  auto imm = [&](Tn& x) { if (x.t.rank == 0) { int64_t v = rd(x.base, el, 0); x.t.data.mem.pi8 = 0; if (el == MLI_EL_FX_16) x.t.data.mem.i16 = (int16_t)v; else x.t.data.mem.i8 = (int8_t)v; } }; imm(a); imm(b); guardInit(o, g);
  sx_check(f(&a.t, &b.t, &o.t) == MLI_STATUS_OK, "status");
  int64_t n = numel(o.t);
  int q1 = 0, q2 = 0, post = 0; int64_t m1 = 1, m2 = 1;
  if (sa) {
    int t; int64_t v;
    if (mm) { v = norm32(c1, 32, t) / co; post = s1 - so - t; m1 = norm32(v, 16, t); post -= t; t = clampExtra(post, 23); m1 = spec::rshift(m1, t, 16); post -= t; m2 = m1; }
    else if (op == MUL) { v = norm32(c1 * c2, 32, t) / co; post = s1 + s2 - so - t; m1 = norm32(v, 16, t); post -= t; t = clampExtra(post, 31); m1 = spec::rshift(m1, t, 16); post -= t; }
    else { v = norm32(c1, 32, t) / co; q1 = s1 - so - t; m1 = norm32(v, 16, t); q1 -= t; t = clampExtra(q1, 23); m1 = spec::rshift(m1, t, 16); q1 -= t;
           v = norm32(c2, 32, t) / co; q2 = s2 - so - t; m2 = norm32(v, 16, t); q2 -= t; t = clampExtra(q2, 23); m2 = spec::rshift(m2, t, 16); q2 -= t; }
  } else if (op == MUL) { post = f1 + f2 - fo; if (post > 2 * W - 1) post = 2 * W - 1; }
  else if (mm) { post = f1 - fo; if (post > W - 1) post = W - 1; }
  else { q1 = f1 < f2 ? f1 - f2 : 0; q2 = f2 < f1 ? f2 - f1 : 0; post = (f1 > f2 ? f1 : f2) - fo; if (post > 2 * W - 1) post = 2 * W - 1; }
  for (int64_t k = 0; k < n; k++) {
    int64_t x = rd(a.base, el, sh & 1 ? 0 : elOff(a.t, k)), y = rd(b.base, el, sh & 2 ? 0 : elOff(b.t, k)), v;
    if (sa) {
      x -= z1; y -= z2;
      if (op == MUL) {
        int64_t acc = x * y; int pre = post - 21; if (pre < 0) pre = 0; if (pre > 3) pre = 3;
        acc = spec::sat(spec::rshift(acc, pre, 32), 16); v = spec::sat(spec::rshift(acc * m1, post - pre, 32), 16);
      } else {
        x *= m1; y *= m2;
        if (mm) { int64_t e = op == MAX ? (x > y ? x : y) : (x < y ? x : y); v = spec::sat(spec::rshift(e, post, 32), 16); }
        else { x = spec::rshift(x, q1, 32); y = spec::rshift(y, q2, 32); v = spec::sat(spec::sadd(x, op == ADD ? y : -y, 32), 16); }
      }
      v = spec::sat(spec::sat(v + zo, 16), 8);
    } else if (op == MUL) v = spec::sat(spec::rshift(x * y, post, 64), W);
    else if (mm) { int64_t e = op == MAX ? (x > y ? x : y) : (x < y ? x : y); v = spec::sat(spec::rshift(e, post, W), W); }
    else { x = spec::rshift(x, q1, 32); y = spec::rshift(y, q2, 32); v = spec::sat(spec::rshift(spec::sat(op == ADD ? x + y : x - y, 32), post, 64), W); }
    int64_t got = rd(o.base, el, elOff(o.t, k)); sx_obs(got); sx_check(got == v, "output value");
  }
  guardCheck(o, g); sx_cover("done");
}
#define ENT(name, op) extern "C" void name() { int sh = (int)sx_pick("scalar", 0, 3); int q = (int)sx_pick("params", 0, KIND == SA8 ? 3 : 5); int gap = sh == 3 ? 0 : sx_tier() ? (int)sx_pick("gap", 0, 3) : (sh + q + op) & 3; run(op, sh, gap, q); }
ENT(e_add, ADD) ENT(e_sub, SUB) ENT(e_mul, MUL) ENT(e_min, MIN) ENT(e_max, MAX)
