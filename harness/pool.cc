// MLI 2.0 average and max pooling.
#include "tens.h"
typedef mli_status (*Pfn)(const mli_tensor*, const mli_pool_cfg*, mli_tensor*);
enum Kind { SA8, FX16, FX8 };
#ifndef KIND
#define KIND SA8
#endif
#define PSEL(base, suf) (KIND == SA8 ? (Pfn)base##_sa8##suf : KIND == FX16 ? (Pfn)base##_fx16##suf : (Pfn)base##_fx8##suf)
struct PP { Pfn f; bool avg; int H, W, C, kh, kw, sh, sw, pt, pb, pl, pr, gap, fin, fout, cut; };
static const int SC[3][4] = {{21846, 15, 17001, 12}, {16384, 14, 16384, 14}, {30001, 20, 19000, 17}};
static void run(const PP& p, int sc) {
  mli_element_type el = KIND == SA8 ? MLI_EL_SA_8 : KIND == FX16 ? MLI_EL_FX_16 : MLI_EL_FX_8; int Wd = KIND == FX16 ? 16 : 8;
  sx_assume(p.H + p.pt + p.pb >= p.kh && p.W + p.pl + p.pr >= p.kw);
  int oh = (p.H + p.pt + p.pb - p.kh) / p.sh + 1, ow = (p.W + p.pl + p.pr - p.kw) / p.sw + 1;
  if (p.cut) { if (ow > 1) ow--; if (oh > 1) oh--; }
  mli_pool_cfg cfg; memset(&cfg, 0, sizeof cfg);
  cfg.kernel_width = p.kw; cfg.kernel_height = p.kh; cfg.stride_width = p.sw; cfg.stride_height = p.sh; cfg.padding_left = p.pl; cfg.padding_right = p.pr; cfg.padding_top = p.pt; cfg.padding_bottom = p.pb;
  Tn in, o; Guard g; mk(in, el, S3(p.H, p.W, p.C), p.gap, "input"); mk(o, el, S3(oh, ow, p.C), p.gap, "output");
  int64_t zi = 0, zo = 0;
  if (KIND == SA8) { zi = sx_sym("zp_in", -128, 127); zo = sx_sym("zp_out", -128, 127); setSa(in, zi, SC[sc][0], SC[sc][1]); setSa(o, zo, SC[sc][2], SC[sc][3]); } else { setFx(in, p.fin); setFx(o, p.fout); }
  fillSym(in, "in"); guardInit(o, g);
  mli_status st = p.f(&in.t, &cfg, &o.t); sx_check(st == MLI_STATUS_OK, "status");
  if (!p.avg) {
    if (KIND == SA8) sx_check(o.t.el_params.sa.zero_point.mem.i16 == zi && o.t.el_params.sa.scale.mem.i16 == SC[sc][0] && o.t.el_params.sa.scale_frac_bits.mem.i8 == SC[sc][1], "max pooling keeps the quantisation parameters");
    else sx_check(o.t.el_params.fx.frac_bits == p.fin, "max pooling keeps the fraction bits");
  }
  for (int y = 0; y < oh; y++) for (int x = 0; x < ow; x++) for (int c = 0; c < p.C; c++) {
    int64_t mx = elmin(el), sum = 0; int n = 0;
    for (int i = 0; i < p.kh; i++) for (int j = 0; j < p.kw; j++) {
      int yy = y * p.sh - p.pt + i, xx = x * p.sw - p.pl + j; if (yy < 0 || yy >= p.H || xx < 0 || xx >= p.W) continue;
      int64_t e = at(in, yy, xx, c); mx = e > mx ? e : mx; sum += e; n++;
    }
    int64_t v;
    if (!p.avg) v = mx;
    else {
      int s = 14, f = 1; while (f < n) { f *= 2; s++; } int64_t mul = ((int64_t)1 << s) / n;     // 1/n normalised to 15 bits, rounded down
      int64_t off = 0;
      if (KIND == SA8) { RP r = requantParams(SC[sc][0], SC[sc][1], zi, SC[sc][2], SC[sc][3], zo); mul *= r.scale; off = r.offset;
#ifdef AVEPOOL_16BIT_MUL
        const int MW = 16;
#else
        const int MW = 8;
#endif
        int ns = 32 - MW - spec::norm(mul, 32); mul = spec::sat(spec::rshift(mul, ns, 32), MW); s += r.shift - ns; }
      else s += p.fin - p.fout;
      int AW = KIND == FX16 ? 64 : 32; int64_t acc = sum * mul + (s >= 0 ? spec::shl_sat(off, s, AW) : off >> -s);
      v = spec::sat(spec::rshift(acc, s, AW), Wd);
    }
    sx_obs(at(o, y, x, c)); sx_check(at(o, y, x, c) == v, "output value");
  }
  guardCheck(o, g); sx_cover("done");
}
static void geom(PP& p, int k) {   // k: 0 variable kernel
  int T = (int)sx_tier(); memset(&p, 0, sizeof p); p.H = 3; p.W = 4; p.C = 2; p.fin = 7; p.fout = 9;
  if (k) { p.kh = p.kw = k; } else { p.kh = (int)sx_pick("kh", 1, 3); p.kw = (int)sx_pick("kw", 1, 4); }
  p.sh = (int)sx_pick("stride_h", 1, 2); p.sw = T ? (int)sx_pick("stride_w", 1, 3) : 3 - p.sh;
  int pd = (int)sx_pick("pads", 0, 5);    // 0 none, 1 top+right, 2 left+bottom, 3 all, 4 wide left/top, 5 wide right/bottom
  p.pt = pd == 1 || pd == 3 ? 1 : pd == 4 ? 2 : 0; p.pb = pd == 2 || pd == 3 ? 1 : pd == 5 ? 2 : 0; p.pl = pd == 2 || pd == 3 ? 1 : pd == 4 ? 2 : 0; p.pr = pd == 1 || pd == 3 ? 1 : pd == 5 ? 2 : 0;
  auto cap = [](int& v, int m) { if (v > m - 1) v = m - 1; }; cap(p.pt, p.kh); cap(p.pb, p.kh); cap(p.pl, p.kw); cap(p.pr, p.kw);
  p.gap = (p.sh + pd) & 1; p.cut = T ? (int)sx_pick("cut", 0, 1) : (pd == 3 && p.sh == 1);
}
extern "C" void avg_gen() { PP p; geom(p, 0); p.avg = true; p.f = PSEL(mli_krn_avepool_hwc, ); run(p, (p.kh + p.kw) % 3); }
extern "C" void avg_k2() { PP p; geom(p, 2); p.avg = true; p.f = PSEL(mli_krn_avepool_hwc, _k2x2); p.fin = 10; p.fout = 7; run(p, 1); }
extern "C" void avg_k3() { PP p; geom(p, 3); p.avg = true; p.f = PSEL(mli_krn_avepool_hwc, _k3x3); p.fin = 0; p.fout = 15; run(p, 2); }
extern "C" void avg_big() {
  PP p; memset(&p, 0, sizeof p); int n = (int)sx_pick("area", 5, sx_tier() ? 260 : 34); p.fin = 7; p.fout = 9; p.kh = 1; p.kw = n; p.H = 1; p.W = n; p.C = 1; p.sh = p.sw = 1; p.avg = true; p.f = PSEL(mli_krn_avepool_hwc, ); run(p, n % 3);
}
extern "C" void max_gen() { PP p; geom(p, 0); p.f = PSEL(mli_krn_maxpool_hwc, ); run(p, 0); }
extern "C" void max_k2() { PP p; geom(p, 2); p.f = PSEL(mli_krn_maxpool_hwc, _k2x2); run(p, 0); }
extern "C" void max_k3() { PP p; geom(p, 3); p.f = PSEL(mli_krn_maxpool_hwc, _k3x3); run(p, 0); }
