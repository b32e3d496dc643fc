// Tensor helpers: element counting, parameters, slicing; tensor conversion.
#include "tens.h"
#include "mli_debug.h"
static const mli_element_type EL[5] = {MLI_EL_FX_8, MLI_EL_FX_16, MLI_EL_SA_8, MLI_EL_SA_32, MLI_EL_FP_32};
static bool isSa(mli_element_type e) { return e == MLI_EL_SA_8 || e == MLI_EL_SA_32; }
extern "C" void h_info() {
  int rank = (int)sx_pick("rank", 0, 4), start = (int)sx_pick("start", 0, 4), e = (int)sx_pick("element type", 0, 4);
  mli_tensor t; memset(&t, 0, sizeof t); t.rank = rank; t.el_type = EL[e]; int64_t n = 1, st[4] = {0};
  for (int i = 0; i < rank; i++) t.shape[i] = (uint32_t)sx_sym("shape", 1, 200);
  for (int i = rank - 1; i >= 0; i--) { st[i] = i == rank - 1 ? 1 : st[i + 1] * t.shape[i + 1]; if (i >= start) n *= t.shape[i]; }
  bool ok = rank == 0 || start < rank;
  if (rank == 0) { if (start == 0) { int8_t dummy; t.data.mem.pi8 = &dummy; sx_check(mli_hlp_count_elem_num(&t, 0) == 1, "a tensor of rank 0 has one element"); } }
  else { uint32_t c = mli_hlp_count_elem_num(&t, start);
#if MLI_DEBUG_MODE == DBG_MODE_RET_CODES
    sx_check(c == (ok ? n : 0), "number of elements (0 for a dimension outside the rank)");
#else
    if (ok) sx_check(c == n, "number of elements");
#endif
  }
  sx_check((int)mli_hlp_tensor_element_size(&t) == esize(EL[e]), "element size");
  if (rank) { mli_hlp_set_tensor_mem_strides(&t); for (int i = 0; i < rank; i++) sx_check(t.mem_stride[i] == st[i], "memory stride"); }
  sx_check(mli_hlp_accu_guard_bits_sa8_sa8() == 16 && mli_hlp_accu_guard_bits_fx16_fx8() == 8 && mli_hlp_accu_guard_bits_fx16_fx16() == 32, "accumulator guard bits");
  sx_cover("done");
}
extern "C" void h_param() {
  int e = (int)sx_pick("element type", 0, 4), axis = (int)sx_pick("axis", 0, 2) - 1, idx = (int)sx_pick("index", 0, 2);
  Tn x; mk(x, EL[e], S2(3, 3), 0, "tensor"); bool sa = isSa(EL[e]); int64_t z[3], s[3], f[3];
  for (int i = 0; i < 3; i++) { z[i] = sx_sym("zero point", -32768, 32767); s[i] = sx_sym("scale", -32768, 32767); f[i] = sx_sym("frac", -128, 127); }
  int k = sa && axis >= 0 ? idx : 0;
  if (sa) { if (axis < 0) setSa(x, z[0], s[0], f[0]); else setSaAxis(x, axis, 3, z, s, f); } else setFx(x, (int)f[0]);
  sx_check(mli_hlp_tensor_scale(&x.t, idx) == (sa ? s[k] : 1), "scale"); sx_check(mli_hlp_tensor_zero_offset(&x.t, idx) == (sa ? z[k] : 0), "zero point");
  sx_check(mli_hlp_tensor_scale_shift(&x.t, idx) == (EL[e] == MLI_EL_FP_32 ? 0 : f[k]), "fractional bits");
  mli_tensor a = x.t, b = x.t; int64_t off = sx_sym("offset", -4, 4); b.data.mem.pi8 += off; int rb = (int)sx_concrete(idx); b.rank = rb;
  sx_check(mli_hlp_tensor_data_ptr_cmp(&a, &b) == (rb != 0 && off == 0), "data pointer comparison"); b = a; b.el_type = EL[(e + 1) % 5];
  sx_check(!mli_hlp_tensor_data_ptr_cmp(&a, &b), "different element types never share data"); sx_cover("done");
}
// create_subtensor: element (i) of the slice is element (offset + i) of the tensor
extern "C" void h_sub() {
  int rank = (int)sx_pick("rank", 1, 4), ones = (int)sx_pick("dimensions of size one", 0, 15), drop = (int)sx_pick("dropped", 0, 4), e = (int)sx_pick("element type", 0, 3), strided = (int)sx_pick("strides", 0, 2);
  int nones = 0; for (int i = 0; i < rank; i++) nones += ones >> i & 1; if ((ones >> rank) != 0 || drop > nones || drop == rank) return;
  int axis = isSa(EL[e]) ? (int)sx_pick("axis", 0, rank) - 1 : -1;
  Shape s; s.rank = rank; int64_t off[4], sz[4], sh[4]; 
  for (int i = 0; i < rank; i++) { sh[i] = sx_sym("shape", 1, 4); sz[i] = ones >> i & 1 ? 1 : sx_sym("size", 2, 4); off[i] = sx_sym("offset", 0, 3); sx_assume(off[i] + sz[i] <= sh[i]); }
  mli_tensor t; memset(&t, 0, sizeof t); t.rank = rank; t.el_type = EL[e]; int es = esize(EL[e]); char* base = (char*)sx_alloc(8000 * 4, "data"); t.data.mem.pi8 = (int8_t*)base; t.data.capacity = 8000 * 4;
  int64_t st[4], cur = 1; for (int i = rank - 1; i >= 0; i--) { if (strided == 2) cur += 1 - (i == rank - 1); st[i] = cur; t.shape[i] = (uint32_t)sh[i]; t.mem_stride[i] = strided ? (int32_t)cur : 0; cur *= sh[i]; }
  int64_t z[4], sc[4], f[4]; for (int i = 0; i < 4; i++) { z[i] = sx_sym("zero point", -128, 127); sc[i] = sx_sym("scale", 1, 32767); f[i] = sx_sym("frac", 0, 40); }
  if (axis >= 0) { Tn x; x.t = t; setSaAxis(x, axis, 4, z, sc, f); t = x.t; } else if (isSa(EL[e])) { Tn x; x.t = t; setSa(x, z[0], sc[0], f[0]); t = x.t; } else t.el_params.fx.frac_bits = (int8_t)f[0];
  mli_sub_tensor_cfg c; memset(&c, 0, sizeof c); for (int i = 0; i < rank; i++) { c.offset[i] = (uint32_t)off[i]; c.size[i] = (uint32_t)sz[i]; } c.sub_tensor_rank = rank - drop;
  int dropped = 0, left = drop; for (int i = 0; i < rank; i++) if (left && (ones >> i & 1)) { dropped |= 1 << i; left--; }
  mli_tensor o; memset(&o, 0, sizeof o); sx_check(mli_hlp_create_subtensor(&t, &c, &o) == MLI_STATUS_OK, "status");
  int64_t want = 0; for (int i = 0; i < rank; i++) want += off[i] * st[i];
  sx_check((char*)o.data.mem.pi8 - base == want * es, "first element"); sx_check(o.data.capacity == 8000 * 4 - want * es, "capacity"); sx_check((int)o.rank == rank - drop && o.el_type == EL[e], "rank and element type");
  int k = 0, naxis = -1; for (int i = 0; i < rank; i++) if (!(dropped >> i & 1)) { sx_check(o.shape[k] == sz[i], "shape"); sx_check(o.mem_stride[k] == st[i], "memory stride"); if (i == axis) naxis = k; k++; }
  if (!isSa(EL[e])) sx_check(o.el_params.fx.frac_bits == f[0], "fractional bits");
  else if (axis < 0 || naxis < 0) { int64_t z1 = z[0], s1 = sc[0], f1 = f[0]; if (axis >= 0) for (int i = 1; i < 4; i++) if (off[axis] == i) { z1 = z[i]; s1 = sc[i]; f1 = f[i]; }
    sx_check(o.el_params.sa.dim < 0, "quantisation axis"); sx_check(mli_hlp_tensor_zero_offset(&o, 0) == z1, "zero point"); sx_check(mli_hlp_tensor_scale(&o, 0) == s1, "scale"); sx_check(mli_hlp_tensor_scale_shift(&o, 0) == f1, "fractional bits of the scale"); }
  else { sx_check(o.el_params.sa.dim == naxis, "quantisation axis");
    sx_check(o.el_params.sa.zero_point.mem.pi16 - t.el_params.sa.zero_point.mem.pi16 == off[axis] && o.el_params.sa.scale.mem.pi16 - t.el_params.sa.scale.mem.pi16 == off[axis] && o.el_params.sa.scale_frac_bits.mem.pi8 - t.el_params.sa.scale_frac_bits.mem.pi8 == off[axis], "per-axis parameters of the slice"); }
  sx_cover("done");
}
extern "C" void h_point() {
  int rank = (int)sx_pick("rank", 1, 4), num = (int)sx_pick("coordinates", 1, 4), e = (int)sx_pick("element type", 0, 4); if (num > rank) return;
  mli_tensor t; memset(&t, 0, sizeof t); t.rank = rank; t.el_type = EL[e]; int es = esize(EL[e]); char* base = (char*)sx_alloc(256 * 4, "data"); t.data.mem.pi8 = (int8_t*)base; t.data.capacity = 256 * 4; int64_t sh[4], st[4], cur = 1, co[4];
  for (int i = rank - 1; i >= 0; i--) { sh[i] = sx_sym("shape", 1, 4); t.shape[i] = (uint32_t)sh[i]; st[i] = cur; cur *= sh[i]; }
  mli_point_to_subtsr_cfg c; memset(&c, 0, sizeof c); c.coord_num = num; int64_t first = sx_sym("first size", 1, 4), want = 0, n = first; c.first_out_dim_size = (uint8_t)first;
  for (int i = 0; i < num; i++) { co[i] = sx_sym("start", 0, 3); sx_assume(co[i] < sh[i]); c.start_coord[i] = (uint32_t)co[i]; want += co[i] * st[i]; } sx_assume(co[num - 1] + first <= sh[num - 1]);
  mli_tensor o; memset(&o, 0, sizeof o); int64_t f = sx_sym("frac", 0, 15); if (isSa(EL[e])) { Tn x; x.t = t; setSa(x, f, 3, 2); t = x.t; } else t.el_params.fx.frac_bits = (int8_t)f;
  sx_check(mli_hlp_point_to_subtensor(&t, &c, &o) == MLI_STATUS_OK, "status");
  sx_check((char*)o.data.mem.pi8 - base == want * es, "first element"); sx_check((int)o.rank == rank - num + 1 && o.el_type == EL[e], "rank and element type"); sx_check(o.shape[0] == first, "first dimension");
  for (int i = 1; i < rank - num + 1; i++) { sx_check(o.shape[i] == sh[num - 1 + i], "shape"); n *= sh[num - 1 + i]; }
  sx_check(o.data.capacity == n * es, "capacity"); if (isSa(EL[e])) sx_check(o.el_params.sa.zero_point.mem.i16 == f && o.el_params.sa.dim < 0, "parameters"); else sx_check(o.el_params.fx.frac_bits == f, "parameters"); sx_cover("done");
}
// ---- conversion
static const int64_t SC[5][2] = {{1, 4}, {16384, 18}, {30001, 17}, {21111, 12}, {17, 3}};
struct Fm { int64_t z, s, f; };
static Fm fm(mli_element_type el, int set, int k) { Fm r = {0, 1, 0}; if (isSa(el)) { r.s = SC[(set + k) % 5][0]; r.f = SC[(set + 2 * k) % 5][1] + k; } else r.f = el == MLI_EL_FX_8 ? 2 + set : 3 * set + 1; return r; }
// x in format a, as an element of type el in format b: exact arithmetic with the 15-bit ratio of the scales
static int64_t conv16(int64_t x, Fm a, Fm b, int W) { RP p = requantParams(a.s, a.f, a.z, b.s, b.f, b.z); int sh = p.shift > 31 ? 31 : p.shift; return spec::sat(spec::sadd(spec::rshift(spec::sat(x - a.z, 16) * p.scale, sh, 32), b.z, 32), W); }
// the 15-bit ratio of the scales is accurate: |ratio / 2^shift - (sa / 2^fa) / (sb / 2^fb)| <= 2^-13 of it (concrete arithmetic)
static void ratioOk(Fm a, Fm b) { RP p = requantParams(a.s, a.f, 0, b.s, b.f, 0); int d = p.shift - (int)(a.f - b.f); int64_t l = p.scale * b.s, r = a.s; if (d >= 0) r = d < 45 ? r << d : INT64_MAX; else l = l << -d; int64_t e = l > r ? l - r : r - l; sx_check(e <= r >> 13, "ratio of the scales"); }
// 32-bit paths: exact rounding of x * ratio / 2^shift whenever the result fits in 30 bits, else the bits below the 30 most significant ones are dropped
static int64_t conv32(int64_t x, int norm, Fm a, Fm b, int W) {
  RP p = requantParams(a.s, a.f, 0, b.s, b.f, 0); int sh = p.shift > 63 ? 63 : p.shift, m = spec::norm(p.scale, 32), s = sh + m + norm - 32; int64_t d = spec::sat(x - a.z, 32), y;
#ifdef ROUND_MODE_UP
  if (s >= 1) y = s >= 32 ? 0 : spec::sat(sh >= 63 ? 0 : (d * p.scale + ((int64_t)1 << (sh - 1))) >> sh, 32); else
#endif
  { int64_t hi = ((d * ((int64_t)1 << norm)) * (p.scale << m)) >> 32; y = spec::rshift(hi, s, 32); }
  return spec::sat(spec::sadd(y, b.z, 32), W);
}
static void convOne(int src, int dst, int set, int axs, int axd, int cls, bool inplace) {
  mli_element_type se = EL[src], de = EL[dst]; int rank = 1 + set % 3; Shape s; s.rank = rank; for (int i = 0; i < rank; i++) s.d[i] = i == 0 ? 2 : 1 + (i + set) % 2;
  int as = axs && isSa(se) ? 0 : -1, ad = axd && isSa(de) ? 0 : -1; Tn x, o; Guard g; mk(x, se, s, inplace ? 0 : set & 1, "source"); mk(o, de, s, inplace ? 0 : (set >> 1) & 1, "destination"); Fm a[2], b[2]; int64_t za[2], sa_[2], fa[2], zb[2], sb[2], fb[2];
  for (int i = 0; i < 2; i++) { int ka = as < 0 ? 0 : i, kb = ad < 0 ? 0 : i; a[i] = fm(se, set, ka); b[i] = fm(de, set + 1, kb); }
  for (int i = 0; i < 2; i++) { if (isSa(se)) a[i].z = i && as < 0 ? a[0].z : sx_sym("zp source", -128, 127); if (isSa(de)) b[i].z = i && ad < 0 ? b[0].z : sx_sym("zp destination", -128, 127); }
  for (int i = 0; i < 2; i++) { za[i] = a[i].z; sa_[i] = a[i].s; fa[i] = a[i].f; zb[i] = b[i].z; sb[i] = b[i].s; fb[i] = b[i].f; }
  if (isSa(se)) { if (as < 0) setSa(x, za[0], sa_[0], fa[0]); else setSaAxis(x, 0, 2, za, sa_, fa); } else setFx(x, (int)fa[0]);
  if (isSa(de)) { if (ad < 0) setSa(o, zb[0], sb[0], fb[0]); else setSaAxis(o, 0, 2, zb, sb, fb); } else setFx(o, (int)fb[0]);
  int n = (int)numel(x.t); int64_t v[16]; int nrm[16] = {0};
  for (int k = 0; k < n; k++) {
    if (se == MLI_EL_SA_32) { int64_t d = cls == 0 ? 0 : cls > 0 ? sx_sym("x - zp", (int64_t)1 << (cls - 1), ((int64_t)1 << cls) - 1) : sx_sym("x - zp", -((int64_t)1 << (-cls)), -((int64_t)1 << (-cls - 1)) - 1); int q = k / (n / 2); v[k] = d + a[q].z; sx_assume(v[k] <= INT32_MAX && v[k] >= INT32_MIN); }
    else if (de == MLI_EL_SA_32) { int q = k / (n / 2); int64_t d = cls == 0 ? 0 : cls > 0 ? sx_sym("x - zp", (int64_t)1 << (cls - 1), ((int64_t)1 << cls) - 1) : sx_sym("x - zp", -((int64_t)1 << (-cls)), -((int64_t)1 << (-cls - 1)) - 1); v[k] = d + a[q].z; sx_assume(v[k] <= elmax(se) && v[k] >= elmin(se)); }
    else v[k] = sx_sym("x", elmin(se), elmax(se));
    nrm[k] = cls == 0 ? 31 : cls == 32 || cls == -32 ? 0 : 31 - (cls < 0 ? -cls : cls);
    wrt(x.base, se, elOff(x.t, k), v[k]);
  }
  if (inplace) o.t.data = x.t.data; else { sx_readonly(x.base, 1); guardInit(o, g); }
  sx_check(((set & 1) ? mli_hlp_convert_tensor_safx(&x.t, &o.t) : mli_hlp_convert_tensor(&x.t, &o.t)) == MLI_STATUS_OK, "status");
  for (int k = 0; k < n; k++) {
    int q = k / (n / 2); int64_t got = rd(inplace ? x.base : o.base, de, elOff(o.t, k)); sx_obs(got);
    if (se != MLI_EL_SA_32 && de != MLI_EL_SA_32) sx_check(got == conv16(v[k], a[q], b[q], esize(de) * 8), "converted value");
    else sx_check(got == conv32(v[k], nrm[k], a[q], b[q], esize(de) * 8), "converted value (32-bit)");
    ratioOk(a[q], b[q]);
  }
  if (!inplace) guardCheck(o, g); sx_cover("done");
}
extern "C" void h_conv() {
  int src = (int)sx_pick("source type", 0, 2), dst = (int)sx_pick("destination type", 0, 2), set = (int)sx_pick("formats", 0, 4), as = 0, ad = 0; if (src == 2) as = (int)sx_pick("source per axis", 0, 1); if (dst == 2) ad = (int)sx_pick("destination per axis", 0, 1);
  bool ip = esize(EL[src]) == esize(EL[dst]) && sx_pick("in place", 0, 1); convOne(src, dst, set, as, ad, 0, ip);
}
extern "C" void h_conv32() {
  int dir = (int)sx_pick("direction", 0, 4), set = (int)sx_pick("formats", 0, sx_tier() ? 4 : 1), ax = (int)sx_pick("per axis", 0, 1);   // 8->32, 16->32, 32->8, 32->16, 32->32
  // the class of x - zp by magnitude keeps the normalisation shift concrete
  int src = dir == 0 ? 2 * (set & 1) : dir == 1 ? 1 : 3, dst = dir == 2 ? 2 * (set & 1) : dir == 3 ? 1 : 3, cls = 0; if (src == 3) cls = (int)sx_pick("magnitude", -32, 32); else cls = (int)sx_pick("magnitude", src == 1 ? -15 : -9, src == 1 ? 15 : 9);
  convOne(src, dst, set, ax, ax, cls, false);
}
