#include "expr.h"
#include <algorithm>
#include <cstring>
#include <cmath>

std::vector<VarInfo> g_vars;
std::vector<std::vector<I>> g_tables;
size_t g_nodes = 0;
int g_expandLimit = 600;

static const I INF = ((I)1) << 118;
static I satr(I v) { return v > INF ? INF : (v < -INF ? -INF : v); }
static I sadd(I a, I b) { if (a >= INF || b >= INF) return INF; if (a <= -INF || b <= -INF) return -INF; I r; if (__builtin_add_overflow(a, b, &r)) return a > 0 ? INF : -INF; return satr(r); }
static I smul(I a, I b) { I r; if (__builtin_mul_overflow(a, b, &r)) return ((a > 0) == (b > 0)) ? INF : -INF; return satr(r); }

std::string i2s(I v) {
  if (v == 0) return "0";
  bool n = v < 0; U u = n ? -(U)v : (U)v; std::string s;
  while (u) { s += char('0' + (int)(u % 10)); u /= 10; }
  if (n) s += '-';
  std::reverse(s.begin(), s.end()); return s;
}
I wrapSv(int w, I v) { if (w >= 128) return v; U m = (((U)1) << w) - 1; U u = (U)v & m; if (u >> (w - 1)) return (I)(u - (((U)1) << w)); return (I)u; }
I wrapUv(int w, I v) { if (w >= 128) return v; U m = (((U)1) << w) - 1; return (I)((U)v & m); }
I floorShr(I v, int k) { return k >= 127 ? (v < 0 ? -1 : 0) : (v >> k); }
int bitsFor(I lo, I hi) {
  int b = 1;
  while (b < 126) { I h = (((I)1) << (b - 1)) - 1; if (lo >= -h - 1 && hi <= h) break; b++; }
  return b;
}
static I gcdI(I a, I b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { I t = a % b; a = b; b = t; } return a; }
static int v2(I c) { if (c == 0) return 127; int k = 0; U u = (U)c; while (!(u & 1)) { u >>= 1; k++; } return k; }
static I floordiv(I a, I b) { I q = a / b, r = a % b; if (r != 0 && ((r < 0) != (b < 0))) q--; return q; }

// ---------------------------------------------------------------- hash consing
struct NodeHash {
  size_t operator()(const Node* n) const {
    uint64_t h = n->k * 1315423911u + n->sub * 31 + (uint64_t)n->aux * 0x9E3779B97F4A7C15ull;
    h ^= (uint64_t)n->c0 * 0xC2B2AE3D27D4EB4Full + (uint64_t)(n->c0 >> 64);
    for (E c : n->ch) h = (h ^ c->id) * 0x100000001b3ull + (h >> 29);
    for (I c : n->co) h = (h ^ (uint64_t)c ^ (uint64_t)(c >> 64) * 7) * 0x9E3779B97F4A7C15ull + (h >> 31);
    return h;
  }
};
struct NodeEq {
  bool operator()(const Node* a, const Node* b) const {
    return a->k == b->k && a->sub == b->sub && a->aux == b->aux && a->c0 == b->c0 && a->ch == b->ch && a->co == b->co;
  }
};
#include <unordered_set>
static std::unordered_set<const Node*, NodeHash, NodeEq> g_tab;

static E intern(Node& n) {
  auto it = g_tab.find(&n);
  if (it != g_tab.end()) return *it;
  Node* p = new Node(n);
  p->id = (uint32_t)g_nodes++;
  g_tab.insert(p);
  return p;
}
E konst(I v) {
  static E small[1024];
  if (v >= -512 && v < 512 && small[(int)v + 512]) return small[(int)v + 512];
  Node n; n.k = K_CONST; n.c0 = v; n.lo = n.hi = v;
  E e = intern(n);
  if (v >= -512 && v < 512) small[(int)v + 512] = e;
  return e;
}
int64_t asI64(E e) { if (e->k != K_CONST) throw std::runtime_error("asI64: not constant"); return (int64_t)e->c0; }
E mkvar(const std::string& name, I lo, I hi) {
  if (lo == hi) return konst(lo);
  int ix = (int)g_vars.size();
  g_vars.push_back({name, lo, hi});
  Node n; n.k = K_VAR; n.aux = ix; n.lo = lo; n.hi = hi; return intern(n);
}
int mktable(const std::vector<I>& v) {
  for (size_t i = 0; i < g_tables.size(); i++) if (g_tables[i] == v) return (int)i;
  g_tables.push_back(v); return (int)g_tables.size() - 1;
}

// ---------------------------------------------------------------- linear combinations
typedef std::vector<std::pair<E, I>> Terms;
static bool atomLess(E a, E b) { return a->id < b->id; }
struct Lin { I c0 = 0; Terms t; };
static Lin lin(E e) {
  Lin l;
  if (e->k == K_CONST) l.c0 = e->c0;
  else if (e->k == K_ADD) { l.c0 = e->c0; l.t.reserve(e->ch.size()); for (size_t i = 0; i < e->ch.size(); i++) l.t.push_back({e->ch[i], e->co[i]}); }
  else l.t.push_back({e, 1});
  return l;
}
static E fromLin(Lin& l) {
  if (l.t.empty()) return konst(l.c0);
  if (l.t.size() == 1 && l.c0 == 0 && l.t[0].second == 1) return l.t[0].first;
  Node n; n.k = K_ADD; n.c0 = l.c0; I lo = satr(l.c0), hi = satr(l.c0);
  for (auto& p : l.t) {
    n.ch.push_back(p.first); n.co.push_back(p.second);
    I a = smul(p.first->lo, p.second), b = smul(p.first->hi, p.second);
    lo = sadd(lo, std::min(a, b)); hi = sadd(hi, std::max(a, b));
  }
  n.lo = lo; n.hi = hi; return intern(n);
}
static I ckadd(I a, I b) { I r; if (__builtin_add_overflow(a, b, &r)) throw ovf_error(); return r; }
static I ckmul(I a, I b) { I r; if (__builtin_mul_overflow(a, b, &r)) throw ovf_error(); return r; }
static void linAcc(Lin& d, const Lin& s, I k) {    // d += k*s
  d.c0 = ckadd(d.c0, ckmul(s.c0, k));
  Terms r; r.reserve(d.t.size() + s.t.size());
  size_t i = 0, j = 0;
  while (i < d.t.size() || j < s.t.size()) {
    if (j >= s.t.size() || (i < d.t.size() && d.t[i].first->id < s.t[j].first->id)) r.push_back(d.t[i++]);
    else if (i >= d.t.size() || s.t[j].first->id < d.t[i].first->id) { I c = ckmul(s.t[j].second, k); if (c) r.push_back({s.t[j].first, c}); j++; }
    else { I c = ckadd(d.t[i].second, ckmul(s.t[j].second, k)); if (c) r.push_back({d.t[i].first, c}); i++; j++; }
  }
  d.t.swap(r);
}
E add(E a, E b) {
  if (a->k == K_CONST && b->k == K_CONST) return konst(ckadd(a->c0, b->c0));
  Lin x = lin(a); linAcc(x, lin(b), 1); return fromLin(x);
}
E sub(E a, E b) {
  if (a == b) return konst(0);
  if (a->k == K_CONST && b->k == K_CONST) return konst(ckadd(a->c0, ckmul(b->c0, -1)));
  Lin x = lin(a); linAcc(x, lin(b), -1); return fromLin(x);
}
E addc(E a, I c) { if (c == 0) return a; if (a->k == K_CONST) return konst(ckadd(a->c0, c)); Lin x = lin(a); x.c0 = ckadd(x.c0, c); return fromLin(x); }
E mulc(E a, I c) {
  if (c == 1) return a;
  if (c == 0) return konst(0);
  if (a->k == K_CONST) return konst(ckmul(a->c0, c));
  Lin x = lin(a); x.c0 = ckmul(x.c0, c); for (auto& p : x.t) p.second = ckmul(p.second, c);
  return fromLin(x);
}
E neg(E a) { return mulc(a, -1); }

static E mulNode(std::vector<E> f) {   // product of >=1 atoms (no CONST, no MUL inside)
  // merge booleans (idempotent) and powers of two
  std::sort(f.begin(), f.end(), atomLess);
  if (f.size() == 1) return f[0];
  Node n; n.k = K_MUL; n.ch = f;
  I lo, hi;
  // range, with squares
  bool first = true; lo = hi = 1;
  for (size_t i = 0; i < f.size();) {
    size_t j = i; while (j < f.size() && f[j] == f[i]) j++;
    I l = f[i]->lo, h = f[i]->hi;
    I pl = 1, ph = 1; bool ff = true;
    if (l <= 0 && h >= 0 && (j - i) % 2 == 0) {
      I m = std::max(-l, h); I v = 1; for (size_t q = i; q < j; q++) v = smul(v, m); pl = 0; ph = v;
    } else {
      for (size_t q = i; q < j; q++) {
        if (ff) { pl = l; ph = h; ff = false; continue; }
        I c[4] = {smul(pl, l), smul(pl, h), smul(ph, l), smul(ph, h)};
        pl = *std::min_element(c, c + 4); ph = *std::max_element(c, c + 4);
      }
    }
    if (first) { lo = pl; hi = ph; first = false; }
    else { I c[4] = {smul(lo, pl), smul(lo, ph), smul(hi, pl), smul(hi, ph)}; lo = *std::min_element(c, c + 4); hi = *std::max_element(c, c + 4); }
    i = j;
  }
  n.lo = lo; n.hi = hi; return intern(n);
}
static void factorsOf(E m, std::vector<E>& f) { if (m->k == K_MUL) f.insert(f.end(), m->ch.begin(), m->ch.end()); else f.push_back(m); }
// product of two non-constant atoms/monomials; may be any expression
static E mulAtoms(E a, E b) {
  if (isBool(a) && isBool(b)) return andB(a, b);
  if (isBool(a)) return iteE(a, b, konst(0));
  if (isBool(b)) return iteE(b, a, konst(0));
  std::vector<E> f; factorsOf(a, f); factorsOf(b, f);
  E p2 = nullptr; std::vector<E> g;
  for (E x : f) { if (x->k == K_POW2) p2 = p2 ? add(p2, x->ch[0]) : x->ch[0]; else g.push_back(x); }
  if (p2) {
    E q = pow2(p2);
    // pow2 may carry a constant factor
    Lin l = lin(q);
    if (l.t.size() == 1 && l.c0 == 0) {
      g.push_back(l.t[0].first); return mulc(mulNode(g), l.t[0].second);
    }
    if (l.t.empty()) return g.empty() ? konst(l.c0) : mulc(mulNode(g), l.c0);
    g.push_back(q);
  }
  return mulNode(g);
}
E mul(E a, E b) {
  if (a->k == K_CONST) return mulc(b, a->c0);
  if (b->k == K_CONST) return mulc(a, b->c0);
  if (a->k != K_ADD && b->k != K_ADD) return mulAtoms(a, b);
  Lin x = lin(a), y = lin(b);
  size_t nx = x.t.size() + (x.c0 != 0), ny = y.t.size() + (y.c0 != 0);
  if (nx * ny > (size_t)g_expandLimit || (nx > 24 && ny > 24)) {
    // opaque product, normalised content and sign
    auto content = [](Lin& l) { I g = l.c0; for (auto& p : l.t) g = gcdI(g, p.second); if (g < 0) g = -g; if (l.t[0].second < 0) g = -g; l.c0 /= g; for (auto& p : l.t) p.second /= g; return g; };
    I g1 = content(x), g2 = content(y);
    E ex = fromLin(x), ey = fromLin(y);
    std::vector<E> f; factorsOf(ex, f); factorsOf(ey, f);
    return mulc(mulNode(f), ckmul(g1, g2));
  }
  Lin r; r.c0 = ckmul(x.c0, y.c0);
  if (x.c0) { Lin t; t.t = y.t; linAcc(r, t, x.c0); }
  if (y.c0) { Lin t; t.t = x.t; linAcc(r, t, y.c0); }
  for (auto& p : x.t) for (auto& q : y.t) linAcc(r, lin(mulAtoms(p.first, q.first)), ckmul(p.second, q.second));
  return fromLin(r);
}

// ---------------------------------------------------------------- wrap-around
static I modSym(I v, int w) { return wrapSv(w, v); }
// remove wraps of width >= w (any value congruent mod 2^w will do), reduce coefficients
static E stripMod(int w, E a, int depth = 0) {
  if (a->k == K_CONST) return konst(modSym(a->c0, w));
  if (depth > 20) return a;
  if ((a->k == K_WRAPS || a->k == K_WRAPU) && a->aux >= w) return stripMod(w, a->ch[0], depth + 1);
  if (a->k == K_MUL) {
    bool any = false; for (E c : a->ch) if ((c->k == K_WRAPS || c->k == K_WRAPU) && c->aux >= w) any = true;
    if (!any) return a;
    E r = konst(1);
    for (E c : a->ch) { E d = stripMod(w, c, depth + 1); r = mul(r, d); }
    return stripMod(w, r, depth + 1);
  }
  if (a->k == K_ADD) {
    bool any = false;
    if (modSym(a->c0, w) != a->c0) any = true;
    for (size_t i = 0; i < a->ch.size() && !any; i++) {
      if (modSym(a->co[i], w) != a->co[i]) any = true;
      E c = a->ch[i]; int t = v2(a->co[i]);
      if ((c->k == K_WRAPS || c->k == K_WRAPU) && c->aux + t >= w) any = true;
      if (c->k == K_MUL) for (E d : c->ch) if ((d->k == K_WRAPS || d->k == K_WRAPU) && d->aux >= w) any = true;
    }
    if (!any) return a;
    Lin r; r.c0 = modSym(a->c0, w); bool again = false;
    for (size_t i = 0; i < a->ch.size(); i++) {
      I k = modSym(a->co[i], w); if (k == 0) continue;
      E c = a->ch[i]; int t = v2(k);
      E d = c;
      if ((c->k == K_WRAPS || c->k == K_WRAPU) && c->aux + t >= w) { d = stripMod(std::max(1, w - t), c->ch[0], depth + 1); }
      else if (c->k == K_MUL) d = stripMod(w, c, depth + 1);
      Lin ld = lin(d);
      for (auto& p : ld.t) p.second = modSym(p.second, w);
      ld.c0 = modSym(ld.c0, w);
      linAcc(r, ld, k);
      if (d != c) again = true;
      r.c0 = modSym(r.c0, w);
    }
    Terms nt; for (auto& p : r.t) { I k = modSym(p.second, w); if (k) nt.push_back({p.first, k}); }
    r.t.swap(nt);
    E e = fromLin(r);
    (void)again;
    return e == a ? a : stripMod(w, e, depth + 1);
  }
  return a;
}
static bool fitsS(int w, E a) { I h = (((I)1) << (w - 1)) - 1; return a->lo >= -h - 1 && a->hi <= h; }
static bool fitsU(int w, E a) { return a->lo >= 0 && a->hi <= (((I)1) << w) - 1; }
bool singleBool(E p, E& b, I& k1, I& k0) {   // p == b ? k1 : k0 for a boolean atom b
  if (p->k == K_ADD && p->ch.size() == 1 && isBool(p->ch[0])) { b = p->ch[0]; k0 = p->c0; k1 = p->c0 + p->co[0]; return true; }
  if (p->k != K_ADD && p->k != K_CONST && isBool(p)) { b = p; k0 = 0; k1 = 1; return true; }
  if (p->k == K_ITE && isConst(p->ch[1]) && isConst(p->ch[2])) { b = p->ch[0]; k1 = p->ch[1]->c0; k0 = p->ch[2]->c0; return true; }
  return false;
}
E wrapS(int w, E a) {
  if (a->k == K_CONST) return konst(wrapSv(w, a->c0));
  if (fitsS(w, a)) return a;
  E s = stripMod(w, a);
  if (s->k == K_CONST) return konst(wrapSv(w, s->c0));
  if (fitsS(w, s)) return s;
  E b; I k1, k0;
  if (singleBool(s, b, k1, k0)) return iteE(b, konst(wrapSv(w, k1)), konst(wrapSv(w, k0)));
  if (s->k == K_ITE) {
    E x = s->ch[1], y = s->ch[2];
    if (isConst(x) || isConst(y) || fitsS(w, x) || fitsS(w, y)) return iteE(s->ch[0], wrapS(w, x), wrapS(w, y));
  }
  // ranges off by a constant multiple of 2^w
  { I M = ((I)1) << w, q = floordiv(s->lo + (M >> 1), M); I h = (M >> 1) - 1; if (s->lo > -INF && s->lo - q * M >= -h - 1 && s->hi - q * M <= h) return addc(s, -q * M); }
  if (s->k == K_ADD) {   // common power of two
    auto tz = [&](I v) { int k = 0; while (k < w && !(((U)v >> k) & 1)) k++; return k; };
    int k = s->c0 == 0 ? w : tz(s->c0); for (I c : s->co) k = std::min(k, tz(c));
    if (k >= w) return konst(0);
    if (k > 0) { E y = konst(s->c0 >> k); for (size_t i = 0; i < s->ch.size(); i++) y = add(y, mulc(s->ch[i], s->co[i] >> k)); return mulc(wrapS(w - k, y), ((I)1) << k); }
  }
  Node n; n.k = K_WRAPS; n.aux = w; n.ch = {s}; n.hi = (((I)1) << (w - 1)) - 1; n.lo = -n.hi - 1;
  return intern(n);
}
E wrapU(int w, E a) {
  if (a->k == K_CONST) return konst(wrapUv(w, a->c0));
  if (fitsU(w, a)) return a;
  E s = stripMod(w, a);
  if (s->k == K_CONST) return konst(wrapUv(w, s->c0));
  if (fitsU(w, s)) return s;
  E b; I k1, k0;
  if (singleBool(s, b, k1, k0)) return iteE(b, konst(wrapUv(w, k1)), konst(wrapUv(w, k0)));
  if (s->k == K_ITE) {
    E x = s->ch[1], y = s->ch[2];
    if (isConst(x) || isConst(y) || fitsU(w, x) || fitsU(w, y)) return iteE(s->ch[0], wrapU(w, x), wrapU(w, y));
  }
  { I M = ((I)1) << w, q = floordiv(s->lo, M); if (s->lo > -INF && s->hi - q * M <= M - 1) return addc(s, -q * M); }
  // a common power of two can be taken out
  if (s->k == K_ADD) {
    int t = v2(s->c0); for (I c : s->co) t = std::min(t, v2(c));
    if (t > 0) {
      if (t >= w) return konst(0);
      Lin l = lin(s); l.c0 >>= t; for (auto& p : l.t) p.second >>= t;
      return mulc(wrapU(w - t, fromLin(l)), ((I)1) << t);
    }
  }
  Node n; n.k = K_WRAPU; n.aux = w; n.ch = {s}; n.lo = 0; n.hi = (((I)1) << w) - 1;
  return intern(n);
}
E uval(int w, E a) { return w == 1 ? a : wrapU(w, a); }
E addW(int w, E a, E b) { return wrapS(w, add(a, b)); }
E subW(int w, E a, E b) { return wrapS(w, sub(a, b)); }
E mulW(int w, E a, E b) {
  I c[4] = {smul(a->lo, b->lo), smul(a->lo, b->hi), smul(a->hi, b->lo), smul(a->hi, b->hi)};
  I lo = *std::min_element(c, c + 4), hi = *std::max_element(c, c + 4), h = (((I)1) << (w - 1)) - 1;
  try {
    E r = mul(a, b);
    if (lo >= -h - 1 && hi <= h) {
      if (fitsS(w, r)) return r;
      // the interval of the expanded product is coarser than that of the factors
      Node n; n.k = K_WRAPS; n.aux = w; n.ch = {r}; n.lo = lo; n.hi = hi; return intern(n);
    }
    return wrapS(w, r);
  } catch (ovf_error&) {}
  E x = stripMod(w, a), y = stripMod(w, b);
  // opaque product mod 2^w
  try { return wrapS(w, mul(x, y)); } catch (ovf_error&) {}
  std::vector<E> f; factorsOf(x, f); factorsOf(y, f);
  return wrapS(w, mulNode(f));
}

// ---------------------------------------------------------------- shifts, division, bits
static int tzc(E a);
E shr(E a, int k) {
  if (k == 0) return a;
  if (a->k == K_CONST) return konst(floorShr(a->c0, k));
  if (a->k == K_SHR) return shr(a->ch[0], k + (int)a->aux);
  I lo = floorShr(a->lo, k), hi = floorShr(a->hi, k);
  if (lo == hi) return konst(lo);
  if (a->k == K_WRAPU && k < a->aux && a->ch[0]->k != K_ADD) {
    // bits [k,w) of x
  }
  if (a->k == K_ADD || a->k == K_MUL) {
    Lin l = lin(a), out, in; I M = ((I)1) << k;
    in.c0 = wrapUv(k, l.c0); out.c0 = floorShr(l.c0, k);
    for (auto& p : l.t) { if (wrapUv(k, p.second) == 0) out.t.push_back({p.first, p.second >> k}); else in.t.push_back(p); }
    (void)M;
    if (!out.t.empty() || out.c0) { E o = fromLin(out), i = fromLin(in); return add(o, shr(i, k)); }
    int t = 127; for (auto& p : in.t) t = std::min(t, v2(p.second));
    if (t > 0 && t < 127) {
      Lin q; q.c0 = floorShr(in.c0, t); for (auto& p : in.t) q.t.push_back({p.first, p.second >> t});
      return shr(fromLin(q), k - t);
    }
  }
  if (a->k == K_ADD && a->ch.size() == 1 && (a->ch[0]->k == K_MIN || a->ch[0]->k == K_MAX) && (a->co[0] == -1 || (a->co[0] > 1 && !(a->co[0] & (a->co[0] - 1))) || (a->co[0] < 0 && !(-a->co[0] & (-a->co[0] - 1))))) {
    E m = a->ch[0]; I c = a->co[0]; E x = shr(addc(mulc(m->ch[0], c), a->c0), k), y = shr(addc(mulc(m->ch[1], c), a->c0), k);
    return (m->k == K_MIN) == (c > 0) ? minE(x, y) : maxE(x, y);
  }
  E b; I k1, k0;
  if (singleBool(a, b, k1, k0)) return iteE(b, konst(floorShr(k1, k)), konst(floorShr(k0, k)));
  if (a->k == K_ITE) {
    E x = a->ch[1], y = a->ch[2], q; I u, v;
    if (isConst(x) || isConst(y) || singleBool(x, q, u, v) || singleBool(y, q, u, v) || tzc(x) >= k || tzc(y) >= k) return iteE(a->ch[0], shr(x, k), shr(y, k));
  }
  if (a->k == K_MIN) return minE(shr(a->ch[0], k), shr(a->ch[1], k));
  if (a->k == K_MAX) return maxE(shr(a->ch[0], k), shr(a->ch[1], k));
  Node n; n.k = K_SHR; n.aux = k; n.ch = {a}; n.lo = lo; n.hi = hi; return intern(n);
}
E pow2(E k) {
  if (k->k == K_CONST) { if (k->c0 < 0 || k->c0 > 100) return konst(0); return konst(((I)1) << (int)k->c0); }
  E b; I k1, k0;
  if (singleBool(k, b, k1, k0)) return iteE(b, pow2(konst(k1)), pow2(konst(k0)));
  if (k->k == K_ITE && (isConst(k->ch[1]) || isConst(k->ch[2]))) return iteE(k->ch[0], pow2(k->ch[1]), pow2(k->ch[2]));
  if (k->k == K_ADD && k->c0 > 0 && k->lo - k->c0 >= 0) return mulc(pow2(addc(k, -k->c0)), ((I)1) << (int)k->c0);
  Node n; n.k = K_POW2; n.ch = {k};
  n.lo = k->lo < 0 ? 0 : (k->lo > 110 ? INF : ((I)1) << (int)k->lo); n.hi = k->hi > 110 ? INF : (k->hi < 0 ? 0 : ((I)1) << (int)k->hi);
  return intern(n);
}
E shrv(E a, E k) {
  if (k->k == K_CONST) return shr(a, (int)k->c0);
  E b; I k1, k0;
  if (singleBool(k, b, k1, k0)) return iteE(b, shr(a, (int)k1), shr(a, (int)k0));
  if (k->k == K_ITE && (isConst(k->ch[1]) || isConst(k->ch[2]))) return iteE(k->ch[0], shrv(a, k->ch[1]), shrv(a, k->ch[2]));
  int kl = k->lo < 0 ? 0 : (int)std::min<I>(k->lo, 120), kh = (int)std::min<I>(std::max<I>(k->hi, 0), 120);
  I c[4] = {floorShr(a->lo, kl), floorShr(a->lo, kh), floorShr(a->hi, kl), floorShr(a->hi, kh)};
  Node n; n.k = K_SHRV; n.ch = {a, k}; n.lo = *std::min_element(c, c + 4); n.hi = *std::max_element(c, c + 4);
  if (n.lo == n.hi) return konst(n.lo);
  return intern(n);
}
E sdivE(E a, E b) {
  if (b->k == K_CONST) {
    I d = b->c0;
    if (d == 0) return konst(0);
    if (a->k == K_CONST) return konst(a->c0 / d);
    if (d == 1) return a;
    if (d == -1) return neg(a);
    if (d < 0) return neg(sdivE(a, konst(-d)));
    if ((d & (d - 1)) == 0) {
      int k = v2(d);
      if (a->lo >= 0) return shr(a, k);
      if (a->hi <= 0) return neg(shr(neg(a), k));
      return shr(add(a, mulc(ltz(a), d - 1)), k);
    }
    if (a->k == K_ADD) {   // exact multiples
      bool allm = a->c0 % d == 0; for (I c : a->co) if (c % d) allm = false;
      if (allm) { Lin l = lin(a); l.c0 /= d; for (auto& p : l.t) p.second /= d; return fromLin(l); }
    }
    if (a->k == K_ITE && (isConst(a->ch[1]) || isConst(a->ch[2]))) return iteE(a->ch[0], sdivE(a->ch[1], b), sdivE(a->ch[2], b));
    Node n; n.k = K_SDIV; n.ch = {a, b}; n.lo = a->lo / d; n.hi = a->hi / d;
    if (n.lo == n.hi) return konst(n.lo);
    return intern(n);
  }
  if (a->k == K_CONST && a->c0 == 0) return a;
  E bb; I k1, k0;
  if (singleBool(b, bb, k1, k0)) return iteE(bb, sdivE(a, konst(k1)), sdivE(a, konst(k0)));
  Node n; n.k = K_SDIV; n.ch = {a, b};
  I m = std::max(a->hi, -a->lo); n.lo = -m; n.hi = m;
  if (a->lo >= 0 && b->lo > 0) { n.lo = a->lo / b->hi; n.hi = a->hi / b->lo; }
  return intern(n);
}
E andE(E a, E b) {
  if (a == b) return a;
  if (isBool(a) && isBool(b)) return andB(a, b);
  if (b->k != K_CONST && a->k == K_CONST) std::swap(a, b);
  E c; I k1, k0;
  if (b->k == K_CONST) {
    I m = b->c0;
    if (a->k == K_CONST) return konst(a->c0 & m);
    if (m == 0) return konst(0);
    if (m == -1) return a;
    if (m < 0) return sub(a, andE(a, konst(-m - 1)));
    E r = konst(0); int i = 0;
    while (i < 126 && (m >> i)) {
      if (!((m >> i) & 1)) { i++; continue; }
      int j = i; while ((m >> j) & 1) j++;
      E hi = wrapU(j, a); if (i) hi = sub(hi, wrapU(i, a));
      r = add(r, hi); i = j;
    }
    return r;
  }
  if (singleBool(a, c, k1, k0)) return iteE(c, andE(konst(k1), b), andE(konst(k0), b));
  if (singleBool(b, c, k1, k0)) return iteE(c, andE(a, konst(k1)), andE(a, konst(k0)));
  if (a->id > b->id) std::swap(a, b);
  Node n; n.k = K_AND; n.ch = {a, b};
  if (a->lo >= 0 && b->lo >= 0) { n.lo = 0; n.hi = std::min(a->hi, b->hi); }
  else if (a->lo >= 0) { n.lo = 0; n.hi = a->hi; }
  else if (b->lo >= 0) { n.lo = 0; n.hi = b->hi; }
  else { int w = std::max(bitsFor(a->lo, a->hi), bitsFor(b->lo, b->hi)); n.hi = (((I)1) << (w - 1)) - 1; n.lo = -n.hi - 1; }
  return intern(n);
}
static int tzc(E a) {
  if (a->k == K_CONST) return v2(a->c0);
  if (a->k == K_ADD) { int t = v2(a->c0); for (size_t i = 0; i < a->ch.size(); i++) t = std::min(t, v2(a->co[i]) + tzc(a->ch[i])); return t; }
  if (a->k == K_ITE) return std::min(tzc(a->ch[1]), tzc(a->ch[2]));
  if (a->k == K_WRAPS) { return std::min((int)a->aux, tzc(a->ch[0])); }
  return 0;
}
static bool disjoint(E a, E b) {
  if (a->lo < 0 && b->lo < 0) return false;
  if (a->lo >= 0) { int t = tzc(b); if (t < 120 && a->hi < (((I)1) << t)) return true; }
  if (b->lo >= 0) { int t = tzc(a); if (t < 120 && b->hi < (((I)1) << t)) return true; }
  return false;
}
E orE(E a, E b) { if (isBool(a) && isBool(b)) return orB(a, b); if (disjoint(a, b)) return add(a, b); return sub(add(a, b), andE(a, b)); }
E xorE(E a, E b) {
  if (isBool(a) && isBool(b)) return iteE(a, notB(b), b);
  if (b->k == K_CONST && b->c0 == -1) return addc(neg(a), -1);
  if (a->k == K_CONST && a->c0 == -1) return addc(neg(b), -1);
  E c; I k1, k0;
  if (!isConst(a) && !isConst(b)) {
    if (singleBool(a, c, k1, k0)) return iteE(c, xorE(konst(k1), b), xorE(konst(k0), b));
    if (singleBool(b, c, k1, k0)) return iteE(c, xorE(a, konst(k1)), xorE(a, konst(k0)));
  }
  if (disjoint(a, b)) return add(a, b);
  return sub(add(a, b), mulc(andE(a, b), 2));
}

// ---------------------------------------------------------------- predicates
E notB(E b) { return sub(konst(1), b); }
static bool asNot(E e, E& x) { if (e->k == K_ADD && e->ch.size() == 1 && e->c0 == 1 && e->co[0] == -1) { x = e->ch[0]; return true; } return false; }
static E normC(Lin& l) { I g = 0; for (auto& p : l.t) g = gcdI(g, p.second); return konst(g); }
E ltz(E p) {
  if (p->hi < 0) return konst(1);
  if (p->lo >= 0) return konst(0);
  E b; I k1, k0;
  if (singleBool(p, b, k1, k0)) return iteE(b, kbool(k1 < 0), kbool(k0 < 0));
  Lin l = lin(p);
  if (l.t[0].second < 0) {   // p<0 <=> !( -p-1 < 0 )
    return notB(ltz(addc(neg(p), -1)));
  }
  I g = normC(l)->c0;
  if (g > 1) { for (auto& t : l.t) t.second /= g; l.c0 = floordiv(l.c0, g); return ltz(fromLin(l)); }
  if (l.t.size() == 1) {       // atom + c0 < 0
    E a = l.t[0].first; I c = l.c0;
    if (a->k == K_SHR) return ltz(addc(a->ch[0], c << a->aux));
    if (a->k == K_ITE && (isConst(a->ch[1]) || isConst(a->ch[2]) )) return iteE(a->ch[0], ltz(addc(a->ch[1], c)), ltz(addc(a->ch[2], c)));
    if (a->k == K_MIN) return orB(ltz(addc(a->ch[0], c)), ltz(addc(a->ch[1], c)));
    if (a->k == K_MAX) return andB(ltz(addc(a->ch[0], c)), ltz(addc(a->ch[1], c)));
    if (a->k == K_WRAPU && c < 0) {   // u_w(e) < K with e in [-(2^w-K), 2^w)  <=>  0 <= e < K
      E e = a->ch[0]; I M = ((I)1) << a->aux, K = -c;
      if (K < M && e->lo >= K - M && e->hi < M) return andB(notB(ltz(e)), ltz(addc(e, c)));
    }
    if (a->k == K_TBL) {
      auto& T = g_tables[a->aux]; bool mono = true; for (size_t i = 1; i < T.size(); i++) if (T[i] < T[i - 1]) mono = false;
      if (mono && a->ch[0]->lo >= 0 && a->ch[0]->hi < (I)T.size()) { size_t i = 0; while (i < T.size() && T[i] + c < 0) i++; return ltz(addc(a->ch[0], -(I)i)); }
    }
  }
  Node n; n.k = K_LTZ; n.ch = {fromLin(l)}; n.lo = 0; n.hi = 1; return intern(n);
}
E eqz(E p) {
  if (p->lo > 0 || p->hi < 0) return konst(0);
  if (p->k == K_CONST) return kbool(p->c0 == 0);
  E b; I k1, k0;
  if (singleBool(p, b, k1, k0)) return iteE(b, kbool(k1 == 0), kbool(k0 == 0));
  Lin l = lin(p);
  I g = normC(l)->c0;
  if (l.c0 % g) return konst(0);
  if (l.t[0].second < 0) g = -g;
  if (g != 1) { for (auto& t : l.t) t.second /= g; l.c0 /= g; p = fromLin(l); }
  if (l.t.size() == 1) {
    E a = l.t[0].first; I c = l.c0;
    if (a->k == K_ITE && (isConst(a->ch[1]) || isConst(a->ch[2]))) return iteE(a->ch[0], eqz(addc(a->ch[1], c)), eqz(addc(a->ch[2], c)));
    if (c == 0 && a->k == K_MUL) { E r = konst(0); for (E f : a->ch) r = orB(r, eqz(f)); return r; }
    if (p->lo == 0 && p->hi > 0 && a->k != K_VAR) { }
  }
  // wrapped difference: WRAP(a) == WRAP(b) (both inside one period)
  for (auto& t : l.t) if ((t.first->k == K_WRAPS) && (t.second == 1 || t.second == -1)) {
    int w = (int)t.first->aux; I M = ((I)1) << w;
    if (p->lo > -2 * M && p->hi < 2 * M) {
      E d = wrapS(w, p);
      if (isConst(d) && d->c0 != 0) return konst(0);
      if (p->lo > -M && p->hi < M && isConst(d)) return kbool(d->c0 == 0);
    }
    break;
  }
  Node n; n.k = K_EQZ; n.ch = {p}; n.lo = 0; n.hi = 1; return intern(n);
}
E eq(E a, E b) {
  if (a == b) return konst(1);
  if (isBool(a) && isBool(b)) return iteE(a, b, notB(b));
  // both values of one machine width: compare mod 2^w, which lets wraps cancel
  if (a->k == K_WRAPS || b->k == K_WRAPS) {
    int w = (int)(a->k == K_WRAPS ? a->aux : b->aux);
    if (fitsS(w, a) && fitsS(w, b)) { E d = wrapS(w, sub(a, b)); if (isConst(d)) return kbool(d->c0 == 0); }
  }
  return eqz(sub(a, b));
}
static void bandFlat(E e, std::vector<E>& v) { if (e->k == K_BAND) for (E c : e->ch) v.push_back(c); else v.push_back(e); }
E andB(E a, E b) {
  if (a == b) return a;
  if (isConst(a)) return a->c0 ? b : a;
  if (isConst(b)) return b->c0 ? a : b;
  std::vector<E> v; bandFlat(a, v); bandFlat(b, v);
  std::sort(v.begin(), v.end(), atomLess); v.erase(std::unique(v.begin(), v.end()), v.end());
  for (E x : v) { E y; if (asNot(x, y) && std::binary_search(v.begin(), v.end(), y, atomLess)) return konst(0); }
  // interval reasoning between literals over the same polynomial (p<0 / p+k>=0 / p==c)
  if (v.size() <= 8) for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < v.size(); j++) if (i != j) {
    E x = v[i], y = v[j], ny; bool yn = asNot(y, ny);
    E yy = yn ? ny : y;
    if (x->k == K_LTZ && yy->k == K_LTZ) {
      E d = sub(x->ch[0], yy->ch[0]);
      if (isConst(d)) {
        // x: q+d<0 , yy: q<0
        if (!yn) { if (d->c0 >= 0) { v.erase(v.begin() + j); E r = v[0]; for (size_t k = 1; k < v.size(); k++) r = andB(r, v[k]); return r; } }
        else { if (d->c0 >= 0) return konst(0); }
      }
    } 
    E nx; if (asNot(x, nx) && nx->k == K_LTZ && yn && yy->k == K_LTZ) {
      E d = sub(nx->ch[0], yy->ch[0]);   // nx: q+d>=0, yy: q>=0
      if (isConst(d) && d->c0 <= 0) { v.erase(v.begin() + j); E r = v[0]; for (size_t k = 1; k < v.size(); k++) r = andB(r, v[k]); return r; }
    }
    if (x->k == K_EQZ && yy->k == K_LTZ) {
      E d = sub(yy->ch[0], x->ch[0]); E d2 = add(yy->ch[0], x->ch[0]); E dd = isConst(d) ? d : d2;
      if (isConst(dd)) { bool t = dd->c0 < 0; if (t == yn) return konst(0); v.erase(v.begin() + j); E r = v[0]; for (size_t k = 1; k < v.size(); k++) r = andB(r, v[k]); return r; }
    }
    if (x->k == K_EQZ && yy->k == K_EQZ) {
      E d = sub(yy->ch[0], x->ch[0]); if (isConst(d) && d->c0 != 0) { if (!yn) return konst(0); v.erase(v.begin() + j); E r = v[0]; for (size_t k = 1; k < v.size(); k++) r = andB(r, v[k]); return r; }
    }
  }
  if (v.size() == 1) return v[0];
  Node n; n.k = K_BAND; n.ch = v; n.lo = 0; n.hi = 1; return intern(n);
}
E orB(E a, E b) { return notB(andB(notB(a), notB(b))); }

E minmaxNode(bool mn, E a, E b);
E minE(E a, E b) { return minmaxNode(true, a, b); }
E maxE(E a, E b) { return minmaxNode(false, a, b); }
// e inside MIN(.,L) (mn) or MAX(.,L): what lies beyond L may be replaced by anything beyond L, so inner clamps that only
// act there are dropped; null when nothing changes
static E loosen(E e, bool mn, I L, int depth) {
  if (depth == 0 || L >= INF / 4 || L <= -INF / 4) return nullptr;
  if ((e->k == K_MIN || e->k == K_MAX) && isConst(e->ch[1])) {
    I k = e->ch[1]->c0; bool m = e->k == K_MIN;
    if (m == mn && (mn ? k >= L : k <= L)) { E x = loosen(e->ch[0], mn, L, depth - 1); return x ? x : e->ch[0]; }
    if (m != mn && (mn ? k < L : k > L)) { E x = loosen(e->ch[0], mn, L, depth - 1); return x ? minmaxNode(m, x, e->ch[1]) : nullptr; }
    return nullptr;
  }
  if (e->k == K_SHR && e->aux < 62) { I m = ((I)1) << e->aux, l = mn ? smul(L, m) : smul(L + 1, m) - 1; E x = loosen(e->ch[0], mn, l, depth - 1); return x ? shr(x, (int)e->aux) : nullptr; }
  if (e->k == K_ADD && e->ch.size() == 1) {
    I c = e->co[0], d = L - e->c0; bool fl = c < 0; I l = c > 0 ? (mn ? -floordiv(-d, c) : floordiv(d, c)) : (mn ? floordiv(-d, -c) : -floordiv(d, -c));
    E x = loosen(e->ch[0], fl ? !mn : mn, l, depth - 1); return x ? addc(mulc(x, c), e->c0) : nullptr;
  }
  return nullptr;
}
E minmaxNode(bool mn, E a, E b) {
  if (a == b) return a;
  if (isConst(a)) std::swap(a, b);
  E d = sub(a, b);
  if (d->lo >= 0) return mn ? b : a;
  if (d->hi <= 0) return mn ? a : b;
  if (isBool(a) && isBool(b)) return mn ? andB(a, b) : orB(a, b);
  Kind K = mn ? K_MIN : K_MAX, O = mn ? K_MAX : K_MIN;
  // normalise sign: leading coefficient of a positive
  { Lin l = lin(a); if (!l.t.empty() && l.t[0].second < 0 && isConst(b)) return neg(minmaxNode(!mn, neg(a), neg(b))); }
  // move a's constant out
  if (a->k == K_ADD && a->c0 != 0) { I c = a->c0; return addc(minmaxNode(mn, addc(a, -c), addc(b, -c)), c); }
  if (a->k == K_ADD && b->k == K_ADD) {   // common terms out
    Lin la = lin(a), lb = lin(b), cm, ra, rb; ra.c0 = la.c0; rb.c0 = lb.c0; size_t i = 0, j = 0;
    while (i < la.t.size() || j < lb.t.size()) {
      if (j >= lb.t.size() || (i < la.t.size() && la.t[i].first->id < lb.t[j].first->id)) ra.t.push_back(la.t[i++]);
      else if (i >= la.t.size() || lb.t[j].first->id < la.t[i].first->id) rb.t.push_back(lb.t[j++]);
      else if (la.t[i].second == lb.t[j].second) { cm.t.push_back(la.t[i]); i++; j++; }
      else { ra.t.push_back(la.t[i++]); rb.t.push_back(lb.t[j++]); }
    }
    if (!cm.t.empty()) return add(fromLin(cm), minmaxNode(mn, fromLin(ra), fromLin(rb)));
  }
  if (isConst(b)) {
    I c = b->c0;
    if (a->k == K_SHR || a->k == K_ADD || a->k == O) if (E x = loosen(a, mn, c, 6)) return minmaxNode(mn, x, b);
    if (a->k == K && isConst(a->ch[1])) return minmaxNode(mn, a->ch[0], konst(mn ? std::min(c, a->ch[1]->c0) : std::max(c, a->ch[1]->c0)));
    if (mn && a->k == O && isConst(a->ch[1])) {   // MIN(MAX(x,lo),hi): lo<hi here => canonical MAX(MIN(x,hi),lo)
      return maxE(minE(a->ch[0], b), a->ch[1]);
    }
    if (a->k == K_ITE && (isConst(a->ch[1]) || isConst(a->ch[2]))) return iteE(a->ch[0], minmaxNode(mn, a->ch[1], b), minmaxNode(mn, a->ch[2], b));
  } else if (a->id > b->id) {
    std::swap(a, b);
    if (a->k == K_ADD && a->c0 != 0) { I c = a->c0; Node n; n.k = K; n.ch = {addc(a, -c), addc(b, -c)};
      E x = n.ch[0], y = n.ch[1];
      if (mn) { n.lo = std::min(x->lo, y->lo); n.hi = std::min(x->hi, y->hi); } else { n.lo = std::max(x->lo, y->lo); n.hi = std::max(x->hi, y->hi); }
      return addc(intern(n), c); }
  }
  Node n; n.k = K; n.ch = {a, b};
  if (mn) { n.lo = std::min(a->lo, b->lo); n.hi = std::min(a->hi, b->hi); }
  else { n.lo = std::max(a->lo, b->lo); n.hi = std::max(a->hi, b->hi); }
  if (n.lo == n.hi) return konst(n.lo);
  return intern(n);
}
// bounds on e that follow from the literals of c (c true when v, false otherwise)
void boundsUnder(E e, E c, bool v, I& lo, I& hi, int depth) {
  lo = e->lo; hi = e->hi;
  if (e->k == K_CONST) return;
  Lin le = lin(e);
  auto lit = [&](E p, bool isLt) {   // p < 0 when isLt, p >= 0 otherwise
    Lin lp = lin(p);
    if (lp.t.size() == 1 && le.t.size() > 1) {      // a bound on one term of the sum
      E a = lp.t[0].first; I k = lp.t[0].second, L = a->lo, H = a->hi;    // k*a + c0 < 0, or >= 0
      if (isLt) { if (k > 0) H = std::min(H, floordiv(-lp.c0 - 1, k)); else L = std::max(L, -floordiv(-lp.c0 - 1, -k)); }
      else { if (k > 0) L = std::max(L, -floordiv(lp.c0, k)); else H = std::min(H, floordiv(lp.c0, -k)); }
      if (L <= a->lo && H >= a->hi) return;
      I l = le.c0, h = le.c0; bool has = false;
      for (auto& t : le.t) { I tl = t.first->lo, th = t.first->hi; if (t.first == a) { tl = L; th = H; has = true; } if (tl <= -INF || th >= INF || tl > th) return; I x = smul(tl, t.second), y = smul(th, t.second); if (x > y) std::swap(x, y); if (x <= -INF || y >= INF) return; l += x; h += y; }
      if (has) { lo = std::max(lo, l); hi = std::min(hi, h); }
      return;
    }
    if (lp.t.size() != le.t.size()) return;
    I num = le.t[0].second, den = lp.t[0].second; if (num % den) return; I k = num / den;
    for (size_t i = 0; i < lp.t.size(); i++) { if (lp.t[i].first != le.t[i].first) return; I r; if (__builtin_mul_overflow(lp.t[i].second, k, &r) || r != le.t[i].second) return; }
    I kc; if (__builtin_mul_overflow(k, lp.c0, &kc)) return;
    I off = le.c0 - kc;              // e = k*p + off
    if (isLt) { if (k > 0) hi = std::min(hi, off - k); else lo = std::max(lo, off - k); }
    else { if (k > 0) lo = std::max(lo, off); else hi = std::min(hi, off); }
  };
  auto meet = [&](I l, I h) { lo = std::max(lo, l); hi = std::min(hi, h); };
  { E y; if (asNot(c, y)) { boundsUnder(e, y, !v, lo, hi, depth); return; } }
  if (c->k == K_LTZ) lit(c->ch[0], v);
  else if (c->k == K_BAND && depth > 0) {
    if (v) for (E x : c->ch) { I l, h; boundsUnder(e, x, true, l, h, depth - 1); meet(l, h); }
    else {   // one of them is false
      I L = INF, H = -INF;
      for (E x : c->ch) { I l, h; boundsUnder(e, x, false, l, h, depth - 1); L = std::min(L, l); H = std::max(H, h); }
      meet(L, H);
    }
  }
  if (depth <= 0) return;
  // through a shift, a scaling or a clamp
  if (e->k == K_MIN || e->k == K_MAX) {
    I l, h, l2, h2; boundsUnder(e->ch[0], c, v, l, h, depth - 1); E y = e->ch[1]; if (isConst(y)) l2 = h2 = y->c0; else boundsUnder(y, c, v, l2, h2, depth - 1);
    if (e->k == K_MIN) meet(std::min(l, l2), std::min(h, h2)); else meet(std::max(l, l2), std::max(h, h2));
  }
  if (e->k == K_SHR) { I l, h; boundsUnder(e->ch[0], c, v, l, h, depth - 1); if (l > -INF) lo = std::max(lo, l >> e->aux); if (h < INF) hi = std::min(hi, h >> e->aux); }
  else if (e->k == K_ADD && e->ch.size() == 1) { E x = e->ch[0]; if (x->k == K_SHR || x->k == K_MIN || x->k == K_MAX) { I l, h; boundsUnder(x, c, v, l, h, depth - 1);
      if (l > -INF && h < INF) { I a = smul(l, e->co[0]), b = smul(h, e->co[0]); if (a > b) std::swap(a, b); lo = std::max(lo, a + e->c0); hi = std::min(hi, b + e->c0); } } }
}
E unwrapIn(bool sgn, int w, E x, I lo, I hi) {   // wrap of x, given x in [lo,hi]; null when it does not become linear
  I M = ((I)1) << w; if (lo <= -INF || hi >= INF) return nullptr;
  if (sgn) { I q = floordiv(lo + (M >> 1), M); return floordiv(hi + (M >> 1), M) == q ? addc(x, -q * M) : nullptr; }
  I q = floordiv(lo, M); return floordiv(hi, M) == q ? addc(x, -q * M) : nullptr;
}
// value of e when c is known to be v (shallow)
static E under(E e, E c, bool v, int depth) {
  if (depth == 0) return e;
  if (e == c) return kbool(v);
  if (e->k == K_ITE) {
    if (e->ch[0] == c) return v ? e->ch[1] : e->ch[2];
    if (c->k == K_BAND && v) for (E x : c->ch) { if (e->ch[0] == x) return e->ch[1]; E y; if (asNot(x, y) && y == e->ch[0]) return e->ch[2]; }
    if (c->k == K_LTZ || c->k == K_EQZ || asNot(c, e)) {}
    E t = andB(v ? c : notB(c), e->ch[0]);
    if (isConst(t) && t->c0 == 0) return under(e->ch[2], c, v, depth - 1);
    E f = andB(v ? c : notB(c), notB(e->ch[0]));
    if (isConst(f) && f->c0 == 0) return under(e->ch[1], c, v, depth - 1);
    return e;
  }
  if (e->k == K_WRAPS || e->k == K_WRAPU) {
    I lo, hi; E x = e->ch[0]; boundsUnder(x, c, v, lo, hi); int w = (int)e->aux; I M = ((I)1) << w;
    if (e->k == K_WRAPS) { I q = floordiv(lo + (M >> 1), M); if (lo > -INF && hi < INF && floordiv(hi + (M >> 1), M) == q) return addc(under(x, c, v, depth - 1), -q * M); }
    else { I q = floordiv(lo, M); if (lo > -INF && hi < INF && floordiv(hi, M) == q) return addc(under(x, c, v, depth - 1), -q * M); }
    E y = under(x, c, v, depth - 1); if (y != x) return e->k == K_WRAPS ? wrapS(w, y) : wrapU(w, y);
    return e;
  }
  if (e->k == K_SHR && e->aux >= 0) { E y = under(e->ch[0], c, v, depth - 1); return y != e->ch[0] ? shr(y, (int)e->aux) : e; }
  if (e->k == K_ADD && e->ch.size() == 1) { E a = under(e->ch[0], c, v, depth - 1); if (a != e->ch[0]) return addc(mulc(a, e->co[0]), e->c0); return e; }
  if (isBool(e)) {
    E cc = v ? c : notB(c);
    if (e->k == K_BAND || e->k == K_LTZ || e->k == K_EQZ) {
      E t = andB(cc, e); if (isConst(t)) return konst(0);
      E f = andB(cc, notB(e)); if (isConst(f)) return konst(1);
    }
  }
  if ((e->k == K_MIN || e->k == K_MAX) && c->k == K_LTZ) {
    E d = ltz(sub(e->ch[0], e->ch[1])); E cc = v ? c : notB(c);
    E t = andB(cc, notB(d)); if (isConst(t)) return e->k == K_MIN ? e->ch[0] : e->ch[1];
    E f = andB(cc, d); if (isConst(f)) return e->k == K_MIN ? e->ch[1] : e->ch[0];
  }
  return e;
}
E iteE(E c, E a, E b) {
  if (isConst(c)) return c->c0 ? a : b;
  if (a == b) return a;
  E x; if (asNot(c, x)) return iteE(x, b, a);
  E a0 = a, b0 = b;
  a = under(a, c, true, 5); b = under(b, c, false, 5);
  if (a0->k == K_MIN || a0->k == K_MAX || a0->k == K_ADD) if (under(a0, c, false, 3) == b) return a0;
  if (b0->k == K_MIN || b0->k == K_MAX || b0->k == K_ADD) if (under(b0, c, true, 3) == a) return b0;
  // an arm whose own interval exceeds 64 bits but not under the condition: keep it in wrapped form
  for (int i = 0; i < 2; i++) { E& z = i ? b : a; if (bitsFor(z->lo, z->hi) > 65 && z->k == K_ADD && z->ch.size() == 1) {
    I l, h; boundsUnder(z->ch[0], c, i == 0, l, h); I k1 = smul(l, z->co[0]), k2 = smul(h, z->co[0]); if (k1 > k2) std::swap(k1, k2);
    if (z->c0 == 0 && k1 >= -(((I)1) << 63) && k2 < (((I)1) << 63)) z = wrapS(64, z); } }
  if (a == b) return a;
  if (isConst(a) && isConst(b)) return addc(mulc(c, a->c0 - b->c0), b->c0);
  if (isBool(a) && isBool(b)) {
    if (isConst(a)) return a->c0 ? orB(c, b) : andB(notB(c), b);
    if (isConst(b)) return b->c0 ? orB(notB(c), a) : andB(c, a);
    E na; if (asNot(a, na) && na == b) { /* xor */ }
  }
  // min / max
  if (c->k == K_LTZ) {
    E d = sub(a, b);
    E l1 = ltz(d), l2 = ltz(addc(d, -1));
    if (l1 == c || l2 == c) return minE(a, b);
    E m1 = ltz(neg(d)), m2 = ltz(addc(neg(d), -1));
    if (m1 == c || m2 == c) return maxE(a, b);
    // clamp seen as ITE(x<lo, lo, MIN(x,hi)) etc. : under the negated condition b >= a
    if (isConst(a) && !isConst(b)) {
      // b, when !c ; does !c imply b>=a or b<=a ?  only for b built by MIN/MAX over the tested term
      if (b->k == K_MIN && isConst(b->ch[1])) {
        E t = b->ch[0];
        if (ltz(sub(t, a)) == c || ltz(addc(sub(t, a), -1)) == c) { if (b->ch[1]->c0 >= a->c0) return maxE(b, a); }
      }
      if (b->k == K_MAX && isConst(b->ch[1])) {
        E t = b->ch[0];
        (void)t;
      }
    }
    if (isConst(b) && !isConst(a)) {
      if (a->k == K_MAX && isConst(a->ch[1])) {   // ITE(t<hi, MAX(t,lo), hi)
        E t = a->ch[0];
        if (ltz(sub(t, b)) == c || ltz(addc(sub(t, b), -1)) == c) { if (a->ch[1]->c0 <= b->c0) return minE(a, b); }
      }
    }
  } else if (c->k == K_EQZ) {
    // ITE(x==k, k, x) -> x
    E d = sub(a, b);
    if (eqz(d) == c) return b;
    E d2 = eqz(neg(d)); if (d2 == c) return b;
    // ITE(x==k, B[x:=k], B) -> B
    E p = c->ch[0]; I cf = p->k == K_ADD && p->ch.size() == 1 ? p->co[0] : 1; E at = p->k == K_ADD && p->ch.size() == 1 ? p->ch[0] : p;
    if (at->k == K_VAR && (cf == 1 || cf == -1)) {
      I k = p->k == K_ADD ? -p->c0 * cf : 0;
      std::map<int, I> m; m[(int)at->aux] = k; std::unordered_map<E, E> memo;
      try { if (substVar(b, m, memo) == (isConst(a) ? a : substVar(a, m, memo))) return b; } catch (ovf_error&) {}
    }
  }
  // saturation: ITE(lo<=a<=hi, a, a<0 ? lo : hi)
  if (bitsFor(a->lo, a->hi) <= 100) { E s; I kt, kf; if (singleBool(b, s, kt, kf) && kt != kf && !isConst(a)) {
      I L = std::min(kt, kf), H = std::max(kt, kf); E below = kt < kf ? s : notB(s);
      E in = andB(notB(ltz(addc(a, -L))), ltz(addc(a, -H - 1)));
      if (in == c && (below == ltz(a) || below == ltz(addc(a, -L)) || below == ltz(addc(a, -H - 1)))) return maxE(minE(a, konst(H)), konst(L)); } }
  if (a->k == K_ITE && a->ch[2] == b) return iteE(andB(c, a->ch[0]), a->ch[1], b);
  if (b->k == K_ITE && b->ch[1] == a) return iteE(orB(c, b->ch[0]), a, b->ch[2]);
  // constant difference
  E d = sub(a, b);
  if (isConst(d)) return add(b, mulc(c, d->c0));
  // shared terms
  if (a->k == K_ADD && b->k == K_ADD) {
    Lin la = lin(a), lb = lin(b), cm, ra, rb; ra.c0 = la.c0; rb.c0 = lb.c0;
    size_t i = 0, j = 0;
    while (i < la.t.size() || j < lb.t.size()) {
      if (j >= lb.t.size() || (i < la.t.size() && la.t[i].first->id < lb.t[j].first->id)) ra.t.push_back(la.t[i++]);
      else if (i >= la.t.size() || lb.t[j].first->id < la.t[i].first->id) rb.t.push_back(lb.t[j++]);
      else if (la.t[i].second == lb.t[j].second) { cm.t.push_back(la.t[i]); i++; j++; }
      else { ra.t.push_back(la.t[i++]); rb.t.push_back(lb.t[j++]); }
    }
    if (!cm.t.empty()) { return add(fromLin(cm), iteE(c, fromLin(ra), fromLin(rb))); }
  }
  if (a->k == K_ADD && b->k != K_ADD && !isConst(b)) { for (size_t i = 0; i < a->ch.size(); i++) if (a->ch[i] == b && a->co[i] == 1) return add(b, iteE(c, d, konst(0))); }
  if (b->k == K_ADD && a->k != K_ADD && !isConst(a)) { for (size_t i = 0; i < b->ch.size(); i++) if (b->ch[i] == a && b->co[i] == 1) return add(a, iteE(c, konst(0), neg(d))); }
  if (isBool(a) && isBool(b)) {
    // keep as boolean ITE
  }
  Node n; n.k = K_ITE; n.ch = {c, a, b}; I l1, h1, l2, h2; boundsUnder(a, c, true, l1, h1); boundsUnder(b, c, false, l2, h2);
  if (l1 > h1 || l2 > h2) { l1 = a->lo; h1 = a->hi; l2 = b->lo; h2 = b->hi; }
  n.lo = std::min(l1, l2); n.hi = std::max(h1, h2); return intern(n);
}
E tblE(int table, E idx) {
  auto& T = g_tables[table];
  if (idx->k == K_CONST) { I i = idx->c0; if (i < 0) i = 0; if (i >= (I)T.size()) i = T.size() - 1; return konst(T[(size_t)i]); }
  I l = std::max<I>(idx->lo, 0), h = std::min<I>(idx->hi, (I)T.size() - 1);
  if (l > h) return konst(T[l > 0 ? T.size() - 1 : 0]);
  Node n; n.k = K_TBL; n.aux = table; n.ch = {idx}; n.lo = n.hi = T[(size_t)l];
  for (I i = l; i <= h; i++) { n.lo = std::min(n.lo, T[(size_t)i]); n.hi = std::max(n.hi, T[(size_t)i]); }
  if (n.lo == n.hi) return konst(n.lo);
  E b; I k1, k0; if (singleBool(idx, b, k1, k0)) return iteE(b, tblE(table, konst(k1)), tblE(table, konst(k0)));
  return intern(n);
}
E icmpULt(int w, E a, E b) { if (w == 1) return andB(notB(a), b); return lt(uval(w, a), uval(w, b)); }
E ctlzE(E u, int w) { E r = konst(0); for (int k = 0; k < w; k++) r = add(r, ltz(addc(u, -(((I)1) << k)))); return r; }
E popcE(E u, int w) { E r = konst(0); for (int k = 0; k < w; k++) r = add(r, sub(shr(u, k), mulc(shr(u, k + 1), 2))); return r; }
E cttzE(E u, int w) { E r = konst(0); for (int k = 1; k <= w; k++) r = add(r, eqz(wrapU(k, u))); return r; }
E byteOf(E v, int n, int idx) {
  if (n == 1) return v;
  return wrapS(8, shr(v, 8 * idx));
}
E compose(const std::vector<E>& b) {
  E r = konst(0); int n = (int)b.size();
  for (int i = 0; i < n; i++) r = add(r, mulc(i == n - 1 ? b[i] : wrapU(8, b[i]), ((I)1) << (8 * i)));
  return r;
}

// ---------------------------------------------------------------- floating point (bit patterns)
static double bd(I v) { uint64_t u = (uint64_t)v; double d; memcpy(&d, &u, 8); return d; }
static float bf(I v) { uint32_t u = (uint32_t)v; float d; memcpy(&d, &u, 4); return d; }
static I db(double d) { int64_t u; memcpy(&u, &d, 8); return u; }
static I fb(float d) { int32_t u; memcpy(&u, &d, 4); return u; }
static I fevalOp(FOp op, int w, int w2, int pred, I a, I b) {
  switch (op) {
    case F_ADD: return w == 64 ? db(bd(a) + bd(b)) : fb(bf(a) + bf(b));
    case F_SUB: return w == 64 ? db(bd(a) - bd(b)) : fb(bf(a) - bf(b));
    case F_MUL: return w == 64 ? db(bd(a) * bd(b)) : fb(bf(a) * bf(b));
    case F_DIV: return w == 64 ? db(bd(a) / bd(b)) : fb(bf(a) / bf(b));
    case F_REM: return w == 64 ? db(fmod(bd(a), bd(b))) : fb(fmodf(bf(a), bf(b)));
    case F_NEG: return w == 64 ? db(-bd(a)) : fb(-bf(a));
    case F_ABS: return w == 64 ? db(fabs(bd(a))) : fb(fabsf(bf(a)));
    case F_RINT: { // pred: 0 rne,1 floor,2 ceil,3 trunc,4 rna
      double x = w == 64 ? bd(a) : bf(a); double r = pred == 0 ? nearbyint(x) : pred == 1 ? floor(x) : pred == 2 ? ceil(x) : pred == 3 ? trunc(x) : round(x);
      return w == 64 ? db(r) : fb((float)r); }
    case F_CMP: { double x = w2 == 64 ? bd(a) : bf(a), y = w2 == 64 ? bd(b) : bf(b); bool un = x != x || y != y; bool r;
      switch (pred & 7) { case 0: r = false; break; case 1: r = x == y; break; case 2: r = x > y; break; case 3: r = x >= y; break; case 4: r = x < y; break; case 5: r = x <= y; break; case 6: r = !un && x != y; break; default: r = true; }
      if (pred & 8) r = un || ((pred & 7) == 0 ? false : r); else if (un) r = false; else if ((pred & 7) == 7) r = !un;
      if (pred == 8) r = un; if (pred == 15) r = true; return r; }
    case F_SI2F: return w == 64 ? db((double)(int64_t)a) : fb((float)(int64_t)a);
    case F_UI2F: return w == 64 ? db((double)(uint64_t)a) : fb((float)(uint64_t)a);
    case F_F2SI: { double x = w2 == 64 ? bd(a) : bf(a); if (!(x > -9.3e18 && x < 9.2e18)) return 0; return wrapSv(w, (I)(int64_t)x); }
    case F_F2UI: { double x = w2 == 64 ? bd(a) : bf(a); if (!(x > -1 && x < 1.8e19)) return 0; return wrapSv(w, (I)(uint64_t)x); }
    case F_EXT: return db((double)bf(a));
    case F_TRUNC: return fb((float)bd(a));
  }
  return 0;
}
E fop(FOp op, int w, int w2, int pred, E a, E b) {
  if (isConst(a) && (!b || isConst(b))) return konst(fevalOp(op, w, w2, pred, a->c0, b ? b->c0 : 0));
  if (a->k == K_ITE && (!b || isConst(b)) && isConst(a->ch[1]) && isConst(a->ch[2])) return iteE(a->ch[0], fop(op, w, w2, pred, a->ch[1], b), fop(op, w, w2, pred, a->ch[2], b));
  E c; I k1, k0;
  if (singleBool(a, c, k1, k0) && (!b || isConst(b))) return iteE(c, fop(op, w, w2, pred, konst(k1), b), fop(op, w, w2, pred, konst(k0), b));
  Node n; n.k = K_FOP; n.sub = op; n.aux = w | (w2 << 8) | ((int64_t)pred << 16);
  n.ch.push_back(a); if (b) n.ch.push_back(b);
  if (op == F_CMP) { n.lo = 0; n.hi = 1; } else { n.hi = (((I)1) << (w - 1)) - 1; n.lo = -n.hi - 1; }
  return intern(n);
}
I evalFop(E e, I a, I b) { return fevalOp((FOp)e->sub, e->aux & 255, (e->aux >> 8) & 255, (int)(e->aux >> 16), a, b); }

// ---------------------------------------------------------------- evaluation
I Assign::eval(E root) {
  if (root->k == K_CONST) return root->c0;
  if (memo.size() <= root->id) { memo.resize(std::max<size_t>(root->id + 1, g_nodes)); has.resize(memo.size(), 0); }
  if (has[root->id]) return memo[root->id];
  std::vector<E> st{root};
  while (!st.empty()) {
    E e = st.back();
    if (has[e->id]) { st.pop_back(); continue; }
    bool rdy = true;
    for (E c : e->ch) if (c->k != K_CONST && !has[c->id]) { st.push_back(c); rdy = false; }
    if (!rdy) continue;
    auto V = [&](E c) -> I { return c->k == K_CONST ? c->c0 : memo[c->id]; };
    I r = 0;
    switch (e->k) {
      case K_CONST: r = e->c0; break;
      case K_VAR: {
        size_t ix = (size_t)e->aux; if (val.size() <= ix) { val.resize(ix + 1, 0); set.resize(ix + 1, 0); }
        if (!set[ix]) { val[ix] = gen ? gen((int)ix) : std::min(std::max<I>(0, g_vars[ix].lo), g_vars[ix].hi); set[ix] = 1; }
        r = val[ix]; break; }
      case K_ADD: { U s = (U)e->c0; for (size_t i = 0; i < e->ch.size(); i++) s += (U)e->co[i] * (U)V(e->ch[i]); r = (I)s; break; }
      case K_MUL: { U s = 1; for (E c : e->ch) s *= (U)V(c); r = (I)s; break; }
      case K_WRAPS: r = wrapSv((int)e->aux, V(e->ch[0])); break;
      case K_WRAPU: r = wrapUv((int)e->aux, V(e->ch[0])); break;
      case K_SHR: r = floorShr(V(e->ch[0]), (int)e->aux); break;
      case K_SHRV: { I k = V(e->ch[1]); r = floorShr(V(e->ch[0]), k < 0 ? 0 : k > 126 ? 126 : (int)k); break; }
      case K_POW2: { I k = V(e->ch[0]); r = (k < 0 || k > 126) ? 0 : ((I)1) << (int)k; break; }
      case K_SDIV: { I b = V(e->ch[1]); r = b ? V(e->ch[0]) / b : 0; break; }
      case K_AND: r = V(e->ch[0]) & V(e->ch[1]); break;
      case K_LTZ: r = V(e->ch[0]) < 0; break;
      case K_EQZ: r = V(e->ch[0]) == 0; break;
      case K_BAND: r = 1; for (E c : e->ch) if (!V(c)) r = 0; break;
      case K_ITE: r = V(e->ch[0]) ? V(e->ch[1]) : V(e->ch[2]); break;
      case K_MIN: r = std::min(V(e->ch[0]), V(e->ch[1])); break;
      case K_MAX: r = std::max(V(e->ch[0]), V(e->ch[1])); break;
      case K_TBL: { auto& T = g_tables[e->aux]; I i = V(e->ch[0]); if (i < 0) i = 0; if (i >= (I)T.size()) i = T.size() - 1; r = T[(size_t)i]; break; }
      case K_FOP: r = evalFop(e, V(e->ch[0]), e->ch.size() > 1 ? V(e->ch[1]) : 0); break;
    }
    memo[e->id] = r; has[e->id] = 1; st.pop_back();
  }
  return memo[root->id];
}
void collectVars(const std::vector<E>& es, std::set<int>& out) {
  std::set<E> seen; std::vector<E> st(es.begin(), es.end());
  while (!st.empty()) { E e = st.back(); st.pop_back(); if (!seen.insert(e).second) continue; if (e->k == K_VAR) out.insert((int)e->aux); for (E c : e->ch) st.push_back(c); }
}
static E rebuildNode(E e, const std::vector<E>& c) {
  switch (e->k) {
    case K_ADD: { E r = konst(e->c0); for (size_t i = 0; i < c.size(); i++) r = add(r, mulc(c[i], e->co[i])); return r; }
    case K_MUL: { E r = konst(1); for (E x : c) r = mul(r, x); return r; }
    case K_WRAPS: return wrapS((int)e->aux, c[0]);
    case K_WRAPU: return wrapU((int)e->aux, c[0]);
    case K_SHR: return shr(c[0], (int)e->aux);
    case K_SHRV: return shrv(c[0], c[1]);
    case K_POW2: return pow2(c[0]);
    case K_SDIV: return sdivE(c[0], c[1]);
    case K_AND: return andE(c[0], c[1]);
    case K_LTZ: return ltz(c[0]);
    case K_EQZ: return eqz(c[0]);
    case K_BAND: { E r = konst(1); for (E x : c) r = andB(r, x); return r; }
    case K_ITE: return iteE(c[0], c[1], c[2]);
    case K_MIN: return minE(c[0], c[1]);
    case K_MAX: return maxE(c[0], c[1]);
    case K_TBL: return tblE((int)e->aux, c[0]);
    case K_FOP: return fop((FOp)e->sub, e->aux & 255, (e->aux >> 8) & 255, (int)(e->aux >> 16), c[0], c.size() > 1 ? c[1] : nullptr);
    default: return e;
  }
}
E substVar(E root, const std::map<int, I>& m, std::unordered_map<E, E>& memo) {
  std::vector<E> st{root};
  while (!st.empty()) {
    E e = st.back();
    if (memo.count(e)) { st.pop_back(); continue; }
    if (e->k == K_CONST) { memo[e] = e; st.pop_back(); continue; }
    if (e->k == K_VAR) { auto it = m.find((int)e->aux); memo[e] = it == m.end() ? e : konst(it->second); st.pop_back(); continue; }
    bool rdy = true; for (E c : e->ch) if (!memo.count(c)) { st.push_back(c); rdy = false; }
    if (!rdy) continue;
    std::vector<E> c; bool same = true; for (E x : e->ch) { c.push_back(memo[x]); if (memo[x] != x) same = false; }
    memo[e] = same ? e : rebuildNode(e, c); st.pop_back();
  }
  return memo[root];
}
std::string show(E e, int d) {
  if (e->k == K_CONST) return i2s(e->c0);
  if (e->k == K_VAR) return g_vars[e->aux].name;
  if (d <= 0) return "#" + std::to_string(e->id);
  std::string s;
  auto args = [&](const char* nm) { s = nm; s += "("; for (size_t i = 0; i < e->ch.size(); i++) { if (i) s += ","; s += show(e->ch[i], d - 1); if (s.size() > 4000) { s += "..."; break; } } s += ")"; return s; };
  switch (e->k) {
    case K_ADD: s = "(" + i2s(e->c0); for (size_t i = 0; i < e->ch.size(); i++) { s += " + " + (e->co[i] == 1 ? "" : i2s(e->co[i]) + "*") + show(e->ch[i], d - 1); if (s.size() > 4000) { s += "..."; break; } } return s + ")";
    case K_MUL: return args("mul");
    case K_WRAPS: return args(("s" + std::to_string(e->aux)).c_str());
    case K_WRAPU: return args(("u" + std::to_string(e->aux)).c_str());
    case K_SHR: return args(("shr" + std::to_string(e->aux)).c_str());
    case K_SHRV: return args("shrv"); case K_POW2: return args("pow2"); case K_SDIV: return args("sdiv"); case K_AND: return args("and");
    case K_LTZ: return args("neg?"); case K_EQZ: return args("zero?"); case K_BAND: return args("all"); case K_ITE: return args("ite");
    case K_MIN: return args("min"); case K_MAX: return args("max"); case K_TBL: return args(("tbl" + std::to_string(e->aux)).c_str());
    case K_FOP: return args(("f" + std::to_string(e->sub)).c_str());
    default: return "?";
  }
}
