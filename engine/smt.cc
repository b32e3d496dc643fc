#include "smt.h"
#include <z3++.h>
#include <chrono>
#include <cstring>
#include <unistd.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <sys/prctl.h>

SolveStats g_ss;
std::string g_dumpDir = "/tmp";
bool g_verbose = false;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Enc {
  z3::context& c;
  bool absMul;
  std::unordered_map<E, z3::expr> bools;
  std::map<std::pair<E, int>, z3::expr> bvs;
  std::map<int, z3::expr> vars;
  std::vector<z3::expr> side;
  int absCount = 0; bool hasFp = false;
  std::map<E, z3::expr> absv;
  Enc(z3::context& c_, bool a) : c(c_), absMul(a) {}
  int nw(E e) { int b = bitsFor(e->lo, e->hi); return b > 118 ? 4096 : b; }   // saturated interval: only residues of it may be encoded
  z3::expr num(I v, int W) {
    U u = (U)wrapUv(W >= 128 ? 127 : W, v);
    if (W >= 128) u = (U)v;
    std::string s = "0"; if (u) { s.clear(); U t = u; while (t) { s += char('0' + (int)(t % 10)); t /= 10; } std::reverse(s.begin(), s.end()); }
    return c.bv_val(s.c_str(), W);
  }
  z3::expr fit(z3::expr x, int from, int to) { if (from == to) return x; if (from > to) return x.extract(to - 1, 0); return z3::sext(x, to - from); }
  z3::expr rangeVar(const std::string& nm, I lo, I hi, int w) {
    z3::expr v = c.bv_const(nm.c_str(), w);
    I h = (((I)1) << (w - 1)) - 1;
    if (lo > -h - 1) side.push_back(num(lo, w) <= v);
    if (hi < h) side.push_back(v <= num(hi, w));
    return v;
  }
  z3::expr B(E e) {
    auto it = bools.find(e); if (it != bools.end()) return it->second;
    z3::expr r = B_(e); bools.emplace(e, r); return r;
  }
  z3::expr B_(E e) {
    switch (e->k) {
      case K_CONST: return c.bool_val(e->c0 != 0);
      case K_LTZ: { E p = e->ch[0]; int w = nw(p); z3::expr x = V(p, w); return x < num(0, w); }
      case K_EQZ: {
        E p = e->ch[0];
        // a - b == 0 encoded as a == b when it splits in one positive and one negative term
        int w = nw(p); return V(p, w) == num(0, w); }
      case K_BAND: { z3::expr_vector v(c); for (E x : e->ch) v.push_back(B(x)); return z3::mk_and(v); }
      case K_ADD: if (e->ch.size() == 1 && isBool(e->ch[0])) {
          I k0 = e->c0, k1 = e->c0 + e->co[0]; z3::expr b = B(e->ch[0]);
          return z3::ite(b, c.bool_val(k1 != 0), c.bool_val(k0 != 0)); }
        break;
      case K_ITE: if (isBool(e->ch[1]) && isBool(e->ch[2])) return z3::ite(B(e->ch[0]), B(e->ch[1]), B(e->ch[2])); break;
      case K_FOP: if (e->sub == F_CMP) return fcmp(e); break;
      default: break;
    }
    int w = nw(e); return V(e, w) != num(0, w);
  }
  z3::expr V(E e, int W) {
    if (W > 2048) throw std::runtime_error("value range too wide to encode");
    auto key = std::make_pair(e, W);
    auto it = bvs.find(key); if (it != bvs.end()) return it->second;
    z3::expr r = V_(e, W); bvs.emplace(key, r); return r;
  }
  z3::expr absVar(E e) {
    auto it = absv.find(e); if (it != absv.end()) return it->second;
    z3::expr v = rangeVar("abs!" + std::to_string(e->id), e->lo, e->hi, nw(e)); absv.emplace(e, v); absCount++; return v;
  }
  z3::expr V_(E e, int W) {
    int w = nw(e);
    switch (e->k) {
      case K_CONST: return num(e->c0, W);
      case K_VAR: {
        if (W != w) return fit(V(e, w), w, W);
        return rangeVar("v" + std::to_string(e->aux), e->lo, e->hi, w); }
      case K_ADD: {
        if (W > w) return fit(V(e, w), w, W);
        return sum(e, W); }
      case K_MUL: {
        if (absMul) { if (W != w) return fit(V(e, w), w, W); return absVar(e); }
        if (W > w) return fit(V(e, w), w, W);
        z3::expr r = V(e->ch[0], W); for (size_t i = 1; i < e->ch.size(); i++) r = r * V(e->ch[i], W); return r; }
      case K_WRAPS: {
        int k = (int)e->aux;
        if (W <= k) return V(e->ch[0], W);
        return fit(V(e->ch[0], k), k, W); }
      case K_WRAPU: {
        int k = (int)e->aux;
        if (W <= k) return V(e->ch[0], W);
        return z3::zext(V(e->ch[0], k), W - k); }
      case K_SHR: {
        int k = (int)e->aux, cw = nw(e->ch[0]);
        if (cw <= k) { cw = k + 1; }
        z3::expr x = V(e->ch[0], cw).extract(cw - 1, k); return fit(x, cw - k, W); }
      case K_SHRV: {
        if (W != w) return fit(V(e, w), w, W);
        int cw = std::max(nw(e->ch[0]), w); int kw = bitsFor(0, e->ch[1]->hi); int ww = std::max(cw, kw);
        return fit(z3::ashr(V(e->ch[0], ww), V(e->ch[1], ww)), ww, W); }
      case K_POW2: {
        if (W > w) return fit(V(e, w), w, W);
        int kw = nw(e->ch[0]); int ww = std::max(W, kw);
        return fit(z3::shl(num(1, ww), V(e->ch[0], ww)), ww, W); }
      case K_SDIV: {
        if (absMul && !isConst(e->ch[1])) { if (W != w) return fit(V(e, w), w, W); return absVar(e); }
        int cw = std::max(nw(e->ch[0]), nw(e->ch[1])) + 1; cw = std::max(cw, w);
        if (e->ch[0]->lo >= 0 && e->ch[1]->lo >= 0) return fit(z3::udiv(V(e->ch[0], cw), V(e->ch[1], cw)), cw, W);
        return fit(V(e->ch[0], cw) / V(e->ch[1], cw), cw, W); }
      case K_AND: {
        if (W > w) return fit(V(e, w), w, W);
        return V(e->ch[0], W) & V(e->ch[1], W); }
      case K_LTZ: case K_EQZ: case K_BAND: return z3::ite(B(e), num(1, W), num(0, W));
      case K_ITE: { if (W > w) return fit(V(e, w), w, W); return z3::ite(B(e->ch[0]), V(e->ch[1], W), V(e->ch[2], W)); }
      case K_MIN: case K_MAX: {
        if (W > w) return fit(V(e, w), w, W);
        E a = e->ch[0], b = e->ch[1]; int cw = std::max(nw(a), nw(b)); cw = std::max(cw, W);
        z3::expr x = V(a, cw), y = V(b, cw); z3::expr lt = e->k == K_MIN ? x <= y : x >= y;
        return z3::ite(lt, V(a, W), V(b, W)); }
      case K_TBL: {
        if (absMul) { if (W != w) return fit(V(e, w), w, W); return absVar(e); }
        if (W != w) return fit(V(e, w), w, W);
        auto& T = g_tables[e->aux]; E ix = e->ch[0]; int iw = nw(ix); z3::expr x = V(ix, iw);
        I l = std::max<I>(ix->lo, 0), h = std::min<I>(ix->hi, (I)T.size() - 1);
        return tree(T, x, iw, l, h, w); }
      case K_FOP: if (e->sub == F_CMP) return z3::ite(B(e), num(1, W), num(0, W));
        if (W != w) return fit(V(e, w), w, W);
        return fopbv(e);
    }
    throw std::runtime_error("enc");
  }
  z3::expr tree(const std::vector<I>& T, z3::expr x, int iw, I l, I h, int w) {
    bool same = true; for (I i = l; i <= h; i++) if (T[(size_t)i] != T[(size_t)l]) same = false;
    if (same) return num(T[(size_t)l], w);
    I m = (l + h + 1) / 2;
    return z3::ite(x < num(m, iw), tree(T, x, iw, l, m - 1, w), tree(T, x, iw, m, h, w));
  }
  // sum with greedy common-factor extraction (keeps exact encodings of expanded products small)
  z3::expr sum(E e, int W) {
    std::vector<std::pair<std::vector<E>, I>> t;
    for (size_t i = 0; i < e->ch.size(); i++) { if (!absMul && e->ch[i]->k == K_MUL) t.push_back({e->ch[i]->ch, e->co[i]}); else t.push_back({{e->ch[i]}, e->co[i]}); }
    return sumT(t, e->c0, W);
  }
  z3::expr sumT(std::vector<std::pair<std::vector<E>, I>> t, I c0, int W) {
    std::map<E, int> cnt; E best = nullptr; int bc = 1;
    for (auto& p : t) if (p.first.size() > 1) { std::set<E> u(p.first.begin(), p.first.end()); for (E x : u) { int n = ++cnt[x]; if (n > bc || (n == bc && best && bitsFor(x->lo, x->hi) > bitsFor(best->lo, best->hi))) { if (n > 1) { bc = n; best = x; } } } }
    if (best) {
      std::vector<std::pair<std::vector<E>, I>> in, out; I ic = 0;
      for (auto& p : t) {
        auto it = std::find(p.first.begin(), p.first.end(), best);
        if (it == p.first.end()) { out.push_back(p); continue; }
        std::vector<E> f = p.first; f.erase(f.begin() + (it - p.first.begin()));
        if (f.empty()) ic += p.second; else in.push_back({f, p.second});
      }
      z3::expr q = sumT(in, ic, W) * V(best, W);
      if (out.empty() && c0 == 0) return q;
      return sumT(out, c0, W) + q;
    }
    z3::expr r = num(c0, W); bool first = c0 == 0;
    for (auto& p : t) {
      z3::expr x = V(p.first[0], W); for (size_t i = 1; i < p.first.size(); i++) x = x * V(p.first[i], W);
      I k = p.second;
      if (k == 1) { if (first) { r = x; first = false; } else r = r + x; }
      else if (k == -1) { if (first) { r = -x; first = false; } else r = r - x; }
      else { z3::expr y = x * num(k, W); if (first) { r = y; first = false; } else r = r + y; }
    }
    return r;
  }
  // floating point through z3's FPA
  z3::sort fs(int w) { return w == 64 ? c.fpa_sort(11, 53) : c.fpa_sort(8, 24); }
  z3::expr F(E e, int w) { hasFp = true; return z3::expr(c, Z3_mk_fpa_to_fp_bv(c, V(e, w), fs(w))); }
  z3::expr rne() { return z3::expr(c, Z3_mk_fpa_rne(c)); }
  z3::expr rm(int p) { return z3::expr(c, p == 0 ? Z3_mk_fpa_rne(c) : p == 1 ? Z3_mk_fpa_rtn(c) : p == 2 ? Z3_mk_fpa_rtp(c) : p == 3 ? Z3_mk_fpa_rtz(c) : Z3_mk_fpa_rna(c)); }
  z3::expr fpv(E e) {   // FP-sorted value of a float-producing FOP node
    hasFp = true;
    int w = e->aux & 255, w2 = (e->aux >> 8) & 255, pred = (int)(e->aux >> 16);
    auto A = [&](int i, int ww) { E x = e->ch[i]; if (x->k == K_FOP && x->sub != F_CMP && x->sub != F_F2SI && x->sub != F_F2UI) return fpv(x); return F(x, ww); };
    switch (e->sub) {
      case F_ADD: return z3::expr(c, Z3_mk_fpa_add(c, rne(), A(0, w), A(1, w)));
      case F_SUB: return z3::expr(c, Z3_mk_fpa_sub(c, rne(), A(0, w), A(1, w)));
      case F_MUL: return z3::expr(c, Z3_mk_fpa_mul(c, rne(), A(0, w), A(1, w)));
      case F_DIV: return z3::expr(c, Z3_mk_fpa_div(c, rne(), A(0, w), A(1, w)));
      case F_NEG: return z3::expr(c, Z3_mk_fpa_neg(c, A(0, w)));
      case F_ABS: return z3::expr(c, Z3_mk_fpa_abs(c, A(0, w)));
      case F_RINT: return z3::expr(c, Z3_mk_fpa_round_to_integral(c, rm(pred), A(0, w)));
      case F_SI2F: return z3::expr(c, Z3_mk_fpa_to_fp_signed(c, rne(), V(e->ch[0], 64), fs(w)));
      case F_UI2F: return z3::expr(c, Z3_mk_fpa_to_fp_unsigned(c, rne(), V(e->ch[0], 64), fs(w)));
      case F_EXT: case F_TRUNC: return z3::expr(c, Z3_mk_fpa_to_fp_float(c, rne(), A(0, w2), fs(w)));
      default: throw std::runtime_error("fp op not encodable");
    }
  }
  z3::expr fcmp(E e) {
    int w2 = (e->aux >> 8) & 255, pred = (int)(e->aux >> 16);
    auto A = [&](int i) { E x = e->ch[i]; if (x->k == K_FOP && x->sub != F_CMP && x->sub != F_F2SI && x->sub != F_F2UI) return fpv(x); return F(x, w2); };
    z3::expr a = A(0), b = A(1);
    z3::expr un = z3::expr(c, Z3_mk_fpa_is_nan(c, a)) || z3::expr(c, Z3_mk_fpa_is_nan(c, b));
    z3::expr r = c.bool_val(false);
    switch (pred & 7) {
      case 1: r = z3::expr(c, Z3_mk_fpa_eq(c, a, b)); break; case 2: r = z3::expr(c, Z3_mk_fpa_gt(c, a, b)); break;
      case 3: r = z3::expr(c, Z3_mk_fpa_geq(c, a, b)); break; case 4: r = z3::expr(c, Z3_mk_fpa_lt(c, a, b)); break;
      case 5: r = z3::expr(c, Z3_mk_fpa_leq(c, a, b)); break; case 6: r = !un && !z3::expr(c, Z3_mk_fpa_eq(c, a, b)); break; case 7: r = !un; break; }
    if (pred == 15) return c.bool_val(true);
    if (pred & 8) r = un || ((pred & 7) ? r : c.bool_val(false));
    return r;
  }
  z3::expr fopbv(E e) {
    int w = e->aux & 255, w2 = (e->aux >> 8) & 255; hasFp = true;
    if (e->sub == F_F2SI || e->sub == F_F2UI) {
      E x = e->ch[0]; z3::expr a = (x->k == K_FOP && x->sub != F_CMP && x->sub != F_F2SI && x->sub != F_F2UI) ? fpv(x) : F(x, w2);
      return z3::expr(c, e->sub == F_F2SI ? Z3_mk_fpa_to_sbv(c, rm(3), a, w) : Z3_mk_fpa_to_ubv(c, rm(3), a, w));
    }
    z3::expr r = fpv(e); return z3::expr(c, Z3_mk_fpa_to_ieee_bv(c, r));
  }
};

static bool parseBv(const std::string& s0, I& out) {
  std::string s = s0; U u = 0;
  if (s.rfind("#x", 0) == 0) { for (size_t i = 2; i < s.size(); i++) { char ch = s[i]; int d = ch <= '9' ? ch - '0' : (ch | 32) - 'a' + 10; u = u * 16 + d; } out = wrapSv((int)(4 * (s.size() - 2)), (I)u); return true; }
  if (s.rfind("#b", 0) == 0) { for (size_t i = 2; i < s.size(); i++) u = u * 2 + (s[i] - '0'); out = wrapSv((int)(s.size() - 2), (I)u); return true; }
  return false;
}
static Sat runExternal(const std::string& smt2, const std::set<int>& vars, std::map<int, I>& model, int timeout_ms) {
  // portfolio: three solvers race on the same text
  char base[256]; snprintf(base, sizeof base, "%s/q.%d.%ld", g_dumpDir.c_str(), getpid(), g_ss.queries);
  std::string f = std::string(base) + ".smt2";
  { std::ofstream o(f); o << smt2 << "\n(check-sat)\n"; if (!vars.empty()) { o << "(get-value ("; for (int v : vars) o << " v" << v; o << "))\n"; } }
  char ts[32]; snprintf(ts, sizeof ts, "%d", std::max(1, timeout_ms / 1000)); char tms[32]; snprintf(tms, sizeof tms, "--tlimit=%d", timeout_ms);
  std::string zt = std::string("-T:") + ts;
  std::vector<std::vector<std::string>> cmds = {
    {"cvc5", "--produce-models", "--bitblast=eager", "--bv-sat-solver=cadical", tms, f},
    {"z3-new", zt, f},
    {"cvc5", "--produce-models", "--solve-bv-as-int=sum", tms, f}};
  struct P { pid_t pid; std::string out; }; std::vector<P> ps;
  for (size_t i = 0; i < cmds.size(); i++) {
    std::string o = std::string(base) + "." + std::to_string(i) + ".out";
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      int fd = open(o.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 1); int n = open("/dev/null", O_WRONLY); dup2(n, 2);
      std::vector<char*> av; for (auto& s : cmds[i]) av.push_back((char*)s.c_str()); av.push_back(nullptr);
      execvp(av[0], av.data()); _exit(127);
    }
    ps.push_back({p, o});
  }
  Sat res = UNKNOWN; size_t live = ps.size(); double end = now() + timeout_ms / 1000.0 + 2;
  std::vector<bool> done(ps.size(), false);
  while (live && res == UNKNOWN && now() < end) {
    for (size_t i = 0; i < ps.size(); i++) if (!done[i]) {
      int st; pid_t r = waitpid(ps[i].pid, &st, WNOHANG);
      if (r == ps[i].pid) {
        done[i] = true; live--;
        std::ifstream in(ps[i].out); std::stringstream ss; ss << in.rdbuf(); std::string s = ss.str();
        bool unsat = s.rfind("unsat", 0) == 0;
        if (unsat && (i == 2 || true)) { res = UNSAT; break; }
        if (s.rfind("sat", 0) == 0) {
          res = SAT;
          size_t pos = 0; while ((pos = s.find("(v", pos)) != std::string::npos) { size_t q = pos + 2; int v = atoi(s.c_str() + q); size_t sp = s.find(' ', q), cl = s.find(')', q); if (sp != std::string::npos && cl != std::string::npos && sp < cl) { I x; if (parseBv(s.substr(sp + 1, cl - sp - 1), x)) model[v] = x; } pos = q; }
          break;
        }
      }
    }
    usleep(2000);
  }
  for (size_t i = 0; i < ps.size(); i++) if (!done[i]) { kill(ps[i].pid, SIGKILL); int st; waitpid(ps[i].pid, &st, 0); }
  for (auto& p : ps) unlink(p.out.c_str());
  unlink(f.c_str());
  return res;
}

static bool validate(const std::vector<E>& conj, std::map<int, I>& m, Assign* out) {
  Assign a; a.val.assign(g_vars.size(), 0); a.set.assign(g_vars.size(), 0);
  for (auto& p : m) { a.val[p.first] = p.second; a.set[p.first] = 1; if (p.second < g_vars[p.first].lo || p.second > g_vars[p.first].hi) return false; }
  for (E e : conj) if (!a.eval(e)) return false;
  if (out) *out = a;
  return true;
}

static Sat solveZ3(const std::vector<E>& conj, bool absMul, int timeout_ms, std::map<int, I>& model, std::string* smt2, bool& abstracted) {
  try {
    z3::context c;
    Enc en(c, absMul);
    z3::expr_vector v(c);
    for (E e : conj) v.push_back(en.B(e));
    for (auto& s : en.side) v.push_back(s);
    abstracted = en.absCount > 0;
    z3::solver s = en.hasFp ? z3::solver(c) : (z3::tactic(c, "simplify") & z3::tactic(c, "propagate-values") & z3::tactic(c, "solve-eqs") & z3::tactic(c, "simplify") & z3::tactic(c, "qfbv")).mk_solver();
    z3::params p(c); p.set("timeout", (unsigned)timeout_ms); s.set(p);
    s.add(v);
    if (smt2) {
      z3::solver s2(c); s2.add(v); *smt2 = s2.to_smt2();
      size_t k = smt2->find("(check-sat)"); if (k != std::string::npos) smt2->erase(k);
      *smt2 = std::string("(set-option :produce-models true)\n(set-logic ") + (en.hasFp ? "QF_BVFP" : "QF_BV") + ")\n" + *smt2;
      // make sure every variable asked for is declared
      std::set<int> vs; collectVars(conj, vs);
      for (int i : vs) { std::string d = "(declare-fun v" + std::to_string(i) + " "; if (smt2->find(d) == std::string::npos) { char b[128]; snprintf(b, sizeof b, "(declare-fun v%d () (_ BitVec %d))\n", i, bitsFor(g_vars[i].lo, g_vars[i].hi)); *smt2 += b; } }
    }
    if (timeout_ms <= 0) return UNKNOWN;
    z3::check_result r = s.check();
    if (r == z3::unsat) return UNSAT;
    if (r == z3::unknown) return UNKNOWN;
    z3::model m = s.get_model();
    std::set<int> vs; collectVars(conj, vs);
    for (int i : vs) {
      int w = bitsFor(g_vars[i].lo, g_vars[i].hi);
      z3::expr x = m.eval(c.bv_const(("v" + std::to_string(i)).c_str(), w), true);
      I val; if (parseBv(x.to_string(), val)) {
        val = wrapSv(w, val);
        if (val < g_vars[i].lo) val = g_vars[i].lo;
        if (val > g_vars[i].hi) val = g_vars[i].hi;
        model[i] = val; }
    }
    return SAT;
  } catch (std::runtime_error& ex) { if (g_verbose) fprintf(stderr, "%s\n", ex.what()); return UNKNOWN;
  } catch (z3::exception& ex) { if (g_verbose) fprintf(stderr, "z3: %s\n", ex.msg()); return UNKNOWN; }
}

static void flatten(E e, std::vector<E>& out) { if (e->k == K_BAND) for (E c : e->ch) flatten(c, out); else out.push_back(e); }

Sat solve(const std::vector<E>& conj0, Assign* model, int timeout_ms, bool allowExternal, bool quickOnly) {
  std::vector<E> conj; for (E e : conj0) flatten(e, conj);
  std::sort(conj.begin(), conj.end(), [](E a, E b) { return a->id < b->id; }); conj.erase(std::unique(conj.begin(), conj.end()), conj.end());
  for (E e : conj) if (isConst(e) && !e->c0) return UNSAT;
  conj.erase(std::remove_if(conj.begin(), conj.end(), [](E e) { return isConst(e); }), conj.end());
  double t0 = now(); g_ss.queries++;
  auto fin = [&](Sat r) { double d = now() - t0; g_ss.secs += d; if (d > g_ss.maxq) g_ss.maxq = d; if (r == SAT) g_ss.sat++; else if (r == UNSAT) g_ss.unsat++; else g_ss.unknown++; return r; };
  if (conj.empty()) { std::map<int, I> m; validate(conj, m, model); return fin(SAT); }
  // 1. products and table look-ups abstracted to free values of their range
  std::map<int, I> m; bool abst = false;
  Sat r = solveZ3(conj, true, std::min(timeout_ms, 20000), m, nullptr, abst);
  if (r == UNSAT) { if (abst) g_ss.abs_unsat++; return fin(UNSAT); }
  if (r == SAT) { if (validate(conj, m, model)) return fin(SAT); if (!abst && g_verbose) fprintf(stderr, "model did not validate\n"); }
  if (quickOnly) return fin(UNKNOWN);
  // 2. concrete probing and partial concretisation: cheap route to a counterexample
  std::set<int> vs; collectVars(conj, vs);
  uint64_t seed = 88172645463325252ull ^ (g_ss.queries * 7919);
  auto rnd = [&]() { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed; };
  auto draw = [&](int v) -> I {
    I lo = g_vars[v].lo, hi = g_vars[v].hi; U span = (U)(hi - lo);
    switch (rnd() % 6) { case 0: return lo; case 1: return hi; case 2: return lo <= 0 && hi >= 0 ? 0 : lo; case 3: { I x = (I)(rnd() % 17) - 8; return x < lo ? lo : x > hi ? hi : x; } }
    return lo + (I)(span ? (((U)rnd() << 64 | rnd()) % (span + 1)) : 0); };
  for (int t = 0; t < 200; t++) { std::map<int, I> q; for (int v : vs) q[v] = draw(v); if (validate(conj, q, model)) return fin(SAT); }
  // 3. exact
  std::string smt2; m.clear();
  int t1 = allowExternal ? std::min(timeout_ms, 3000) : timeout_ms;
  r = solveZ3(conj, false, t1, m, allowExternal ? &smt2 : nullptr, abst);
  if (r == UNSAT) return fin(UNSAT);
  if (r == SAT) { if (validate(conj, m, model)) return fin(SAT); if (g_verbose) fprintf(stderr, "exact model did not validate\n"); return fin(UNKNOWN); }
  if (!allowExternal) return fin(UNKNOWN);
  // 4. partial concretisation: fix a random half of the variables, solve the rest
  for (int t = 0; t < 6; t++) {
    std::map<int, I> fix; for (int v : vs) if (rnd() % 3) fix[v] = draw(v);
    std::unordered_map<E, E> memo; std::vector<E> cj; bool dead = false;
    try { for (E e : conj) { E x = substVar(e, fix, memo); if (isConst(x) && !x->c0) { dead = true; break; } cj.push_back(x); } } catch (ovf_error&) { continue; }
    if (dead) continue;
    std::map<int, I> mm; bool ab; Sat q = solveZ3(cj, false, 1500, mm, nullptr, ab);
    if (q == SAT) { for (auto& p : fix) mm[p.first] = p.second; if (validate(conj, mm, model)) return fin(SAT); }
  }
  g_ss.ext++;
  m.clear();
  r = runExternal(smt2, vs, m, timeout_ms);
  if (r == UNSAT) return fin(UNSAT);
  if (r == SAT && validate(conj, m, model)) return fin(SAT);
  if (g_verbose) fprintf(stderr, "unknown after portfolio\n");
  return fin(UNKNOWN);
}
