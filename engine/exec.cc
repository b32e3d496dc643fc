// Symbolic executor for LLVM bitcode with state merging at post-dominators.
#include <unordered_set>
#include <unordered_map>
#include "smt.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <cstring>
#include <cmath>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/select.h>
#include <signal.h>
#include <pthread.h>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <deque>
using namespace llvm;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double g_t0;

// ------------------------------------------------------------------ options / results
static std::string optEntry, optOut = "/tmp/symex.out", optTier = "quick";
static int optJobs = 8; static double optTimeout = 600; static int optSeed = 1; static int optQ = 60000; static bool optTrace = false; static bool optStrictShift = false;
static std::vector<int64_t> optPrefix; static bool optSingle = false; static int optCheckMod = 0;
static double optWorkerTimeout = 300;

struct Results {
  long instrs = 0, checks = 0, trivial = 0, smt = 0, unknown = 0, splits = 0, memchecks = 0, assumes = 0, merges = 0, undef = 0;
  std::map<std::string, long> covers; std::map<std::string, long> labels; std::map<std::string, long> unknowns;
  std::set<std::string> funcs;
};
static Results R;
static std::string g_resFile; static int g_pipeW = -1;
static std::vector<int64_t> g_prefix; static size_t g_pickPos = 0;
static std::vector<std::pair<std::string, int64_t>> g_picks;      // performed picks (full name, value)
static std::map<std::string, int> g_nameCount;
static std::vector<std::pair<std::string, int>> g_symOrder;       // name -> var idx (or -1: constant)
static std::map<std::string, int64_t> g_constSyms;
static std::vector<std::pair<E, std::vector<E>>> g_obs;                                       // values reported by sx_obs, compared with the native run of the same input
static int optMaxViol = 6;

// ------------------------------------------------------------------ state
struct Val { E e = nullptr; std::shared_ptr<std::vector<Val>> agg; Val() {} Val(E x) : e(x) {} };
struct Cell { E v = nullptr; uint8_t idx = 0, n = 0; };
struct Obj { uint64_t base, size; bool ro = false; char kind = 'g'; std::string name; std::vector<Cell> c; };
typedef std::shared_ptr<Obj> OP;
// literals known to hold on a path (the path condition and facts proved under it), shared between forked paths
struct Layer { std::unordered_set<E> s; std::shared_ptr<Layer> up; };
struct World {
  std::vector<OP> mem;
  std::vector<E> pc; std::shared_ptr<Layer> known = std::make_shared<Layer>();
  bool has(E c) const { for (Layer* l = known.get(); l; l = l->up.get()) if (l->s.count(c)) return true; return false; }
  bool nothing() const { for (Layer* l = known.get(); l; l = l->up.get()) if (!l->s.empty()) return false; return true; }
  void fact(E c) { if (isConst(c)) return; if (c->k == K_BAND) { for (E x : c->ch) fact(x); return; } if (!has(c)) known->s.insert(c); }   // implied by pc
  void assume(E c) { if (isConst(c)) return; if (c->k == K_BAND) { for (E x : c->ch) assume(x); return; } if (!has(c)) { known->s.insert(c); pc.push_back(c); } }
};
struct PathDead {};
struct NeedSplit { E cond; };
struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

struct FnInfo {
  std::unordered_map<const Value*, int> reg; int nregs = 0;
  std::unordered_map<const BasicBlock*, const BasicBlock*> ip;
  std::unordered_set<const BasicBlock*> dead;   // blocks from which no return is reachable
  std::unordered_map<const BasicBlock*, std::vector<const Instruction*>> ins;
};
struct Frame { const Function* F; FnInfo* fi; std::vector<Val> regs; std::vector<uint64_t> allocas; Val ret; bool returned = false; };

static std::unique_ptr<Module> M; static const DataLayout* DL;
static std::unordered_map<const Function*, std::unique_ptr<FnInfo>> g_fi;
static std::unordered_map<const GlobalValue*, uint64_t> g_gaddr; static std::map<uint64_t, const Function*> g_faddr;
static uint64_t g_next = 0x10000000ull;
static std::vector<const char*> g_stackTrace;
static std::vector<const Instruction*> g_cur;

static uint64_t newAddr(uint64_t size) { uint64_t a = g_next; g_next += ((size + 0x20000 + 0xffff) & ~0xffffull); return a; }
static OP newObj(World& w, uint64_t size, char kind, const std::string& name) {
  auto o = std::make_shared<Obj>(); o->base = newAddr(size); o->size = size; o->kind = kind; o->name = name; o->c.resize(size);
  w.mem.push_back(o); return o;
}
static int findObj(World& w, uint64_t a) {
  size_t lo = 0, hi = w.mem.size();
  while (lo < hi) { size_t m = (lo + hi) / 2; if (w.mem[m]->base <= a) lo = m + 1; else hi = m; }
  if (lo == 0) return -1;
  Obj& o = *w.mem[lo - 1];
  if (a < o.base + o.size || (a == o.base && o.size == 0)) return (int)lo - 1;
  return -1;
}
static Obj& wr(World& w, int i) { if (w.mem[i].use_count() > 1) w.mem[i] = std::make_shared<Obj>(*w.mem[i]); return *w.mem[i]; }
static void freeObj(World& w, uint64_t base) { for (size_t i = w.mem.size(); i-- > 0;) if (w.mem[i]->base == base) { w.mem.erase(w.mem.begin() + i); return; } }

// ------------------------------------------------------------------ samples (known models of prefixes of the path condition)
static std::vector<Assign> g_samples; static uint64_t g_rng = 0x1234567;
static uint64_t rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return g_rng; }
static I drawVar(int v, int style) {
  I lo = g_vars[v].lo, hi = g_vars[v].hi; U span = (U)(hi - lo);
  if (style == 0) { I x = 0; return x < lo ? lo : x > hi ? hi : x; }
  int k = (int)(rnd() % 6);
  if (k == 0) return lo;
  if (k == 1) return hi;
  if (k == 2) { I x = (I)(rnd() % 17) - 8; return x < lo ? lo : x > hi ? hi : x; }
  return lo + (I)(((U)rnd() << 64 | rnd()) % (span + 1));
}
static void initSamples() {
  g_samples.resize(10);
  for (size_t i = 0; i < g_samples.size(); i++) { int st = (int)i; g_samples[i].gen = [st](int v) { return drawVar(v, st); }; }
}
static std::unordered_map<E, std::set<int>> g_varsOf;
static bool satPc(Assign& a, World& w) { for (E c : w.pc) if (!a.eval(c)) return false; return true; }
static void addSample(Assign& m) {
  m.memo.clear(); m.has.clear(); m.gen = [](int v) { return drawVar(v, 1); };
  if (g_samples.size() < 40) g_samples.push_back(m); else g_samples[10 + rnd() % 30] = m;
}

// ------------------------------------------------------------------ reporting
static std::string jesc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
static std::string whereAmI() {
  std::string s; int n = 0;
  for (size_t i = g_cur.size(); i-- > 0 && n < 12;) { const Instruction* in = g_cur[i]; if (!in) continue; s += (n ? " < " : ""); s += demangle(in->getFunction()->getName().str()); if (in->getDebugLoc()) s += ":" + std::to_string(in->getDebugLoc().getLine()); if (s.size() > 1500) break; n++; }
  return s;
}
static void writeResults(const std::string& status, const std::string& extra) {
  std::ofstream o(g_resFile);
  o << "{\"status\":\"" << status << "\",\"picks\":[";
  for (size_t i = 0; i < g_picks.size(); i++) o << (i ? "," : "") << "[\"" << jesc(g_picks[i].first) << "\"," << g_picks[i].second << "]";
  o << "],\"instrs\":" << R.instrs << ",\"checks\":" << R.checks << ",\"trivial\":" << R.trivial << ",\"smt\":" << R.smt << ",\"unknown\":" << R.unknown
    << ",\"splits\":" << R.splits << ",\"merges\":" << R.merges << ",\"memchecks\":" << R.memchecks << ",\"undef\":" << R.undef << ",\"queries\":" << g_ss.queries << ",\"q_sat\":" << g_ss.sat << ",\"q_unsat\":" << g_ss.unsat << ",\"q_unknown\":" << g_ss.unknown
    << ",\"q_abs\":" << g_ss.abs_unsat << ",\"q_ext\":" << g_ss.ext << ",\"solver_s\":" << g_ss.secs << ",\"max_q\":" << g_ss.maxq << ",\"nodes\":" << g_nodes << ",\"vars\":" << g_vars.size() << ",\"wall\":" << (now() - g_t0);
  auto mp = [&](const char* k, std::map<std::string, long>& m) { o << ",\"" << k << "\":{"; bool f = true; for (auto& p : m) { o << (f ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; f = false; } o << "}"; };
  mp("covers", R.covers); mp("labels", R.labels); mp("unknowns", R.unknowns);
  o << ",\"funcs\":["; { bool f = true; for (auto& s : R.funcs) { o << (f ? "" : ",") << "\"" << jesc(s) << "\""; f = false; } } o << "]";
  o << extra << "}\n";
}
static std::string valuesJson(Assign& m) {
  std::stringstream s; bool f = true; s << "[";
  for (auto& p : g_picks) { s << (f ? "" : ",") << "[\"" << jesc(p.first) << "\",\"" << p.second << "\"]"; f = false; }
  for (auto& p : g_constSyms) { s << (f ? "" : ",") << "[\"" << jesc(p.first) << "\",\"" << p.second << "\"]"; f = false; }
  for (auto& p : g_symOrder) {
    I v = 0; if ((size_t)p.second < m.set.size() && m.set[p.second]) v = m.val[p.second]; else v = std::min(std::max<I>(0, g_vars[p.second].lo), g_vars[p.second].hi);
    s << (f ? "" : ",") << "[\"" << jesc(p.first) << "\",\"" << i2s(v) << "\"]"; f = false;
  }
  s << "]"; return s.str();
}
[[noreturn]] static void violation(const std::string& kind, const std::string& label, Assign& m) {
  std::stringstream s;
  s << ",\"violation\":{\"kind\":\"" << kind << "\",\"label\":\"" << jesc(label) << "\",\"where\":\"" << jesc(whereAmI()) << "\",\"values\":" << valuesJson(m);
  s << "}";
  writeResults("violation", s.str());
  _exit(0);
}
// satisfiability of pc && goal; constraints of pc that share no variable (transitively) with the goal are left out
// and their values taken from a known model of pc (pc itself is satisfiable on every path that is being executed)
static Sat solveUnder(World& w, E goal, Assign* m, int tmo, bool ext, bool quick = false) {
  if (isConst(goal) && !goal->c0) return UNSAT;
  const Assign* base = nullptr; for (auto& s : g_samples) if (satPc(s, w)) { base = &s; break; }
  std::vector<E> q = w.pc;
  if (base && !w.pc.empty() && !isConst(goal)) {
    auto vars = [&](E e) -> const std::set<int>& { auto it = g_varsOf.find(e); if (it != g_varsOf.end()) return it->second; std::set<int> v; collectVars({e}, v); return g_varsOf[e] = v; };
    std::set<int> reach = vars(goal); std::vector<bool> in(w.pc.size(), false); bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < w.pc.size(); i++) if (!in[i]) { const std::set<int>& v = vars(w.pc[i]); bool hit = false; for (int x : v) if (reach.count(x)) { hit = true; break; } if (hit) { in[i] = true; reach.insert(v.begin(), v.end()); ch = true; } } }
    q.clear(); for (size_t i = 0; i < w.pc.size(); i++) if (in[i]) q.push_back(w.pc[i]);
    q.push_back(goal);
    Assign mm; Sat r = solve(q, &mm, tmo, ext, quick);
    if (r != SAT) return r;
    Assign full = *base; full.memo.clear(); full.has.clear();
    size_t nv = g_vars.size(); if (full.val.size() < nv) { full.val.resize(nv, 0); full.set.resize(nv, 0); }
    for (int x : reach) if ((size_t)x < mm.set.size() && mm.set[x]) { full.val[x] = mm.val[x]; full.set[x] = 1; } else if ((size_t)x < mm.val.size()) { full.val[x] = mm.val[x]; full.set[x] = 1; }
    bool ok = full.eval(goal) != 0; if (ok) ok = satPc(full, w);
    if (ok) { if (m) { *m = full; } return SAT; }
    q = w.pc;
  }
  q.push_back(goal);
  return solve(q, m, tmo, ext, quick);
}
// obligation: cond must hold on every model of the path condition
static void obligation(World& w, E cond, const std::string& kind, const std::string& label) {
  if (isConst(cond) && cond->c0) { R.trivial++; return; }
  if (w.has(cond)) { R.trivial++; return; }
  for (auto& s : g_samples) { if (satPc(s, w) && !s.eval(cond)) { Assign m = s; violation(kind, label, m); } }
  Assign m; double t0_ = now(); Sat r = solveUnder(w, notB(cond), &m, optQ, true);
  if (g_verbose && now() - t0_ > 0.5) fprintf(stderr, "slow obligation %.2fs -> %d %s: %s\n", now() - t0_, r, label.c_str(), show(cond, getenv("SX_DEPTH") ? atoi(getenv("SX_DEPTH")) : 8).c_str());
  if (r == UNSAT) { R.smt++; if (!isConst(cond)) { w.fact(cond); return; } }
  else if (r == SAT) violation(kind, label, m);
  else { R.unknown++; R.unknowns[label + " @ " + (g_cur.empty() || !g_cur.back() ? "" : whereAmI().substr(0, 200))]++; if (g_verbose) fprintf(stderr, "UNKNOWN %s: %s\n", label.c_str(), show(cond, getenv("SX_DEPTH") ? atoi(getenv("SX_DEPTH")) : 8).c_str()); }
  w.assume(cond);
  if (isConst(cond) && !cond->c0) throw PathDead();
}
// 1: only true, 0: only false, 2: both possible, -1: path infeasible
static int decide_(World& w, E c); static E underPc(World& w, E e);
// an undecided branch condition is asked again by the other side of a comparison under the same path condition: remember it
static std::unordered_map<E, std::vector<std::vector<E>>> g_open;
static int decideMemo(World& w, E c) {
  if (isConst(c)) return c->c0 ? 1 : 0;
  auto it = g_open.find(c); if (it != g_open.end()) for (auto& p : it->second) if (p == w.pc) return 2;
  size_t q0 = g_ss.queries; int r = decide_(w, c);
  if (r == 2 && g_ss.queries != q0) { g_open[c].push_back(w.pc); g_open[notB(c)].push_back(w.pc); }
  return r;
}
static int decide(World& w, E c) { double a = now(); int r = decideMemo(w, c); if (g_verbose && now() - a > 0.3) fprintf(stderr, "slow decide %.2fs -> %d pc=%zu %s\n   @ %s\n", now() - a, r, w.pc.size(), show(c, 4).c_str(), whereAmI().c_str()); return r; }
static bool lowBits(E c) {
  if (c->k == K_ADD && c->ch.size() == 1) return lowBits(c->ch[0]);
  if (c->k == K_EQZ) return c->ch[0]->k == K_WRAPU;
  if (c->k == K_BAND) { for (E x : c->ch) if (lowBits(x)) return true; }
  return false;
}
static int decide_(World& w, E c) {
  if (isConst(c)) return c->c0 ? 1 : 0;
  if (w.has(c)) return 1;
  E n = notB(c); if (w.has(n)) return 0;
  { E u = underPc(w, c); if (isConst(u)) return u->c0 ? 1 : 0; }
  bool t = false, f = false;
  // "these low bits are zero": hardly ever decided by the path, and slow to decide; a branch kept needlessly only costs a merge
  int lim = getenv("SX_LIM") ? atoi(getenv("SX_LIM")) : 500; if (lowBits(c)) lim = 100;
  for (auto& s : g_samples) { if (t && f) break; if (satPc(s, w)) { if (s.eval(c)) t = true; else f = true; } }
  if (!t) { Assign m; Sat r = solveUnder(w, c, &m, lim, false, true); if (r == SAT) { addSample(m); t = true; } else if (r == UNKNOWN) t = true; }
  if (!f) { Assign m; Sat r = solveUnder(w, n, &m, lim, false, true); if (r == SAT) { addSample(m); f = true; } else if (r == UNKNOWN) f = true; }
  if (t && f) return 2;
  return t ? 1 : f ? 0 : -1;
}
static E underPc(World& w, E e) {
  if (w.nothing() || isConst(e)) return e;
  std::unordered_map<E, E> memo;
  std::function<E(E)> go = [&](E x) -> E {
    if (x->k == K_CONST || x->k == K_VAR) return x;
    auto it = memo.find(x); if (it != memo.end()) return it->second;
    E r = x;
    if (isBool(x)) { if (w.has(x)) r = konst(1); else if (w.has(notB(x))) r = konst(0); }
    if (r == x && (x->k == K_ITE || x->k == K_ADD || x->k == K_MUL || x->k == K_WRAPS || x->k == K_WRAPU || x->k == K_SHR || x->k == K_MIN || x->k == K_MAX || x->k == K_BAND || x->k == K_TBL || x->k == K_LTZ || x->k == K_EQZ)) {
      if (x->k == K_ITE) { E c = go(x->ch[0]); if (isConst(c)) r = go(c->c0 ? x->ch[1] : x->ch[2]); else { E a = go(x->ch[1]), b = go(x->ch[2]); if (a != x->ch[1] || b != x->ch[2] || c != x->ch[0]) r = iteE(c, a, b); } }
      else if (x->k == K_ADD) { E s = konst(x->c0); bool ch = false; for (size_t i = 0; i < x->ch.size(); i++) { E y = go(x->ch[i]); if (y != x->ch[i]) ch = true; s = add(s, mulc(y, x->co[i])); } if (ch) r = s; }
      else if (x->k == K_MUL) { E s = konst(1); bool ch = false; for (E y : x->ch) { E z = go(y); if (z != y) ch = true; s = mul(s, z); } if (ch) r = s; }
      else if (x->k == K_WRAPS || x->k == K_WRAPU) {
        E y = go(x->ch[0]); I lo = y->lo, hi = y->hi; for (E p : w.pc) if (p->k == K_LTZ || p->k == K_ADD) { I l, h; boundsUnder(y, p, true, l, h); if (l > lo) lo = l; if (h < hi) hi = h; }
        E q = lo <= hi ? unwrapIn(x->k == K_WRAPS, (int)x->aux, y, lo, hi) : nullptr;
        if (q) r = q; else if (y != x->ch[0]) r = x->k == K_WRAPS ? wrapS((int)x->aux, y) : wrapU((int)x->aux, y); }
      else if (x->k == K_SHR) { E y = go(x->ch[0]); if (y != x->ch[0]) r = shr(y, (int)x->aux); }
      else if (x->k == K_TBL) { E y = go(x->ch[0]); if (y != x->ch[0]) r = tblE((int)x->aux, y); }
      else if (x->k == K_MIN || x->k == K_MAX) { E y = go(x->ch[0]), z = go(x->ch[1]); if (y != x->ch[0] || z != x->ch[1]) r = x->k == K_MIN ? minE(y, z) : maxE(y, z); }
      else if (x->k == K_BAND) { E s = konst(1); for (E y : x->ch) s = andB(s, go(y)); r = s; }
      else if (x->k == K_LTZ) { E y = go(x->ch[0]); if (y != x->ch[0]) r = ltz(y); }
      else if (x->k == K_EQZ) { E y = go(x->ch[0]); if (y != x->ch[0]) r = eqz(y); }
    }
    memo[x] = r; return r;
  };
  E r = go(e);
  if (!isConst(r)) for (E p : w.pc) if (p->k == K_EQZ) { E d = sub(r, p->ch[0]); if (isConst(d)) return d; d = add(r, p->ch[0]); if (isConst(d)) return d; }
  return r;
}
static E findIteCond(E e, int depth = 0) {
  if (depth > 12) return nullptr;
  if (e->k == K_ITE) return e->ch[0];
  if (isBool(e) && e->k != K_ADD && e->k != K_CONST && e->k != K_VAR) return e;
  for (E c : e->ch) { E r = findIteCond(c, depth + 1); if (r) return r; }
  return nullptr;
}
// concrete value of e on this path (splits the path when it is not unique)
static I concrete(World& w, E e0) {
  E e = underPc(w, e0);
  if (isConst(e)) return e->c0;
  if (e->k == K_ADD || e->k == K_ITE || e->k == K_MIN || e->k == K_MAX || e->k == K_WRAPS || e->k == K_WRAPU || e->k == K_SHR) { E c = findIteCond(e); if (c && isBool(c)) { int d = decide(w, c); if (d == 2) throw NeedSplit{c}; if (d == 1) { w.fact(c); return concrete(w, e); } if (d == 0) { w.fact(notB(c)); return concrete(w, e); } throw PathDead(); } }
  for (auto& s : g_samples) if (satPc(s, w)) { I v = s.eval(e); E c = eqz(addc(e, -v)); int d = decide(w, c); if (d == 1) { w.fact(c); return v; } if (d == 2) throw NeedSplit{c}; }
  Assign m; Sat r = solve(w.pc, &m, 10000, false);
  if (r == UNSAT) throw PathDead();
  if (r == UNKNOWN) throw Unsupported("cannot concretise");
  addSample(m);
  I v = m.eval(e); E c = eqz(addc(e, -v)); int d = decide(w, c); if (d == 1) { w.fact(c); return v; } if (d == 2) throw NeedSplit{c};
  throw PathDead();
}

// ------------------------------------------------------------------ memory
static E undefVar(int bytes) { R.undef++; return mkvar("undef" + std::to_string(g_vars.size()), -(((I)1) << (8 * bytes - 1)), (((I)1) << (8 * bytes - 1)) - 1); }
static E readCells(World& w, int oi, uint64_t off, int n) {
  Obj& o = *w.mem[oi];
  Cell* c = &o.c[off];
  if (c[0].v) {
    bool seq = true; for (int i = 1; i < n && seq; i++) if (c[i].v != c[0].v || c[i].idx != c[0].idx + i || c[i].n != c[0].n) seq = false;
    if (seq) { if (c[0].idx == 0 && c[0].n == n) return c[0].v; return wrapS(8 * n, shr(c[0].v, 8 * c[0].idx)); }
  } else {
    bool all = true; for (int i = 0; i < n; i++) if (c[i].v) all = false;
    if (all) { E v = undefVar(n); Obj& q = wr(w, oi); for (int i = 0; i < n; i++) q.c[off + i] = {v, (uint8_t)i, (uint8_t)n}; return v; }
  }
  std::vector<E> b;
  for (int i = 0; i < n; i++) {
    Cell& k = w.mem[oi]->c[off + i];
    if (!k.v) { E v = undefVar(1); wr(w, oi).c[off + i] = {v, 0, 1}; b.push_back(v); }
    else b.push_back(byteOf(k.v, k.n, k.idx));
  }
  return compose(b);
}
static void writeCells(World& w, int oi, uint64_t off, int n, E v) { Obj& o = wr(w, oi); for (int i = 0; i < n; i++) o.c[off + i] = {v, (uint8_t)i, (uint8_t)n}; }

static std::string objName(World& w, uint64_t a) { int i = findObj(w, a); return i < 0 ? "no object" : w.mem[i]->name; }
struct Res { int oi; E off; };   // off relative to object, possibly symbolic, proven inside
static Res resolve(World& w, E addr, uint64_t n, bool write) {
  if (!isConst(addr)) addr = underPc(w, addr);
  if (isConst(addr)) {
    uint64_t a = (uint64_t)addr->c0; int oi = findObj(w, a);
    if (oi < 0 || a + n > w.mem[oi]->base + w.mem[oi]->size || (write && w.mem[oi]->ro)) {
      // certain out-of-bounds access: a violation if this path is feasible
      std::string msg = std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes outside any object";
      if (oi >= 0) msg += (w.mem[oi]->ro && write ? " (read-only " : " (overruns ") + w.mem[oi]->name + ")";
      else { // nearest object for diagnosis
        size_t k = 0; while (k < w.mem.size() && w.mem[k]->base <= a) k++; 
        if (k) msg += " (" + std::to_string((int64_t)(a - w.mem[k - 1]->base)) + " bytes from start of " + w.mem[k - 1]->name + ", size " + std::to_string(w.mem[k - 1]->size) + ")";
      }
      obligation(w, konst(0), "memory", msg);
      throw PathDead();
    }
    R.memchecks++;
    return {oi, konst((I)(a - w.mem[oi]->base))};
  }
  // pick the object from a model of the path
  I a0 = 0; bool have = false;
  for (auto& s : g_samples) if (satPc(s, w)) { a0 = s.eval(addr); have = true; break; }
  if (!have) { Assign m; Sat r = solve(w.pc, &m, 20000, true); if (r == UNSAT) throw PathDead(); if (r == UNKNOWN) throw Unsupported("no model for path at symbolic access"); a0 = m.eval(addr); addSample(m); }
  int oi = findObj(w, (uint64_t)a0);
  if (oi < 0) {
    // perhaps one past the end etc.: certain violation on this model
    Assign m; std::vector<E> q = w.pc; q.push_back(eqz(addc(addr, -a0))); if (solve(q, &m, 20000, true) == SAT) violation("memory", std::string(write ? "write" : "read") + " outside any object (symbolic address)", m);
    throw Unsupported("symbolic address resolution");
  }
  Obj& o = *w.mem[oi];
  E in = andB(notB(ltz(addc(addr, -(I)o.base))), notB(ltz(sub(konst((I)(o.base + o.size - n)), addr))));
  if (o.size < n) in = konst(0);
  R.memchecks++;
  if (!(isConst(in) && in->c0)) {
    Assign m; Sat r = solveUnder(w, notB(in), &m, optQ, true);
    if (r == SAT) {
      I a1 = m.eval(addr); int o2 = findObj(w, (uint64_t)a1);
      if (o2 >= 0 && o2 != oi && (uint64_t)a1 + n <= w.mem[o2]->base + w.mem[o2]->size) { addSample(m); throw NeedSplit{in}; }
      violation("memory", std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes outside " + o.name + " (offset " + i2s(a1 - (I)o.base) + ", size " + std::to_string(o.size) + ")", m);
    }
    if (r == UNKNOWN) { R.unknown++; R.unknowns["bounds of access @ " + whereAmI().substr(0, 200)]++; }
    if (r == UNSAT) { R.smt++; w.fact(in); } else w.assume(in);
  }
  if (write && o.ro) { Assign m; Sat r = solve(w.pc, &m, 20000, true); if (r == SAT) violation("memory", "write to read-only " + o.name, m); throw PathDead(); }
  return {oi, addc(addr, -(I)o.base)};
}
static void offsets(E off, uint64_t size, uint64_t n, std::vector<uint64_t>& v) {
  I lo = std::max<I>(off->lo, 0), hi = std::min<I>(off->hi, (I)size - (I)n);
  I g = 0; I c0 = off->k == K_ADD ? off->c0 : 0;
  if (off->k == K_ADD) { for (I c : off->co) { I a = g < 0 ? -g : g, b = c < 0 ? -c : c; while (b) { I t = a % b; a = b; b = t; } g = a; } } else g = 1;
  if (g == 0) g = 1;
  I m = ((c0 % g) + g) % g; I st = lo + (((m - lo) % g) + g) % g;
  if (hi >= st && (hi - st) / g > 70000) throw Unsupported("symbolic access over too many offsets");
  for (I o = st; o <= hi; o += g) v.push_back((uint64_t)o);
}
static E loadN(World& w, E addr, int n) {
  Res r = resolve(w, addr, n, false);
  if (isConst(r.off)) return readCells(w, r.oi, (uint64_t)r.off->c0, n);
  std::vector<uint64_t> os; offsets(r.off, w.mem[r.oi]->size, n, os);
  if (os.empty()) throw PathDead();
  std::vector<E> vs; bool allc = true;
  for (uint64_t o : os) { E v = readCells(w, r.oi, o, n); vs.push_back(v); if (!isConst(v)) allc = false; }
  if (os.size() == 1) return vs[0];
  if (allc && os.size() > 2) {
    I g = (I)os[1] - (I)os[0]; std::vector<I> T; for (E v : vs) T.push_back(v->c0);
    E d = addc(r.off, -(I)os[0]); E ix = g == 1 ? d : nullptr;
    if (!ix) { ix = sdivE(d, konst(g)); }
    return tblE(mktable(T), ix);
  }
  if (os.size() > 4096) throw Unsupported("symbolic load over too many symbolic cells");
  std::function<E(size_t, size_t)> tree = [&](size_t l, size_t h) -> E {
    if (l == h) return vs[l];
    size_t m = (l + h + 1) / 2;
    return iteE(ltz(addc(r.off, -(I)os[m])), tree(l, m - 1), tree(m, h));
  };
  return tree(0, os.size() - 1);
}
static void storeN(World& w, E addr, int n, E v) {
  Res r = resolve(w, addr, n, true);
  if (isConst(r.off)) { writeCells(w, r.oi, (uint64_t)r.off->c0, n, v); return; }
  std::vector<uint64_t> os; offsets(r.off, w.mem[r.oi]->size, n, os);
  if (os.size() > 2048) throw Unsupported("symbolic store over too many offsets");
  for (uint64_t o : os) { E old = readCells(w, r.oi, o, n); writeCells(w, r.oi, o, n, iteE(eqz(addc(r.off, -(I)o)), v, old)); }
}
static int tyBits(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  throw Unsupported("type");
}
static Val loadTy(World& w, E addr, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); Val v; v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < st->getNumElements(); i++) v.agg->push_back(loadTy(w, addc(addr, sl->getElementOffset(i)), st->getElementType(i))); return v; }
  if (auto* at = dyn_cast<ArrayType>(t)) { Val v; v.agg = std::make_shared<std::vector<Val>>(); uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) v.agg->push_back(loadTy(w, addc(addr, (I)(es * i)), at->getElementType())); return v; }
  int bits = tyBits(t); int n = (bits + 7) / 8;
  if (n > 8) throw Unsupported("wide integer load");
  E v = loadN(w, addr, n);
  if (bits == 1) return wrapU(1, v);
  if (bits != 8 * n) return wrapS(bits, v);
  return v;
}
static void storeTy(World& w, E addr, Type* t, const Val& v) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); if (!v.agg) return; for (unsigned i = 0; i < st->getNumElements(); i++) storeTy(w, addc(addr, sl->getElementOffset(i)), st->getElementType(i), (*v.agg)[i]); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { if (!v.agg) return; uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) storeTy(w, addc(addr, (I)(es * i)), at->getElementType(), (*v.agg)[i]); return; }
  int bits = tyBits(t); int n = (bits + 7) / 8; if (n > 8) throw Unsupported("wide integer store");
  E e = v.e; if (!e) e = undefVar(n);
  if (bits != 8 * n && bits != 1) e = wrapS(8 * n, wrapU(bits, e));
  storeN(w, addr, n, e);
}

// ------------------------------------------------------------------ constants
static std::unordered_map<const Constant*, Val> g_cc;
static Val constVal(const Constant* c);
static E gepConst(const GEPOperator* g) {
  APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) throw Unsupported("constant gep");
  Val b = constVal(cast<Constant>(g->getPointerOperand())); return addc(b.e, (I)off.getSExtValue());
}
static Val zeroOf(Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { Val v; v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < st->getNumElements(); i++) v.agg->push_back(zeroOf(st->getElementType(i))); return v; }
  if (auto* at = dyn_cast<ArrayType>(t)) { Val v; v.agg = std::make_shared<std::vector<Val>>(); for (uint64_t i = 0; i < at->getNumElements(); i++) v.agg->push_back(zeroOf(at->getElementType())); return v; }
  return konst(0);
}
static Val constVal_(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) throw Unsupported("wide constant"); return konst(ci->getBitWidth() == 1 ? (I)ci->getZExtValue() : (I)ci->getSExtValue()); }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt a = cf->getValueAPF().bitcastToAPInt(); return konst(a.getBitWidth() == 64 ? (I)a.getSExtValue() : (I)(int32_t)a.getZExtValue()); }
  if (isa<ConstantPointerNull>(c)) return konst(0);
  if (auto* g = dyn_cast<GlobalAlias>(c)) return constVal(g->getAliasee());
  if (auto* g = dyn_cast<GlobalValue>(c)) { auto it = g_gaddr.find(g); if (it == g_gaddr.end()) throw Unsupported("global " + g->getName().str()); return konst((I)it->second); }
  if (isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
  if (isa<UndefValue>(c)) {
    Type* t = c->getType(); if (t->isStructTy() || t->isArrayTy()) return zeroOf(t);
    return Val();   // undef: fresh at use
  }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) { Val v; v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < ca->getNumOperands(); i++) v.agg->push_back(constVal(ca->getOperand(i))); return v; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { Val v; v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < cd->getNumElements(); i++) v.agg->push_back(constVal(cd->getElementAsConstant(i))); return v; }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: return gepConst(cast<GEPOperator>(ce));
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
      case Instruction::Trunc: return wrapS(tyBits(ce->getType()), constVal(ce->getOperand(0)).e);
      case Instruction::Add: return wrapS(tyBits(ce->getType()), add(constVal(ce->getOperand(0)).e, constVal(ce->getOperand(1)).e));
      case Instruction::Sub: return wrapS(tyBits(ce->getType()), sub(constVal(ce->getOperand(0)).e, constVal(ce->getOperand(1)).e));
      default: throw Unsupported(std::string("constexpr ") + ce->getOpcodeName());
    }
  }
  throw Unsupported("constant kind");
}
static Val constVal(const Constant* c) { auto it = g_cc.find(c); if (it != g_cc.end()) return it->second; Val v = constVal_(c); g_cc[c] = v; return v; }
static void initGlobal(World& w, uint64_t addr, const Constant* c) {
  Type* t = c->getType();
  int oi = findObj(w, addr);
  if (isa<UndefValue>(c) && !isa<PoisonValue>(c)) { uint64_t n = DL->getTypeAllocSize(t); Obj& o = wr(w, oi); for (uint64_t i = 0; i < n; i++) o.c[addr - o.base + i] = {konst(0), 0, 1}; return; }
  if (isa<ConstantAggregateZero>(c)) { uint64_t n = DL->getTypeAllocSize(t); Obj& o = wr(w, oi); for (uint64_t i = 0; i < n; i++) o.c[addr - o.base + i] = {konst(0), 0, 1}; return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { uint64_t es = DL->getTypeAllocSize(cd->getElementType()); for (unsigned i = 0; i < cd->getNumElements(); i++) initGlobal(w, addr + es * i, cd->getElementAsConstant(i)); return; }
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); auto* ca = cast<ConstantAggregate>(c); for (unsigned i = 0; i < st->getNumElements(); i++) initGlobal(w, addr + sl->getElementOffset(i), ca->getOperand(i)); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); auto* ca = cast<ConstantAggregate>(c); for (unsigned i = 0; i < at->getNumElements(); i++) initGlobal(w, addr + es * i, ca->getOperand(i)); return; }
  int n = (tyBits(t) + 7) / 8; E e = constVal(c).e;
  writeCells(w, oi, addr - w.mem[oi]->base, n, e);
}

// ------------------------------------------------------------------ functions: registers, post-dominators
static FnInfo* info(const Function* F) {
  auto& p = g_fi[F]; if (p) return p.get();
  p = std::make_unique<FnInfo>(); FnInfo* fi = p.get();
  for (auto& a : F->args()) fi->reg[&a] = fi->nregs++;
  std::vector<const BasicBlock*> blocks;
  for (auto& b : *F) { blocks.push_back(&b); auto& v = fi->ins[&b]; for (auto& i : b) { v.push_back(&i); if (!i.getType()->isVoidTy()) fi->reg[&i] = fi->nregs++; } }
  // blocks from which a return is reachable
  std::unordered_set<const BasicBlock*> live; std::vector<const BasicBlock*> wl;
  for (auto* b : blocks) if (isa<ReturnInst>(b->getTerminator())) { live.insert(b); wl.push_back(b); }
  while (!wl.empty()) { auto* b = wl.back(); wl.pop_back(); for (auto* q : predecessors(b)) if (live.insert(q).second) wl.push_back(q); }
  for (auto* b : blocks) if (!live.count(b)) fi->dead.insert(b);
  // post-dominators over live blocks (iterative sets on bit vectors)
  std::unordered_map<const BasicBlock*, int> ix; std::vector<const BasicBlock*> lb; for (auto* b : blocks) if (live.count(b)) { ix[b] = (int)lb.size(); lb.push_back(b); }
  int n = (int)lb.size(); std::vector<std::vector<bool>> pd(n, std::vector<bool>(n, true));
  for (int i = 0; i < n; i++) if (isa<ReturnInst>(lb[i]->getTerminator())) { pd[i].assign(n, false); pd[i][i] = true; }
  bool ch = true;
  while (ch) { ch = false; for (int i = n - 1; i >= 0; i--) { if (isa<ReturnInst>(lb[i]->getTerminator())) continue;
      std::vector<bool> s(n, true); bool any = false;
      for (auto* q : successors(lb[i])) if (live.count(q)) { any = true; auto& t = pd[ix[q]]; for (int k = 0; k < n; k++) if (!t[k]) s[k] = false; }
      if (!any) s.assign(n, false);
      s[i] = true; if (s != pd[i]) { pd[i] = s; ch = true; } } }
  for (int i = 0; i < n; i++) {   // immediate: the strict post-dominator that has all the others
    int cnt = 0; for (int k = 0; k < n; k++) if (pd[i][k]) cnt++;
    const BasicBlock* r = nullptr;
    for (int k = 0; k < n; k++) if (k != i && pd[i][k]) { int c2 = 0; for (int q = 0; q < n; q++) if (pd[k][q]) c2++; if (c2 == cnt - 1) { r = lb[k]; break; } }
    fi->ip[lb[i]] = r;
  }
  return fi;
}

// ------------------------------------------------------------------ interpreter
static Val call(World& w, const Function* F, std::vector<Val>& args, const CallBase* site);
static void run(World& w, Frame& f, const BasicBlock* bb, size_t idx, const BasicBlock* stop);

static Val& reg(Frame& f, const Value* v) { return f.regs[f.fi->reg[v]]; }
static Val val(Frame& f, const Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) { Val r = constVal(c); if (!r.e && !r.agg) r.e = v->getType()->isIntegerTy(1) ? mkvar("undefb" + std::to_string(g_vars.size()), 0, 1) : undefVar((tyBits(v->getType()) + 7) / 8); return r; }
  Val& r = reg(f, v);
  if (!r.e && !r.agg) {
    Type* t = v->getType(); if (t->isStructTy() || t->isArrayTy()) return zeroOf(t);
    throw Unsupported("use of undefined register in " + f.F->getName().str());
  }
  return r;
}
static E ev(Frame& f, const Value* v) { Val r = val(f, v); if (!r.e) throw Unsupported("aggregate used as scalar"); return r.e; }

static Val mergeVal(E c, const Val& a, const Val& b) {
  if (a.e && b.e) return a.e == b.e ? a : Val(iteE(c, a.e, b.e));
  if (a.agg && b.agg) { if (a.agg == b.agg) return a; Val r; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(mergeVal(c, (*a.agg)[i], (*b.agg)[i])); return r; }
  return Val();
}
static void mergeObj(E c, OP& a, const OP& b) {
  if (a == b) return;
  bool same = true;
  for (size_t i = 0; i < a->size && same; i++) if (a->c[i].v != b->c[i].v || a->c[i].idx != b->c[i].idx || a->c[i].n != b->c[i].n) same = false;
  if (same) return;
  auto o = std::make_shared<Obj>(*a);
  for (size_t i = 0; i < o->size;) {
    Cell &x = a->c[i]; const Cell& y = b->c[i];
    if (x.v == y.v && x.idx == y.idx && x.n == y.n) { i++; continue; }
    // widest aligned run in which both sides hold one whole value
    int n = 0;
    if (x.v && y.v && x.idx == 0 && y.idx == 0 && x.n == y.n && i + x.n <= o->size) {
      n = x.n; for (int k = 0; k < n && n; k++) { Cell &p = a->c[i + k]; const Cell& q = b->c[i + k]; if (p.v != x.v || p.idx != k || p.n != x.n || q.v != y.v || q.idx != k || q.n != y.n) n = 0; }
    }
    if (n) { E v = iteE(c, x.v, y.v); for (int k = 0; k < n; k++) o->c[i + k] = {v, (uint8_t)k, (uint8_t)n}; i += n; continue; }
    // different widths: use the wider whole value of either side
    auto whole = [&](std::vector<Cell>& cc, size_t at) -> int { if (!cc[at].v || cc[at].idx != 0) return 0; int m = cc[at].n; if (at + m > cc.size()) return 0; for (int k = 0; k < m; k++) if (cc[at + k].v != cc[at].v || cc[at + k].idx != k || cc[at + k].n != m) return 0; return m; };
    int m = std::max(whole(a->c, i), whole(const_cast<Obj&>(*b).c, i)); if (m == 0) m = 1;
    auto rd = [&](std::vector<Cell>& cc) -> E { std::vector<E> bs; bool cst = true; for (int k = 0; k < m; k++) { Cell& q = cc[i + k]; if (!q.v) { bs.push_back(undefVar(1)); cst = false; } else bs.push_back(byteOf(q.v, q.n, q.idx)); }
      (void)cst; bool seq = cc[i].v != nullptr; for (int k = 0; k < m && seq; k++) if (cc[i + k].v != cc[i].v || cc[i + k].idx != k || cc[i + k].n != m) seq = false; return seq ? cc[i].v : compose(bs); };
    bool nul = false; for (int k = 0; k < m; k++) if (!a->c[i + k].v || !b->c[i + k].v) nul = true;
    if (nul) { // a byte uninitialised on one side stays usable only from the other: treat as uninitialised if both/one missing
      for (int k = 0; k < m; k++) { if (!a->c[i + k].v && !b->c[i + k].v) continue; E p = a->c[i + k].v ? byteOf(a->c[i + k].v, a->c[i + k].n, a->c[i + k].idx) : undefVar(1); E q = b->c[i + k].v ? byteOf(b->c[i + k].v, b->c[i + k].n, b->c[i + k].idx) : undefVar(1); o->c[i + k] = {iteE(c, p, q), 0, 1}; }
    } else { E v = iteE(c, rd(a->c), rd(const_cast<Obj&>(*b).c)); for (int k = 0; k < m; k++) o->c[i + k] = {v, (uint8_t)k, (uint8_t)m}; }
    i += m;
  }
  a = o;
}
// merge b into a, guarded by c (a holds when c)
static void merge(E c, size_t npc, World& a, Frame& fa, World& b, Frame& fb) {
  R.merges++;
  for (size_t i = 0; i < fa.regs.size(); i++) { Val &x = fa.regs[i], &y = fb.regs[i]; if (x.e == y.e && x.agg == y.agg) continue; x = mergeVal(c, x, y); }
  if (fa.ret.e != fb.ret.e || fa.ret.agg != fb.ret.agg) fa.ret = mergeVal(c, fa.ret, fb.ret);
  fa.returned = fa.returned || fb.returned;
  for (uint64_t x : fb.allocas) if (std::find(fa.allocas.begin(), fa.allocas.end(), x) == fa.allocas.end()) fa.allocas.push_back(x);
  std::vector<OP> m; size_t i = 0, j = 0;
  while (i < a.mem.size() || j < b.mem.size()) {
    if (j >= b.mem.size() || (i < a.mem.size() && a.mem[i]->base < b.mem[j]->base)) m.push_back(a.mem[i++]);
    else if (i >= a.mem.size() || b.mem[j]->base < a.mem[i]->base) m.push_back(b.mem[j++]);
    else { if (a.mem[i] != b.mem[j]) mergeObj(c, a.mem[i], b.mem[j]); m.push_back(a.mem[i]); i++; j++; }
  }
  a.mem.swap(m);
  auto extra = [&](World& w, E skip) { E r = konst(1); for (size_t k = npc; k < w.pc.size(); k++) if (w.pc[k] != skip) r = andB(r, w.pc[k]); return r; };
  E ea = extra(a, c), eb = extra(b, notB(c));
  // literals of a conjunction c were flattened into pc
  std::set<E> cl; { std::vector<E> st{c, notB(c)}; while (!st.empty()) { E x = st.back(); st.pop_back(); if (x->k == K_BAND) for (E y : x->ch) st.push_back(y); else cl.insert(x); } }
  auto strip = [&](World& w) { E r = konst(1); for (size_t k = npc; k < w.pc.size(); k++) if (!cl.count(w.pc[k])) r = andB(r, w.pc[k]); return r; };
  ea = strip(a); eb = strip(b);
  a.pc.resize(npc); a.known = a.known->up;
  if (!(isConst(ea) && isConst(eb))) a.assume(iteE(c, ea, eb));
}
static void phis(Frame& f, const BasicBlock* from, const BasicBlock* to) {
  std::vector<std::pair<const PHINode*, Val>> v;
  for (auto& p : to->phis()) {
    const Value* in = p.getIncomingValueForBlock(from);
    Val x;
    if (isa<UndefValue>(in)) x = val(f, in); else if (isa<Constant>(in)) x = constVal(cast<Constant>(in)); else x = reg(f, in);
    v.push_back({&p, x});
  }
  for (auto& p : v) reg(f, p.first) = p.second;
}
static const BasicBlock* ipOf(Frame& f, const BasicBlock* bb) { auto it = f.fi->ip.find(bb); return it == f.fi->ip.end() ? nullptr : it->second; }
static int g_depth = 0;
// run both sides of a decision up to the join point and merge; returns false when the function returned
static void split(World& w, Frame& f, E c, const BasicBlock* join, const std::function<void(World&, Frame&)>& a, const std::function<void(World&, Frame&)>& b) {
  R.splits++;
  if (++g_depth > 3000) throw Unsupported("symbolic branch nesting exceeds the bound");
  size_t npc = w.pc.size();
  World w2 = w; Frame f2 = f;
  std::shared_ptr<Layer> base = w.known;
  w.known = std::make_shared<Layer>(); w.known->up = base; w2.known = std::make_shared<Layer>(); w2.known->up = base;
  auto flat = [&](World& x) { std::shared_ptr<Layer> l = x.known; base->s.insert(l->s.begin(), l->s.end()); x.known = base; };
  size_t cur = g_cur.size();
  bool okA = true, okB = true;
  w.assume(c);
  try { a(w, f); } catch (PathDead&) { okA = false; g_cur.resize(cur); }
  w2.assume(notB(c));
  try { b(w2, f2); } catch (PathDead&) { okB = false; g_cur.resize(cur); }
  g_depth--;
  if (!okA && !okB) throw PathDead();
  if (!okA) { flat(w2); w = std::move(w2); f = std::move(f2); return; }
  if (!okB) { flat(w); return; }
  merge(c, npc, w, f, w2, f2);
}
static bool intrinsic(World& w, Frame& f, const CallBase* ci, const Function* F, Val& out);

static E shiftAmount(World& w, E k, int bits, bool& poison) {
  poison = false;
  if (k->lo >= 0 && k->hi < bits) return k;
  E in = andB(notB(ltz(k)), ltz(addc(k, -bits)));
  if (isConst(in)) { if (in->c0) return k; poison = true; return konst(0); }
  if (w.has(in)) return k;
  E kk = underPc(w, k); if (kk->lo >= 0 && kk->hi < bits) return kk;
  if (optStrictShift) { obligation(w, in, "shift", "shift amount out of range"); return k; }
  Assign m; Sat r = solveUnder(w, notB(in), &m, 5000, false);
  if (r == UNSAT) { R.smt++; w.fact(in); return k; }
  poison = true; return k;
}
static void exec(World& w, Frame& f, const Instruction* in) {
  R.instrs++;
  unsigned op = in->getOpcode();
  auto set = [&](E e) { reg(f, in).e = e; reg(f, in).agg = nullptr; };
  switch (op) {
    case Instruction::Add: set(addW(tyBits(in->getType()), ev(f, in->getOperand(0)), ev(f, in->getOperand(1)))); return;
    case Instruction::Sub: set(subW(tyBits(in->getType()), ev(f, in->getOperand(0)), ev(f, in->getOperand(1)))); return;
    case Instruction::Mul: set(mulW(tyBits(in->getType()), ev(f, in->getOperand(0)), ev(f, in->getOperand(1)))); return;
    case Instruction::And: { int b = tyBits(in->getType()); E r = andE(ev(f, in->getOperand(0)), ev(f, in->getOperand(1))); set(b == 1 ? r : wrapS(b, r)); return; }
    case Instruction::Or: { int b = tyBits(in->getType()); E r = orE(ev(f, in->getOperand(0)), ev(f, in->getOperand(1))); set(b == 1 ? r : wrapS(b, r)); return; }
    case Instruction::Xor: { int b = tyBits(in->getType()); E x = ev(f, in->getOperand(0)), y = ev(f, in->getOperand(1)); if (b == 1) { set(xorE(x, y)); return; } set(wrapS(b, xorE(x, y))); return; }
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      int b = tyBits(in->getType()); E x = ev(f, in->getOperand(0)), k = ev(f, in->getOperand(1)); bool poison; k = shiftAmount(w, k, b, poison);
      E r;
      if (poison && isConst(k)) { set(undefVar((b + 7) / 8)); return; }
      E kk = k; if (poison) kk = minE(maxE(k, konst(0)), konst(b - 1));
      if (op == Instruction::Shl) r = mulW(b, x, pow2(kk));
      else if (op == Instruction::AShr) r = shrv(x, kk);
      else r = wrapS(b, shrv(uval(b, x), kk));
      if (poison) { E inr = andB(notB(ltz(k)), ltz(addc(k, -b))); r = iteE(inr, r, undefVar((b + 7) / 8)); }
      set(r); return; }
    case Instruction::SDiv: case Instruction::SRem: case Instruction::UDiv: case Instruction::URem: {
      int b = tyBits(in->getType()); E x = ev(f, in->getOperand(0)), y = ev(f, in->getOperand(1));
      obligation(w, notB(eqz(y)), "div", "division by zero");
      if (op == Instruction::UDiv || op == Instruction::URem) { x = uval(b, x); y = uval(b, y); }
      E q = sdivE(x, y);
      if (op == Instruction::SDiv || op == Instruction::UDiv) set(wrapS(b, q)); else set(wrapS(b, sub(x, mul(q, y))));
      return; }
    case Instruction::ICmp: {
      auto* ic = cast<ICmpInst>(in); E x = ev(f, in->getOperand(0)), y = ev(f, in->getOperand(1)); int b = tyBits(in->getOperand(0)->getType());
      auto p = ic->getPredicate(); E r;
      if (ICmpInst::isUnsigned(p)) { x = uval(b, x); y = uval(b, y); }
      else if (b == 1 && ICmpInst::isSigned(p)) { x = neg(x); y = neg(y); }
      switch (p) {
        case ICmpInst::ICMP_EQ: r = eq(x, y); break; case ICmpInst::ICMP_NE: r = notB(eq(x, y)); break;
        case ICmpInst::ICMP_ULT: case ICmpInst::ICMP_SLT: r = lt(x, y); break; case ICmpInst::ICMP_ULE: case ICmpInst::ICMP_SLE: r = le(x, y); break;
        case ICmpInst::ICMP_UGT: case ICmpInst::ICMP_SGT: r = lt(y, x); break; case ICmpInst::ICMP_UGE: case ICmpInst::ICMP_SGE: r = le(y, x); break;
        default: throw Unsupported("icmp"); }
      set(r); return; }
    case Instruction::Select: { Val a = val(f, in->getOperand(1)), b = val(f, in->getOperand(2)); E c = ev(f, in->getOperand(0)); if (isConst(c)) reg(f, in) = c->c0 ? a : b; else { int d = w.has(c) ? 1 : w.has(notB(c)) ? 0 : 2; reg(f, in) = d == 1 ? a : d == 0 ? b : mergeVal(c, a, b); } return; }
    case Instruction::Trunc: { int b = tyBits(in->getType()); E x = ev(f, in->getOperand(0)); set(b == 1 ? wrapU(1, x) : wrapS(b, x)); return; }
    case Instruction::ZExt: { int b = tyBits(in->getOperand(0)->getType()); E x = ev(f, in->getOperand(0)); set(uval(b, x)); return; }
    case Instruction::SExt: { int b = tyBits(in->getOperand(0)->getType()); E x = ev(f, in->getOperand(0)); set(b == 1 ? neg(x) : x); return; }
    case Instruction::PtrToInt: { int b = tyBits(in->getType()); set(wrapS(b, ev(f, in->getOperand(0)))); return; }
    case Instruction::IntToPtr: { int b = tyBits(in->getOperand(0)->getType()); E x = ev(f, in->getOperand(0)); set(b < 64 ? uval(b, x) : x); return; }
    case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: reg(f, in) = val(f, in->getOperand(0)); return;
    case Instruction::GetElementPtr: {
      auto* g = cast<GetElementPtrInst>(in); E a = ev(f, g->getPointerOperand());
      E off = konst(0);
      for (auto ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti) {
        const Value* ix = ti.getOperand();
        if (StructType* st = ti.getStructTypeOrNull()) { off = addc(off, (I)DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue())); }
        else { uint64_t es = DL->getTypeAllocSize(ti.getIndexedType()); off = add(off, mulc(ev(f, ix), (I)es)); }
      }
      set(wrapS(64, add(a, off))); return; }
    case Instruction::Alloca: {
      auto* a = cast<AllocaInst>(in); uint64_t n = DL->getTypeAllocSize(a->getAllocatedType());
      if (a->isArrayAllocation()) n *= (uint64_t)concrete(w, ev(f, a->getArraySize()));
      OP o = newObj(w, n, 's', "stack object " + f.F->getName().str() + "/" + a->getName().str()); f.allocas.push_back(o->base); set(konst((I)o->base)); return; }
    case Instruction::Load: { E a = ev(f, in->getOperand(0)); reg(f, in) = loadTy(w, a, in->getType()); return; }
    case Instruction::Store: { Val v = val(f, in->getOperand(0)); storeTy(w, ev(f, in->getOperand(1)), in->getOperand(0)->getType(), v); return; }
    case Instruction::ExtractValue: { auto* x = cast<ExtractValueInst>(in); Val v = val(f, x->getAggregateOperand()); for (unsigned i : x->indices()) { Val t = (*v.agg)[i]; v = t; } reg(f, in) = v; return; }
    case Instruction::InsertValue: {
      auto* x = cast<InsertValueInst>(in); Val v = val(f, x->getAggregateOperand()); Val nv = val(f, x->getInsertedValueOperand());
      std::function<Val(const Val&, unsigned)> ins = [&](const Val& o, unsigned d) -> Val { if (d == x->getNumIndices()) return nv; Val r; r.agg = std::make_shared<std::vector<Val>>(*o.agg); unsigned i = x->getIndices()[d]; (*r.agg)[i] = ins((*r.agg)[i], d + 1); return r; };
      reg(f, in) = ins(v, 0); return; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      FOp o = op == Instruction::FAdd ? F_ADD : op == Instruction::FSub ? F_SUB : op == Instruction::FMul ? F_MUL : op == Instruction::FDiv ? F_DIV : F_REM;
      set(fop(o, tyBits(in->getType()), 0, 0, ev(f, in->getOperand(0)), ev(f, in->getOperand(1)))); return; }
    case Instruction::FNeg: set(fop(F_NEG, tyBits(in->getType()), 0, 0, ev(f, in->getOperand(0)))); return;
    case Instruction::FCmp: { auto* fc = cast<FCmpInst>(in); set(fop(F_CMP, 1, tyBits(in->getOperand(0)->getType()), (int)fc->getPredicate(), ev(f, in->getOperand(0)), ev(f, in->getOperand(1)))); return; }
    case Instruction::SIToFP: set(fop(F_SI2F, tyBits(in->getType()), 0, 0, ev(f, in->getOperand(0)))); return;
    case Instruction::UIToFP: set(fop(F_UI2F, tyBits(in->getType()), 0, 0, uval(tyBits(in->getOperand(0)->getType()), ev(f, in->getOperand(0))))); return;
    case Instruction::FPToSI: set(fop(F_F2SI, tyBits(in->getType()), tyBits(in->getOperand(0)->getType()), 0, ev(f, in->getOperand(0)))); return;
    case Instruction::FPToUI: set(fop(F_F2UI, tyBits(in->getType()), tyBits(in->getOperand(0)->getType()), 0, ev(f, in->getOperand(0)))); return;
    case Instruction::FPExt: set(fop(F_EXT, 64, 32, 0, ev(f, in->getOperand(0)))); return;
    case Instruction::FPTrunc: set(fop(F_TRUNC, 32, 64, 0, ev(f, in->getOperand(0)))); return;
    case Instruction::Call: case Instruction::Invoke: {
      auto* cb = cast<CallBase>(in); Val out; const Function* F = cb->getCalledFunction();
      if (!F) {
        E t = ev(f, cb->getCalledOperand()); uint64_t a = (uint64_t)concrete(w, t); auto it = g_faddr.find(a);
        if (it == g_faddr.end()) { obligation(w, konst(0), "memory", "indirect call to a non-function address"); throw PathDead(); }
        F = it->second; }
      if (intrinsic(w, f, cb, F, out)) { if (!in->getType()->isVoidTy()) reg(f, in) = out; return; }
      std::vector<Val> args; for (auto& a : cb->args()) args.push_back(val(f, a.get()));
      Val r = call(w, F, args, cb);
      if (!in->getType()->isVoidTy()) reg(f, in) = r;
      return; }
    default: throw Unsupported(std::string("instruction ") + in->getOpcodeName());
  }
}
static void run(World& w, Frame& f, const BasicBlock* bb, size_t idx, const BasicBlock* stop) {
  for (;;) {
    auto& ins = f.fi->ins[bb];
    const BasicBlock* next = nullptr; bool jumped = false;
    for (size_t i = idx; i < ins.size(); i++) {
      const Instruction* in = ins[i]; g_cur.back() = in;
      if (isa<PHINode>(in)) continue;
      unsigned op = in->getOpcode();
      if (op == Instruction::Br) {
        auto* br = cast<BranchInst>(in);
        if (br->isUnconditional()) { next = br->getSuccessor(0); break; }
        E c = ev(f, br->getCondition()); const BasicBlock *T = br->getSuccessor(0), *Fa = br->getSuccessor(1);
        if (!isConst(c)) { c = underPc(w, c); }
        int d = isConst(c) ? (int)c->c0 : T == Fa ? 1 : decide(w, c);
        if (d == -1) throw PathDead();
        if (d != 2) { if (!isConst(c)) w.fact(d ? c : notB(c)); next = d ? T : Fa; break; }
        const BasicBlock* j = ipOf(f, bb);
        // a side that can only end in abort/unreachable: look at it, then go on with the other
        split(w, f, c, j,
              [&](World& a, Frame& g) { phis(g, bb, T); if (T != j) run(a, g, T, 0, j); },
              [&](World& a, Frame& g) { phis(g, bb, Fa); if (Fa != j) run(a, g, Fa, 0, j); });
        g_cur.back() = in;
        if (!j) return;          // merged at function exit
        bb = j; jumped = true; break;
      }
      if (op == Instruction::Ret) { auto* r = cast<ReturnInst>(in); if (r->getReturnValue()) f.ret = val(f, r->getReturnValue()); f.returned = true; return; }
      if (op == Instruction::Unreachable) { obligation(w, konst(0), "assert", "unreachable code reached"); throw PathDead(); }
      if (op == Instruction::Switch) throw Unsupported("switch (run lower-switch)");
      try { exec(w, f, in); }
      catch (NeedSplit& ns) {
        const BasicBlock* j = ipOf(f, bb);
        E c = ns.cond; g_cur.back() = in;
        split(w, f, c, j, [&](World& a, Frame& g) { run(a, g, bb, i, j); }, [&](World& a, Frame& g) { run(a, g, bb, i, j); });
        g_cur.back() = in;
        if (!j) return;
        bb = j; jumped = true; break;
      }
      if (op == Instruction::Invoke) { next = cast<InvokeInst>(in)->getNormalDest(); break; }
    }
    if (!jumped) {
      if (!next) throw Unsupported("fell off block");
      phis(f, bb, next); bb = next;
    }
    idx = 0;
    if (bb == stop) return;
  }
}
static int g_callDepth = 0;
static Val call(World& w, const Function* F, std::vector<Val>& args, const CallBase* site) {
  if (F->isDeclaration()) throw Unsupported("call to undefined function " + F->getName().str());
  if (++g_callDepth > 400) throw Unsupported("call depth");
  Frame f; f.F = F; f.fi = info(F); f.regs.resize(f.fi->nregs);
  R.funcs.insert(F->getName().str());
  size_t i = 0;
  for (auto& a : F->args()) {
    if (i >= args.size()) break;
    Val v = args[i];
    if (a.hasByValAttr()) {
      uint64_t n = DL->getTypeAllocSize(a.getParamByValType()); OP o = newObj(w, n, 's', "byval"); f.allocas.push_back(o->base);
      Res r = resolve(w, v.e, n, false); uint64_t so = (uint64_t)concrete(w, r.off); int di = findObj(w, o->base); Obj& d = wr(w, di); for (uint64_t k = 0; k < n; k++) d.c[k] = w.mem[r.oi]->c[so + k];
      v = Val(konst((I)o->base));
    }
    f.regs[f.fi->reg[&a]] = v; i++;
  }
  g_cur.push_back(nullptr); size_t cur = g_cur.size(); int cd = g_callDepth;
  try { run(w, f, &F->getEntryBlock(), 0, nullptr); } catch (...) { g_callDepth = cd - 1; g_cur.resize(cur - 1); throw; }
  g_cur.resize(cur - 1); g_callDepth = cd - 1;
  for (uint64_t a : f.allocas) freeObj(w, a);
  return f.ret;
}
static std::string cstr(World& w, E p) {
  std::string s; uint64_t a = (uint64_t)concrete(w, p);
  for (int i = 0; i < 400; i++) { int oi = findObj(w, a + i); if (oi < 0) break; E b = readCells(w, oi, a + i - w.mem[oi]->base, 1); if (!isConst(b) || b->c0 == 0) break; s += (char)(int)b->c0; }
  return s;
}
static std::string uniq(const std::string& n) { int k = g_nameCount[n]++; return n + "#" + std::to_string(k); }
static void copyMem(World& w, E dst, E src, E len, bool mv) {
  (void)mv;
  uint64_t n = (uint64_t)concrete(w, len); if (!n) return;
  Res s = resolve(w, src, n, false); if (!isConst(s.off)) { E so = underPc(w, s.off); (void)concrete(w, so); s.off = underPc(w, s.off); if (!isConst(s.off)) s.off = konst(concrete(w, s.off)); }
  Res d = resolve(w, dst, n, true); if (!isConst(d.off)) d.off = konst(concrete(w, d.off));
  std::vector<Cell> t(w.mem[s.oi]->c.begin() + (size_t)s.off->c0, w.mem[s.oi]->c.begin() + (size_t)s.off->c0 + n);
  Obj& o = wr(w, d.oi); std::copy(t.begin(), t.end(), o.c.begin() + (size_t)d.off->c0);
}
static bool intrinsic(World& w, Frame& f, const CallBase* ci, const Function* F, Val& out) {
  auto A = [&](unsigned i) { return ev(f, ci->getArgOperand(i)); };
  if (F->isIntrinsic()) {
    int b = 0; if (F->getReturnType()->isIntegerTy()) b = tyBits(F->getReturnType());
    switch (F->getIntrinsicID()) {
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
      case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::assume: return true;
      case Intrinsic::stacksave: out = konst(0); return true;
      case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: out = A(0); return true;
      case Intrinsic::memcpy: case Intrinsic::memmove: copyMem(w, A(0), A(1), A(2), true); return true;
      case Intrinsic::memset: {
        uint64_t n = (uint64_t)concrete(w, A(2)); if (!n) return true; Res d = resolve(w, A(0), n, true); uint64_t o = (uint64_t)concrete(w, d.off); E v = A(1); Obj& ob = wr(w, d.oi); for (uint64_t i = 0; i < n; i++) ob.c[o + i] = {v, 0, 1}; return true; }
      case Intrinsic::smax: out = maxE(A(0), A(1)); return true;
      case Intrinsic::smin: out = minE(A(0), A(1)); return true;
      case Intrinsic::umax: out = wrapS(b, maxE(uval(b, A(0)), uval(b, A(1)))); return true;
      case Intrinsic::umin: out = wrapS(b, minE(uval(b, A(0)), uval(b, A(1)))); return true;
      case Intrinsic::abs: { E x = A(0); out = wrapS(b, maxE(x, neg(x))); return true; }
      case Intrinsic::ctlz: out = ctlzE(uval(b, A(0)), b); return true;
      case Intrinsic::cttz: out = cttzE(uval(b, A(0)), b); return true;
      case Intrinsic::ctpop: out = popcE(uval(b, A(0)), b); return true;
      case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
      case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: {
        int bb = tyBits(ci->getArgOperand(0)->getType()); E x = A(0), y = A(1); auto id = F->getIntrinsicID();
        bool un = id == Intrinsic::uadd_with_overflow || id == Intrinsic::usub_with_overflow || id == Intrinsic::umul_with_overflow; if (un) { x = uval(bb, x); y = uval(bb, y); }
        E r = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? add(x, y) : (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) ? sub(x, y) : mul(x, y);
        E wv = un ? wrapU(bb, r) : wrapS(bb, r); Val v; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(wrapS(bb, wv)); v.agg->push_back(notB(eqz(sub(r, wv)))); out = v; return true; }
      case Intrinsic::sadd_sat: out = minE(maxE(add(A(0), A(1)), konst(-(((I)1) << (b - 1)))), konst((((I)1) << (b - 1)) - 1)); return true;
      case Intrinsic::ssub_sat: out = minE(maxE(sub(A(0), A(1)), konst(-(((I)1) << (b - 1)))), konst((((I)1) << (b - 1)) - 1)); return true;
      case Intrinsic::usub_sat: out = wrapS(b, maxE(sub(uval(b, A(0)), uval(b, A(1))), konst(0))); return true;
      case Intrinsic::uadd_sat: out = wrapS(b, minE(add(uval(b, A(0)), uval(b, A(1))), konst((((I)1) << b) - 1))); return true;
      case Intrinsic::fshl: case Intrinsic::fshr: { E k = A(2); I kk = wrapUv(32, concrete(w, k)) % b; E x = uval(b, A(0)), y = uval(b, A(1)); if (F->getIntrinsicID() == Intrinsic::fshr) kk = (b - kk); if (kk == b && F->getIntrinsicID() == Intrinsic::fshr) { out = wrapS(b, y); return true; } out = wrapS(b, add(mulc(x, ((I)1) << (int)kk), shr(y, b - (int)kk))); return true; }
      case Intrinsic::fabs: out = fop(F_ABS, tyBits(F->getReturnType()), 0, 0, A(0)); return true;
      case Intrinsic::floor: out = fop(F_RINT, tyBits(F->getReturnType()), 0, 1, A(0)); return true;
      case Intrinsic::ceil: out = fop(F_RINT, tyBits(F->getReturnType()), 0, 2, A(0)); return true;
      case Intrinsic::trunc: out = fop(F_RINT, tyBits(F->getReturnType()), 0, 3, A(0)); return true;
      case Intrinsic::rint: case Intrinsic::nearbyint: out = fop(F_RINT, tyBits(F->getReturnType()), 0, 0, A(0)); return true;
      case Intrinsic::round: out = fop(F_RINT, tyBits(F->getReturnType()), 0, 4, A(0)); return true;
      case Intrinsic::fmuladd: { int ww = tyBits(F->getReturnType()); out = fop(F_ADD, ww, 0, 0, fop(F_MUL, ww, 0, 0, A(0), A(1)), A(2)); return true; }
      case Intrinsic::trap: obligation(w, konst(0), "assert", "trap"); throw PathDead();
      case Intrinsic::is_constant: out = konst(0); return true;
      case Intrinsic::objectsize: out = konst(-1); return true;
      default: throw Unsupported("intrinsic " + F->getName().str());
    }
  }
  StringRef n = F->getName();
  if (n.startswith("sx_")) {
    if (n == "sx_sym") {
      std::string nm = uniq(cstr(w, A(0))); I lo = concrete(w, A(1)), hi = concrete(w, A(2));
      if (lo > hi) throw PathDead();
      if (lo == hi) { g_constSyms[nm] = (int64_t)lo; out = konst(lo); return true; }
      E v = mkvar(nm, lo, hi); g_symOrder.push_back({nm, (int)v->aux}); out = v; return true; }
    if (n == "sx_pick") {
      std::string nm = uniq(cstr(w, A(0))); I lo = concrete(w, A(1)), hi = concrete(w, A(2));
      if (lo > hi) throw PathDead();
      int64_t v;
      if (g_pickPos < g_prefix.size()) v = g_prefix[g_pickPos++];
      else {
        if (g_depth) throw Unsupported("sx_pick under a symbolic branch");
        for (I x = lo + 1; x <= hi; x++) { std::string s = "S"; for (int64_t p : g_prefix) s += " " + std::to_string(p); s += " " + i2s(x) + "\n"; if (g_pipeW >= 0 && write(g_pipeW, s.data(), s.size()) < 0) {} }
        v = (int64_t)lo; g_prefix.push_back(v); g_pickPos++; }
      g_picks.push_back({nm, v}); out = konst(v); return true; }
    if (n == "sx_assume") { E c = A(0); if (!isBool(c)) c = notB(eqz(c)); R.assumes++; c = underPc(w, c); int d = decide(w, c); if (d == 0 || d == -1) throw PathDead(); if (d == 2) w.assume(c); return true; }
    if (n == "sx_check") { E c = A(0); if (!isBool(c)) c = notB(eqz(c)); R.checks++; std::string l = cstr(w, A(1)); R.labels[l]++; obligation(w, c, "check", l); return true; }
    if (n == "sx_cover") {
      std::string l = cstr(w, A(0)); bool ok = false; for (auto& s : g_samples) if (satPc(s, w)) { ok = true; break; }
      if (!ok) { Assign m; Sat r = solve(w.pc, &m, 20000, true); if (r == SAT) { addSample(m); ok = true; } }
      if (ok) R.covers[l]++;
      return true; }
    if (n == "sx_tier") { out = konst(optTier == "thorough" ? 1 : 0); return true; }
    if (n == "sx_seed") { out = konst(optSeed); return true; }
    if (n == "sx_concrete") { out = konst(concrete(w, A(0))); return true; }
    if (n == "sx_alloc") { uint64_t sz = (uint64_t)concrete(w, A(0)); OP o = newObj(w, sz, 'h', cstr(w, A(1))); out = konst((I)o->base); return true; }
    if (n == "sx_readonly") { uint64_t a = (uint64_t)concrete(w, A(0)); int oi = findObj(w, a); if (oi >= 0) wr(w, oi).ro = concrete(w, A(1)) != 0; return true; }
    if (n == "sx_print") { std::string l = cstr(w, A(0)); fprintf(stderr, "[%s] %s\n", l.c_str(), show(A(1), 14).c_str()); return true; }
    if (n == "sx_obs") { g_obs.push_back({A(0), w.pc}); return true; }
    if (n == "sx_dead") { throw PathDead(); }
    if (n == "sx_merge_off") { return true; }
    throw Unsupported("unknown harness intrinsic " + n.str());
  }
  if (!F->isDeclaration() && n != "printf") return false;
  if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "calloc") {
    uint64_t sz = (uint64_t)concrete(w, A(0)); if (n == "calloc") sz *= (uint64_t)concrete(w, A(1));
    OP o = newObj(w, sz, 'h', "heap block"); if (n == "calloc") { for (auto& c : o->c) c = {konst(0), 0, 1}; } out = konst((I)o->base); return true; }
  if (n == "free" || n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdaPv") { uint64_t a = (uint64_t)concrete(w, A(0)); if (a) freeObj(w, a); return true; }
  if (n == "printf" || n == "puts" || n == "putchar" || n == "fprintf" || n == "fflush" || n == "fputs" || n == "fwrite" || n == "fputc") { out = konst(0); return true; }
  if (n == "__assert_fail") { obligation(w, konst(0), "assert", "assertion failed: " + cstr(w, A(0))); throw PathDead(); }
  if (n == "abort" || n == "exit" || n == "__cxa_pure_virtual" || n == "_ZSt9terminatev" || n == "__clang_call_terminate") { obligation(w, konst(0), "assert", "call to " + n.str()); throw PathDead(); }
  if (n == "__cxa_atexit") { out = konst(0); return true; }
  if (n == "memcpy" || n == "memmove") { copyMem(w, A(0), A(1), A(2), true); out = A(0); return true; }
  if (n == "memset") { uint64_t c = (uint64_t)concrete(w, A(2)); out = A(0); if (!c) return true; Res d = resolve(w, A(0), c, true); uint64_t o = (uint64_t)concrete(w, d.off); E v = wrapS(8, A(1)); Obj& ob = wr(w, d.oi); for (uint64_t i = 0; i < c; i++) ob.c[o + i] = {v, 0, 1}; return true; }
  if (n == "memcmp") { uint64_t c = (uint64_t)concrete(w, A(2)); E r = konst(0); for (uint64_t i = c; i-- > 0;) { E x = wrapU(8, loadN(w, addc(A(0), (I)i), 1)), y = wrapU(8, loadN(w, addc(A(1), (I)i), 1)); r = iteE(eq(x, y), r, sub(x, y)); } out = r; return true; }
  if (n == "strlen") { out = konst((I)cstr(w, A(0)).size()); return true; }
  if (n == "ldexpf" || n == "ldexp") {
    int ww = n == "ldexpf" ? 32 : 64; E k = A(1), x = A(0);
    if (isConst(k) && isConst(x)) { if (ww == 32) { float v; uint32_t u = (uint32_t)x->c0; memcpy(&v, &u, 4); v = ldexpf(v, (int)k->c0); int32_t s; memcpy(&s, &v, 4); out = konst(s); } else { double v; uint64_t u = (uint64_t)x->c0; memcpy(&v, &u, 8); v = ldexp(v, (int)k->c0); int64_t s; memcpy(&s, &v, 8); out = konst(s); } return true; }
    I kk = concrete(w, k); if (kk < -126 || kk > 127) throw Unsupported("ldexp exponent");
    if (ww == 32) { float p = ldexpf(1.0f, (int)kk); int32_t s; memcpy(&s, &p, 4); out = fop(F_MUL, 32, 0, 0, x, konst(s)); } else { double p = ldexp(1.0, (int)kk); int64_t s; memcpy(&s, &p, 8); out = fop(F_MUL, 64, 0, 0, x, konst(s)); }
    return true; }
  {
    static const std::map<std::string, double (*)(double)> m1 = {{"sqrt", sqrt}, {"exp", exp}, {"log", log}, {"log2", log2}, {"tanh", tanh}, {"ceil", ceil}, {"floor", floor}, {"round", round}, {"fabs", fabs}, {"exp2", exp2}};
    std::string s = n.str(); bool fl = false; auto it = m1.find(s); if (it == m1.end() && !s.empty() && s.back() == 'f') { it = m1.find(s.substr(0, s.size() - 1)); fl = true; }
    if (it != m1.end()) {
      E x = A(0); if (!isConst(x)) throw Unsupported("symbolic " + s);
      if (fl) { float v; uint32_t u = (uint32_t)x->c0; memcpy(&v, &u, 4); v = (float)it->second(v); int32_t q; memcpy(&q, &v, 4); out = konst(q); } else { double v; uint64_t u = (uint64_t)x->c0; memcpy(&v, &u, 8); v = it->second(v); int64_t q; memcpy(&q, &v, 8); out = konst(q); }
      return true; }
  }
  return false;
}

// ------------------------------------------------------------------ driver
static World g_init;
static void setup(const std::string& file) {
  static LLVMContext ctx; SMDiagnostic err; M = parseIRFile(file, err, ctx);
  if (!M) { fprintf(stderr, "cannot read %s\n", file.c_str()); exit(2); }
  DL = &M->getDataLayout();
  for (auto& F : *M) { uint64_t a = newAddr(16); g_gaddr[&F] = a; g_faddr[a] = &F; }
  for (auto& g : M->globals()) {
    uint64_t n = DL->getTypeAllocSize(g.getValueType());
    OP o = newObj(g_init, n, 'g', "global " + demangle(g.getName().str())); g_gaddr[&g] = o->base;
  }
  for (auto& g : M->globals()) if (g.hasInitializer()) {
    initGlobal(g_init, g_gaddr[&g], g.getInitializer());
    if (g.isConstant()) g_init.mem[findObj(g_init, g_gaddr[&g])]->ro = true;
  }
}
static void* workerMain(void*) {
  g_t0 = now(); initSamples(); g_rng = 0x9E3779B97F4A7C15ull * (uint64_t)(optSeed + 1);
  World w = g_init; std::string status = "ok", extra;
  try {
    g_cur.clear();
    if (auto* ctors = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(ctors->getInitializer())) for (auto& op : ca->operands()) { if (auto* fn = dyn_cast<Function>(cast<ConstantStruct>(op)->getOperand(1))) { std::vector<Val> no; call(w, fn, no, nullptr); } }
    R.funcs.clear();
    std::vector<Val> args; call(w, M->getFunction(optEntry), args, nullptr);
    // one concrete input of this path with the values the encoding predicts, for comparison with the native build
    std::vector<size_t> ok; for (size_t i = 0; i < g_samples.size(); i++) if (satPc(g_samples[i], w)) ok.push_back(i);
    if (!ok.empty()) {
      Assign m = g_samples[ok[rnd() % ok.size()]]; uint64_t h = 1469598103934665603ull;
      for (auto& o : g_obs) { bool on = true; for (E c : o.second) if (!m.eval(c)) { on = false; break; } if (!on) continue; h ^= (uint64_t)(int64_t)m.eval(o.first); h *= 1099511628211ull; }
      extra = ",\"sample\":" + valuesJson(m) + ",\"obs\":\"" + std::to_string(h) + "\",\"nobs\":" + std::to_string(g_obs.size());
    }
  } catch (PathDead&) { status = "dead"; }
  catch (Unsupported& u) { status = "error"; extra = std::string(",\"error\":\"") + jesc(u.what()) + " @ " + jesc(whereAmI()) + "\""; }
  catch (NeedSplit&) { status = "error"; extra = ",\"error\":\"unhandled split\""; }
  catch (ovf_error&) { status = "error"; extra = std::string(",\"error\":\"coefficient overflow @ ") + jesc(whereAmI()) + "\""; }
  catch (std::exception& e) { status = "error"; extra = std::string(",\"error\":\"") + jesc(e.what()) + " @ " + jesc(whereAmI()) + "\""; }
  writeResults(status, extra);
  _exit(0);
}
static void worker() {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, (size_t)3 << 30);
  pthread_t t; if (pthread_create(&t, &at, workerMain, nullptr)) { fprintf(stderr, "thread\n"); _exit(3); }
  pthread_join(t, nullptr); _exit(0);
}
int main(int argc, char** argv) {
  std::string file;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") optEntry = nx(); else if (a == "--out") optOut = nx(); else if (a == "--jobs") optJobs = atoi(nx().c_str()); else if (a == "--timeout") optTimeout = atof(nx().c_str());
    else if (a == "--tier") optTier = nx(); else if (a == "--seed") optSeed = atoi(nx().c_str()); else if (a == "--qtimeout") optQ = atoi(nx().c_str()); else if (a == "-v") g_verbose = true;
    else if (a == "--max-violations") optMaxViol = atoi(nx().c_str());
    else if (a == "--strict-shift") optStrictShift = true; else if (a == "--worker-timeout") optWorkerTimeout = atof(nx().c_str());
    else if (a == "--prefix") { optSingle = true; std::stringstream s(nx()); int64_t x; while (s >> x) optPrefix.push_back(x); }
    else file = a;
  }
  double t0 = now();
  signal(SIGPIPE, SIG_IGN);
  setup(file);
  std::string dir = optOut + ".d"; { std::string c = "mkdir -p '" + dir + "'"; if (system(c.c_str())) {} } g_dumpDir = dir;
  if (!M->getFunction(optEntry)) { fprintf(stderr, "no entry %s\n", optEntry.c_str()); return 2; }
  int pfd[2]; if (pipe(pfd)) return 2;
  std::deque<std::vector<int64_t>> work; work.push_back(optPrefix);
  struct Live { pid_t pid; double start; std::string res; std::vector<int64_t> prefix; };
  std::vector<Live> live; int serial = 0; std::ofstream out(optOut + ".lines"); std::string buf; bool stop = false, timedOut = false; long done = 0, lost = 0; int viol = 0; double tViol = 0;
  while ((!work.empty() || !live.empty())) {
    while (!stop && (int)live.size() < optJobs && !work.empty()) {
      std::vector<int64_t> p = work.front(); work.pop_front();
      std::string res = dir + "/r" + std::to_string(serial++);
      pid_t pid = fork();
      if (pid == 0) { close(pfd[0]); g_pipeW = optSingle ? -1 : pfd[1]; g_prefix = p; g_resFile = res; worker(); }
      live.push_back({pid, now(), res, p});
    }
    if (live.empty()) break;
    fd_set fs; FD_ZERO(&fs); FD_SET(pfd[0], &fs); struct timeval tv = {0, 3000};
    if (select(pfd[0] + 1, &fs, nullptr, nullptr, &tv) > 0) {
      char b[65536]; ssize_t k = read(pfd[0], b, sizeof b); if (k > 0) buf.append(b, k);
      size_t p; while ((p = buf.find('\n')) != std::string::npos) { std::stringstream s(buf.substr(0, p)); buf.erase(0, p + 1); std::string tag; s >> tag; std::vector<int64_t> v; int64_t x; while (s >> x) v.push_back(x); if (!stop) work.push_back(v); }
    }
    for (size_t i = 0; i < live.size();) {
      int st; pid_t r = waitpid(live[i].pid, &st, WNOHANG);
      bool kill_ = now() - live[i].start > optWorkerTimeout || now() - t0 > optTimeout;
      if (r == 0 && kill_) { kill(live[i].pid, SIGKILL); waitpid(live[i].pid, &st, 0); r = live[i].pid; if (now() - t0 > optTimeout) { timedOut = true; stop = true; } }
      if (r == live[i].pid) {
        std::ifstream in(live[i].res); std::string line; 
        if (std::getline(in, line) && !line.empty()) { out << line << "\n"; done++; if (line.find("\"status\":\"violation\"") != std::string::npos) { viol++; if (viol == 1) tViol = now(); if (viol >= optMaxViol) { stop = true; work.clear(); } } }
        else { lost++; std::string pf; for (int64_t x : live[i].prefix) pf += std::to_string(x) + " "; out << "{\"status\":\"lost\",\"prefix\":\"" << pf << "\"}\n"; }
        out.flush();
        unlink(live[i].res.c_str()); live.erase(live.begin() + i);
      } else i++;
    }
    if (timedOut) { break; }
    if (viol && !stop && now() - tViol > 30) { stop = true; work.clear(); }
  }
  for (auto& l : live) { kill(l.pid, SIGKILL); int st; waitpid(l.pid, &st, 0); }
  out.close();
  { std::ofstream s(optOut + ".sum"); s << "{\"done\":" << done << ",\"lost\":" << lost << ",\"timed_out\":" << (timedOut ? "true" : "false") << ",\"pending\":" << work.size() << ",\"wall\":" << now() - t0 << "}\n"; }
  std::string c = "rm -rf '" + dir + "'"; if (system(c.c_str())) {}
  fflush(stdout); _exit(0);
}
