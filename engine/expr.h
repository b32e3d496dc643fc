// Hash-consed integer expressions.  Every LLVM integer of width w is represented by its signed
// mathematical value (i1 by 0/1); machine wrap-around is explicit (WRAPS/WRAPU).  Sums are kept
// as canonical linear combinations of monomials, so two computations of the same polynomial meet.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include <stdexcept>
#include <functional>
#include <set>

typedef __int128 I;
typedef unsigned __int128 U;

enum Kind : uint8_t {
  K_CONST, K_VAR, K_ADD, K_MUL, K_WRAPS, K_WRAPU, K_SHR, K_SHRV, K_POW2, K_SDIV, K_AND,
  K_LTZ, K_EQZ, K_BAND, K_ITE, K_MIN, K_MAX, K_TBL, K_FOP
};
enum FOp : uint8_t { F_ADD, F_SUB, F_MUL, F_DIV, F_NEG, F_ABS, F_CMP, F_SI2F, F_UI2F, F_F2SI, F_F2UI, F_EXT, F_TRUNC, F_RINT, F_REM };

struct Node;
typedef const Node* E;
struct Node {
  Kind k; uint8_t sub = 0;
  uint32_t id = 0;
  int64_t aux = 0;      // width / var index / shift amount / table id
  I c0 = 0;             // CONST value, ADD constant
  I lo = 0, hi = 0;
  std::vector<E> ch;
  std::vector<I> co;    // ADD coefficients
};

struct VarInfo { std::string name; I lo, hi; };
extern std::vector<VarInfo> g_vars;
extern std::vector<std::vector<I>> g_tables;
extern size_t g_nodes;

std::string i2s(I v);
E konst(I v);
inline E kbool(bool b) { return konst(b ? 1 : 0); }
E mkvar(const std::string& name, I lo, I hi);
E add(E a, E b);
E sub(E a, E b);
E neg(E a);
E mulc(E a, I c);
E addc(E a, I c);
// exact product over the integers (may throw ovf_error)
E mul(E a, E b);
E wrapS(int w, E a);
E wrapU(int w, E a);
E addW(int w, E a, E b);
E subW(int w, E a, E b);
E mulW(int w, E a, E b);
E shr(E a, int k);               // floor(a / 2^k)
E shrv(E a, E k);
E pow2(E k);
E sdivE(E a, E b);               // truncating
E andE(E a, E b);
E orE(E a, E b);
E xorE(E a, E b);
E ltz(E p);
E eqz(E p);
inline E lt(E a, E b) { return ltz(sub(a, b)); }
inline E le(E a, E b) { return ltz(addc(sub(a, b), -1)); }
E eq(E a, E b);
E notB(E b);
E andB(E a, E b);
E orB(E a, E b);
E iteE(E c, E a, E b);
E minE(E a, E b);
E maxE(E a, E b);
E tblE(int table, E idx);
int mktable(const std::vector<I>& v);
E fop(FOp op, int w, int w2, int pred, E a, E b = nullptr);   // w result width (float) / w2 source width

inline bool isConst(E e) { return e->k == K_CONST; }
inline bool isBool(E e) { return e->lo >= 0 && e->hi <= 1; }
int64_t asI64(E e);
int bitsFor(I lo, I hi);         // signed width that holds [lo,hi]
I wrapSv(int w, I v);
I wrapUv(int w, I v);
I floorShr(I v, int k);
std::string show(E e, int depth = 6);
void collectVars(const std::vector<E>& es, std::set<int>& out);

// concrete evaluation under an assignment, with memo (children always have smaller ids)
struct Assign {
  std::vector<I> val;            // by var index
  std::vector<uint8_t> set;      // var set?
  std::vector<I> memo; std::vector<uint8_t> has;
  std::function<I(int)> gen;     // value for an unset var
  I eval(E e);
};
struct ovf_error : std::runtime_error { ovf_error() : std::runtime_error("coefficient overflow") {} };
I evalFop(E e, I a, I b);
E substVar(E e, const std::map<int, I>& m, std::unordered_map<E, E>& memo);
extern int g_expandLimit;
E ctlzE(E u, int w);            // u: unsigned value of width w
E cttzE(E u, int w);
E popcE(E u, int w);
E uval(int w, E a);              // unsigned value of a signed-canonical w-bit value
E icmpULt(int w, E a, E b);
E compose(const std::vector<E>& b);
E byteOf(E v, int n, int idx);
bool singleBool(E p, E& b, I& k1, I& k0);

void boundsUnder(E e, E c, bool v, I& lo, I& hi, int depth = 5);
E unwrapIn(bool sgn, int w, E x, I lo, I hi);
