// Native replay runtime: values of sx_sym / sx_pick come from a file of "name value" lines.
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <string>
#include <vector>
static std::map<std::string, int64_t> g_vals; static std::map<std::string, int> g_cnt; static int g_tier; static bool g_dflt, g_rand; static uint64_t g_rng = 88172645463325252ull;
struct Ro { const void* p; std::vector<unsigned char> snap; bool on; };
static std::vector<Ro> g_ro; static std::map<const void*, uint64_t> g_sz;
static int64_t get(const char* n, int64_t lo, int64_t hi) {
  std::string k = std::string(n) + "#" + std::to_string(g_cnt[n]++);
  auto it = g_vals.find(k); if (it != g_vals.end()) { if (it->second < lo || it->second > hi) { printf("REPLAY value of %s out of range\n", k.c_str()); exit(3); } return it->second; }
  if (g_rand) { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return lo + (int64_t)(g_rng % (uint64_t)(hi - lo + 1)); }
  int64_t v = 0; if (v < lo) v = lo; if (v > hi) v = hi; return v;
}
static void endCheck() {
  for (auto& r : g_ro) if (r.on && memcmp(r.p, r.snap.data(), r.snap.size())) { printf("REPLAY CHECK FAILED: write to read-only memory\n"); fflush(stdout); _Exit(1); }
}
extern "C" {
int64_t sx_sym(const char* n, int64_t lo, int64_t hi) { return get(n, lo, hi); }
int64_t sx_pick(const char* n, int64_t lo, int64_t hi) { return get(n, lo, hi); }
void sx_assume(bool c) { if (!c) { printf("REPLAY ASSUMPTION FALSE\n"); fflush(stdout); _Exit(3); } }
void sx_check(bool c, const char* l) { if (!c) { printf("REPLAY CHECK FAILED: %s\n", l); fflush(stdout); _Exit(1); } }
void sx_cover(const char*) {}
static uint64_t g_h = 1469598103934665603ull;
void sx_obs(int64_t v) { g_h ^= (uint64_t)v; g_h *= 1099511628211ull; }
int64_t sx_tier() { return g_tier; }
int64_t sx_seed() { return 1; }
int64_t sx_concrete(int64_t v) { return v; }
void* sx_alloc(uint64_t n, const char*) { void* p = malloc(n ? n : 1); g_sz[p] = n; if (const char* f = getenv("SX_FILL")) memset(p, atoi(f), n); return p; }
void sx_readonly(const void* p, int64_t on) {
  for (auto& r : g_ro) if (r.p == p) { if (r.on && !on) endCheck(); r.on = on; if (on) r.snap.assign((const unsigned char*)p, (const unsigned char*)p + g_sz[p]); return; }
  if (on && g_sz.count(p)) g_ro.push_back({p, std::vector<unsigned char>((const unsigned char*)p, (const unsigned char*)p + g_sz[p]), true});
}
void sx_print(const char* m, int64_t v) { printf("[%s] %lld\n", m, (long long)v); }
void SX_ENTRY();
}
int main(int argc, char** argv) {
  if (argc > 2) g_tier = !strcmp(argv[2], "thorough");
  if (getenv("SX_RANDOM")) { g_rand = true; g_rng ^= strtoull(getenv("SX_RANDOM"), 0, 10) * 0x9E3779B97F4A7C15ull; for (int i = 0; i < 10; i++) { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; } }
  if (argc > 1) { std::ifstream f(argv[1]); std::string l; while (std::getline(f, l)) { size_t p = l.rfind(' '); if (p != std::string::npos) g_vals[l.substr(0, p)] = strtoll(l.c_str() + p + 1, 0, 10); } }
  SX_ENTRY(); endCheck(); printf("OBS %llu\nREPLAY OK\n", (unsigned long long)g_h); return 0;
}
