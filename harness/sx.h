// Interface between a harness and (a) the symbolic executor, (b) the native replay runtime (native_rt.cc).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
int64_t sx_sym(const char* name, int64_t lo, int64_t hi);   // symbolic value, every value of [lo,hi]
int64_t sx_pick(const char* name, int64_t lo, int64_t hi);  // one path per value
void sx_assume(bool c);
void sx_check(bool c, const char* label);
void sx_cover(const char* label);
int64_t sx_tier();                                          // 0 quick, 1 thorough
int64_t sx_seed();
int64_t sx_concrete(int64_t v);
void* sx_alloc(uint64_t bytes, const char* name);           // exact-size, uninitialised
void sx_readonly(const void* p, int64_t on);                // any write to the object is a violation
void sx_obs(int64_t v);                                    // value compared between encoding and native build
void sx_print(const char* msg, int64_t v);
}
