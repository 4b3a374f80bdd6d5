// Harness interface of the symbolic executor. The same harness is also compiled
// natively (replay.cpp) to replay counterexamples and validate sampled paths
// against the real build.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
extern "C" {
uint64_t hsx_sym_(const char* name, unsigned bits);       // a fresh symbolic value
void hsx_bytes_(void* p, std::size_t n, const char* name); // n fresh symbolic bytes
int hsx_range_(const char* name, int lo, int hi);          // fresh value in [lo,hi]
void hsx_assume_(int cond);
void hsx_assert_(int cond, const char* label);
void hsx_reach_(const char* label);                        // vacuity witness: every label must be reached on some path
void hsx_freeze(void);                                     // from now on nothing that exists may be written or released
void hsx_thaw(void);
void hsx_observe_(uint64_t v);                             // compared between symbolic path and native replay
void hsx_observe_bytes_(const void* p, std::size_t n);
uint64_t hsx_concretize_(uint64_t v);                      // fork over all feasible values
void hsx_leak_ok(void);
void hsx_stop(void);                                       // abandon the path (outside the model); counted
int hsx_is_symbolic(void);
void hsx_print_(const char*);
void hsx_main(void);
}
#define HSX_NOINLINE __attribute__((noinline))
namespace hsx {
inline bool assume(bool c) { hsx_assume_(c ? 1 : 0); return c; }
inline void check(bool c, const char* label) { hsx_assert_(c ? 1 : 0, label); }
inline void reach(const char* l) { hsx_reach_(l); }
inline uint8_t u8(const char* n) { return (uint8_t)hsx_sym_(n, 8); }
inline char ch(const char* n) { return (char)(uint8_t)hsx_sym_(n, 8); }
inline uint32_t u32(const char* n) { return (uint32_t)hsx_sym_(n, 32); }
inline int32_t i32(const char* n) { return (int32_t)(uint32_t)hsx_sym_(n, 32); }
inline uint64_t u64(const char* n) { return hsx_sym_(n, 64); }
// symbolic integer in [lo,hi], kept symbolic
inline int range(const char* n, int lo, int hi) { return hsx_range_(n, lo, hi); }
// concrete choice in [lo,hi]: one path per value
inline int pick(const char* n, int lo, int hi) { return (int)hsx_concretize_((uint64_t)(int64_t)hsx_range_(n, lo, hi)); }
inline bool flip(const char* n) { return pick(n, 0, 1) != 0; }
inline void observe(uint64_t v) { hsx_observe_(v); }
inline void observe(const std::string& s) { hsx_observe_bytes_(s.data(), s.size()); }
// a string of exactly n symbolic bytes
inline std::string bytes(const char* name, std::size_t n) {
  std::string s(n, 'x'); if (n) hsx_bytes_(&s[0], n, name); return s;
}
// n symbolic non-NUL bytes (text usable as a C string)
inline std::string text(const char* name, std::size_t n) {
  std::string s = bytes(name, n); for (std::size_t i = 0; i < n; ++i) assume(s[i] != 0); return s;
}
}
