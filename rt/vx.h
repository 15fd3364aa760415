// Harness API.  In the symbolic run these are engine intrinsics; natively (replay) vx_native.cpp implements them.
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
#include <bitset>
#include <string>
#include <type_traits>
#include <vector>
extern "C" {
#endif
uint64_t vx_int_(const char* name, int bits);
double vx_real(const char* name);
void vx_assume_(int c);
void vx_assert_(int c, const char* label);
void vx_assert_eq(double a, double b, const char* label);
void vx_assert_same(double a, double b, const char* label);   // exact also in the native replay
void vx_cover(const char* label);
uint64_t vx_concretize(uint64_t v);
void vx_fail(const char* label);
void vx_observe_int(uint64_t v);
void vx_observe_real(double v);
int vx_spawn(void (*fn)(void*), void* arg);
void vx_yield(void);
int vx_self(void);
int vx_alive(void);
void vx_generic(int on);
size_t vx_object_size(const void* p);
#ifdef __cplusplus
}
#define vx_assume(c) vx_assume_((c) ? 1 : 0)
#define vx_assert(c, l) vx_assert_((c) ? 1 : 0, l)
template <class T> inline T vx_int(const char* n) { return (T)vx_int_(n, sizeof(T) * 8); }
inline bool vx_bool(const char* n) { return vx_int_(n, 1) & 1; }
// an integer in [lo,hi], left symbolic
inline int64_t vx_range(const char* n, int64_t lo, int64_t hi) {
  int bits = 1; while ((1LL << bits) <= hi - lo) ++bits;
  uint64_t v = vx_int_(n, bits); vx_assume(v <= (uint64_t)(hi - lo)); return lo + (int64_t)v;
}
// an integer in [lo,hi], case-split by the engine
inline int64_t vx_pick(const char* n, int64_t lo, int64_t hi) { if (lo == hi) return lo; return (int64_t)vx_concretize((uint64_t)vx_range(n, lo, hi)); }
template <size_t N> inline std::bitset<N> vx_bits(const char* n, int nbits = N) {
  std::bitset<N> r;
  if constexpr (N <= 64) { r = std::bitset<N>(vx_int_(n, nbits)); }
  else { for (int w = (nbits + 63) / 64 - 1; w >= 0; --w) { int b = nbits - w * 64; if (b > 64) b = 64; r = (r << 64) | std::bitset<N>(vx_int_(n, b)); } }
  return r;
}
inline std::vector<double> vx_reals(const char* n, size_t k) { std::vector<double> v(k); for (auto& x : v) x = vx_real(n); return v; }
// reachability witness: the check fails as vacuous unless this line is reached on some path
#define VX_END() vx_cover("end")
#endif
