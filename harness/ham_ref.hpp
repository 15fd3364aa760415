// Reference many-electron Hamiltonian from second quantisation:
//   H = sum_pq T(p,q) a+_p a_q + 1/2 sum_pqrs (pq|rs) a+_p a+_r a_s a_q   (same-spin pairs p,q and r,s)
// spin orbitals are ordered alpha 0..n-1 then beta 0..n-1; each operator contributes (-1)^(occupied below).
#pragma once
#include "common.hpp"
#include <cmath>
struct Ints {
  int n; std::vector<double> T, V;
  Ints(int n_, bool sym = true) : n(n_), T(n_ * n_), V((size_t)n_ * n_ * n_ * n_) { if (sym) fill(); }
  double& t(int p, int q) { return T[p + q * n]; } double& v(int p, int q, int r, int s) { return V[p + n * (q + (size_t)n * (r + (size_t)n * s))]; }
  void fill() { // real orbitals: T symmetric, (pq|rs) with the eight-fold permutational symmetry
    for (int q = 0; q < n; ++q) for (int p = 0; p <= q; ++p) t(p, q) = t(q, p) = vx_real("T");
    for (int q = 0; q < n; ++q) for (int p = 0; p <= q; ++p) for (int s = 0; s < n; ++s) for (int r = 0; r <= s; ++r) { if (p + q * n > r + s * n) continue; double x = vx_real("V"); 
      v(p, q, r, s) = v(q, p, r, s) = v(p, q, s, r) = v(q, p, s, r) = v(r, s, p, q) = v(s, r, p, q) = v(r, s, q, p) = v(s, r, q, p) = x; }
  }
};
struct Det { uint64_t a, b; };
inline int parity_below(const Det& d, int spin, int p) { return spin == 0 ? __builtin_popcountll(d.a & ((1ULL << p) - 1)) : __builtin_popcountll(d.a) + __builtin_popcountll(d.b & ((1ULL << p) - 1)); }
inline bool annih(Det& d, int spin, int p, int& par) { uint64_t& w = spin ? d.b : d.a; if (!(w >> p & 1)) return false; par ^= parity_below(d, spin, p) & 1; w ^= 1ULL << p; return true; }
inline bool creat(Det& d, int spin, int p, int& par) { uint64_t& w = spin ? d.b : d.a; if (w >> p & 1) return false; par ^= parity_below(d, spin, p) & 1; w ^= 1ULL << p; return true; }
template <class F1, class F2> void ref_apply(const Det& bra, const Det& ket, int n, F1 one, F2 two) {
  for (int s = 0; s < 2; ++s) for (int q = 0; q < n; ++q) { Det d = ket; int par = 0; if (!annih(d, s, q, par)) continue;
      for (int p = 0; p < n; ++p) { Det e = d; int pp = par; if (!creat(e, s, p, pp) || e.a != bra.a || e.b != bra.b) continue; one(p, q, pp ? -1. : 1.); } }
  for (int s1 = 0; s1 < 2; ++s1) for (int q = 0; q < n; ++q) { Det d1 = ket; int p1 = 0; if (!annih(d1, s1, q, p1)) continue;
      for (int s2 = 0; s2 < 2; ++s2) for (int s = 0; s < n; ++s) { Det d2 = d1; int p2 = p1; if (!annih(d2, s2, s, p2)) continue;
          for (int r = 0; r < n; ++r) { Det d3 = d2; int p3 = p2; if (!creat(d3, s2, r, p3)) continue;
              for (int p = 0; p < n; ++p) { Det d4 = d3; int p4 = p3; if (!creat(d4, s1, p, p4) || d4.a != bra.a || d4.b != bra.b) continue; two(p, q, r, s, p4 ? -1. : 1.); } } } }
}
inline double ref_element(Ints& I, const Det& bra, const Det& ket) {
  double h = 0; ref_apply(bra, ket, I.n, [&](int p, int q, double s) { h += s * I.t(p, q); }, [&](int p, int q, int r, int s, double sg) { h += 0.5 * sg * I.v(p, q, r, s); }); return h; }
template <size_t N> std::bitset<N> mkdet(const Det& d) { if constexpr (N <= 64) return std::bitset<N>(d.a | d.b << (N / 2)); else return std::bitset<N>(d.a) | (std::bitset<N>(d.b) << (N / 2)); }
template <size_t N> Det undet(std::bitset<N> s) { return Det{(s & low_mask<N>(N / 2)).to_ullong(), (s >> (N / 2)).to_ullong()}; }
inline Det pick_det(const char* nm, int n, int na, int nb) { uint64_t a = vx_int_(nm, n), b = vx_int_(nm, n); vx_assume(__builtin_popcountll(a) == na); vx_assume(__builtin_popcountll(b) == nb); a = vx_concretize(a); b = vx_concretize(b); return {a, b}; }
inline bool same(const Det& x, const Det& y) { return x.a == y.a && x.b == y.b; }
