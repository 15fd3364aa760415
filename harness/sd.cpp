// P02-P05: determinant operations
#include "common.hpp"
#include <macis/sd_operations.hpp>
#include <macis/wavefunction_io.hpp>
using namespace macis;
template <size_t N> static uint64_t lo64(std::bitset<N> b) { return (b & std::bitset<N>(~0ULL)).to_ullong(); }
static uint64_t M(int n) { return n >= 64 ? ~0ULL : (1ULL << n) - 1; }
// every element lies in the space, moves exactly `ex` electrons and no two coincide; `n` elements therefore means "exactly the set"
template <size_t N> static void check_set(const std::vector<std::bitset<N>>& v, size_t n, std::bitset<N> state, int ex, uint64_t orbs, const char* what) {
  vx_assert(v.size() == n, what);
  bool ok = true, dist = true; uint64_t s = lo64(state);
  std::vector<uint64_t> w; for (auto& x : v) w.push_back(lo64(x));
  for (size_t i = 0; i < v.size(); ++i) {
    ok &= __builtin_popcountll(w[i] ^ s) == 2 * ex; ok &= __builtin_popcountll(w[i]) == __builtin_popcountll(s); ok &= ((w[i] ^ s) & ~orbs) == 0; if constexpr (N > 64) ok &= ((v[i] >> 64) == (state >> 64));
    for (size_t j = 0; j < i; ++j) dist &= w[i] != w[j];
  }
  vx_assert(ok, "every generated state moves exactly the stated number of electrons inside the orbital space"); vx_assert(dist, "no state is generated twice");
}
static size_t c2(size_t n) { return n * (n - 1) / 2; }
template <size_t N> static void t_occ_vir(int norb) {
  auto b = vx_bits<N>("s", norb); std::vector<uint32_t> occ{9}, vir{9, 9}; size_t no = vx_concretize(b.count()); vx_assume(no < (size_t)norb);
  bitset_to_occ_vir(norb, b, occ, vir); vx_assert(occ.size() == no && vir.size() == norb - no, "occupied + unoccupied counts");
  for (size_t i = 0; i < occ.size(); ++i) { vx_assert(occ[i] < (uint32_t)norb, "occupied index in range"); vx_assert(b.test(occ[i]), "occupied orbital"); if (i) vx_assert(occ[i - 1] < occ[i], "ascending"); }
  for (size_t i = 0; i < vir.size(); ++i) { vx_assert(vir[i] < (uint32_t)norb, "unoccupied index in range"); vx_assert(!b.test(vir[i]), "unoccupied orbital"); if (i) vx_assert(vir[i - 1] < vir[i], "ascending"); }
  VX_END();
}
template <size_t N> static void t_sd(int norb) {
  auto b = vx_bits<N>("s", norb); size_t no = vx_concretize(b.count()), nv = norb - no; vx_assume(no < (size_t)norb); 
  std::vector<std::bitset<N>> s{b}, d{b, b}, s2; generate_singles(norb, b, s2); generate_singles_doubles(norb, b, s, d);
  check_set(s2, no * nv, b, 1, M(norb), "number of singles"); check_set(s, no * nv, b, 1, M(norb), "number of singles"); check_set(d, c2(no) * c2(nv), b, 2, M(norb), "number of doubles");
  generate_doubles(norb, b, s); check_set(s, c2(no) * c2(nv), b, 2, M(norb), "number of doubles"); VX_END();
}
template <size_t N> static void t_sd_as(int norb) { // excitations restricted to an active list
  auto b = vx_bits<N>("s", norb); uint32_t act = vx_concretize(vx_int_("active", norb)); std::vector<uint32_t> as; for (int i = 0; i < norb; ++i) if (act >> i & 1) as.push_back(i);
  size_t na = vx_concretize((b & std::bitset<N>(act)).count()), nv = as.size() - na; 
  std::vector<std::bitset<N>> s, d, s2; generate_singles_as<N>(norb, b, s2, as); generate_singles_doubles_as<N>(norb, b, s, d, as);
  check_set(s2, na * nv, b, 1, act, "active singles"); check_set(s, na * nv, b, 1, act, "active singles"); check_set(d, c2(na) * c2(nv), b, 2, act, "active doubles"); VX_END();
}
template <size_t N> static std::bitset<N> two(uint64_t a, uint64_t b) { if constexpr (N <= 64) return std::bitset<N>(a | b << (N / 2)); return std::bitset<N>(a) | (std::bitset<N>(b) << (N / 2)); }
template <size_t N> static uint64_t wa(std::bitset<N> s) { return lo64(s & low_mask<N>(N / 2)); }
template <size_t N> static uint64_t wb(std::bitset<N> s) { return lo64(s >> (N / 2)); }
template <size_t N> static void check_spin(const std::vector<std::bitset<N>>& v, size_t n, uint64_t A, uint64_t B, int ex, uint64_t orbs, const char* what) {
  vx_assert(v.size() == n, what); bool ok = true, dist = true; std::vector<uint64_t> x, y; for (auto& s : v) { x.push_back(wa(s)); y.push_back(wb(s)); }
  for (size_t i = 0; i < v.size(); ++i) { ok &= __builtin_popcountll(x[i]) == __builtin_popcountll(A); ok &= __builtin_popcountll(y[i]) == __builtin_popcountll(B); ok &= (__builtin_popcountll(x[i] ^ A) + __builtin_popcountll(y[i] ^ B)) == 2 * ex; ok &= (((x[i] ^ A) | (y[i] ^ B)) & ~orbs) == 0;
    for (size_t j = 0; j < i; ++j) dist &= (x[i] != x[j]) | (y[i] != y[j]); }
  vx_assert(ok, "every generated state conserves both spins and moves the stated number of electrons"); vx_assert(dist, "no state is generated twice");
}
template <size_t N> static void t_spin(int norb, bool as) {
  uint64_t A = vx_int_("a", norb), B = vx_int_("b", norb), act = M(norb); std::vector<uint32_t> ao;
  if (as) { act = vx_concretize(vx_int_("active", norb)); for (int i = 0; i < norb; ++i) if (act >> i & 1) ao.push_back(i); }
  size_t oa = vx_concretize(__builtin_popcountll(A & act)), ob = vx_concretize(__builtin_popcountll(B & act)), n = as ? ao.size() : norb; if (!as) vx_assume(oa < (size_t)norb && ob < (size_t)norb);
  size_t va = n - oa, vb = n - ob; auto st = two<N>(A, B); std::vector<std::bitset<N>> s{st}, d{st}, s1{st};
  if (as) { generate_singles_spin_as<N>(norb, st, s1, ao); generate_singles_doubles_spin_as<N>(norb, st, s, d, ao); } else { generate_singles_spin<N>(norb, st, s1); generate_singles_doubles_spin<N>(norb, st, s, d); }
  size_t ns = oa * va + ob * vb, nd = c2(oa) * c2(va) + c2(ob) * c2(vb) + oa * va * ob * vb;
  check_spin(s1, ns, A, B, 1, act, "number of spin singles"); check_spin(s, ns, A, B, 1, act, "number of spin singles"); check_spin(d, nd, A, B, 2, act, "number of spin doubles"); VX_END();
}
// ---- P03 signs: reference = fermionic operators, each contributing (-1)^(occupied orbitals below)
template <size_t N> static int below(std::bitset<N> s, unsigned p) { auto m = s << 0; if constexpr (N <= 64) return __builtin_popcountll(m.to_ullong() & ((1ULL << p) - 1)); else { uint64_t l = lo64(m), h = lo64(m >> 64); return p < 64 ? __builtin_popcountll(l & ((1ULL << p) - 1)) : __builtin_popcountll(l) + __builtin_popcountll(h & ((1ULL << (p - 64)) - 1)); } }
template <size_t N> static bool at(std::bitset<N> s, unsigned p) { if constexpr (N <= 64) return s.to_ullong() >> p & 1; else return p < 64 ? lo64(s) >> p & 1 : lo64(s >> 64) >> (p - 64) & 1; }
template <size_t N> static std::bitset<N> fl(std::bitset<N> s, unsigned p) { if constexpr (N <= 64) return std::bitset<N>(s.to_ullong() ^ (1ULL << p)); else { uint64_t l = lo64(s), h = lo64(s >> 64); if (p < 64) l ^= 1ULL << p; else h ^= 1ULL << (p - 64); return std::bitset<N>(l) | (std::bitset<N>(h) << 64); } }
template <size_t N> static int move(std::bitset<N>& s, unsigned o, unsigned v) { int c = below(s, o); s = fl(s, o); c += below(s, v); s = fl(s, v); return c; }
template <size_t N> static void t_sgn1(int lo, int hi) {
  auto ket = vx_bits<N>("ket"); unsigned o = vx_range("o", lo, hi), v = vx_range("v", lo, hi); if (N > 64) { o = vx_concretize(o); v = vx_concretize(v); } vx_assume(o != v); vx_assume(at(ket, o)); vx_assume(!at(ket, v));
  auto bra = ket; int par = move(bra, o, v) & 1; double want = par ? -1. : 1.;
  double got = single_excitation_sign(ket, v, o); vx_assert(got == want, "single-excitation sign is the fermionic sign");
  auto [o1, v1, sg] = single_excitation_sign_indices(bra, ket, bra ^ ket); vx_assert(o1 == o && v1 == v, "occupied / virtual indices recovered"); vx_assert(sg == want, "sign from determinants is the fermionic sign");
  vx_assert(single_excitation_sign(bra, o, v) == want, "sign is symmetric under exchange of bra and ket"); VX_END();
}
template <size_t N> static void t_sgn2() {
  static const unsigned P64[] = {0, 1, 5, 31, 32, 33, 62, 63}, P128[] = {0, 1, 62, 63, 64, 65, 100, 127}, P32[] = {0, 1, 7, 15, 16, 17, 30, 31}; const unsigned* P = N == 32 ? P32 : N == 64 ? P64 : P128; int np = VX_TIER > 1 ? 8 : 5, sh = VX_TIER > 1 ? 0 : vx_pick("sh", 0, 1) * 3;
  auto ket = vx_bits<N>("ket"); if (N > 32) { std::bitset<N> m; for (int i = 0; i < 8; ++i) { m.set(P[i]); if (P[i]) m.set(P[i] - 1); if (P[i] + 1 < N) m.set(P[i] + 1); } ket &= m; } // wide: symbolic occupation at and next to the candidate positions
  auto pk = [&](const char* n, int from) -> int { if (from >= np) vx_assume(false); return vx_pick(n, from, np - 1); };
  int io = pk("o", 0), ip = pk("p", io + 1), iv = pk("v", 0); vx_assume(iv != io && iv != ip); int iw = pk("w", iv + 1); vx_assume(iw != io && iw != ip);
  unsigned o = P[io + sh], p = P[ip + sh], v = P[iv + sh], w = P[iw + sh];
  vx_assume(o < p && v < w && o != v && o != w && p != v && p != w); vx_assume(at(ket, o)); vx_assume(at(ket, p)); vx_assume(!at(ket, v)); vx_assume(!at(ket, w));
  auto bra = ket; int par = (move(bra, o, v) + move(bra, p, w)) & 1; double want = par ? -1. : 1.;
  auto [o1, v1, o2, v2, sg] = doubles_sign_indices(bra, ket, bra ^ ket);
  vx_assert((o1 == o) & (v1 == v) & (o2 == p) & (v2 == w), "both occupied and both virtual indices recovered in ascending order"); vx_assert(sg == want, "double-excitation sign is the fermionic sign"); vx_assert(doubles_sign(bra, ket, bra ^ ket) == want, "doubles_sign agrees"); vx_assert(doubles_sign(ket, bra, bra ^ ket) == want, "sign is symmetric under exchange of bra and ket"); VX_END();
}
// ---- P04 spaces
template <size_t N> static void t_hf() {
  unsigned a = vx_pick("na", 0, N / 2), b = vx_pick("nb", 0, N / 2); auto d = canonical_hf_determinant<N>(a, b);
  vx_assert(d == (low_mask<N>(a) | (low_mask<N>(b) << (N / 2))), "the reference determinant fills the lowest alpha and beta orbitals"); VX_END();
}
template <size_t N> static void t_hf_ens(int n) {
  unsigned a = vx_pick("na", 0, n), b = vx_pick("nb", 0, n); auto e = vx_reals("e", n); auto d = canonical_hf_determinant<N>(a, b, e);
  uint64_t A = wa(d), B = wb(d); vx_assert((unsigned)__builtin_popcountll(A) == a && (unsigned)__builtin_popcountll(B) == b && !(A >> n) && !(B >> n), "electron counts");
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { if ((A >> i & 1) && !(A >> j & 1)) vx_assert(e[i] <= e[j], "alpha orbitals are filled by energy"); if ((B >> i & 1) && !(B >> j & 1)) vx_assert(e[i] <= e[j], "beta orbitals are filled by energy"); } VX_END();
}
static size_t binom(int n, int k) { size_t r = 1; for (int i = 1; i <= k; ++i) r = r * (n - k + i) / i; return r; }
template <size_t N> static void t_combs(int mx) {
  int n = vx_pick("n", 0, mx), k = vx_pick("k", 0, n); auto v = generate_combs<N>(n, k); vx_assert(v.size() == binom(n, k), "number of combinations");
  for (size_t i = 0; i < v.size(); ++i) { vx_assert(v[i].count() == (size_t)k && lo64(v[i]) <= M(n), "combination has k of n bits"); for (size_t j = 0; j < i; ++j) vx_assert(v[i] != v[j], "combinations distinct"); } VX_END();
}
template <size_t N> static void t_fci(int mx) {
  int n = vx_pick("n", 1, mx), a = vx_pick("a", 0, n), b = vx_pick("b", 0, n); auto v = generate_hilbert_space<N>(n, a, b); vx_assert(v.size() == binom(n, a) * binom(n, b), "full space dimension");
  uint64_t p = vx_int_("qa", n), q = vx_int_("qb", n); vx_assume(__builtin_popcountll(p) == a && __builtin_popcountll(q) == b);
  int hits = 0; for (auto& s : v) { vx_assert(wa(s) <= M(n) && wb(s) <= M(n), "inside the orbital space"); hits += (wa(s) == p) & (wb(s) == q); } vx_assert(hits == 1, "every determinant of the sector occurs exactly once"); VX_END();
}
template <size_t N> static void t_cisd(int norb) {
  uint64_t A = vx_int_("a", norb), B = vx_int_("b", norb); size_t oa = vx_concretize(__builtin_popcountll(A)), ob = vx_concretize(__builtin_popcountll(B)); vx_assume(oa < (size_t)norb && ob < (size_t)norb);
  auto st = two<N>(A, B); std::vector<std::bitset<N>> w{st, st}, c{st}; generate_cisd_hilbert_space<N>(norb, st, w); generate_cis_hilbert_space<N>(norb, st, c); auto w2 = generate_cisd_hilbert_space<N>(norb, st), c2v = generate_cis_hilbert_space<N>(norb, st);
  uint64_t p = vx_int_("qa", norb), q = vx_int_("qb", norb); int da = __builtin_popcountll(p ^ A), db = __builtin_popcountll(q ^ B); bool sector = (__builtin_popcountll(p) == __builtin_popcountll(A)) & (__builtin_popcountll(q) == __builtin_popcountll(B));
  int h1 = 0, h2 = 0, g1 = 0, g2 = 0; for (auto& s : w) h2 += (wa(s) == p) & (wb(s) == q); for (auto& s : c) h1 += (wa(s) == p) & (wb(s) == q); for (auto& s : w2) g2 += (wa(s) == p) & (wb(s) == q); for (auto& s : c2v) g1 += (wa(s) == p) & (wb(s) == q);
  vx_assert(h1 == (sector & (da + db <= 2)), "CIS space is exactly the reference and its spin-conserving singles"); vx_assert(h2 == (sector & (da + db <= 4)), "CISD space is exactly the reference, singles and doubles"); vx_assert(g1 == h1 && g2 == h2, "both forms agree");
  vx_assert(w[0] == st && c[0] == st, "the reference comes first"); VX_END();
}
template <size_t N> static void t_residues(int norb) {
  uint64_t A = vx_int_("a", norb), B = vx_int_("b", norb); size_t oa = vx_concretize(__builtin_popcountll(A)), ob = vx_concretize(__builtin_popcountll(B)); auto st = two<N>(A, B); std::vector<std::bitset<N>> r; generate_residues<N>(st, r);
  vx_assert(r.size() == c2(oa + ob), "one residue per pair of electrons"); uint64_t p = vx_int_("qa", norb), q = vx_int_("qb", norb); int h = 0; for (auto& s : r) h += (wa(s) == p) & (wb(s) == q);
  bool is = ((p & ~A) == 0) & ((q & ~B) == 0) & (__builtin_popcountll(A ^ p) + __builtin_popcountll(B ^ q) == 2); vx_assert(h == is, "residues are exactly the states with two electrons removed"); VX_END();
}
// ---- P05 strings and files
template <size_t N> static void t_str(int w, int step) {
  int off = vx_pick("off", 0, (N / 2 - w) / step) * step; uint64_t bga = vx_pick("bga", 0, 1) ? ~0ULL : 0, bgb = vx_pick("bgb", 0, 1) ? ~0ULL : 0; uint64_t m = M(w) << off, full = M(N / 2);
  uint64_t A = ((bga & ~m) | (vx_int_("a", w) << off)) & full, B = ((bgb & ~m) | (vx_int_("b", w) << off)) & full; auto st = two<N>(A, B); auto s = to_canonical_string(st); vx_assert(s.size() == N / 2, "one character per orbital");
  bool ok = true; for (size_t i = 0; i < N / 2; ++i) { int k = (A >> i & 1) | (B >> i & 1) << 1; ok &= s[i] == "0ud2"[k]; } vx_assert(ok, "characters name the occupation"); vx_assert(from_canonical_string<N>(s) == st, "parsing the string gives the state back"); VX_END();
}
template <size_t N> static void t_wfn(int nst, int w) {
  int n = vx_pick("n", 1, nst), na = vx_pick("na", 0, w), nb = vx_pick("nb", 0, w), hi = vx_pick("hi", 0, 1); std::vector<std::bitset<N>> st; std::vector<double> c; int off = hi ? N / 2 - w : 0;
  for (int i = 0; i < n; ++i) { uint64_t A = vx_int_("a", w), B = vx_int_("b", w); vx_assume(__builtin_popcountll(A) == na && __builtin_popcountll(B) == nb); st.push_back(two<N>(A << off, B << off)); c.push_back(vx_real("c")); }
  write_wavefunction<N>("wfn.txt", w + off, st, c); std::vector<std::bitset<N>> s2(1); std::vector<double> c2v(5); read_wavefunction<N>("wfn.txt", s2, c2v);
  vx_assert(s2.size() == st.size() && c2v.size() == c.size(), "every state is read back"); for (int i = 0; i < n; ++i) { vx_assert(s2[i] == st[i], "state read back"); vx_assert_same(c2v[i], c[i], "coefficient read back exactly"); }
  { std::ifstream f("wfn.txt"); long a, b, x, y; f >> a >> b >> x >> y; vx_assert(a == n && b == w + off && x == na && y == nb, "header counts states, orbitals and electrons"); } VX_END();
}
// wide orbital spaces: more orbitals than an int has bits
template <size_t N> static void t_combs_wide(int lo, int hi) {
  int n = vx_pick("n", lo, hi), k = vx_pick("k", 0, 1); if (vx_pick("full", 0, 1)) k = n - k;
  auto v = generate_combs<N>(n, k); vx_assert(v.size() == (k == 0 || k == n ? 1 : (size_t)n), "number of combinations");
  std::bitset<N> lim, q; for (int i = 0; i < n; ++i) lim.set(i); q.set(vx_pick("bit", 0, n - 1)); if (k > 1) q = lim & ~q; if (k == 0) q.reset(); if (k == n) q = lim;
  int hits = 0; for (auto& x : v) { vx_assert((x & ~lim).none() && x.count() == (size_t)k, "combination has k of n bits"); hits += x == q; } vx_assert(hits == 1, "every combination occurs exactly once"); VX_END();
}
static void t_fci_wide() {
  int n = vx_pick("n", 32, 34), s = vx_pick("spin", 0, 1); auto v = generate_hilbert_space<128>(n, s ? 0 : 1, s ? 1 : 0); std::bitset<128> q; q.set(vx_pick("bit", 0, n - 1) + (s ? 64 : 0));
  int hits = 0; for (auto& x : v) hits += x == q; vx_assert(v.size() == (size_t)n && hits == 1, "every determinant of the sector occurs exactly once"); VX_END();
}
extern "C" {
void sd_occ64() { t_occ_vir<64>(VX_TIER > 1 ? 9 : 7); } void sd_occ128() { t_occ_vir<128>(6); } void sd_occ32() { t_occ_vir<32>(7); }
void sd_sd64() { t_sd<64>(VX_TIER > 1 ? 7 : 5); } void sd_sd32() { t_sd<32>(5); } void sd_sd128() { t_sd<128>(4); } void sd_as64() { t_sd_as<64>(VX_TIER > 1 ? 5 : 4); }
void sd_spin64() { t_spin<64>(VX_TIER > 1 ? 5 : 4, false); } void sd_spin128() { t_spin<128>(3, false); } void sd_spin_as64() { t_spin<64>(3, true); }
void sd_sgn1_64() { t_sgn1<64>(0, 63); } void sd_sgn1_32() { t_sgn1<32>(0, 31); } void sd_sgn1_128a() { t_sgn1<128>(60, 67); } void sd_sgn1_128b() { t_sgn1<128>(124, 127); } 
void sd_sgn2_64() { t_sgn2<64>(); } void sd_sgn2_32() { t_sgn2<32>(); } void sd_sgn2_128() { t_sgn2<128>(); }
void sd_hf64() { t_hf<64>(); } void sd_hf128() { t_hf<128>(); } void sd_hf32() { t_hf<32>(); } void sd_hf_ens() { t_hf_ens<64>(VX_TIER > 1 ? 4 : 3); } void sd_hf_ens128() { t_hf_ens<128>(3); }
void sd_combs_w64() { t_combs_wide<64>(30, 34); } void sd_combs_w128() { t_combs_wide<128>(62, 66); } void sd_fci_w128() { t_fci_wide(); }
void sd_combs() { t_combs<64>(6); } void sd_fci64() { t_fci<64>(VX_TIER > 1 ? 4 : 3); } void sd_fci128() { t_fci<128>(3); } void sd_cisd64() { t_cisd<64>(VX_TIER > 1 ? 5 : 4); } void sd_cisd128() { t_cisd<128>(3); } void sd_res64() { t_residues<64>(4); } void sd_res128() { t_residues<128>(3); }
void sd_str64() { t_str<64>(2, 5); } void sd_str128() { t_str<128>(2, 31); } void sd_wfn64() { t_wfn<64>(2, 2); } void sd_wfn128() { t_wfn<128>(2, 2); }
}
