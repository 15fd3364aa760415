// P50: legacy determinant Hamiltonians, density matrices and ASCI search (attic/inc/dbwy)
#include "ham_ref.hpp"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <numeric>
#include <set>
#include <tuple>
#include <mpi.h>
#include "cmz_ed/utils.h++"
#include "cmz_ed/ed.h++"
#include "dbwy/csr_hamiltonian.hpp"
using std::bitset; using std::vector; typedef vector<double> vd;
#include "dbwy/sd_build.hpp"
// the eigensolver is a stand-in here (P20, P48 cover Davidson): scripted energies, coefficients by position
static vd ES, XS; static size_t SOLVES, SUB; static double RTOL; static std::function<void(const sparsexx::csr_matrix<double, int32_t>&)> SEEN;
namespace sparsexx { inline double p_davidson(size_t m, const dist_sparse_matrix<csr_matrix<double, int32_t>>& H, double tol, double* X) { vx_assert(m == SUB && tol == RTOL, "eigensolver settings"); size_t n = H.m(); XS.clear(); for (size_t i = 0; i < n; ++i) XS.push_back(X[i] = ((i * 5 + SOLVES * 3) % 7 + 1.) * (i & 1 ? -0.125 : 0.125)); SEEN(H.diagonal_tile()); return ES.at(SOLVES++); } }
#include "dbwy/asci_util.hpp"
using namespace dbwy;
template <size_t N> using Loop = DoubleLoopHamiltonianGenerator<N>;
template <size_t N> using Build = SDBuildHamiltonianGenerator<N>;
template <size_t N> struct Sys { Ints I; vd T, V; Loop<N> l; Build<N> b; Sys(const Ints& i) : I(i), T(I.T), V(I.V), l(i.n, V.data(), T.data()), b(i.n, V.data(), T.data()) {} HamiltonianGenerator<N>& g(int k) { if (k) return b; return l; } };
static int pc(uint64_t x) { return __builtin_popcountll(x); }
static vector<uint32_t> occ(uint64_t w) { vector<uint32_t> v; for (int i = 0; i < 64; ++i) if (w >> i & 1) v.push_back(i); return v; }
static vector<uint32_t> vir(uint64_t w, int n) { return occ(~w & ((1ull << n) - 1)); }
static void generic_ints(Ints& I) { int c = 3, n = I.n; for (int q = 0; q < n; ++q) for (int p = 0; p <= q; ++p) { I.t(p, q) = I.t(q, p) = (c * 7 % 11 - 5) * 0.25 + 0.125; ++c; }
  for (int q = 0; q < n; ++q) for (int p = 0; p <= q; ++p) for (int s = 0; s < n; ++s) for (int r = 0; r <= s; ++r) { if (p + q * n > r + s * n) continue; double x = (c * 5 % 13 - 6) * 0.125; ++c; I.v(p, q, r, s) = I.v(q, p, r, s) = I.v(p, q, s, r) = I.v(q, p, s, r) = I.v(r, s, p, q) = I.v(s, r, p, q) = I.v(r, s, q, p) = I.v(s, r, q, p) = x; } }
static vector<Det> sector(int n, int na, int nb) { vector<Det> v; for (uint64_t b = 0; b < 1u << n; ++b) for (uint64_t a = 0; a < 1u << n; ++a) if (pc(a) == na && pc(b) == nb) v.push_back({a, b}); return v; }
static int dist(const Det& x, const Det& y) { return pc(x.a ^ y.a) + pc(x.b ^ y.b); }
// ---- bit operations
template <size_t N> static void t_bits() { bitset<N> m; for (size_t i = 0; i < N; ++i) m[i] = N < 128 || i < 2 || i >= N - 2 || (i + 2 >= N / 2 && i < N / 2 + 2); auto x = vx_bits<N>("x") & m, y = vx_bits<N>("y") & m; bool lt = false; for (size_t i = 0; i < N; ++i) if (m[i]) { bool d = x[i] ^ y[i], z = y[i]; lt = (d & z) | (!d & lt); } vx_assert(bitset_less(x, y) == lt, "order of bit strings is numeric"); bool ok = true; auto t = truncate_bitset<N / 2>(x); for (size_t i = 0; i < N / 2; ++i) ok &= t[i] == x[i]; vx_assert(ok, "lower half"); auto e = expand_bitset<2 * N>(x); for (size_t i = 0; i < 2 * N; ++i) ok &= e[i] == (i < N && x[i % N]); vx_assert(ok, "widened string"); if (x.any()) vx_assert(dbwy::ffs(x) == (uint32_t)ref_ffs(x), "first set bit, counted from one"); VX_END(); }
// ---- elements
template <size_t N> static void t_elem(int n, int a0, int a1, int b0, int b1) { int na = vx_pick("na", a0, a1), nb = vx_pick("nb", b0, b1); Det bra = pick_det("bra", n, na, nb), ket = pick_det("ket", n, na, nb); Sys<N> S{Ints(n)}; vx_assert_eq(S.l.matrix_element(mkdet<N>(bra), mkdet<N>(ket)), ref_element(S.I, bra, ket), "matrix element equals the second-quantised value"); VX_END(); }
// determinants at the top of the orbital range: signs only depend on the electrons in between
template <size_t N> static void t_high() { int h = N / 2, base = vx_pick("base", 0, 2), lo = base == 0 ? 0 : base == 1 ? h / 2 - 2 : h - 4; Det bra = pick_det("bra", 4, 2, 1), ket = pick_det("ket", 4, 2, 1); auto w = [&](const Det& d) { return bitset<N>(d.a) << lo | bitset<N>(d.b) << (lo + h); }; auto B = w(bra), K = w(ket); auto ka = truncate_bitset<N / 2>(K), ba = truncate_bitset<N / 2>(B), kb = truncate_bitset<N / 2>(K >> h), bb = truncate_bitset<N / 2>(B >> h);
  auto chk1 = [&](uint64_t b, uint64_t k, auto Bb, auto Kk) { if (pc(b ^ k) != 2) return; auto [o, v, s] = single_excitation_sign_indices(Bb, Kk, Bb ^ Kk); unsigned ro = ref_ffs(bitset<8>(k & ~b)) - 1, rv = ref_ffs(bitset<8>(b & ~k)) - 1; unsigned x = std::min(ro, rv), y = std::max(ro, rv); int c = pc(k >> (x + 1) & ((1u << (y - x - 1)) - 1)); vx_assert((int)o == (int)ro + lo && (int)v == (int)rv + lo, "orbitals of a single excitation"); vx_assert(s == (c & 1 ? -1. : 1.), "sign of a single excitation"); };
  chk1(bra.a, ket.a, ba, ka); chk1(bra.b, ket.b, bb, kb);
  if (pc(bra.a ^ ket.a) == 4) { auto [o1, v1, o2, v2, s] = doubles_sign_indices(ba, ka, ba ^ ka); auto o = occ(ket.a & ~bra.a), v = occ(bra.a & ~ket.a); vx_assert((int)o1 == (int)o[0] + lo && (int)o2 == (int)o[1] + lo && (int)v1 == (int)v[0] + lo && (int)v2 == (int)v[1] + lo, "orbitals of a double excitation"); Det d = ket; int par = 0; annih(d, 0, o[0], par); creat(d, 0, v[0], par); annih(d, 0, o[1], par); creat(d, 0, v[1], par); vx_assert(s == (par ? -1. : 1.), "sign of a double excitation"); vx_assert(doubles_sign(ba, ka, ba ^ ka) == s, "sign of a double excitation"); } VX_END(); }
// ---- fast diagonals
template <size_t N> static void t_fast(int n, int kind) { int na = vx_pick("na", kind == 1 ? 2 : 1, kind == 1 ? n - 2 : n - 1), nb = vx_pick("nb", kind == 2 ? 1 : 0, kind == 2 ? n - 1 : n); Det d = pick_det("d", n, na, nb); bool sw = kind < 2 && vx_pick("swap", 0, 1); if (sw) std::swap(d.a, d.b); Sys<N> S{Ints(n)}; auto& g = S.l; auto oa = occ(d.a), ob = occ(d.b); double H = g.matrix_element_diag(oa, ob); vx_assert_eq(H, ref_element(S.I, d, d), "diagonal element"); auto &ss = sw ? ob : oa, &os = sw ? oa : ob; uint64_t& w = sw ? d.b : d.a; auto vi = vir(w, n);
  if (kind == 0) { uint32_t i = ss[vx_pick("h", 0, ss.size() - 1)], a = vi[vx_pick("p", 0, vi.size() - 1)]; w ^= 1ull << i ^ 1ull << a; vx_assert_eq(g.fast_diag_single(ss, os, i, a, H), ref_element(S.I, d, d), "single-excitation diagonal"); }
  else if (kind == 1) { int x = vx_pick("h1", 0, ss.size() - 1), y = vx_pick("h2", 0, ss.size() - 1), p = vx_pick("p1", 0, vi.size() - 1), q = vx_pick("p2", 0, vi.size() - 1); vx_assume(x != y && p != q); w ^= 1ull << ss[x] ^ 1ull << ss[y] ^ 1ull << vi[p] ^ 1ull << vi[q]; vx_assert_eq(g.fast_diag_ss_double(ss, os, ss[x], ss[y], vi[p], vi[q], H), ref_element(S.I, d, d), "same-spin double diagonal"); }
  else { auto vb = vir(d.b, n); uint32_t i = ss[vx_pick("hu", 0, ss.size() - 1)], a = vi[vx_pick("pu", 0, vi.size() - 1)], j = os[vx_pick("hd", 0, os.size() - 1)], b = vb[vx_pick("pd", 0, vb.size() - 1)]; d.a ^= 1ull << i ^ 1ull << a; d.b ^= 1ull << j ^ 1ull << b; vx_assert_eq(g.fast_diag_os_double(ss, os, i, j, a, b, H), ref_element(S.I, d, d), "opposite-spin double diagonal"); } VX_END(); }
// ---- sparse blocks: every coupling above the threshold once, nothing else (columns of a row in any order)
template <class idx, size_t N> static void check_csr(sparsexx::csr_matrix<double, idx>& H, vector<bitset<N>>& bra, vector<bitset<N>>& ket, Ints& I, double th, int maxd = 4) { vx_assert((size_t)H.m() == bra.size() && (size_t)H.n() == ket.size() && H.rowptr().size() == bra.size() + 1 && H.rowptr()[0] == 0, "shape"); size_t nz = H.rowptr()[bra.size()]; vx_assert((size_t)H.nnz() == nz && H.colind().size() == nz && H.nzval().size() == nz, "nonzero count is consistent");
  for (size_t i = 0; i < bra.size(); ++i) { size_t n = 0, lo = H.rowptr()[i], hi = H.rowptr()[i + 1]; vx_assert(lo <= hi && hi <= nz, "row pointers"); for (size_t j = 0; j < ket.size(); ++j) { double h = bra[i].none() || ket[j].none() || dist(undet<N>(bra[i]), undet<N>(ket[j])) > maxd ? 0. : ref_element(I, undet<N>(bra[i]), undet<N>(ket[j])); if (!(std::abs(h) > th)) continue; ++n; size_t f = 0; for (size_t k = lo; k < hi; ++k) if ((size_t)H.colind()[k] == j) { ++f; vx_assert_eq(H.nzval()[k], h, "stored value is the matrix element"); } vx_assert(f == 1, "every coupling above the threshold is stored once"); } vx_assert(n == hi - lo, "nothing else is stored"); } }
template <class idx, size_t N> static void t_csr(int n, int nd, int gen, bool rect) { int na = vx_pick("na", 1, 2), nb = vx_pick("nb", 1, n - 1); Ints I(n, false); generic_ints(I); I.t(0, 0) = vx_real("t00"); I.t(0, 1) = I.t(1, 0) = vx_real("t01"); Sys<N> S(I); vector<bitset<N>> bra, ket; for (auto& d : sector(n, na, nb)) bra.push_back(mkdet<N>(d)); std::rotate(bra.begin(), bra.begin() + vx_pick("rot", 0, 2), bra.end()); if ((int)bra.size() > nd) bra.resize(nd); ket = bra; if (rect) { std::reverse(ket.begin(), ket.end()); ket.pop_back(); if (vx_pick("zero", 0, 1)) ket[0].reset(); } double th = vx_real("thresh"); vx_assume(th >= 0); bool js = gen && vx_pick("singles only", 0, 1); S.g(gen).SetJustSingles(js); vx_assert(S.g(gen).GetJustSingles() == js, "restriction to single excitations");
  auto H = make_csr_hamiltonian_block<idx, N>(bra.begin(), bra.end(), ket.begin(), ket.end(), S.g(gen), th); check_csr(H, bra, ket, I, th, js ? 2 : 4); VX_END(); }
static vector<bitset<64>> DD; static Ints* DI; static double DTH; static HamiltonianGenerator<64>* DG;
static void dist_rank(int r) { auto d = DD; auto H = make_dist_csr_hamiltonian<int32_t, 64>(MPI_COMM_WORLD, d.begin(), d.end(), *DG, DTH); int np; MPI_Comm_size(MPI_COMM_WORLD, &np); vx_assert((size_t)H.m() == d.size() && (size_t)H.n() == d.size() && d == DD, "global shape"); auto [st, en] = H.row_bounds(r); vector<bitset<64>> bra(d.begin() + st, d.begin() + en), off = d; for (int i = st; i < en; ++i) off[i].reset(); auto dt = H.diagonal_tile(); check_csr(dt, bra, bra, *DI, DTH); if (np > 1) { vx_assert((bool)H.off_diagonal_tile_ptr(), "off-diagonal tile"); auto ot = H.off_diagonal_tile(); check_csr(ot, bra, off, *DI, DTH); } }
static void t_dist(int np, int gen, int lo, int hi) { int n = 3, nd = vx_pick("nd", lo, hi); Ints I(n, false); generic_ints(I); I.t(0, 1) = I.t(1, 0) = vx_real("t01"); Sys<64> S(I); DD.clear(); for (auto& d : sector(n, 2, 1)) if ((int)DD.size() < nd) DD.push_back(mkdet<64>(d)); DI = &I; DG = &S.g(gen); DTH = vx_real("thresh"); vx_assume(DTH >= 0); vx_mpi_run(np, dist_rank); VX_END(); }
// ---- density matrices
template <size_t N> static void t_form(int n, int nd, int gen) { int na = vx_pick("na", 1, n - 1), nb = vx_pick("nb", 1, n - 1); auto A = sector(n, na, nb); vector<Det> D; vector<bitset<N>> W; size_t lo = 0; for (int i = 0; i < nd; ++i) { size_t k = vx_pick("det", lo, A.size() - (nd - i)); D.push_back(A[k]); lo = k + 1; } if (vx_pick("rev", 0, 1)) std::reverse(D.begin(), D.end()); for (auto& d : D) W.push_back(mkdet<N>(d)); Sys<N> S{Ints(n)}; auto C = vx_reals("c", nd); vd o(n * n), t((size_t)n * n * n * n), o2(n * n);
  S.g(gen).form_rdms(W.begin(), W.end(), W.begin(), W.end(), C.data(), o.data(), t.data()); S.g(gen).form_rdms(W.begin(), W.end(), W.begin(), W.end(), C.data(), o2.data()); double e = 0, E = 0; vd ro(n * n); for (size_t i = 0; i < t.size(); ++i) e += t[i] * S.I.V[i]; for (int i = 0; i < nd; ++i) for (int j = 0; j < nd; ++j) ref_apply(D[i], D[j], n, [&](int p, int q, double s) { ro[p + q * n] += s * C[i] * C[j]; }, [&](int p, int q, int r, int s, double g) { E += 0.5 * g * C[i] * C[j] * S.I.v(p, q, r, s); });
  for (int i = 0; i < n * n; ++i) { vx_assert_eq(o[i], ro[i], "one-body density"); vx_assert_eq(o2[i], ro[i], "one-body density formed alone"); } vx_assert_eq(e, E, "two-body density contracted with the integrals gives the two-body energy"); VX_END(); }
static vd NOS; static void hook(int64_t n, double* A, int64_t lda, double* S) { for (int64_t j = 0; j < n; ++j) { S[j] = 1; for (int64_t i = 0; i < n; ++i) A[i + j * lda] = NOS[i + j * n]; } }
static void t_rotate(int n) { Ints I(n, false); for (auto& x : I.T) x = vx_real("T"); for (auto& x : I.V) x = vx_real("V"); NOS = vx_reals("N", n * n); lapack::gesvd_hook = hook; Sys<64> S(I); vd od(n * n, 0.5); auto& g = S.l; g.rotate_hamiltonian_ordm(od.data()); auto N = [&](int i, int p) { return NOS[i + p * n]; };
  for (int p = 0; p < n; ++p) for (int q = 0; q < n; ++q) { double t = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) t += N(i, p) * I.t(i, j) * N(j, q); vx_assert_eq(S.T[p + q * n], t, "one-body integrals are rotated"); } vd W(S.V.size()); for (int p = 0; p < n; ++p) for (int q = 0; q < n; ++q) for (int r = 0; r < n; ++r) for (int s = 0; s < n; ++s) { double v = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) for (int l = 0; l < n; ++l) v += N(i, p) * N(j, q) * N(k, r) * N(l, s) * I.v(i, j, k, l); W[p + n * (q + n * (r + n * s))] = v; }
  for (size_t i = 0; i < W.size(); ++i) vx_assert_eq(S.V[i], W[i], "two-body integrals are rotated"); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { vx_assert_eq(g.V2_red_[i + n * j], W[i + n * (i + n * (j + n * j))], "intermediates are rebuilt"); vx_assert_eq(g.G2_red_[i + n * j], 0.5 * (W[i + n * (i + n * (j + n * j))] - W[i + n * (j + n * (j + n * i))]), "intermediates are rebuilt"); } VX_END(); }
// ---- excitation lists
template <size_t N> static void as_set(const vector<bitset<N>>& v, const vector<Det>& R, const char* l) { vx_assert(v.size() == R.size(), l); for (size_t i = 0; i < v.size(); ++i) { bool in = false; for (auto& d : R) in |= v[i] == mkdet<N>(d); vx_assert(in, l); for (size_t j = 0; j < i; ++j) vx_assert(v[i] != v[j], l); } }
template <size_t N> static void t_excit(int n) { int na = vx_pick("na", 0, n - 1), nb = vx_pick("nb", 0, n - 1); Det d = pick_det("d", n, na, nb); auto w = mkdet<N>(d); vector<Det> s1, s2, r; for (auto& e : sector(n, na, nb)) { int k = dist(d, e); if (k == 2) s1.push_back(e); if (k == 4) s2.push_back(e); } for (int x = -2; x <= 0; ++x) if (na + x >= 0 && nb - 2 - x >= 0) for (auto& e : sector(n, na + x, nb - 2 - x)) if (!(e.a & ~d.a) && !(e.b & ~d.b)) r.push_back(e);
  vector<bitset<N>> S(2), D(1), R; generate_singles_doubles_spin(n, w, S, D); as_set(S, s1, "single excitations"); as_set(D, s2, "double excitations"); generate_singles_spin(n, w, S); as_set(S, s1, "single excitations"); generate_residues(w, R); as_set(R, r, "residues with two electrons removed"); auto sd = s1; sd.insert(sd.begin(), d); auto ci = generate_cis_hilbert_space(n, w); vx_assert(ci.size() && ci[0] == w, "reference comes first"); as_set(ci, sd, "singles space"); sd.insert(sd.end(), s2.begin(), s2.end()); auto cd = generate_cisd_hilbert_space(n, w); vx_assert(cd.size() && cd[0] == w, "reference comes first"); as_set(cd, sd, "singles and doubles space");
  as_set(generate_full_hilbert_space<N>(n, na, nb), sector(n, na, nb), "full space"); vector<uint32_t> act, o, v; for (int i = 0; i < n; ++i) if (vx_pick("active", 0, 1)) act.push_back(i); uint64_t m = 0; for (auto i : act) m |= 1ull << i; auto in = [&](const vector<Det>& x) { vector<Det> y; for (auto& e : x) if (!((e.a ^ d.a) & ~m) && !((e.b ^ d.b) & ~m)) y.push_back(e); return y; }; generate_singles_doubles_spin_as(n, w, S, D, act); as_set(S, in(s1), "active single excitations"); as_set(D, in(s2), "active double excitations"); generate_singles_spin_as(n, w, S, act); as_set(S, in(s1), "active single excitations");
  std::string t = to_canonical_string(w); vx_assert(t.size() == N / 2, "one letter per orbital"); for (size_t i = 0; i < N / 2; ++i) vx_assert(t[i] == "0ud2"[(d.a >> i & 1) | (d.b >> i & 1) << 1], "letters show the occupation"); vx_assert(from_canonical_string<N>(t) == w, "reading the letters gives the determinant back"); VX_END(); }
template <size_t N> static void t_canon(int n) { int na = vx_pick("na", 0, n), nb = vx_pick("nb", 0, n); vx_assert(canonical_hf_determinant<N>(na, nb) == mkdet<N>({(1ull << na) - 1, (1ull << nb) - 1}), "lowest orbitals are filled"); vd e = vx_reals("e", n); auto w = undet<N>(canonical_hf_determinant<N>(na, nb, e)); vx_assert(pc(w.a) == na && pc(w.b) == nb && !((w.a | w.b) >> n), "electron counts"); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { if ((w.a >> i & 1) && !(w.a >> j & 1)) vx_assert(e[i] < e[j] || (e[i] == e[j] && i < j), "orbitals are filled by energy"); if ((w.b >> i & 1) && !(w.b >> j & 1)) vx_assert(e[i] < e[j] || (e[i] == e[j] && i < j), "orbitals are filled by energy"); } VX_END(); }
// ---- contributions of one determinant to the search
template <size_t N> static void t_contrib(int n, int a0, int a1, int b0, int b1, bool den) { constexpr size_t M = N / 2; int na = vx_pick("na", a0, a1), nb = vx_pick("nb", b0, b1); auto A = sector(n, na, nb); Det d = A[vx_pick("det", 0, A.size() - 1)]; Ints I(n, false); generic_ints(I); { I.t(0, 1) = I.t(1, 0) = vx_real("t01"); double x = vx_real("v"); if (den) vx_assume(x < 100 && x > -100 && I.t(0, 1) < 100 && I.t(0, 1) > -100); I.v(0, 1, 0, 1) = I.v(1, 0, 0, 1) = I.v(0, 1, 1, 0) = I.v(1, 0, 1, 0) = x; } Sys<N> S(I); auto& g = S.l; double c = den ? -0.75 : vx_real("c"), tol = vx_pick("tol", 0, 1) ? 0.4 : 0., E = !den ? 0. : vx_pick("E", 0, 1) ? -1000. : 1000.; auto w = mkdet<N>(d); auto wa = truncate_bitset<M>(w), wb = truncate_bitset<M>(w >> M); auto oa = occ(d.a), ob = occ(d.b), va = vir(d.a, n), vb = vir(d.b, n); double h = g.matrix_element(w, w); vector<asci_contrib<N>> P;
  if (den) { append_singles_asci_contributions<M, 0>(c, w, wa, oa, va, ob, g.T_pq_, g.G_red_.data(), g.V_red_.data(), n, tol, h, E, g, P); append_singles_asci_contributions<M, M>(c, w, wb, ob, vb, oa, g.T_pq_, g.G_red_.data(), g.V_red_.data(), n, tol, h, E, g, P); append_ss_doubles_asci_contributions<M, 0>(c, w, wa, oa, va, ob, g.G_pqrs_.data(), n, tol, h, E, g, P); append_ss_doubles_asci_contributions<M, M>(c, w, wb, ob, vb, oa, g.G_pqrs_.data(), n, tol, h, E, g, P); append_os_doubles_asci_contributions<M>(c, w, wa, wb, oa, ob, va, vb, g.V_pqrs_, n, tol, h, E, g, P); }
  else { append_singles_asci_contributions<M, 0>(c, w, wa, oa, va, ob, g.T_pq_, g.G_red_.data(), g.V_red_.data(), n, tol, P); append_singles_asci_contributions<M, M>(c, w, wb, ob, vb, oa, g.T_pq_, g.G_red_.data(), g.V_red_.data(), n, tol, P); append_ss_doubles_asci_contributions<M, 0>(c, w, wa, oa, va, g.G_pqrs_.data(), n, tol, P); append_ss_doubles_asci_contributions<M, M>(c, w, wb, ob, vb, g.G_pqrs_.data(), n, tol, P); append_os_doubles_asci_contributions<M>(c, w, wa, wb, oa, ob, va, vb, g.V_pqrs_, n, tol, P); }
  size_t k = 0; for (auto& e : A) { int D = dist(d, e); if (!D || D > 4) continue; double x = ref_element(I, e, d); bool keep = !(std::abs(x) < tol); size_t f = 0; for (auto& p : P) if (p.state == mkdet<N>(e)) { ++f; if (den) { double r = p.rv * (E - ref_element(I, e, e)) - c * x; vx_assert(r < 1e-9 && r > -1e-9, "contribution is the coupling over the energy difference"); } else vx_assert_eq(p.rv, c * x, "contribution is coefficient times coupling"); } vx_assert(f == keep, "every coupling at or above the tolerance contributes once"); k += keep; } vx_assert(P.size() == k, "nothing else contributes"); VX_END(); }
// ---- merging duplicates
template <size_t N> static void t_merge(int m) { vector<asci_contrib<N>> P, Q; vector<int> K; for (int i = 0; i < m; ++i) { int k = vx_pick("which", 0, 2); K.push_back(k); P.push_back({mkdet<N>({k == 2 ? 1u : 2u, k ? 1u : 2u}), vx_real("rv")}); } Q = P; bool big = vx_pick("keep largest", 0, 1); if (big) keep_only_largest_copy_asci_pairs(P); else sort_and_accumulate_asci_pairs(P); std::set<int> u(K.begin(), K.end()); vx_assert(P.size() == u.size(), "one entry per determinant"); for (int k : u) { size_t f = 0; for (auto& p : P) if (p.state == mkdet<N>({k == 2 ? 1u : 2u, k ? 1u : 2u})) { ++f; double s = 0; bool any = false; for (int i = 0; i < m; ++i) if (K[i] == k) { if (big) { vx_assert(p.rv >= Q[i].rv, "the largest value survives"); any |= p.rv == Q[i].rv; } else s += Q[i].rv; } if (big) vx_assert(any, "the largest value survives"); else vx_assert_eq(p.rv, s, "values of equal determinants are added"); } vx_assert(f == 1, "one entry per determinant"); } VX_END(); }
template <size_t N> static void t_reorder(int m) { vector<bitset<N>> D; for (int i = 0; i < m; ++i) D.push_back(bitset<N>(i + 1)); vd c = vx_reals("c", m), c0 = c; reorder_ci_on_coeff(D, c, MPI_COMM_WORLD); vx_assert((int)c.size() == m && (int)D.size() == m, "size"); unsigned seen = 0; for (int i = 0; i < m; ++i) { int k = (int)D[i].to_ulong() - 1; vx_assert(k >= 0 && k < m && !(seen >> k & 1), "determinants are permuted"); seen |= 1u << k; vx_assert_eq(c[i], c0[k], "coefficients stay with their determinants"); if (i) vx_assert(std::abs(c[i - 1]) >= std::abs(c[i]), "largest coefficients first"); } VX_END(); }
// ---- whole search
template <size_t N> static void t_search(int n, int na, int nb, int m) { Ints I(n, false); generic_ints(I); Sys<N> S(I); auto A = sector(n, na, nb); vector<Det> D; vector<bitset<N>> W; size_t lo = 0; for (int i = 0; i < m; ++i) { size_t k = vx_pick("det", lo, A.size() - (m - i)); D.push_back(A[k]); lo = k + 1; W.push_back(mkdet<N>(A[k])); } vd c; for (int i = 0; i < m; ++i) c.push_back(vx_pick("c", 0, 1) ? 0.75 - i : 0.5 + 0.125 * i); double E = -40; size_t want = vx_pick("ndets", 1, A.size() + 1); bool js = vx_pick("singles only", 0, 1); S.b.SetJustSingles(js); auto& g = S.b;
  auto out = asci_search<N>(want, W.begin(), W.end(), E, c, n, g.T_pq_, g.G_red_.data(), g.V_red_.data(), g.G_pqrs_.data(), g.V_pqrs_, g, true); vd sc; vector<bool> reach, has; size_t nr = 0; for (auto& e : A) { double s = 0; bool r = false, own = false; for (int i = 0; i < m; ++i) { int x = dist(D[i], e); if (!x) { own = true; s = std::abs(c[i]); break; } } if (!own) { for (int i = 0; i < m; ++i) { int x = dist(D[i], e); if (x > (js ? 2 : 4)) continue; double h = ref_element(I, e, D[i]); if (std::abs(h) < 1e-8) continue; r = true; s += c[i] * h / (E - ref_element(I, e, e)); } s = std::abs(s); } sc.push_back(s); reach.push_back(r || own); nr += r || own; bool f = false; for (auto& o : out) f |= o == mkdet<N>(e); has.push_back(f); }
  vx_assert(out.size() == std::min(want, nr), "as many determinants as asked for, or all reached"); for (size_t i = 0; i < out.size(); ++i) for (size_t j = 0; j < i; ++j) vx_assert(out[i] != out[j], "no determinant twice"); size_t k = 0; for (size_t i = 0; i < A.size(); ++i) { if (!has[i]) continue; ++k; vx_assert(reach[i], "only determinants reached from the wavefunction"); for (size_t j = 0; j < A.size(); ++j) if (!has[j] && reach[j]) vx_assert(sc[i] >= sc[j] - 1e-12, "the determinants of largest score are kept"); } vx_assert(k == out.size(), "determinants of the same sector"); VX_END(); }
// ---- growing and refining the wavefunction
template <size_t N> static void t_iter(int n, int na, int nb, int mode) { Ints I(n, false); generic_ints(I); Sys<N> S(I); auto A = sector(n, na, nb); vector<bitset<N>> W; size_t w0 = vx_pick("start", 1, mode == 0 ? 2 : 3); for (size_t i = 0; i < w0; ++i) W.push_back(mkdet<N>(A[(i * 2 + 1) % A.size()])); vd X; for (size_t i = 0; i < w0; ++i) X.push_back(0.25 + i); size_t nc = vx_pick("core", 1, 3), want = mode == 2 ? w0 : vx_pick("ndets", 1, 5), mx = mode == 2 ? vx_pick("rounds", 0, 3) : 1; double tol = 0.01, E0 = -40, th = 1e-6; SOLVES = 0; SUB = 20; RTOL = 1e-8; ES.clear(); for (int i = 0; i < 4; ++i) ES.push_back(mode == 2 && i < 3 ? (vx_pick("near", 0, 1) ? (i ? ES.back() : E0) + 0.005 : (i ? ES.back() : E0) - 1) : -41 - i); vector<size_t> dims; vector<sparsexx::csr_matrix<double, int32_t>> HH; SEEN = [&](const sparsexx::csr_matrix<double, int32_t>& H) { dims.push_back(H.m()); HH.push_back(H); };
  vd prints; std::function<void(double)> pr = [&](double e) { prints.push_back(e); }; double E; vector<bitset<N>> w; vd x; if (mode == 0) std::tie(E, w, x) = asci_iter<N>(want, nc, E0, W, X, S.l, n, th, SUB, RTOL, true); else if (mode == 1) std::tie(E, w, x) = asci_grow<N>(want, nc, 2, E0, W, X, S.l, n, th, SUB, RTOL, pr, true); else std::tie(E, w, x) = asci_refine<N>(nc, tol, mx, E0, W, X, S.l, n, th, SUB, RTOL, pr, true);
  if (mode == 1 && w0 >= want) { vx_assert(!SOLVES && E == E0 && w == W && x == X, "a large enough wavefunction is returned as it is"); VX_END(); return; } size_t rounds = 1; if (mode == 2) { rounds = 0; double p = E0; while (rounds < mx) { double d = ES[rounds] - p; p = ES[rounds++]; if (std::abs(d) < tol) break; } vx_assert(prints.size() == rounds, "energies are reported"); for (size_t i = 0; i < rounds; ++i) vx_assert(prints[i] == ES[i], "energies are reported"); }
  if (mode == 1) { vx_assert(SOLVES >= 1, "the wavefunction grows"); vx_assert(w.size() == want || (dims.size() >= 2 && dims[dims.size() - 1] == dims[dims.size() - 2]) || (dims.size() == 1 && dims[0] == w0), "growth stops at the requested size or when stuck"); for (size_t i = 0; i + 1 < dims.size(); ++i) vx_assert(dims[i] < want, "growth stops at the requested size"); } else vx_assert(SOLVES == rounds, mode == 2 ? "refinement stops when the energy settles or the rounds are used up" : "one diagonalisation");
  if (!SOLVES) { vx_assert(E == E0 && w == W && x == X, "nothing to do returns the input"); VX_END(); return; } vx_assert(E == ES[SOLVES - 1], "energy of the last diagonalisation"); vx_assert(w.size() == dims.back() && x == XS, "coefficients belong to the determinants of the last diagonalisation"); vx_assert(w.size() <= want || mode == 2, "no more determinants than asked for"); if (mode == 2) vx_assert(w.size() <= w0, "refinement keeps the size"); for (size_t i = 0; i < w.size(); ++i) for (size_t j = 0; j < i; ++j) vx_assert(w[i] != w[j], "no determinant twice"); check_csr(HH.back(), w, w, I, th); VX_END(); }
extern "C" {
void db_iter() { t_iter<64>(3, 2, 1, 0); }
void db_grow() { t_iter<64>(3, 2, 1, 1); }
void db_refine() { t_iter<64>(3, 2, 1, 2); }
void db_bits64() { t_bits<64>(); }
void db_bits128() { t_bits<128>(); }
void db_bits256() { t_bits<256>(); }
void db_bits8() { t_bits<8>(); }
void db_elem3() { t_elem<64>(3, 0, 3, 0, 3); }
void db_elem4() { t_elem<8>(4, 2, 2, 1, 1); }
void db_elem4b() { t_elem<128>(4, 1, 1, 2, 2); }
void db_elem256() { t_elem<256>(3, 1, 2, 1, 2); }
void db_high64() { t_high<64>(); }
void db_high128() { t_high<128>(); }
void db_high256() { t_high<256>(); }
void db_fast1() { t_fast<64>(3, 0); }
void db_fast2() { t_fast<64>(4, 1); }
void db_fast3() { t_fast<64>(3, 2); }
void db_csr() { t_csr<int32_t, 64>(3, 4, 0, false); }
void db_csr_rect() { t_csr<int32_t, 64>(3, 4, 0, true); }
void db_csr_sd() { t_csr<int32_t, 64>(3, 4, 1, false); }
void db_csr_sd_rect() { t_csr<int64_t, 128>(3, 4, 1, true); }
void db_dist2() { t_dist(2, 0, 1, 5); }
void db_dist2s() { t_dist(2, 1, 1, 5); }
void db_dist3() { t_dist(3, 1, 3, 5); }
void db_form() { t_form<64>(3, 2, 0); }
void db_form_sd() { t_form<64>(3, 2, 1); }
void db_form3() { t_form<128>(2, 3, 1); }
void db_rotate() { t_rotate(2); }
void db_excit() { t_excit<64>(3); }
void db_excit4() { t_excit<16>(4); }
void db_canon() { t_canon<64>(3); }
void db_contrib() { t_contrib<64>(3, 1, 2, 1, 2, false); }
void db_contrib4() { t_contrib<128>(4, 2, 2, 1, 1, false); }
void db_contrib_den() { t_contrib<64>(3, 1, 2, 1, 2, true); }
void db_contrib_den4() { t_contrib<64>(4, 1, 1, 2, 2, true); }
void db_merge() { t_merge<64>(4); }
void db_reorder() { t_reorder<64>(3); }
void db_search() { t_search<64>(3, 2, 1, 2); }
void db_search_full() { t_search<64>(2, 2, 2, 1); }
void db_search_none() { t_search<64>(2, 2, 0, 1); }
void db_search1() { t_search<64>(3, 1, 1, 1); }
}
