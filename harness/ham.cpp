// P06-P08, P10: Hamiltonian matrix elements, fast diagonals, CSR blocks, density matrices
#include "ham_ref.hpp"
#include <macis/hamiltonian_generator/double_loop.hpp>
#include <macis/csr_hamiltonian.hpp>
using namespace macis;
template <size_t N> using Gen = DoubleLoopHamiltonianGenerator<N>;
template <size_t N> struct Sys { Ints I; std::vector<double> T, V; Gen<N> g; Sys(int n) : I(n), T(I.T), V(I.V), g(matrix_span<double>(T.data(), n, n), rank4_span<double>(V.data(), n, n, n, n)) {} };
template <size_t N> static void t_elem(int n, int amin, int amax, int bmin, int bmax, bool herm) {
  int na = vx_pick("na", amin, amax), nb = vx_pick("nb", bmin, bmax); Det bra = pick_det("bra", n, na, nb), ket = pick_det("ket", n, na, nb);
  Sys<N> S(n); double h = S.g.matrix_element(mkdet<N>(bra), mkdet<N>(ket)); vx_assert_eq(h, ref_element(S.I, bra, ket), "matrix element equals the second-quantised value");
  if (herm) vx_assert_eq(h, S.g.matrix_element(mkdet<N>(ket), mkdet<N>(bra)), "Hamiltonian is symmetric"); VX_END();
}
template <size_t N> static void t_sector(int n) { // different electron counts or more than two electrons apart never couple
  Det bra{vx_concretize(vx_int_("ba", n)), vx_concretize(vx_int_("bb", n))}; Det ket{bra.a ^ vx_concretize(vx_int_("xa", n)), bra.b ^ vx_concretize(vx_int_("xb", n))};
  vx_assume(__builtin_popcountll(bra.a ^ ket.a) + __builtin_popcountll(bra.b ^ ket.b) > 4); Sys<N> S(n); vx_assert_eq(S.g.matrix_element(mkdet<N>(bra), mkdet<N>(ket)), 0., "determinants more than two excitations apart do not couple"); VX_END();
}
static std::vector<uint32_t> occ(uint64_t w) { std::vector<uint32_t> v; for (int i = 0; i < 64; ++i) if (w >> i & 1) v.push_back(i); return v; }
// ---- fast diagonals: energy of an excited determinant from the parent's
template <size_t N> static void t_fast(int n, int kind) {
  int na = vx_pick("na", 0, n), nb = vx_pick("nb", 0, n); if (kind == 0) vx_assume(na >= 1 && na < n); if (kind == 1) vx_assume(na >= 2 && na + 2 <= n); if (kind == 2) vx_assume(na >= 1 && na < n && nb >= 1 && nb < n);
  Det d = pick_det("d", n, na, nb); bool sw = kind < 2 && vx_pick("swap", 0, 1); if (sw) std::swap(d.a, d.b);
  Sys<N> S(n); auto& g = S.g; auto oa = occ(d.a), ob = occ(d.b); double H = g.matrix_element_diag(oa, ob); vx_assert_eq(H, ref_element(S.I, d, d), "diagonal element equals the second-quantised value");
  auto& ss = sw ? ob : oa; auto& os = sw ? oa : ob; uint64_t& w = sw ? d.b : d.a; auto vir = occ(~w & ((1ULL << n) - 1)); 
  auto ess = g.single_orbital_ens(n, ss, os), eos = g.single_orbital_ens(n, os, ss); vx_assert(ess.size() == (size_t)n, "one energy per orbital"); for (int i = 0; i < n; ++i) vx_assert_eq(ess[i], g.single_orbital_en(i, ss, os), "orbital energies agree with the single-orbital form");
  if (kind == 0) { uint32_t i = ss[vx_pick("h", 0, ss.size() - 1)], a = vir[vx_pick("p", 0, vir.size() - 1)]; w ^= 1ULL << i ^ 1ULL << a; double E = ref_element(S.I, d, d);
    vx_assert_eq(g.fast_diag_single(ss, os, i, a, H), E, "single-excitation diagonal"); vx_assert_eq(g.fast_diag_single(ess[i], ess[a], i, a, H), E, "single-excitation diagonal from energies"); }
  else if (kind == 1) { int x = vx_pick("h1", 0, ss.size() - 1), y = vx_pick("h2", 0, ss.size() - 1), p = vx_pick("p1", 0, vir.size() - 1), q = vx_pick("p2", 0, vir.size() - 1); vx_assume(x != y && p != q); uint32_t i = ss[x], j = ss[y], a = vir[p], b = vir[q]; w ^= 1ULL << i ^ 1ULL << j ^ 1ULL << a ^ 1ULL << b; double E = ref_element(S.I, d, d);
    vx_assert_eq(g.fast_diag_ss_double(ss, os, i, j, a, b, H), E, "same-spin double diagonal"); vx_assert_eq(g.fast_diag_ss_double(ess[i], ess[j], ess[a], ess[b], i, j, a, b, H), E, "same-spin double diagonal from energies"); }
  else { auto vb = occ(~d.b & ((1ULL << n) - 1)); uint32_t i = ss[vx_pick("hu", 0, ss.size() - 1)], a = vir[vx_pick("pu", 0, vir.size() - 1)], j = os[vx_pick("hd", 0, os.size() - 1)], b = vb[vx_pick("pd", 0, vb.size() - 1)]; d.a ^= 1ULL << i ^ 1ULL << a; d.b ^= 1ULL << j ^ 1ULL << b; double E = ref_element(S.I, d, d);
    vx_assert_eq(g.fast_diag_os_double(ss, os, i, j, a, b, H), E, "opposite-spin double diagonal"); vx_assert_eq(g.fast_diag_os_double(ess[i], eos[j], ess[a], eos[b], i, j, a, b, H), E, "opposite-spin double diagonal from energies"); }
  VX_END();
}
// ---- integral intermediates
template <size_t N> static void t_interm(int n) {
  Sys<N> S(n); auto& g = S.g; auto& I = S.I;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { vx_assert_eq(g.G2_red_(i, j), 0.5 * (I.v(i, i, j, j) - I.v(i, j, j, i)), "G2_red"); vx_assert_eq(g.V2_red_(i, j), I.v(i, i, j, j), "V2_red");
    for (int k = 0; k < n; ++k) { vx_assert_eq(g.G_red_(k, i, j), I.v(k, k, i, j) - I.v(k, j, i, k), "G_red"); vx_assert_eq(g.V_red_(k, i, j), I.v(k, k, i, j), "V_red"); for (int l = 0; l < n; ++l) { vx_assert_eq(g.G_pqrs_(i, j, k, l), I.v(i, j, k, l) - I.v(i, l, k, j), "G"); vx_assert_eq(S.V[i + n * (j + n * (k + n * l))], I.v(i, j, k, l), "V untouched"); } } } VX_END();
}
// ---- CSR blocks.  Integrals have a fixed generic value except a symbolic threshold and one symbolic integral pair.
static void generic_ints(Ints& I) { int c = 3; for (auto& x : I.T) x = 0; int n = I.n; for (int q = 0; q < n; ++q) for (int p = 0; p <= q; ++p) { I.t(p, q) = I.t(q, p) = (c * 7 % 11 - 5) * 0.25 + 0.125; ++c; }
  for (int q = 0; q < n; ++q) for (int p = 0; p <= q; ++p) for (int s = 0; s < n; ++s) for (int r = 0; r <= s; ++r) { if (p + q * n > r + s * n) continue; double x = (c * 5 % 13 - 6) * 0.125; ++c; I.v(p, q, r, s) = I.v(q, p, r, s) = I.v(p, q, s, r) = I.v(q, p, s, r) = I.v(r, s, p, q) = I.v(s, r, p, q) = I.v(r, s, q, p) = I.v(s, r, q, p) = x; } }
template <class idx, size_t N> static void check_csr(sparsexx::csr_matrix<double, idx>& H, std::vector<std::bitset<N>>& bra, std::vector<std::bitset<N>>& ket, Ints& I, double th, const char* lab) {
  vx_assert((size_t)H.m() == bra.size() && (size_t)H.n() == ket.size(), "block shape"); vx_assert(H.rowptr().size() == bra.size() + 1 && H.rowptr()[0] == (idx)H.indexing(), "row pointer shape"); size_t nz = H.rowptr()[bra.size()] - H.indexing();
  vx_assert((size_t)H.nnz() == nz && H.colind().size() == nz && H.nzval().size() == nz, "nonzero count is consistent");
  for (size_t i = 0; i < bra.size(); ++i) { idx k = H.rowptr()[i] - H.indexing(), e = H.rowptr()[i + 1] - H.indexing(); 
    for (size_t j = 0; j < ket.size(); ++j) { double h = (bra[i].none() || ket[j].none()) ? 0. : ref_element(I, undet<N>(bra[i]), undet<N>(ket[j])); bool keep = std::abs(h) > th;
      if (keep) { vx_assert(k < e && (size_t)H.colind()[k] - H.indexing() == j, lab); vx_assert_eq(H.nzval()[k], h, "stored value is the matrix element"); ++k; } }
    vx_assert(k == e, lab); }
}
template <class idx, size_t N> static void t_csr(int n, int ndet, bool rect) {
  int na = vx_pick("na", 1, 2), nb = vx_pick("nb", 0, 1); Ints I(n, false); generic_ints(I); I.t(0, 0) = vx_real("t00"); double x = vx_real("t01"); I.t(0, 1) = I.t(1, 0) = x; std::vector<double> T = I.T, V = I.V; Gen<N> g(matrix_span<double>(T.data(), n, n), rank4_span<double>(V.data(), n, n, n, n));
  std::vector<std::bitset<N>> bra, ket; for (uint64_t a = 0; a < 1u << n; ++a) for (uint64_t b = 0; b < 1u << n; ++b) if (__builtin_popcountll(a) == na && __builtin_popcountll(b) == nb) bra.push_back(mkdet<N>({a, b}));
  int rot = vx_pick("rot", 0, 2); std::rotate(bra.begin(), bra.begin() + rot % bra.size(), bra.end()); if ((int)bra.size() > ndet) bra.resize(ndet); ket = bra; if (rect) { std::reverse(ket.begin(), ket.end()); ket.pop_back(); if (vx_pick("zero", 0, 1)) ket[0].reset(); }
  double th = vx_real("thresh"); vx_assume(th >= 0);
  if (rect) { auto H = make_csr_hamiltonian_block<idx, N>(bra.begin(), bra.end(), ket.begin(), ket.end(), g, th); check_csr(H, bra, ket, I, th, "block holds exactly the couplings above the threshold in order"); }
  else { auto H = make_csr_hamiltonian<idx, N>(bra.begin(), bra.end(), g, th); check_csr(H, bra, bra, I, th, "matrix holds exactly the couplings above the threshold in order"); } VX_END();
}
template <size_t N> static void t_csr_empty() { int n = 2; Ints I(n); std::vector<double> T = I.T, V = I.V; Gen<N> g(matrix_span<double>(T.data(), n, n), rank4_span<double>(V.data(), n, n, n, n)); std::vector<std::bitset<N>> b{mkdet<N>({1, 1})}, e; auto H = make_csr_hamiltonian_block<int32_t, N>(e.begin(), e.end(), b.begin(), b.end(), g, 0.); vx_assert(H.m() == 0 && H.n() == 1 && H.nnz() == 0, "empty bra block"); auto H2 = make_csr_hamiltonian_block<int32_t, N>(b.begin(), b.end(), e.begin(), e.end(), g, 0.); vx_assert(H2.m() == 1 && H2.n() == 0 && H2.nnz() == 0, "empty ket block"); VX_END(); }
// ---- RDMs
template <size_t N> static void t_rdm_pair(int n, int amin, int amax, int bmin, int bmax, bool two) {
  int na = vx_pick("na", amin, amax), nb = vx_pick("nb", bmin, bmax); Det bra = pick_det("bra", n, na, nb), ket = pick_det("ket", n, na, nb); Ints I(n); double val = vx_real("val"); vx_assume(val > 1); // the generator skips |val| <= 1e-16
  std::vector<double> o(n * n), t((size_t)n * n * n * n), C{val, 1.}; std::vector<std::bitset<N>> B{mkdet<N>(bra)}, K{mkdet<N>(ket)}; std::vector<double> T = I.T, V = I.V; Gen<N> g(matrix_span<double>(T.data(), n, n), rank4_span<double>(V.data(), n, n, n, n));
  auto ba = bitset_lo_word(B[0]), bb = bitset_hi_word(B[0]), ka = bitset_lo_word(K[0]), kb = bitset_hi_word(K[0]);
  rdm_contributions(ba, ka, ba ^ ka, bb, kb, bb ^ kb, bits_to_indices(ba), bits_to_indices(bb), val, matrix_span<double>(o.data(), n, n), rank4_span<double>(two ? t.data() : nullptr, n, n, n, n));
  std::vector<double> ro(n * n); double e2 = 0; ref_apply(bra, ket, n, [&](int p, int q, double s) { ro[p + q * n] += s * val; }, [&](int p, int q, int r, int s, double sg) { e2 += 0.5 * sg * val * I.v(p, q, r, s); });
  for (int q = 0; q < n; ++q) for (int p = 0; p < n; ++p) vx_assert_eq(o[p + q * n], ro[p + q * n], two ? "one-body density contribution" : "one-body density contribution when no two-body density is requested");
  if (two) { double c = 0, tr = 0; for (size_t i = 0; i < t.size(); ++i) c += t[i] * I.V[i]; vx_assert_eq(c, e2, "two-body density contracted with the integrals gives the two-body energy"); for (int p = 0; p < n; ++p) for (int r = 0; r < n; ++r) tr += t[p + n * (p + n * (r + n * r))]; double ne = na + nb; vx_assert_eq(tr, same(bra, ket) ? 0.5 * ne * (ne - 1) * val : 0., "trace of the two-body density counts electron pairs"); }
  VX_END();
}
template <size_t N> static void t_form(int n, int nd, double sc = 1) {
  int na = vx_pick("na", 1, n - 1), nb = vx_pick("nb", 0, n - 1); std::vector<Det> D; std::vector<std::bitset<N>> W; for (int i = 0; i < nd; ++i) { D.push_back(pick_det("d", n, na, nb)); for (int j = 0; j < i; ++j) vx_assume(D[j].a < D[i].a || (D[j].a == D[i].a && D[j].b < D[i].b)); W.push_back(mkdet<N>(D[i])); }
  Ints I(n); std::vector<double> C; for (int i = 0; i < nd; ++i) { double c = vx_real("c"); vx_assume(c > 1); c = c * sc; C.push_back(i % 2 ? -c : c); } std::vector<double> T = I.T, V = I.V; Gen<N> g(matrix_span<double>(T.data(), n, n), rank4_span<double>(V.data(), n, n, n, n)); std::vector<double> o(n * n), t((size_t)n * n * n * n);
  g.form_rdms(W.begin(), W.end(), W.begin(), W.end(), C.data(), matrix_span<double>(o.data(), n, n), rank4_span<double>(t.data(), n, n, n, n));
  double e = 0, E = 0, tr = 0, nrm = 0; for (int i = 0; i < n * n; ++i) e += o[i] * I.T[i]; for (size_t i = 0; i < t.size(); ++i) e += t[i] * I.V[i]; for (int i = 0; i < nd; ++i) { nrm += C[i] * C[i]; for (int j = 0; j < nd; ++j) E += C[i] * C[j] * ref_element(I, D[i], D[j]); }
  double u = 1 / (sc * sc); vx_assert_eq(e * u, E * u, "contracting the densities with the integrals gives the energy expectation"); for (int p = 0; p < n; ++p) tr += o[p + p * n]; vx_assert_eq(tr * u, (na + nb) * nrm * u, "one-body trace counts electrons"); for (int p = 0; p < n; ++p) for (int q = 0; q < p; ++q) vx_assert_eq(o[p + q * n] * u, o[q + p * n] * u, "one-body density is symmetric"); VX_END();
}
// ---- natural-orbital rotation: with any orbital matrix the integrals become N^T T N and the four-index transform
static std::vector<double> NOS;
static void hook(int64_t n, double* A, int64_t lda, double* S) { for (int64_t j = 0; j < n; ++j) { S[j] = 1; for (int64_t i = 0; i < n; ++i) A[i + j * lda] = NOS[i + j * n]; } }
static void t_rotate(int n) {
  Ints I(n, false); for (auto& x : I.T) x = vx_real("T"); for (auto& x : I.V) x = vx_real("V"); NOS = vx_reals("N", n * n); lapack::gesvd_hook = hook; std::vector<double> T = I.T, V = I.V, od(n * n, 0.5), od0 = od; Gen<64> g(matrix_span<double>(T.data(), n, n), rank4_span<double>(V.data(), n, n, n, n));
  g.rotate_hamiltonian_ordm(od.data()); auto N = [&](int i, int p) { return NOS[i + p * n]; };
  for (int p = 0; p < n; ++p) for (int q = 0; q < n; ++q) { double t = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) t += N(i, p) * I.t(i, j) * N(j, q); vx_assert_eq(T[p + q * n], t, "one-body integrals are transformed to the natural orbitals"); }
  std::vector<double> W(V.size()); for (int p = 0; p < n; ++p) for (int q = 0; q < n; ++q) for (int r = 0; r < n; ++r) for (int s = 0; s < n; ++s) { double v = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) for (int l = 0; l < n; ++l) v += N(i, p) * N(j, q) * N(k, r) * N(l, s) * I.v(i, j, k, l); W[p + n * (q + n * (r + n * s))] = v; }
  for (size_t i = 0; i < W.size(); ++i) vx_assert_eq(V[i], W[i], "two-body integrals are transformed to the natural orbitals"); vx_assert(od == od0, "density untouched");
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { vx_assert_eq(g.V2_red_(i, j), W[i + n * (i + n * (j + n * j))], "intermediates are rebuilt"); vx_assert_eq(g.G2_red_(i, j), 0.5 * (W[i + n * (i + n * (j + n * j))] - W[i + n * (j + n * (j + n * i))]), "intermediates are rebuilt"); } VX_END();
}
// ---- distributed Hamiltonian
static std::vector<std::bitset<64>> DD; static Ints* DI; static double DTH; static Gen<64>* DG;
static void dist_rank(int r) {
  auto d = DD; auto H = make_dist_csr_hamiltonian<int32_t, 64>(MPI_COMM_WORLD, d.begin(), d.end(), *DG, DTH); int np; MPI_Comm_size(MPI_COMM_WORLD, &np); size_t nd = d.size(); vx_assert((size_t)H.m() == nd && (size_t)H.n() == nd, "global shape"); vx_assert(d == DD, "determinant list untouched");
  size_t lo = 0; for (int k = 0; k < np; ++k) { auto [s, e] = H.row_bounds(k); vx_assert((size_t)s == lo && e >= s, "row blocks are contiguous"); lo = e; } vx_assert(lo == nd, "row blocks cover all rows"); auto [st, en] = H.row_bounds(r);
  std::vector<std::bitset<64>> bra(d.begin() + st, d.begin() + en), off = d; for (int i = st; i < en; ++i) off[i].reset(); auto dt = H.diagonal_tile(); check_csr(dt, bra, bra, *DI, DTH, "diagonal tile holds exactly the local couplings above the threshold");
  if (np > 1) { vx_assert((bool)H.off_diagonal_tile_ptr(), "off-diagonal tile exists"); auto ot = H.off_diagonal_tile(); check_csr(ot, bra, off, *DI, DTH, "off-diagonal tile holds exactly the remote couplings above the threshold"); }
}
static void t_dist(int np, int lo, int hi) {
  int n = 3, nd = vx_pick("nd", lo, hi); Ints I(n, false); generic_ints(I); I.t(0, 1) = I.t(1, 0) = vx_real("t01"); std::vector<double> T = I.T, V = I.V; Gen<64> g(matrix_span<double>(T.data(), n, n), rank4_span<double>(V.data(), n, n, n, n));
  DD.clear(); for (uint64_t a = 0; a < 8; ++a) for (uint64_t b = 0; b < 8; ++b) if (__builtin_popcountll(a) == 2 && __builtin_popcountll(b) == 1 && (int)DD.size() < nd) DD.push_back(mkdet<64>({a, b})); DI = &I; DG = &g; DTH = vx_real("thresh"); vx_assume(DTH >= 0); vx_mpi_run(np, dist_rank); VX_END();
}
extern "C" {
void ham_rotate() { t_rotate(2); } void ham_dist1() { t_dist(1, 2, 3); } void ham_dist2() { t_dist(2, 1, 5); } void ham_dist3() { t_dist(3, 2, 5); }
void ham_elem3() { t_elem<64>(3, 0, 3, 0, 3, true); } void ham_elem4() { t_elem<64>(4, 2, 2, VX_TIER > 1 ? 0 : 1, VX_TIER > 1 ? 4 : 1, true); } void ham_elem4b() { t_elem<64>(4, 1, 1, 2, 2, true); } void ham_elem128() { t_elem<128>(3, 1, 2, 1, 2, true); } void ham_sector() { t_sector<64>(3); } void ham_elem5() { t_elem<64>(5, 3, 3, 0, 0, true); }
void ham_interm() { t_interm<64>(3); }
void ham_fast1() { t_fast<64>(3, 0); } void ham_fast2() { t_fast<64>(4, 1); } void ham_fast3() { t_fast<64>(3, 2); } void ham_fast2_128() { t_fast<128>(4, 1); } void ham_fast3_128() { t_fast<128>(3, 2); }
void ham_csr() { t_csr<int32_t, 64>(3, 4, false); } void ham_csr64() { t_csr<int64_t, 64>(3, 4, false); } void ham_csr_rect() { t_csr<int32_t, 64>(3, 4, true); } void ham_csr128() { t_csr<int32_t, 128>(3, 3, true); } void ham_csr_empty() { t_csr_empty<64>(); }
void ham_rdm3() { t_rdm_pair<64>(3, 0, 3, 0, 3, true); } void ham_rdm4() { t_rdm_pair<64>(4, 2, 2, 1, 1, true); } void ham_rdm4b() { t_rdm_pair<64>(4, 1, 1, 2, 2, true); } void ham_rdm128() { t_rdm_pair<128>(3, 1, 2, 1, 2, true); } void ham_rdm_one() { t_rdm_pair<64>(4, 2, 2, 1, 2, false); } void ham_form() { t_form<64>(3, 2); } void ham_form128() { t_form<128>(2, 2); }
void ham_form_small() { t_form<64>(2, 2, 1. / 33554432); } // products from 2^-50 = 8.9e-16, just above the documented 1e-16 cutoff
}
