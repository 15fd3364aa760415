P = '''#include <cstdlib>
#include <cstdint>
#include <mpi.h>
#include <cstdio>
#include <cmath>
#include <vector>
#include <algorithm>
#include <memory>
#include <numeric>
#include <set>
#include <string>
#include <fstream>
extern "C" void vx_fail(const char*) { abort(); }
'''
HAM = P + '''#include <macis/types.hpp>
#include <macis/hamiltonian_generator/double_loop.hpp>
#include <macis/csr_hamiltonian.hpp>
#include <macis/asci/grow.hpp>
#include <macis/asci/refine.hpp>
using namespace macis; using B = std::bitset<64>;
static B det(uint64_t a, uint64_t b) { return B(a | b << 32); }
struct Sys { size_t n; std::vector<double> T, V; std::unique_ptr<DoubleLoopHamiltonianGenerator<64>> g;
  Sys(size_t n_) : n(n_), T(n * n), V(n * n * n * n) { for (size_t p = 0; p < n; ++p) for (size_t q = 0; q <= p; ++q) T[p + q * n] = T[q + p * n] = p == q ? 1. * p - 5 : 0.1 / (1 + p + q);
    int k = 0; for (size_t p = 0; p < n; ++p) for (size_t q = 0; q <= p; ++q) for (size_t r = 0; r <= p; ++r) for (size_t s = 0; s <= (r == p ? q : r); ++s) { double x = 0.01 * (1 + (++k * 7) % 23); auto set = [&](size_t a, size_t b, size_t c, size_t d) { V[a + n * (b + n * (c + n * d))] = x; }; set(p, q, r, s); set(q, p, r, s); set(p, q, s, r); set(q, p, s, r); set(r, s, p, q); set(s, r, p, q); set(r, s, q, p); set(s, r, q, p); } init(); }
  void init() { g.reset(new DoubleLoopHamiltonianGenerator<64>(matrix_span<double>(T.data(), n, n), rank4_span<double>(V.data(), n, n, n, n))); } };
'''
IM = 'include/macis/'
SEEDS = [
dict(id='p01_less_bit0', prop='P01', needs='bitsets wider than 128 bits that differ only in bit 0', what='the ordering of wide bitsets ignores the lowest bit',
 edits=[(IM + 'bitset_operations.hpp', '    for(int i = N - 1; i >= 0; i--) {\n      if(x[i] ^ y[i]) return y[i];', '    for(int i = N - 1; i > 0; i--) {\n      if(x[i] ^ y[i]) return y[i];')],
 demo=P + '''#include <macis/bitset_operations.hpp>
int main() { std::bitset<256> a, b; a[200] = b[200] = 1; b[0] = 1; return !(macis::bitset_less(a, b) && !macis::bitset_less(b, a)); }
'''),
dict(id='p02_active_virtuals', prop='P02', needs='an active list shorter than the number of orbitals', what='the virtual list of an active subset is sized from the full orbital count, so excitations into orbital 0 appear',
 edits=[(IM + 'sd_operations.hpp', 'const auto nvir = as_orbs.size() - nocc;', 'const auto nvir = norb - nocc;')],
 demo=P + '''#include <macis/sd_operations.hpp>
int main() { std::vector<std::bitset<64>> s; macis::generate_singles_as<64>(6, std::bitset<64>(0b000011), s, {1, 2, 3}); return !(s.size() == 2); }
'''),
dict(id='p03_double_sign_intermediate', prop='P03', needs='a same-spin double excitation whose first target lies between the second hole and particle', what='the sign of a double excitation is computed from an intermediate determinant that lacks the first particle',
 edits=[(IM + 'sd_operations.hpp', '  ket.flip(o1).flip(v1);\n  ex.flip', '  ket.flip(o1);\n  ex.flip')],
 demo=P + '''#include <macis/sd_operations.hpp>
int main() { using B = std::bitset<32>; int bad = 0; for (unsigned k = 0; k < 64; ++k) for (unsigned b = 0; b < 64; ++b) { B K(k), X(b), e = K ^ X; if (K.count() != X.count() || e.count() != 4) continue; std::vector<int> h, p; for (int i = 0; i < 6; ++i) { if (K[i] && e[i]) h.push_back(i); if (X[i] && e[i]) p.push_back(i); }
  B w = K; double s = 1; auto ann = [&](int i) { for (int j = 0; j < i; ++j) if (w[j]) s = -s; w.flip(i); }; ann(h[0]); ann(p[0]); ann(h[1]); ann(p[1]); if (macis::doubles_sign(X, K, e) != s) bad = 1; } return bad; }
'''),
dict(id='p04_wide_combinations', prop='P04', needs='determinant spaces of more than 32 orbitals', what='combinations are built with a 32-bit shift, so orbitals beyond 31 alias low ones',
 edits=[(IM + 'sd_operations.hpp', '        temp = temp | (one << i);', '        temp = temp | std::bitset<N>(1u << (i & 31)) << (i & 32 ? 0 : 0);')],
 demo=P + '''#include <macis/sd_operations.hpp>
int main() { auto v = macis::generate_combs<128>(34, 1); std::set<std::string> s; for (auto& x : v) s.insert(x.to_string()); bool top = false; for (auto& x : v) top |= x[33]; return !(v.size() == 34 && s.size() == 34 && top); }
'''),
dict(id='p05_coefficient_digits', prop='P05', needs='coefficients that need more than 16 significant digits', what='wavefunction files lose the last digit of the coefficients',
 edits=[(IM + 'wavefunction_io.hpp', 'std::setprecision(16)', 'std::setprecision(15)')],
 demo=P + '''#include <iomanip>
#include <macis/wavefunction_io.hpp>
int main() { std::vector<std::bitset<64>> s{std::bitset<64>(3), std::bitset<64>(5)}, t; std::vector<double> c{1. / 3 + 4 * 1.1102230246251565e-16 * 0.5, std::nextafter(0.1, 1)}, d; macis::write_wavefunction<64>("w.dat", 3, s, c); macis::read_wavefunction<64>("w.dat", t, d); return !(s == t && c == d); }
'''),
dict(id='p06_far_determinants', prop='P06', needs='two determinants differing by an alpha double and a beta single excitation', what='the matrix element of determinants three electrons apart is no longer zero',
 edits=[(IM + 'hamiltonian_generator/matrix_elements.hpp', '  if((ex_alpha_count + ex_beta_count) > 4) return 0.;', '  if((ex_alpha_count + ex_beta_count) > 6) return 0.;')],
 demo=HAM + '''int main() { Sys S(4); return !(S.g->matrix_element(det(0b0011, 0b01), det(0b1100, 0b10)) == 0.); }
'''),
dict(id='p07_open_shell_double', prop='P07', needs='an opposite-spin double excitation of a determinant whose alpha and beta occupations differ', what='the beta hole energy is evaluated with the spin roles of the occupations exchanged',
 edits=[(IM + 'hamiltonian_generator/fast_diagonals.hpp', 'auto hold_en = single_orbital_en(orb_hold, os_occ, ss_occ);', 'auto hold_en = single_orbital_en(orb_hold, ss_occ, os_occ);')],
 demo=HAM + '''int main() { Sys S(5); auto d = det(0b00111, 0b00001); double e = S.g->fast_diag_os_double({0, 1, 2}, {0}, 2, 0, 3, 4, S.g->matrix_element(d, d)); auto x = det(0b01011, 0b10000); return !(std::abs(e - S.g->matrix_element(x, x)) < 1e-10); }
'''),
dict(id='p08_threshold_edge', prop='P08', needs='a coupling exactly at the threshold, in particular zero couplings with a zero threshold', what='couplings equal to the threshold are stored',
 edits=[(IM + 'hamiltonian_generator/double_loop.hpp', 'if(std::abs(h_el) > H_thresh) {', 'if(std::abs(h_el) >= H_thresh) {')],
 demo=HAM + '''int main() { Sys S(3); for (auto& x : S.V) x = 0; S.T[1] = S.T[3] = 0; S.init(); std::vector<B> D{det(1, 1), det(2, 1), det(4, 1)}; auto H = make_csr_hamiltonian<int32_t>(D.begin(), D.end(), *S.g, 0.); for (auto x : H.nzval()) if (x == 0) return 1; return !(H.nnz() == 7); }
'''),
dict(id='p09_offdiag_threshold', prop='P09', needs='more than one rank and couplings below the threshold between determinants of different ranks', what='the off-diagonal tile of the distributed Hamiltonian ignores the threshold',
 edits=[(IM + 'csr_hamiltonian.hpp', '        sds_offdiag.end(), ham_gen, H_thresh));', '        sds_offdiag.end(), ham_gen, 0.));')], np=2,
 demo=HAM + '''int main(int c, char** v) { MPI_Init(&c, &v); Sys S(4); auto D = generate_hilbert_space<64>(4, 2, 1); auto H = make_csr_hamiltonian<int32_t>(D.begin(), D.end(), *S.g, 0.2); auto P = make_dist_csr_hamiltonian<int32_t>(MPI_COMM_WORLD, D.begin(), D.end(), *S.g, 0.2); size_t l = P.diagonal_tile().nnz() + P.off_diagonal_tile().nnz(), t = 0; MPI_Allreduce(&l, &t, 1, MPI_UINT64_T, MPI_SUM, MPI_COMM_WORLD); MPI_Finalize(); return t != (size_t)H.nnz(); }
'''),
dict(id='p10_small_products', prop='P10', needs='wavefunctions with small but significant coefficients', what='products of coefficients below 1e-8 no longer contribute to the density matrices',
 edits=[(IM + 'hamiltonian_generator/double_loop.hpp', 'if(std::abs(val) > 1e-16) {', 'if(std::abs(val) > 1e-8) {')],
 demo=HAM + '''int main() { Sys S(3); std::vector<B> D{det(1, 1), det(2, 1)}; std::vector<double> C{1, 1e-5}, o(9, 0.), t(81, 0.); S.g->form_rdms(D.begin(), D.end(), D.begin(), D.end(), C.data(), matrix_span<double>(o.data(), 3, 3), rank4_span<double>(t.data(), 3, 3, 3, 3)); return !(std::abs(o[0] + o[4] + o[8] - 2 * (1 + 1e-10)) < 1e-13); }
'''),
dict(id='p11_open_shell_denominator', prop='P11', needs='a search determinant whose alpha and beta orbital energies differ', what='the energy denominator of opposite-spin doubles uses the alpha energy for the beta particle',
 edits=[(IM + 'asci/determinant_contributions.hpp', 'eps_alpha[a], eps_beta[b],', 'eps_alpha[a], eps_alpha[b],')],
 demo=HAM + '''int main() { Sys S(4); std::vector<B> W{det(0b0011, 0b0001)}; ASCISettings st; st.h_el_tol = 0; auto& g = *S.g; auto P = asci_contributions_standard<64>(st, W.begin(), W.end(), -50., {1.}, 4, g.T(), g.G_red(), g.V_red(), g.G(), g.V(), g); for (auto& p : P) if (std::abs(p.rv - g.matrix_element(p.state, W[0]) / (-50 - g.matrix_element(p.state, p.state))) > 1e-12) return 1; return P.size() ? 0 : 1; }
'''),
dict(id='p12_two_missing', prop='P12', needs='an alpha string that misses two orbitals of the constraint while more than two of its electrons lie above it', what='the count of constrained doubles treats more than two electrons above the constraint as if there were two',
 edits=[(IM + 'asci/mask_constraints.hpp', '''  const auto o_and_not_b = o & ~B;
  if(o_and_not_b.count() > 2) return 0;

  unsigned no_pairs = 0;''', '''  const auto o_and_not_b = o & ~B;
  if(o_and_not_b.count() > 3) return 0;

  unsigned no_pairs = 0;''')],
 demo=HAM + '''int main() { auto t = make_triplet<64>(2, 1, 0); (void)t; int bad = 0; for (unsigned c = 0; c < 256; ++c) { B C(c); if (C.count() != 3) continue; unsigned m = ffs(C) - 1; B Bm = full_mask<64>(m), O = full_mask<64>(8); for (unsigned d = 0; d < 256; ++d) { B D(d); if (D.count() != 4) continue; std::vector<B> v; generate_constraint_doubles(D, C, O, Bm, v); if (v.size() != count_constraint_doubles(D, C, O, Bm)) bad = 1; } } return bad; }
'''),
dict(id='p13_empty_level', prop='P13', needs='a constraint level that breaks a constraint apart whose lowest orbital is not 0', what='breaking a constraint apart skips the topmost additional orbital',
 edits=[(IM + 'asci/mask_constraints.hpp', 'for(auto q_l = 0; q_l < C_min; ++q_l) {', 'for(auto q_l = 0; q_l + 1 < C_min; ++q_l) {')],
 demo=HAM + '''int main(int c, char** v) { MPI_Init(&c, &v); std::vector<B> U{B(0b111100)}; auto cs = dist_constraint_general<64>(3, 6, 8, 1000, U, MPI_COMM_WORLD); int bad = 0; for (unsigned a = 0; a < 64; ++a) { B A(a); if (A.count() != 4 || (A ^ U[0]).count() > 4) continue; int m = 0; for (auto& x : cs) m += satisfies_constraint(A, x.C, x.C_min); if (m != 1) bad = 1; } MPI_Finalize(); return bad; }
'''),
dict(id='p14_signed_order', prop='P14', needs='coefficients of both signs', what='determinants are ordered by coefficient value instead of magnitude when the smaller one is negative',
 edits=[(IM + 'asci/determinant_sort.hpp', 'return std::abs(C[i]) > std::abs(C[j]);', 'return std::abs(C[i]) > C[j];')],
 demo=HAM + '''int main() { std::vector<int> d{0, 1, 2}; std::vector<double> C{0.1, -0.9, 0.5}; reorder_ci_on_coeff(d, C); return !(d == std::vector<int>{1, 2, 0} && C == std::vector<double>{-0.9, 0.5, 0.1}); }
'''),
dict(id='p15_seed_sign', prop='P15', needs='a search determinant with a negative coefficient that is also reached from another search determinant', what='search determinants are recognised by the sign of their coefficient, so negative ones may appear twice',
 edits=[(IM + 'asci/determinant_search.hpp', 'asci_pairs.push_back({state, std::abs(C[i])});', 'asci_pairs.push_back({state, C[i]});')],
 demo=HAM + '''int main(int c, char** v) { MPI_Init(&c, &v); Sys S(4); std::vector<B> W{det(0b0011, 0b0011), det(0b0101, 0b0011)}; ASCISettings st; st.h_el_tol = 0; auto& g = *S.g; auto R = asci_search<64>(st, 30, W.begin(), W.end(), -50., {0.9, -0.4}, 4, g.T(), g.G_red(), g.V_red(), g.G(), g.V(), g, MPI_COMM_WORLD); std::set<std::string> s; for (auto& x : R) s.insert(x.to_string()); MPI_Finalize(); return s.size() != R.size(); }
'''),
dict(id='p16_remainder_order', prop='P16', needs='three or more ranks, a descending order, and a search that ends in the gathered remainder', what='the element is taken from the gathered remainder with the default order',
 edits=[(IM + 'util/dist_quickselect.hpp', """    pivot = *std::max_element(gathered_data.begin(), gathered_data.begin() + k,
                              ord_comp);""", """    pivot = *std::max_element(gathered_data.begin(), gathered_data.begin() + k);""")], np=3,
 demo=P + '''#include <macis/util/dist_quickselect.hpp>
int main(int c, char** v) { MPI_Init(&c, &v); int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); int bad = 0; for (int k = 1; k <= 12; ++k) { std::vector<double> x; for (int i = 0; i < 4; ++i) x.push_back(3 * i + r); std::vector<double> a; for (int i = 11; i >= 0; --i) a.push_back(i); double y = macis::dist_quickselect(x.begin(), x.end(), k, MPI_COMM_WORLD, std::greater<double>{}, std::equal_to<double>{}); if (y != a[k - 1]) bad = 1; } int t; MPI_Allreduce(&bad, &t, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); MPI_Finalize(); return t; }
'''),
dict(id='p17_bcast_root', prop='P17', needs='a broadcast from a rank other than 0', what='broadcasts ignore the requested root',
 edits=[(IM + 'util/mpi.hpp', 'MPI_Bcast(buffer + nchunk * intmax, nrem, dtype, root, comm);', 'MPI_Bcast(buffer + nchunk * intmax, nrem, dtype, 0, comm);')], np=2,
 demo=P + '''#include <macis/util/mpi.hpp>
int main(int c, char** v) { MPI_Init(&c, &v); int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); double x[2] = {1. + r, 5. * r}; macis::bcast(x, 2, 1, MPI_COMM_WORLD); MPI_Finalize(); return !(x[0] == 2 && x[1] == 5); }
'''),
dict(id='p43_growth_floor', prop='P43', needs='a minimum wavefunction size above the next growth step', what='the requested minimum size is ignored when the growth step stays below it',
 edits=[(IM + 'asci/grow.hpp', '''        std::min(std::max(asci_settings.ntdets_min,
                          wfn.size() * asci_settings.grow_factor),
                 asci_settings.ntdets_max);''', '''        std::min(std::min(std::max(asci_settings.ntdets_min, wfn.size()),
                          wfn.size() * asci_settings.grow_factor),
                 asci_settings.ntdets_max);''')], flags='-DVXDEMO',
 demo=HAM.replace('#include <macis/asci/grow.hpp>', '''#include <macis/solvers/selected_ci_diag.hpp>
static std::vector<size_t> SIZES;
namespace macis { template <> double selected_ci_diag<64, int32_t>(wavefunction_iterator_t<64> b, wavefunction_iterator_t<64> e, HamiltonianGenerator<64>&, double, size_t, double, std::vector<double>& X, MPI_Comm, const bool) { SIZES.push_back(e - b); X.assign(e - b, 0.1); return -50.; } }
#include <macis/asci/grow.hpp>''') + '''int main(int c, char** v) { MPI_Init(&c, &v); Sys S(4); ASCISettings st; st.h_el_tol = 0; st.ntdets_min = 5; st.ntdets_max = 8; st.grow_factor = 2; MCSCFSettings ms; std::vector<B> w{det(0b0011, 0b0001)}; auto [E, W, X] = asci_grow<64>(st, ms, -50., w, std::vector<double>{1.}, *S.g, 4, MPI_COMM_WORLD); MPI_Finalize(); return !(SIZES == std::vector<size_t>{5, 8}); }
'''),
]
