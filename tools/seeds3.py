# planted bugs for the optimisation layer, files and solvers (see mkseed.py)
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds2 import P, HAM, IM
LB = ['-llapackpp', '-lblaspp', '-lopenblas', '-llapack', '-lgomp']
F = ' $r/src/macis/'
MO = P + '''#include <macis/util/fock_matrices.hpp>
#include <macis/util/orbital_gradient.hpp>
#include <macis/util/orbital_hessian.hpp>
#include <macis/util/orbital_rotation_utilities.hpp>
#include <macis/util/moller_plesset.hpp>
#include <macis/util/transform.hpp>
using namespace macis; typedef std::vector<double> vd;
static double rnd() { static unsigned s = 7; s = s * 1103515245u + 12345u; return ((s >> 8) % 2001) / 1000. - 1; }
struct Sys { size_t n, ld; vd T, V; Sys(size_t n_, size_t ld_) : n(n_), ld(ld_), T(ld * ld, 9.), V(ld * ld * ld * ld, 9.) {
  for (size_t p = 0; p < n; ++p) for (size_t q = 0; q <= p; ++q) T[p + q * ld] = T[q + p * ld] = rnd();
  for (size_t p = 0; p < n; ++p) for (size_t q = 0; q <= p; ++q) for (size_t r = 0; r <= p; ++r) for (size_t s = 0; s <= (r == p ? q : r); ++s) { double x = rnd(); auto set = [&](size_t a, size_t b, size_t c, size_t d) { V[a + ld * (b + ld * (c + ld * d))] = x; }; set(p, q, r, s); set(q, p, r, s); set(p, q, s, r); set(q, p, s, r); set(r, s, p, q); set(s, r, p, q); set(r, s, q, p); set(s, r, q, p); } }
  double t(size_t p, size_t q) const { return T[p + q * ld]; } double v(size_t p, size_t q, size_t r, size_t s) const { return V[p + ld * (q + ld * (r + ld * s))]; } };
static bool ne(double a, double b) { return !(std::abs(a - b) < 1e-9 * (1 + std::abs(a) + std::abs(b))); }
'''
def src(*n): return ['src/macis/' + x for x in n]
SEEDS = [
dict(id='p18_norb_last_index', prop='P18', needs='a file in which the highest orbital only occurs as the last index of a two-electron integral', what='the orbital count ignores the fourth index, so such a file is read with too few orbitals',
 edits=[('src/macis/fcidump.cxx', 'std::max(p, std::max(q, std::max(r, s)))', 'std::max(p, std::max(q, r))')],
 demo=P + '''#include <macis/util/fcidump.hpp>
int main() { { std::ofstream f("d"); f << "  1 1 1 2 0.25\\n 0 0 0 0 1.5\\n"; } return macis::read_fcidump_norb("d") != 2; }
''', src=src('fcidump.cxx'), flags=['-include', 'cstdint'], libs=['-lspdlog', '-lfmt'], nospdlog=True),
dict(id='p19_packed_1rdm', prop='P19', needs='densities stored with a leading dimension above the orbital count', what='the one-body density is packed with the orbital count instead of its leading dimension',
 edits=[('src/macis/fcidump.cxx', 'raw[i + j * norb] = ORDM[i + j * LDD1];', 'raw[i + j * norb] = ORDM[i + j * norb];')],
 demo=P + '''#include <macis/types.hpp>
#include <macis/util/binary_rdms.hpp>
int main() { std::vector<double> D(9), G(81), d(4), g(16); for (int i = 0; i < 9; ++i) D[i] = i; for (int i = 0; i < 81; ++i) G[i] = 0.5 * i; macis::write_rdms_binary("x", 2, D.data(), 3, G.data(), 3); macis::read_rdms_binary("x", 2, d.data(), 2, g.data(), 2); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) if (d[i + 2 * j] != D[i + 3 * j]) return 1; return 0; }
''', src=src('fcidump.cxx'), flags=['-include', 'cstdint'], libs=['-lspdlog', '-lfmt'], nospdlog=True),
dict(id='p20_square_buffer', prop='P20', needs='a transformation to fewer orbitals with a padded input matrix', what='the half-transformed buffer is filled with the input leading dimension',
 edits=[('src/macis/transform.cxx', 'norb_old, norb_new, norb_old, 1.0, X, LDX, C, LDC, 0.0, TMP.data(),\n             norb_old);', 'norb_old, norb_new, norb_old, 1.0, X, norb_old, C, LDC, 0.0, TMP.data(),\n             norb_old);')],
 demo=MO + '''int main() { vd X(9), C(4), Y(4); for (auto& x : X) x = rnd(); for (auto& x : C) x = rnd(); two_index_transform(2, 2, X.data(), 3, C.data(), 2, Y.data(), 2); for (int p = 0; p < 2; ++p) for (int q = 0; q < 2; ++q) { double t = 0; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) t += C[i + 2 * p] * X[i + 3 * j] * C[j + 2 * q]; if (ne(t, Y[p + 2 * q])) return 1; } return 0; }
''', src=src('transform.cxx'), libs=LB),
dict(id='p21_small_workspace', prop='P21', needs='a transformation to more orbitals than it starts from', what='the workspace is sized by the first quarter only and overrun by the third when the new basis is larger',
 edits=[('src/macis/transform.cxx', 'std::max(norb_new * norb_old3, norb_old * norb_new3)', 'norb_new * norb_old3')],
 demo=MO + '''extern "C" void dgemm_(const char* ta, const char* tb, const int* m, const int* n, const int* k, const double* al, const double* A, const int* lda, const double* B, const int* ldb, const double* be, double* C, const int* ldc, size_t, size_t) {
 for (int j = 0; j < *n; ++j) for (int i = 0; i < *m; ++i) { double t = 0; for (int l = 0; l < *k; ++l) t += (*ta == 'N' ? A[i + (size_t)l * *lda] : A[l + (size_t)i * *lda]) * (*tb == 'N' ? B[l + (size_t)j * *ldb] : B[j + (size_t)l * *ldb]); double& c = C[i + (size_t)j * *ldc]; c = *be == 0 ? *al * t : *al * t + *be * c; } }
int main() { size_t o = 2, n = 4; vd X(16), C(o * n), Y(256); for (auto& x : X) x = rnd(); for (auto& x : C) x = rnd(); four_index_transform(o, n, X.data(), o, C.data(), o, Y.data(), n); return 0; }
''', src=src('transform.cxx'), libs=LB, flags=['-fsanitize=address', '-g', '-rdynamic']),
dict(id='p22_inactive_ld', prop='P22', needs='one-body integrals whose leading dimension differs from that of the inactive Fock matrix', what='the inactive energy reads the one-body diagonal with the leading dimension of the Fock matrix',
 edits=[('src/macis/fock_matrices.cxx', 'E += T[i * (LDT + 1)] + Fi[i * (LDF + 1)];', 'E += T[i * (LDF + 1)] + Fi[i * (LDF + 1)];')],
 demo=MO + '''int main() { Sys S(3, 4); vd F(9); inactive_fock_matrix(NumOrbital(3), NumInactive(2), S.T.data(), 4, S.V.data(), 4, F.data(), 3); double e = 0; for (int i = 0; i < 2; ++i) { e += 2 * S.t(i, i); for (int j = 0; j < 2; ++j) e += 2 * S.v(i, i, j, j) - S.v(i, j, j, i); } return ne(e, inactive_energy(NumInactive(2), S.T.data(), 4, F.data(), 3)); }
''', src=src('fock_matrices.cxx'), libs=LB),
dict(id='p23_q_inactive', prop='P23', needs='inactive and active orbitals together: the gradient between them', what='the auxiliary matrix is only accumulated for non-inactive columns, so the active-inactive Fock elements are wrong while the energy is right',
 edits=[('src/macis/fock_matrices.cxx', '            tmp += A2RDM[v + w * LDD + x * LDD2 + y * LDD3] *\n                   V[p + w_off', '            if(p >= ninact)\n              tmp += A2RDM[v + w * LDD + x * LDD2 + y * LDD3] *\n                   V[p + w_off')],
 demo=MO + '''int main() { Sys S(3, 3); vd G(16), Q(6); for (auto& x : G) x = rnd(); aux_q_matrix(NumActive(2), NumOrbital(3), NumInactive(1), S.V.data(), 3, G.data(), 2, Q.data(), 2); for (int v = 0; v < 2; ++v) for (int p = 0; p < 3; ++p) { double t = 0; for (int w = 0; w < 2; ++w) for (int x = 0; x < 2; ++x) for (int y = 0; y < 2; ++y) t += 2 * G[v + 2 * w + 4 * x + 8 * y] * S.v(p, w + 1, x + 1, y + 1); if (ne(t, Q[v + 2 * p])) return 1; } return 0; }
''', src=src('fock_matrices.cxx'), libs=LB),
dict(id='p24_va_block', prop='P24', needs='all three orbital classes with unequal sizes', what='the virtual-active block of the linear gradient is read from the inactive offset',
 edits=[('src/macis/orbital_rotation_utilities.cxx', '      G_va[a + i * nv] = 2 * (FOCK(a_off, i_off) - FOCK(i_off, a_off));', '      G_va[a + i * nv] = 2 * (FOCK(a_off, i_off) - FOCK(i_off, a));')],
 demo=MO + '''int main() { size_t ni = 1, na = 1, nv = 2, n = 4; vd F(16), G(5), M(16); for (auto& x : F) x = rnd(); fock_to_linear_orb_grad(NumInactive(ni), NumActive(na), NumVirtual(nv), F.data(), n, G.data()); fock_to_gradient(NumOrbital(n), NumInactive(ni), NumActive(na), NumVirtual(nv), F.data(), n, M.data(), n); vd L(5); matrix_to_linear_orb_rot(NumInactive(ni), NumActive(na), NumVirtual(nv), M.data(), n, L.data()); for (int i = 0; i < 5; ++i) if (ne(G[i], L[i])) return 1; return 0; }
''', src=src('orbital_rotation_utilities.cxx', 'orbital_gradient.cxx', 'fock_matrices.cxx', 'transform.cxx'), flags=['-I/usr/include/eigen3'], libs=LB),
dict(id='p25_stale_commutator', prop='P25', needs='a non-stationary point with nonzero transformed one-body diagonal blocks', what='the buffer that receives the gradient matrix still holds the transformed one-body integrals in its diagonal blocks',
 edits=[('src/macis/orbital_hessian.cxx', '  std::fill(Tk.begin(), Tk.end(), 0);\n', '')],
 demo=MO + '''int main() { size_t ni = 1, na = 1, nv = 1, n = 3; Sys S(n, n); vd A{1.5}, B{0.25}; NumOrbital N(n); NumInactive I(ni); NumActive AA(na); NumVirtual VV(nv);
 vd F(9), OG(3); generalized_fock_matrix_comp_mat2(N, I, AA, S.T.data(), n, S.V.data(), n, A.data(), 1, B.data(), 1, F.data(), n); fock_to_linear_orb_grad(I, AA, VV, F.data(), n, OG.data());
 vd K{0.3, -0.7, 0.4}, K2{0.9, 0.2, -0.5}, H(3), H2(3); orb_orb_hessian_contract(N, I, AA, VV, S.T.data(), n, S.V.data(), n, A.data(), 1, B.data(), 1, OG.data(), K.data(), H.data()); orb_orb_hessian_contract(N, I, AA, VV, S.T.data(), n, S.V.data(), n, A.data(), 1, B.data(), 1, OG.data(), K2.data(), H2.data());
 double a = 0, b = 0; for (int i = 0; i < 3; ++i) { a += K2[i] * H[i]; b += K[i] * H2[i]; } return ne(a, b); }
''', src=src('orbital_hessian.cxx', 'orbital_rotation_utilities.cxx', 'fock_matrices.cxx'), libs=LB),
dict(id='p26_exchange_pair', prop='P26', needs='at least two occupied orbitals', what='the exchange amplitude in the virtual block of the density swaps both pairs, which is the direct amplitude again',
 edits=[('src/macis/moller_plesset.cxx', '                    T2[i + j * nocc + b * nocc2 + c * nocc2v]);', '                    T2[j + i * nocc + b * nocc2 + c * nocc2v]);')],
 demo=MO + '''int main() { size_t o = 2, v = 2, n = 4; Sys S(n, n); for (size_t p = 0; p < n; ++p) S.T[p * (n + 1)] = p < o ? -30. - p : 30. + p; vd D(16), e(n); for (size_t p = 0; p < n; ++p) { e[p] = S.t(p, p); for (size_t i = 0; i < o; ++i) e[p] += 2 * S.v(p, p, i, i) - S.v(p, i, i, p); }
 mp2_1rdm(NumOrbital(n), NumCanonicalOccupied(o), NumCanonicalVirtual(v), S.T.data(), n, S.V.data(), n, D.data(), n); auto t = [&](size_t i, size_t j, size_t a, size_t b) { return S.v(i, a + o, j, b + o) / (e[i] + e[j] - e[a + o] - e[b + o]); };
 double tr = 0; for (size_t p = 0; p < n; ++p) tr += D[p * (n + 1)]; return ne(tr, 4); }
''', src=src('moller_plesset.cxx', 'orbital_energies.cxx'), libs=LB),
dict(id='p27_two_loop_order', prop='P27', needs='two or more curvature updates', what='the second loop of the two-loop recursion runs from the newest pair to the oldest',
 edits=[('src/macis/bfgs/bfgs_hessian.hpp', '    for(int64_t i = 0; i < nk; ++i) {\n      const auto beta', '    for(int64_t i = nk - 1; i >= 0; --i) {\n      const auto beta')],
 demo=P + '''#include <optional>
#include <functional>
#include <limits>
#include <bfgs/bfgs_traits.hpp>
#include <bfgs/bfgs_hessian.hpp>
typedef std::vector<double> vd;
struct Fn { using argument_type = vd; using arg_type = vd; using return_type = double; static double dot(const vd& a, const vd& b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; } static void axpy(double a, const vd& x, vd& y) { for (size_t i = 0; i < x.size(); ++i) y[i] += a * x[i]; } static void scal(double a, vd& x) { for (auto& v : x) v *= a; } static double norm(const vd& a) { return std::sqrt(dot(a, a)); } static vd subtract(vd a, const vd& b) { axpy(-1, b, a); return a; } double eval(const vd&) { return 0; } vd grad(const vd& x) { return x; } bool converged(const vd&, const vd&) { return true; } };
int main() { auto B = bfgs::make_identity_hessian<Fn>(); B->update({1, 0.5}, {2, 0.3}); B->update({-0.4, 1}, {0.2, 1.5}); auto r = B->apply({0.2, 1.5}); return !(std::abs(r[0] + 0.4) < 1e-12 && std::abs(r[1] - 1) < 1e-12); }
''', flags=['-I$r/src/macis']),
dict(id='p28_local_projection', prop='P28', needs='more than one rank', what='the second orthogonalisation pass subtracts the local instead of the global overlap',
 edits=[(IM + 'solvers/davidson.hpp', '  allreduce(inner.data(), K, MPI_SUM, comm);\n  blas::gemm(', '  blas::gemm(')],
 demo=P + '''#include <macis/types.hpp>
#include <macis/solvers/davidson.hpp>
int main(int c, char** v) { MPI_Init(&c, &v); int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); std::vector<double> V{r ? 0.6 : 0.8, 0}, W{1. + r, 2. - 3 * r}; macis::p_gram_schmidt(2, 1, V.data(), 2, W.data(), MPI_COMM_WORLD); double d = V[0] * W[0] + V[1] * W[1], s = 0; MPI_Allreduce(&d, &s, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD); MPI_Finalize(); return !(std::abs(s) < 1e-12); }
''', np=2, flags=['-include', 'chrono'], libs=LB + ['-lspdlog', '-lfmt']),
dict(id='p44_step_without_diis', prop='P44', needs='DIIS extrapolation active after the first macro-iteration', what='the orbitals are rotated by the raw step instead of the extrapolated one, while the accumulated rotation vector follows the extrapolation',
 edits=[(IM + 'util/mcscf_impl.hpp', '      compute_orbital_rotation(norb, 1.0, K_total_sav.data(), no, U_step.data(),', '      compute_orbital_rotation(norb, 1.0, K_step.data(), no, U_step.data(),')],
 demo=P + '''#include <macis/util/fock_matrices.hpp>
#include <macis/types.hpp>
#include <macis/util/orbital_steps.hpp>
#include <macis/util/orbital_gradient.hpp>
#include <macis/util/orbital_rotation_utilities.hpp>
#include <macis/util/transform.hpp>
#include <macis/util/diis.hpp>
#include <macis/util/mcscf.hpp>
#include <macis/util/mcscf_impl.hpp>
''' + MO.split('#include <macis/util/transform.hpp>')[1] + '''
static vd lastT; struct Fn { static double rdms(MCSCFSettings, NumOrbital n, size_t, size_t, double* T, double*, double* A, double* B, vd&, MPI_Comm) { size_t m = n.get(); lastT.assign(T, T + m * m); for (size_t i = 0; i < m * m; ++i) A[i] = i % (m + 1) ? 0.1 : 1; for (size_t i = 0; i < m * m * m * m; ++i) B[i] = 0.05 * (i % 3); return 0; } };
int main(int c, char** v) { MPI_Init(&c, &v); size_t ni = 1, na = 2, nv = 1, n = 4, sz = nv * (ni + na) + na * ni; Sys S(n, n); for (size_t p = 0; p < n; ++p) S.T[p * (n + 1)] = -12. + 5 * p; for (auto& x : S.V) x *= 0.1; NumOrbital N(n); NumInactive I(ni); NumActive AA(na); NumVirtual VV(nv); const int its = 4;
 MCSCFSettings st; st.max_macro_iter = its; st.orb_grad_tol_mcscf = 0; st.enable_diis = true; st.diis_start_iter = 0; st.diis_nkeep = 10; st.max_orbital_step = 0.5; vd A(4), B(16), X; mcscf_impl(Fn(), st, NumElectron(1), NumElectron(1), N, I, AA, VV, 0., S.T.data(), n, S.V.data(), n, A.data(), 2, B.data(), 2, MPI_COMM_WORLD); vd got = lastT;
 DIIS<vd> D(10); vd T = S.T, V = S.V, K(n * n), U(n * n), ta(4), va(16); for (size_t i = 0; i < n; ++i) U[i * (n + 1)] = 1;
 for (int k = 0; k < its; ++k) { vd Fi(16), Fa(16), Q(8), F(16), OG(sz), s(sz), M(16); active_hamiltonian(N, AA, I, T.data(), n, V.data(), n, Fi.data(), n, ta.data(), na, va.data(), na); Fn::rdms(st, NumOrbital(na), 1, 1, ta.data(), va.data(), A.data(), B.data(), X, MPI_COMM_WORLD);
  active_fock_matrix(N, I, AA, V.data(), n, A.data(), 2, Fa.data(), n); aux_q_matrix(AA, N, I, V.data(), n, B.data(), 2, Q.data(), na); generalized_fock_matrix(N, I, AA, Fi.data(), n, Fa.data(), n, A.data(), 2, Q.data(), na, F.data(), n); fock_to_linear_orb_grad(I, AA, VV, F.data(), n, OG.data());
  precond_cg_orbital_step(N, I, AA, VV, Fi.data(), n, Fa.data(), n, F.data(), n, A.data(), 2, OG.data(), s.data()); double mx = 0; for (double x : s) mx = std::max(mx, std::abs(x)); if (mx > 0.5) for (double& x : s) x *= 0.5 / mx; linear_orb_rot_to_matrix(I, AA, VV, s.data(), M.data(), n);
  vd K0 = K; for (size_t i = 0; i < 16; ++i) K[i] += M[i]; D.add_vector(K, OG); if (k >= 2) K = D.extrapolate(); vd dK(16), E(16), W(16); for (size_t i = 0; i < 16; ++i) dK[i] = K[i] - K0[i]; compute_orbital_rotation(N, 1., dK.data(), n, E.data(), n);
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) for (size_t l = 0; l < n; ++l) W[i + n * j] += U[i + n * l] * E[l + n * j]; U = W; two_index_transform(n, n, S.T.data(), n, U.data(), n, T.data(), n); four_index_transform(n, n, S.V.data(), n, U.data(), n, V.data(), n); }
 active_hamiltonian(N, AA, I, T.data(), n, V.data(), n, vd(16).data(), n, ta.data(), na, va.data(), na); int bad = 0; for (int i = 0; i < 4; ++i) bad |= !(std::abs(ta[i] - got[i]) < 1e-9 * (1 + std::abs(ta[i]))); MPI_Finalize(); return bad; }
''', src=src('orbital_steps.cxx', 'orbital_hessian.cxx', 'orbital_rotation_utilities.cxx', 'orbital_gradient.cxx', 'fock_matrices.cxx', 'transform.cxx'), flags=['-I/usr/include/eigen3'], libs=LB),
]
for x in SEEDS:
    for k in ('flags', 'libs'):
        if isinstance(x.get(k), list): x[k] = ' '.join(x[k]).replace('$r', '"$r"')
