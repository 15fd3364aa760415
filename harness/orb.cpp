// Orbital-space layer: integral transformations, Fock matrices, orbital gradient / Hessian, MP2.
#include "ham_ref.hpp"
#include <macis/util/transform.hpp>
#include <macis/util/fock_matrices.hpp>
#include <macis/util/orbital_gradient.hpp>
#include <macis/util/orbital_hessian.hpp>
#include <macis/util/orbital_steps.hpp>
#include <macis/util/orbital_energies.hpp>
#include <macis/util/orbital_rotation_utilities.hpp>
#include <macis/util/moller_plesset.hpp>
#include <lapack.hh>
using namespace macis;
typedef std::vector<double> vd;
// a matrix / 4-tensor stored with a leading dimension; the padding holds symbols of its own
// padded runs give every array its own leading dimension
static size_t padM = 1, padT = 0; static size_t padded(size_t n, size_t pad, size_t& c, size_t k) { return std::max<size_t>(1, n + (pad ? pad + c++ % k : 0)); }
struct Mat { size_t m, n, ld; vd d, o; Mat(size_t m_, size_t n_, size_t pad) : m(m_), n(n_), ld(padded(m_, pad, padM, 3)), d(ld * n_) { for (auto& x : d) x = vx_real("m"); o = d; }
  double& operator()(size_t i, size_t j) { return d[i + j * ld]; } double* p() { return d.data(); }
  void pad_kept(const char* l) { for (size_t j = 0; j < n; ++j) for (size_t i = m; i < ld; ++i) vx_assert_eq(d[i + j * ld], o[i + j * ld], l); }
  void same(const char* l) { for (size_t k = 0; k < d.size(); ++k) vx_assert_eq(d[k], o[k], l); } void zero() { for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) (*this)(i, j) = 0; } };
struct Ten { size_t n, ld; vd d, o; Ten(size_t n_, size_t pad, bool last_full = true) : n(n_), ld(padded(n_, pad, padT, 2)), d(ld * ld * ld * n_) { for (auto& x : d) x = vx_real("v"); o = d; }
  double& operator()(size_t i, size_t j, size_t k, size_t l) { return d[i + ld * (j + ld * (k + ld * l))]; } double* p() { return d.data(); }
  void pad_kept(const char* lb) { for (size_t l = 0; l < n; ++l) for (size_t k = 0; k < ld; ++k) for (size_t j = 0; j < ld; ++j) for (size_t i = 0; i < ld; ++i) if (i >= n || j >= n || k >= n) vx_assert_eq((*this)(i, j, k, l), o[i + ld * (j + ld * (k + ld * l))], lb); }
  void same(const char* l) { for (size_t k = 0; k < d.size(); ++k) vx_assert_eq(d[k], o[k], l); } };
static void put(Mat& A, Ints& I) { for (int q = 0; q < I.n; ++q) for (int p = 0; p < I.n; ++p) A(p, q) = I.t(p, q); A.o = A.d; }
static void put(Ten& A, Ints& I) { for (int s = 0; s < I.n; ++s) for (int r = 0; r < I.n; ++r) for (int q = 0; q < I.n; ++q) for (int p = 0; p < I.n; ++p) A(p, q, r, s) = I.v(p, q, r, s); A.o = A.d; }
static void symm(Mat& A) { for (size_t j = 0; j < A.n; ++j) for (size_t i = 0; i < j; ++i) A(i, j) = A(j, i); A.o = A.d; }
// two-body RDM of a real wavefunction has the eight-fold symmetry of (pq|rs) after symmetrisation
static void symm8(Ten& G) { size_t n = G.n; for (size_t p = 0; p < n; ++p) for (size_t q = 0; q < n; ++q) for (size_t r = 0; r < n; ++r) for (size_t s = 0; s < n; ++s) { size_t a = std::max(p, q), b = std::min(p, q), c = std::max(r, s), d = std::min(r, s); if (a * n + b < c * n + d) std::swap(a, c), std::swap(b, d); G(p, q, r, s) = G(a, b, c, d); } G.o = G.d; }
// ---------------------------------------------------------------- transformations
static void two(size_t no, size_t nn) {
  size_t px = vx_pick("padX", 0, 1), pc = vx_pick("padC", 0, 1), py = vx_pick("padY", 0, 1);
  Mat X(no, no, px), C(no, nn, pc), Y(nn, nn, py);
  two_index_transform(no, nn, X.p(), X.ld, C.p(), C.ld, Y.p(), Y.ld);
  for (size_t q = 0; q < nn; ++q) for (size_t p = 0; p < nn; ++p) { double r = 0; for (size_t i = 0; i < no; ++i) for (size_t j = 0; j < no; ++j) r += C(i, p) * X(i, j) * C(j, q); vx_assert_eq(Y(p, q), r, "two-index transform is C^T X C"); }
  Y.pad_kept("padding of Y untouched"); X.same("X unchanged"); C.same("C unchanged"); VX_END(); }
static void two_in(size_t n) { Mat X(n, n, vx_pick("padX", 0, 1)), C(n, n, 0); two_index_transform(n, n, X.p(), X.ld, C.p(), C.ld, X.p(), X.ld);
  for (size_t q = 0; q < n; ++q) for (size_t p = 0; p < n; ++p) { double r = 0; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) r += C(i, p) * X.o[i + j * X.ld] * C(j, q); vx_assert_eq(X(p, q), r, "in-place two-index transform is C^T X C"); } VX_END(); }
static void four(size_t no, size_t nn, size_t px, size_t pc, size_t py, bool inplace = false) {
  Ten X(no, px), Y0(nn, py); Mat C(no, nn, pc); Ten& Y = inplace ? X : Y0; vd X0 = X.d; size_t L = X.ld;
  four_index_transform(no, nn, X.p(), X.ld, C.p(), C.ld, Y.p(), Y.ld);
  // reference: successive contraction from the last index
  auto x = [&](size_t i, size_t j, size_t k, size_t l) { return X0[i + L * (j + L * (k + L * l))]; };
  for (size_t s = 0; s < nn; ++s) { vd a(no * no * no); for (size_t i = 0; i < no; ++i) for (size_t j = 0; j < no; ++j) for (size_t k = 0; k < no; ++k) { double t = 0; for (size_t l = 0; l < no; ++l) t += x(i, j, k, l) * C(l, s); a[i + no * (j + no * k)] = t; }
    for (size_t r = 0; r < nn; ++r) { vd b(no * no); for (size_t i = 0; i < no; ++i) for (size_t j = 0; j < no; ++j) { double t = 0; for (size_t k = 0; k < no; ++k) t += a[i + no * (j + no * k)] * C(k, r); b[i + no * j] = t; }
      for (size_t q = 0; q < nn; ++q) { vd c(no); for (size_t i = 0; i < no; ++i) { double t = 0; for (size_t j = 0; j < no; ++j) t += b[i + no * j] * C(j, q); c[i] = t; }
        for (size_t p = 0; p < nn; ++p) { double t = 0; for (size_t i = 0; i < no; ++i) t += c[i] * C(i, p); vx_assert_eq(Y(p, q, r, s), t, "four-index transform contracts every index with C"); } } } }
  Y.pad_kept("padding of Y untouched"); if (!inplace) X.same("X unchanged"); C.same("C unchanged"); VX_END(); }
extern "C" {
void orb_two22() { two(2, 2); }
void orb_two33() { two(3, 3); }
void orb_two42() { two(4, 2); }
void orb_two23() { two(2, 3); }
void orb_two1() { two(1, vx_pick("n", 1, 3)); }
void orb_two_in() { two_in(vx_pick("n", 1, 3)); }
void orb_four22() { four(2, 2, 0, vx_pick("padC", 0, 1), 0); }
void orb_four22_ld() { four(2, 2, vx_pick("padX", 0, 1), vx_pick("padC", 0, 1), vx_pick("padY", 0, 1)); }
void orb_four21() { four(2, 1, vx_pick("padX", 0, 1), 0, vx_pick("padY", 0, 1)); }
void orb_four32() { four(3, 2, 0, 0, vx_pick("padY", 0, 1)); }
void orb_four23() { four(2, 3, vx_pick("padX", 0, 1), 0, 0); }
void orb_four33() { four(3, 3, 0, 0, 0); }
void orb_four1() { four(1, vx_pick("n", 1, 3), 0, 0, 0); }
void orb_four_in() { four(2, 2, vx_pick("padX", 0, 1), 0, 0, true); }
}
// ---------------------------------------------------------------- Fock matrices and active-space Hamiltonian
// energy functional of a closed inactive core plus an active space with densities D (one-body) and G (two-body)
template <class FT, class FV> double efun(size_t ni, size_t na, FT T, FV V, Mat& D, Ten& G) { double E = 0;
  for (size_t i = 0; i < ni; ++i) { E += 2 * T(i, i); for (size_t j = 0; j < ni; ++j) E += 2 * V(i, i, j, j) - V(i, j, j, i); }
  for (size_t x = 0; x < na; ++x) for (size_t y = 0; y < na; ++y) { double h = T(ni + x, ni + y); for (size_t i = 0; i < ni; ++i) h += 2 * V(ni + x, ni + y, i, i) - V(ni + x, i, i, ni + y); E += D(x, y) * h; }
  for (size_t x = 0; x < na; ++x) for (size_t y = 0; y < na; ++y) for (size_t z = 0; z < na; ++z) for (size_t w = 0; w < na; ++w) E += G(x, y, z, w) * V(ni + x, ni + y, ni + z, ni + w);
  return E; }
struct Space { size_t ni, na, nv, n; Ints I; Mat T; Ten V; Mat D; Ten G;
  Space(size_t ni_, size_t na_, size_t nv_, size_t pad) : ni(ni_), na(na_), nv(nv_), n(ni + na + nv), I(n), T(n, n, pad), V(n, pad), D(na, na, pad), G(na, pad) { put(T, I); put(V, I); symm(D); symm8(G); }
  double E() { return efun(ni, na, [&](int p, int q) { return I.t(p, q); }, [&](int p, int q, int r, int s) { return I.v(p, q, r, s); }, D, G); } };
// first-order change of an operator under exp(-K):  derivation acting on every index
struct Op { size_t n; vd T, V; double& t(size_t p, size_t q) { return T[p + q * n]; } double& v(size_t p, size_t q, size_t r, size_t s) { return V[p + n * (q + n * (r + n * s))]; } };
static Op deriv(Op& A, vd& K) { size_t n = A.n; Op B{n, vd(n * n), vd(n * n * n * n)};
  // (1-K)^T A (1-K) to first order: new index p gets - sum_o K(o,p) (old index o)
  for (size_t p = 0; p < n; ++p) for (size_t q = 0; q < n; ++q) for (size_t o = 0; o < n; ++o) B.t(p, q) -= K[o + p * n] * A.t(o, q) + K[o + q * n] * A.t(p, o);
  for (size_t p = 0; p < n; ++p) for (size_t q = 0; q < n; ++q) for (size_t r = 0; r < n; ++r) for (size_t s = 0; s < n; ++s) for (size_t o = 0; o < n; ++o) B.v(p, q, r, s) -= K[o + p * n] * A.v(o, q, r, s) + K[o + q * n] * A.v(p, o, r, s) + K[o + r * n] * A.v(p, q, o, s) + K[o + s * n] * A.v(p, q, r, o);
  return B; }
static double eOp(Space& S, Op& A) { return efun(S.ni, S.na, [&](int p, int q) { return A.t(p, q); }, [&](int p, int q, int r, int s) { return A.v(p, q, r, s); }, S.D, S.G); }
static vd unitK(size_t n, size_t a, size_t i) { vd K(n * n); K[a + i * n] = 1; K[i + a * n] = -1; return K; }
static void energy(size_t ni, size_t na, size_t nv) { size_t pad = vx_pick("pad", 0, 1); Space S(ni, na, nv, pad);
  Mat F(S.n, S.n, vx_pick("padF", 0, 1)); F.zero();
  generalized_fock_matrix_comp_mat2(NumOrbital(S.n), NumInactive(ni), NumActive(na), S.T.p(), S.T.ld, S.V.p(), S.V.ld, S.D.p(), S.D.ld, S.G.p(), S.G.ld, F.p(), F.ld);
  double E = energy_from_generalized_fock(NumInactive(ni), NumActive(na), S.T.p(), S.T.ld, S.D.p(), S.D.ld, F.p(), F.ld);
  vx_assert_eq(E, S.E(), "energy from the generalized Fock matrix is the energy of the density");
  F.pad_kept("padding of F untouched"); for (size_t p = 0; p < S.n; ++p) for (size_t a = ni + na; a < S.n; ++a) vx_assert_eq(F(a, p), 0, "virtual rows untouched");
  // the same energy from intermediates supplied by the caller
  Mat Fi(S.n, S.n, pad), F2(S.n, S.n, pad); inactive_fock_matrix(NumOrbital(S.n), NumInactive(ni), S.T.p(), S.T.ld, S.V.p(), S.V.ld, Fi.p(), Fi.ld); F2.zero();
  generalized_fock_matrix_comp_mat1(NumOrbital(S.n), NumInactive(ni), NumActive(na), Fi.p(), Fi.ld, S.V.p(), S.V.ld, S.D.p(), S.D.ld, S.G.p(), S.G.ld, F2.p(), F2.ld);
  for (size_t p = 0; p < S.n; ++p) for (size_t q = 0; q < S.n; ++q) vx_assert_eq(F2(p, q), F(p, q), "supplied inactive Fock gives the same generalized Fock");
  S.T.same("T unchanged"); S.V.same("V unchanged"); S.D.same("1-RDM unchanged"); S.G.same("2-RDM unchanged"); VX_END(); }
// every determinant of the active space, embedded with a doubly occupied core, has its full-space matrix elements
static void embed(size_t ni, size_t na, size_t nv, int ea, int eb) { size_t n = ni + na + nv, pad = vx_pick("pad", 0, 1); Ints I(n); Mat T(n, n, pad); Ten V(n, pad); put(T, I); put(V, I);
  Mat Fi(n, n, pad), Ta(na, na, pad); Ten Va(na, pad);
  active_hamiltonian(NumOrbital(n), NumActive(na), NumInactive(ni), T.p(), T.ld, V.p(), V.ld, Fi.p(), Fi.ld, Ta.p(), Ta.ld, Va.p(), Va.ld);
  double Ec = inactive_energy(NumInactive(ni), T.p(), T.ld, Fi.p(), Fi.ld);
  for (size_t p = 0; p < n; ++p) for (size_t q = 0; q < n; ++q) { double r = I.t(p, q); for (size_t i = 0; i < ni; ++i) r += 2 * I.v(p, q, i, i) - I.v(p, i, i, q); vx_assert_eq(Fi(p, q), r, "inactive Fock is T plus core Coulomb minus exchange"); }
  Ints A(na, false); for (size_t p = 0; p < na; ++p) for (size_t q = 0; q < na; ++q) { A.t(p, q) = Ta(p, q); for (size_t r = 0; r < na; ++r) for (size_t s = 0; s < na; ++s) A.v(p, q, r, s) = Va(p, q, r, s); }
  uint64_t core = (1ULL << ni) - 1; Det x = pick_det("x", na, ea, eb), y = pick_det("y", na, ea, eb), X{core | x.a << ni, core | x.b << ni}, Y{core | y.a << ni, core | y.b << ni};
  vx_assert_eq(ref_element(A, x, y) + (same(x, y) ? Ec : 0.), ref_element(I, X, Y), "active-space Hamiltonian plus inactive energy reproduces the full Hamiltonian");
  Fi.pad_kept("padding of Fi untouched"); Ta.pad_kept("padding of T_active untouched"); Va.pad_kept("padding of V_active untouched"); T.same("T unchanged"); V.same("V unchanged"); VX_END(); }
// generalized Fock from arbitrary intermediates, and each intermediate against its definition
static void pieces(size_t ni, size_t na, size_t nv) { size_t n = ni + na + nv, pad = vx_pick("pad", 0, 1); Ten V(n, pad), G(na, pad); Mat D(na, na, pad), Fa(n, n, pad), Q(na, n, pad); symm8(V); symm(D); symm8(G);
  active_fock_matrix(NumOrbital(n), NumInactive(ni), NumActive(na), V.p(), V.ld, D.p(), D.ld, Fa.p(), Fa.ld);
  aux_q_matrix(NumActive(na), NumOrbital(n), NumInactive(ni), V.p(), V.ld, G.p(), G.ld, Q.p(), Q.ld);
  for (size_t p = 0; p < n; ++p) for (size_t q = 0; q < n; ++q) { double r = 0; for (size_t x = 0; x < na; ++x) for (size_t y = 0; y < na; ++y) r += D(x, y) * (V(p, q, ni + x, ni + y) - 0.5 * V(p, ni + x, ni + y, q)); vx_assert_eq(Fa(p, q), r, "active Fock"); }
  for (size_t v = 0; v < na; ++v) for (size_t p = 0; p < n; ++p) { double r = 0; for (size_t w = 0; w < na; ++w) for (size_t x = 0; x < na; ++x) for (size_t y = 0; y < na; ++y) r += 2 * G(v, w, x, y) * V(p, ni + w, ni + x, ni + y); vx_assert_eq(Q(v, p), r, "auxiliary Q"); }
  Mat Fi(n, n, pad), F(n, n, pad); symm(Fi); symm(Fa); vd q0 = Q.d;
  generalized_fock_matrix(NumOrbital(n), NumInactive(ni), NumActive(na), Fi.p(), Fi.ld, Fa.p(), Fa.ld, D.p(), D.ld, Q.p(), Q.ld, F.p(), F.ld);
  for (size_t p = 0; p < n; ++p) { for (size_t i = 0; i < ni; ++i) vx_assert_eq(F(i, p), 2 * (Fi(p, i) + Fa(p, i)), "inactive rows"); for (size_t v = 0; v < na; ++v) { double r = q0[v + p * Q.ld]; for (size_t w = 0; w < na; ++w) r += D(v, w) * Fi(p, ni + w); vx_assert_eq(F(ni + v, p), r, "active rows"); } for (size_t a = ni + na; a < n; ++a) vx_assert_eq(F(a, p), F.o[a + p * F.ld], "virtual rows untouched"); }
  Q.pad_kept("padding of Q untouched"); F.pad_kept("padding of F untouched"); Fa.pad_kept("padding of Fa untouched"); VX_END(); }
// ---------------------------------------------------------------- gradient
static bool nonred(size_t ni, size_t na, size_t p, size_t q) { auto b = [&](size_t x) { return x < ni ? 0 : x < ni + na ? 1 : 2; }; return b(p) != b(q); }
static void grad(size_t ni, size_t na, size_t nv) { Space S(ni, na, nv, 0); size_t n = S.n; Mat F(n, n, vx_pick("padF", 0, 1)); F.zero();
  generalized_fock_matrix_comp_mat2(NumOrbital(n), NumInactive(ni), NumActive(na), S.T.p(), S.T.ld, S.V.p(), S.V.ld, S.D.p(), S.D.ld, S.G.p(), S.G.ld, F.p(), F.ld);
  size_t sz = nv * (ni + na) + na * ni; vd g(sz + 1); g[sz] = 7; Mat OG(n, n, vx_pick("padG", 0, 1)), OG0 = OG;
  fock_to_linear_orb_grad(NumInactive(ni), NumActive(na), NumVirtual(nv), F.p(), F.ld, g.data());
  fock_to_gradient(NumOrbital(n), NumInactive(ni), NumActive(na), NumVirtual(nv), F.p(), F.ld, OG.p(), OG.ld);
  vx_assert_eq(g[sz], 7, "gradient length");
  Op A{n, S.I.T, S.I.V}; Mat Kg(n, n, 0); Kg.zero(); linear_orb_rot_to_matrix(NumInactive(ni), NumActive(na), NumVirtual(nv), g.data(), Kg.p(), Kg.ld);
  for (size_t a = 0; a < n; ++a) for (size_t i = 0; i < a; ++i) { if (!nonred(ni, na, a, i)) { vx_assert_eq(OG(a, i), OG0(a, i), "redundant rotations untouched"); vx_assert_eq(OG(i, a), OG0(i, a), "redundant rotations untouched"); continue; }
      vd K = unitK(n, a, i); Op B = deriv(A, K); double r = eOp(S, B); vx_assert_eq(OG(a, i), r, "orbital gradient is the derivative of the energy"); vx_assert_eq(OG(i, a), -r, "orbital gradient is antisymmetric"); vx_assert_eq(Kg(a, i), r, "packed orbital gradient is the derivative of the energy"); }
  OG.pad_kept("padding of OG untouched"); VX_END(); }
static void pack(size_t ni, size_t na, size_t nv) { size_t n = ni + na + nv, sz = nv * (ni + na) + na * ni; vd k = vx_reals("k", sz); Mat K(n, n, vx_pick("padK", 0, 1)); Mat K0 = K;
  NumInactive i_(ni); NumActive a_(na); NumVirtual v_(nv); linear_orb_rot_to_matrix(i_, a_, v_, k.data(), K.p(), K.ld);
  for (size_t p = 0; p < n; ++p) for (size_t q = 0; q < p; ++q) { if (nonred(ni, na, p, q)) vx_assert_eq(K(p, q), -K(q, p), "rotation matrix is antisymmetric"); else { vx_assert_eq(K(p, q), K0(p, q), "redundant rotations untouched"); vx_assert_eq(K(q, p), K0(q, p), "redundant rotations untouched"); } }
  for (size_t p = 0; p < n; ++p) vx_assert_eq(K(p, p), K0(p, p), "diagonal untouched");
  vd k2(sz + 1); k2[sz] = 5; matrix_to_linear_orb_rot(i_, a_, v_, K.p(), K.ld, k2.data()); for (size_t j = 0; j < sz; ++j) vx_assert_eq(k2[j], k[j], "unpack after pack is the identity"); vx_assert_eq(k2[sz], 5, "packed length");
  // virtual-inactive, virtual-active, active-inactive blocks, column-major each
  size_t c = 0; for (size_t i = 0; i < ni; ++i) for (size_t a = 0; a < nv; ++a) vx_assert_eq(K(ni + na + a, i), k[c++], "block order"); for (size_t i = 0; i < na; ++i) for (size_t a = 0; a < nv; ++a) vx_assert_eq(K(ni + na + a, ni + i), k[c++], "block order"); for (size_t i = 0; i < ni; ++i) for (size_t a = 0; a < na; ++a) vx_assert_eq(K(ni + a, i), k[c++], "block order");
  K.pad_kept("padding of K untouched"); VX_END(); }
// energy and generalized Fock of rotated integrals
static void rotE(size_t ni, size_t na, size_t nv) { Space S(ni, na, nv, vx_pick("pad", 0, 1)); size_t n = S.n; Mat U(n, n, vx_pick("padU", 0, 1));
  double E = orbital_rotated_energy(NumOrbital(n), NumInactive(ni), NumActive(na), S.T.p(), S.T.ld, S.V.p(), S.V.ld, S.D.p(), S.D.ld, S.G.p(), S.G.ld, U.p(), U.ld);
  auto t = [&](int p, int q) { double r = 0; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) r += U(i, p) * U(j, q) * S.I.t(i, j); return r; };
  auto v = [&](int p, int q, int r_, int s) { double r = 0; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) for (size_t k = 0; k < n; ++k) for (size_t l = 0; l < n; ++l) r += U(i, p) * U(j, q) * U(k, r_) * U(l, s) * S.I.v(i, j, k, l); return r; };
  vx_assert_eq(E, efun(ni, na, t, v, S.D, S.G), "rotated energy is the energy of the rotated integrals");
  Mat Tt(n, n, 1), F(n, n, 1); Ten Vt(n, 0); F.zero(); double E2 = orbital_rotated_energy(NumOrbital(n), NumInactive(ni), NumActive(na), S.T.p(), S.T.ld, S.V.p(), S.V.ld, S.D.p(), S.D.ld, S.G.p(), S.G.ld, U.p(), U.ld, Tt.p(), Tt.ld, Vt.p(), Vt.ld, F.p(), F.ld);
  vx_assert_eq(E2, E, "both overloads agree"); for (size_t p = 0; p < n; ++p) for (size_t q = 0; q < n; ++q) vx_assert_eq(Tt(p, q), t(p, q), "rotated one-body integrals returned"); VX_END(); }
// ---------------------------------------------------------------- Hessian
// second derivative along unit rotations and K of E(exp(-K)); for na >= 2 the active-active gradient must vanish (complete active space)
static void hess(size_t ni, size_t na, size_t nv, size_t pad = 0, bool vir_only = false) { Space S(ni, na, nv, pad); size_t n = S.n, sz = nv * (ni + na) + na * ni; 
  if (na == 2) { // stationarity: with D00 - D11 = 1 the active-active gradient is 2*(T01 + rest); choose T01 so that it vanishes
    S.D(0, 0) = S.D(1, 1) + 1; S.D.o = S.D.d; S.I.t(ni, ni + 1) = S.I.t(ni + 1, ni) = 0; Op A{n, S.I.T, S.I.V}; vd K = unitK(n, ni + 1, ni); Op B = deriv(A, K); double g0 = eOp(S, B);
    Op A1{n, S.I.T, S.I.V}; A1.t(ni, ni + 1) += 1; A1.t(ni + 1, ni) += 1; Op B1 = deriv(A1, K); double g1 = eOp(S, B1); // g1 - g0 is +-2
    vx_assert_eq((g1 - g0) * (g1 - g0), 4, "harness: linear in T01"); double t01 = (g1 - g0) * g0 * -0.25; S.I.t(ni, ni + 1) = S.I.t(ni + 1, ni) = t01; put(S.T, S.I); }
  vd k = vx_reals("k", sz), hk(sz + 1), g(sz); hk[sz] = 3; NumInactive i_(ni); NumActive a_(na); NumVirtual v_(nv); NumOrbital n_(n); Mat F(n, n, 0); F.zero();
  generalized_fock_matrix_comp_mat2(n_, i_, a_, S.T.p(), S.T.ld, S.V.p(), S.V.ld, S.D.p(), S.D.ld, S.G.p(), S.G.ld, F.p(), F.ld); fock_to_linear_orb_grad(i_, a_, v_, F.p(), F.ld, g.data());
  orb_orb_hessian_contract(n_, i_, a_, v_, S.T.p(), S.T.ld, S.V.p(), S.V.ld, S.D.p(), S.D.ld, S.G.p(), S.G.ld, g.data(), k.data(), hk.data());
  vx_assert_eq(hk[sz], 3, "length"); Mat Km(n, n, 0), H(n, n, 0); Km.zero(); H.zero(); linear_orb_rot_to_matrix(i_, a_, v_, k.data(), Km.p(), n); linear_orb_rot_to_matrix(i_, a_, v_, hk.data(), H.p(), n);
  Op A{n, S.I.T, S.I.V}; Op AK = deriv(A, Km.d);
  for (size_t a = 0; a < n; ++a) for (size_t i = 0; i < a; ++i) { if (!nonred(ni, na, a, i)) continue; vd u = unitK(n, a, i); Op B1 = deriv(AK, u), Au = deriv(A, u), B2 = deriv(Au, Km.d); double r = 0.5 * (eOp(S, B1) + eOp(S, B2)); vx_assert_eq(H(a, i), r, "Hessian times vector is the second derivative of the energy"); }
  VX_END(); }
extern "C" {
void orb_energy111() { energy(1, 1, 1); }
void orb_energy120() { energy(1, 2, 0); }
void orb_energy021() { energy(0, 2, 1); }
void orb_energy201() { energy(2, 0, 1); }
void orb_energy022() { energy(0, 2, 2); }
void orb_embed120() { embed(1, 2, 0, vx_pick("ea", 0, 2), vx_pick("eb", 0, 2)); }
void orb_embed121() { embed(1, 2, 1, 1, 1); }
void orb_embed210() { embed(2, 1, 0, vx_pick("ea", 0, 1), vx_pick("eb", 0, 1)); }
void orb_embed130() { embed(1, 3, 0, vx_pick("ea", 1, 2), 1); }
void orb_pieces111() { pieces(1, 1, 1); }
void orb_pieces121() { pieces(1, 2, 1); }
void orb_pieces210() { pieces(2, 1, 0); }
void orb_pieces021() { pieces(0, 2, 1); }
void orb_grad111() { grad(1, 1, 1); }
void orb_grad121() { grad(1, 2, 1); }
void orb_grad022() { grad(0, 2, 2); }
void orb_grad202() { grad(2, 0, 2); }
void orb_grad220() { grad(2, 2, 0); }
void orb_pack() { pack(vx_pick("ni", 0, 2), vx_pick("na", 0, 3), vx_pick("nv", 0, 2)); }
void orb_rot101() { rotE(1, 0, 1); }
void orb_rot110() { rotE(1, 1, 0); }
void orb_rot020() { rotE(0, 2, 0); }
void orb_rot111() { rotE(1, 1, 1); }
void orb_hess111() { hess(1, 1, 1, vx_pick("pad", 0, 1)); }
void orb_hess101() { hess(1, 0, 1); }
void orb_hess202() { hess(2, 0, 2); }
void orb_hess212() { hess(2, 1, 1); }
void orb_hess021() { hess(0, 2, 1); }
void orb_hess121() { hess(1, 2, 1); }
}
// ---------------------------------------------------------------- MP2
// first-order wavefunction over doubly excited determinants of a closed-shell reference, from the reference Hamiltonian
static void mp2(size_t no, size_t nv) { size_t n = no + nv, pad = vx_pick("pad", 0, 1); Ints I(n); Mat T(n, n, pad), D(n, n, vx_pick("padD", 0, 1)); Ten V(n, pad); put(T, I); put(V, I); 
  vd eps(n); canonical_orbital_energies(NumOrbital(n), NumInactive(no), T.p(), T.ld, V.p(), V.ld, eps.data());
  for (size_t p = 0; p < n; ++p) { double r = I.t(p, p); for (size_t i = 0; i < no; ++i) r += 2 * I.v(p, p, i, i) - I.v(p, i, i, p); vx_assert_eq(eps[p], r, "canonical orbital energies are the Fock diagonal"); }
  for (size_t i = 0; i < no; ++i) for (size_t a = no; a < n; ++a) vx_assume(eps[i] + 1 < eps[a]); // aufbau reference
  vd t2(no * no * nv * nv + 1); t2.back() = 9; mp2_t2(NumCanonicalOccupied(no), NumCanonicalVirtual(nv), V.p(), V.ld, eps.data(), t2.data()); vx_assert_eq(t2.back(), 9, "T2 length");
  auto amp = [&](size_t i, size_t j, size_t a, size_t b) { return I.v(i, a, j, b) / (eps[i] + eps[j] - eps[a] - eps[b]); };
  for (size_t i = 0; i < no; ++i) for (size_t j = 0; j < no; ++j) for (size_t a = 0; a < nv; ++a) for (size_t b = 0; b < nv; ++b) vx_assert_eq(t2[i + no * (j + no * (a + nv * b))], amp(i, j, no + a, no + b), "T2 amplitude is (ia|jb) over the orbital energy difference");
  mp2_1rdm(NumOrbital(n), NumCanonicalOccupied(no), NumCanonicalVirtual(nv), T.p(), T.ld, V.p(), V.ld, D.p(), D.ld);
  // |1> = sum_k |k> <k|H|0>/(E0-Ek) over doubles; density = <0|E|0> + <1|E|1> - <1|1><0|E|0>
  uint64_t occ = (1ULL << no) - 1; std::vector<Det> ds; vd c; 
  for (int kind = 0; kind < 3; ++kind) for (size_t i = 0; i < no; ++i) for (size_t j = 0; j < no; ++j) for (size_t a = no; a < n; ++a) for (size_t b = no; b < n; ++b) {
    Det d{occ, occ}; int par = 0; int s1 = kind == 1, s2 = kind >= 1; if (kind == 2) s1 = 0, s2 = 1; if (kind < 2 && !(i < j && a < b)) continue;
    annih(d, s1, i, par); annih(d, s2, j, par); creat(d, s2, b, par); creat(d, s1, a, par); double sg = par ? -1. : 1.; ds.push_back(d); c.push_back(kind == 2 ? sg * amp(i, j, a, b) : sg * (amp(i, j, a, b) - amp(i, j, b, a))); }
  double nrm = 0; for (double x : c) nrm += x * x;
  for (size_t p = 0; p < n; ++p) for (size_t q = 0; q < n; ++q) { if ((p < no) != (q < no)) { vx_assert_eq(D(p, q), 0, "occupied-virtual block vanishes"); continue; } double r = p == q && p < no ? 2 - 2 * nrm : 0;
    for (size_t x = 0; x < ds.size(); ++x) for (size_t y = 0; y < ds.size(); ++y) ref_apply(ds[x], ds[y], n, [&](int P, int Q, double s) { if (P == (int)p && Q == (int)q) r += s * c[x] * c[y]; }, [](int, int, int, int, double) {});
    vx_assert_eq(D(p, q), r, "MP2 density is that of the first-order wavefunction"); }
  double tr = 0; for (size_t p = 0; p < n; ++p) { tr += D(p, p); for (size_t q = 0; q < p; ++q) vx_assert_eq(D(p, q), D(q, p), "MP2 density is symmetric"); } vx_assert_eq(tr, 2. * no, "MP2 density has the electron count as trace");
  D.pad_kept("padding untouched"); T.same("T unchanged"); V.same("V unchanged"); VX_END(); }
extern "C" {
void orb_mp2_11() { mp2(1, 1); }
void orb_mp2_12() { mp2(1, 2); }
void orb_mp2_21() { mp2(2, 1); }
void orb_mp2_22() { mp2(2, 2); }
}

// natural orbitals: the eigenvectors of the MP2 density, occupations descending; the eigensolver is prescribed
static vd se_A, se_W, se_V; static void se_hook(int64_t n, double* A, int64_t lda, double* W) { se_A.assign(n * n, 0); for (int64_t j = 0; j < n; ++j) for (int64_t i = 0; i < n; ++i) se_A[i + j * n] = A[i + j * lda]; se_W = vx_reals("w", n); se_V = vx_reals("u", n * n); for (int64_t j = 0; j < n; ++j) { W[j] = se_W[j]; for (int64_t i = 0; i < n; ++i) A[i + j * lda] = se_V[i + j * n]; } }
static void natorb(size_t no, size_t nv) { size_t n = no + nv; Ints I(n); Mat T(n, n, 0), C(n, n, vx_pick("padC", 0, 1)), D(n, n, 0); Ten V(n, 0); put(T, I); put(V, I); vd eps(n), on(n);
  canonical_orbital_energies(NumOrbital(n), NumInactive(no), T.p(), T.ld, V.p(), V.ld, eps.data()); for (size_t i = 0; i < no; ++i) for (size_t a = no; a < n; ++a) vx_assume(eps[i] + 1 < eps[a]);
  lapack::syev_hook = se_hook; mp2_natural_orbitals(NumOrbital(n), NumCanonicalOccupied(no), NumCanonicalVirtual(nv), T.p(), T.ld, V.p(), V.ld, on.data(), C.p(), C.ld); lapack::syev_hook = nullptr;
  mp2_1rdm(NumOrbital(n), NumCanonicalOccupied(no), NumCanonicalVirtual(nv), T.p(), T.ld, V.p(), V.ld, D.p(), D.ld);
  for (size_t q = 0; q < n; ++q) { vx_assert_eq(on[q], -se_W[q], "natural occupations are the eigenvalues of the density, in descending order"); for (size_t p = 0; p < n; ++p) { vx_assert_eq(C(p, q), se_V[p + q * n], "natural orbitals are the eigenvectors"); if (p >= q) vx_assert_eq(se_A[p + q * n], -D(p, q), "the negated MP2 density is diagonalised"); } }
  C.pad_kept("padding untouched"); VX_END(); }
// ---------------------------------------------------------------- approximate diagonal Hessian and the preconditioned step
static void diagh(size_t ni, size_t na, size_t nv) { size_t pad = vx_pick("pad", 0, 1), n = ni + na + nv, sz = nv * (ni + na) + na * ni; Mat Fi(n, n, pad), Fa(n, n, pad), F(n, n, pad), D(na, na, pad); vd H(sz + 1), g = vx_reals("g", sz), k(sz + 1); H[sz] = 5; k[sz] = 6;
  NumInactive i_(ni); NumActive a_(na); NumVirtual v_(nv); approx_diag_hessian(i_, a_, v_, Fi.p(), Fi.ld, Fa.p(), Fa.ld, D.p(), D.ld, F.p(), F.ld, H.data());
  Mat R(n, n, 0), G(n, n, 0), K(n, n, 0); R.zero(); linear_orb_rot_to_matrix(i_, a_, v_, H.data(), R.p(), n); auto f = [&](size_t p) { return Fi(p, p) + Fa(p, p); };
  for (size_t p = 0; p < n; ++p) for (size_t q = 0; q < p; ++q) if (nonred(ni, na, p, q)) { double r; if (q < ni && p >= ni + na) r = 4 * (f(p) - f(q)); else if (q >= ni) r = 2 * D(q - ni, q - ni) * f(p) - 2 * F(q, q); else r = 2 * D(p - ni, p - ni) * f(q) + 4 * (f(p) - f(q)) - 2 * F(p, p); vx_assert_eq(R(p, q), r, "approximate diagonal Hessian"); }
  vx_assert_eq(H[sz], 5, "length"); for (size_t j = 0; j < sz; ++j) vx_assume(H[j] != 0);
  precond_cg_orbital_step(NumOrbital(n), i_, a_, v_, Fi.p(), Fi.ld, Fa.p(), Fa.ld, F.p(), F.ld, D.p(), D.ld, g.data(), k.data()); vx_assert_eq(k[sz], 6, "length"); for (size_t j = 0; j < sz; ++j) { vx_assert_eq(k[j], -g[j] / H[j], "step is minus gradient over diagonal Hessian"); }
  Fi.same("Fi unchanged"); Fa.same("Fa unchanged"); F.same("F unchanged"); D.same("RDM unchanged"); VX_END(); }
// the overload that starts from integrals and densities goes through the Fock matrices of those
static void diagh2(size_t ni, size_t na, size_t nv) { Space S(ni, na, nv, vx_pick("pad", 0, 1)); size_t n = S.n, sz = nv * (ni + na) + na * ni; vd H(sz), H2(sz); NumOrbital n_(n); NumInactive i_(ni); NumActive a_(na); NumVirtual v_(nv);
  approx_diag_hessian(n_, i_, a_, v_, S.T.p(), S.T.ld, S.V.p(), S.V.ld, S.D.p(), S.D.ld, S.G.p(), S.G.ld, H.data());
  Mat Fi(n, n, 0), Fa(n, n, 0), F(n, n, 0); F.zero(); inactive_fock_matrix(n_, i_, S.T.p(), S.T.ld, S.V.p(), S.V.ld, Fi.p(), n); active_fock_matrix(n_, i_, a_, S.V.p(), S.V.ld, S.D.p(), S.D.ld, Fa.p(), n); generalized_fock_matrix_comp_mat2(n_, i_, a_, S.T.p(), S.T.ld, S.V.p(), S.V.ld, S.D.p(), S.D.ld, S.G.p(), S.G.ld, F.p(), n);
  approx_diag_hessian(i_, a_, v_, Fi.p(), n, Fa.p(), n, S.D.p(), S.D.ld, F.p(), n, H2.data()); for (size_t j = 0; j < sz; ++j) vx_assert_eq(H[j], H2[j], "Hessian diagonal from integrals equals that from Fock matrices"); VX_END(); }
extern "C" {
void orb_nat11() { natorb(1, 1); }
void orb_nat21() { natorb(2, 1); }
void orb_diagh111() { diagh(1, 1, 1); }
void orb_diagh221() { diagh(2, 2, 1); }
void orb_diagh122() { diagh(1, 2, 2); }
void orb_diagh2() { diagh2(1, 1, 1); }
void orb_diagh2b() { diagh2(1, 2, 1); }
}
// ---------------------------------------------------------------- U = exp(-alpha K), decided for nilpotent K (strictly triangular in some orbital order), where the
// exponential is the polynomial 1 - aK + (aK)^2/2; br selects the branch of the Pade scheme through the size of the entries
static void expo(size_t n, int br, double al) { static const double lo[] = {0, 0.02, 0.3, 1.0}, hi[] = {0.0149, 0.25, 0.95, 2.09}; Mat K(n, n, vx_pick("padK", 0, 1)), U(n, n, vx_pick("padU", 0, 1)); K.zero(); K.o = K.d; static const size_t perm[3][3] = {{0, 1, 2}, {2, 1, 0}, {1, 0, 2}}; const size_t* o = perm[n == 3 ? vx_pick("perm", 0, 2) : 2 * vx_pick("perm", 0, 1)]; size_t off = n == 3 ? 0 : (o[0] == 2 ? 1 : 0);
  double sc = n == 3 ? 0.5 : 1.0; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) { double k = vx_real("k"); vx_assume(k * al < hi[br] * sc); vx_assume(k * al > (i == 1 || n == 2 ? lo[br] : -hi[br] * sc)); K(o[i] - off, o[j] - off) = k; } K.o = K.d;
  compute_orbital_rotation(NumOrbital(n), al, K.p(), K.ld, U.p(), U.ld); double t = 1e-9;
  for (size_t p = 0; p < n; ++p) for (size_t q = 0; q < n; ++q) { double k2 = 0; for (size_t r = 0; r < n; ++r) k2 += K(p, r) * K(r, q); double e = (p == q ? 1. : 0.) - al * K(p, q) + al * al * k2 / 2; vx_assert(U(p, q) - e < t && e - U(p, q) < t, "rotation is exp(-alpha K)"); }
  U.pad_kept("padding of U untouched"); K.same("K unchanged"); VX_END(); }
extern "C" {
void orb_exp2() { int a = vx_pick("alpha", 0, 2); expo(2, vx_pick("branch", 0, 3), a == 0 ? 1. : a == 1 ? -1. : 2.); }
void orb_exp3() { expo(3, 0, vx_bool("neg") ? -1. : 1.); }
void orb_exp3b() { expo(3, 1, 1.); }
}
// ---------------------------------------------------------------- finite-difference derivatives: integrals symbolic in [-1,1], densities fixed
static void box(Ints& I) { for (int q = 0; q < I.n; ++q) for (int p = 0; p <= q; ++p) { vx_assume(I.t(p, q) <= 1); vx_assume(I.t(p, q) >= -1); for (int s = 0; s < I.n; ++s) for (int r = 0; r <= s; ++r) if (p + q * I.n <= r + s * I.n) { vx_assume(I.v(p, q, r, s) <= 1); vx_assume(I.v(p, q, r, s) >= -1); } } }
static void numder(size_t ni, size_t na, size_t nv, bool hessian) { Space S(ni, na, nv, vx_pick("pad", 0, 1)); size_t n = S.n; box(S.I); double c = 0.3; for (size_t x = 0; x < na; ++x) for (size_t y = 0; y <= x; ++y) S.D(x, y) = S.D(y, x) = (c += 0.25); S.D.o = S.D.d;
  for (size_t x = 0; x < na; ++x) for (size_t y = 0; y < na; ++y) for (size_t z = 0; z < na; ++z) for (size_t w = 0; w < na; ++w) S.G(x, y, z, w) = 0.125 * (1 + x + y + z + w); S.G.o = S.G.d;
  NumOrbital n_(n); NumInactive i_(ni); NumActive a_(na); Op A{n, S.I.T, S.I.V}; size_t ld = n + vx_pick("padO", 0, 1); double tol = hessian ? 2e-4 : 1e-6;
  if (!hessian) { vd g(ld * n, 77.); numerical_orbital_gradient(n_, i_, a_, S.T.p(), S.T.ld, S.V.p(), S.V.ld, S.D.p(), S.D.ld, S.G.p(), S.G.ld, g.data(), ld);
    for (size_t i = 0; i < n; ++i) for (size_t a = 0; a < ld; ++a) if (a > i && a < n) { vd K = unitK(n, a, i); Op B = deriv(A, K); double e = eOp(S, B), d = g[a + i * ld]; vx_assert(d - e < tol && e - d < tol, "numerical gradient approximates the derivative of the energy"); } else vx_assert_eq(g[a + i * ld], 77., "other entries untouched"); }
  else { vd h(ld * ld * ld * n, 77.); numerical_orbital_hessian(n_, i_, a_, S.T.p(), S.T.ld, S.V.p(), S.V.ld, S.D.p(), S.D.ld, S.G.p(), S.G.ld, h.data(), ld);
    for (size_t i = 0; i < n; ++i) for (size_t a = 0; a < ld; ++a) for (size_t j = 0; j < n; ++j) for (size_t b = 0; b < ld; ++b) { double d = h[a + ld * (i + ld * (b + ld * j))]; if (!(a > i && a < n && b > j && b < n)) { vx_assert_eq(d, 77., "other entries untouched"); continue; }
      vd u = unitK(n, a, i), w = unitK(n, b, j); Op Au = deriv(A, u), Aw = deriv(A, w), B1 = deriv(Au, w), B2 = deriv(Aw, u); double e = 0.5 * (eOp(S, B1) + eOp(S, B2)); vx_assert(d - e < tol && e - d < tol, "numerical Hessian approximates the second derivative of the energy"); } }
  VX_END(); }
extern "C" {
void orb_ngrad101() { numder(1, 0, 1, false); }
void orb_ngrad110() { numder(1, 1, 0, false); }
void orb_ngrad111() { numder(1, 1, 1, false); }
void orb_nhess101() { numder(1, 0, 1, true); }
void orb_nhess110() { numder(1, 1, 0, true); }
void orb_nhess111() { numder(1, 1, 1, true); }
}
