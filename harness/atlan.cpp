// P47: Lanczos, band Lanczos and resolvent of the cmz_ed (attic) library.  LAPACK is replaced by recording stand-ins with prescribed results,
// so what is proved holds whatever LAPACK returns, and the data handed to it is compared with what the drivers are supposed to pass.
#include "common.hpp"
#include <cmath>
#include <complex>
#include <fstream>
#include <iostream>
#include <iomanip>
#include "cmz_ed/ed.h++"
#include "cmz_ed/bandlan.h++"
#include <sparsexx/matrix_types/dist_sparse_matrix.hpp>
using namespace cmz::ed; using std::vector; typedef std::complex<double> cd; typedef vector<vector<double>> vvd; typedef vector<double> vd;
void vx_mpi_run(int np, void (*fn)(int));
template <class F> static bool throws(F f) { try { f(); return false; } catch (...) { return true; } }
struct Call { char j; int n; vd D, E, Z, W, X; }; static vector<Call> ST, SY; static vvd GA; static vd RW, QW, TW, OW; static int smode, QI, nw; static double kap;
static void ws(double* WORK, int n) { WORK[0] = n; }
// prescribed two-by-two eigenproblem: eigenvalues EV with eigenvectors recovered from the tridiagonal matrix
static vd EV;
extern "C" {
int dsteqr_(char* J, int* N, double* D, double* E, double* Z, int* LDZ, double* WORK, int* INFO) {
  int n = *N; Call c; c.j = *J; c.n = n; c.D.assign(D, D + n); c.E.assign(E, E + n - 1); vx_assert(*LDZ == n, "leading dimension of the eigenvectors"); if (c.j != 'I') c.Z.assign(Z, Z + n * n); for (int i = 0; i + 2 < 2 * n; ++i) WORK[i] = 0; *INFO = 0;
  if (smode == 1) { vx_assert(n == 2, "two Krylov vectors"); D[0] = EV[0]; D[1] = EV[1]; double a = c.E[0], b = EV[0] - c.D[0], s = std::sqrt(a * a + b * b); Z[0] = a / s; Z[1] = b / s; Z[2] = -Z[1]; Z[3] = Z[0]; }
  else for (int i = 0; i < n; ++i) { D[i] = smode == 2 && i == 0 ? EV.at(nw++) : vx_real("lam"); for (int j = 0; j < n; ++j) Z[j + i * n] = vx_real("z"); }
  c.W.assign(D, D + n); c.X.assign(Z, Z + n * n); ST.push_back(c); return 0; }
int dsyev_(char* J, char* U, int* N, double* A, int* LDA, double* W, double* WORK, int* LWORK, int* INFO) { int n = *N; *INFO = 0; if (*LWORK == -1) { ws(WORK, 3 * n); return 0; } vx_assert(*J == 'V' && (*U == 'U' || *U == 'L') && *LDA == n && *LWORK >= 3 * n - 1, "eigensolver arguments"); for (int i = 0; i < *LWORK; ++i) WORK[i] = 0;
  Call c; c.n = n; c.Z.assign(A, A + n * n); for (int i = 0; i < n; ++i) W[i] = vx_real("w"); for (int i = 0; i < n * n; ++i) A[i] = vx_real("u"); c.W.assign(W, W + n); c.X.assign(A, A + n * n); SY.push_back(c); return 0; }
int dgeqrf_(int* M, int* N, double* A, int* LDA, double* T, double* WORK, int* LWORK, int* INFO) { int m = *M, n = *N; *INFO = 0; if (*LWORK == -1) { ws(WORK, n); return 0; } vx_assert(*LDA == m && *LWORK >= n, "QR arguments"); GA.push_back(vd(A, A + m * n)); RW.clear(); for (int j = 0; j < n; ++j) { T[j] = 10 + j; for (int i = 0; i < m; ++i) { A[i + j * m] = vx_real("r"); RW.push_back(A[i + j * m]); } } return 0; }
int dorgqr_(int* M, int* N, int* K, double* A, int* LDA, double* T, double* WORK, int* LWORK, int* INFO) { int m = *M, n = *N; *INFO = 0; if (*LWORK == -1) { ws(WORK, n); return 0; } vx_assert(*K == n && *LDA == m && *LWORK >= n, "arguments of the Q generator"); bool same = true; for (int i = 0; i < m * n; ++i) vx_assert_same(A[i], RW[i], "Q is generated from the reflectors"); for (int j = 0; j < n; ++j) vx_assert(T[j] == 10 + j, "Q is generated from the reflectors");
  QW.clear(); for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) { A[i + j * m] = QI ? (i == j) : vx_real("q"); QW.push_back(A[i + j * m]); } return 0; }
int dsytrd_(char* U, int* N, double* A, int* LDA, double* D, double* E, double* T, double* WORK, int* LWORK, int* INFO) { int n = *N; *INFO = 0; if (*LWORK == -1) { ws(WORK, n); return 0; } vx_assert(*U == 'U' && *LDA == n && *LWORK >= 1, "arguments of the reduction"); GA.push_back(vd(A, A + n * n)); TW.clear(); for (int i = 0; i < n; ++i) TW.push_back(D[i] = vx_real("d")); for (int i = 0; i + 1 < n; ++i) TW.push_back(E[i] = vx_real("e")), T[i] = 20 + i; RW.clear(); for (int i = 0; i < n * n; ++i) RW.push_back(A[i] = vx_real("h")); return 0; }
int dorgtr_(char* U, int* N, double* A, int* LDA, double* T, double* WORK, int* LWORK, int* INFO) { int n = *N; *INFO = 0; if (*LWORK == -1) { ws(WORK, n); return 0; } vx_assert(*U == 'U' && *LDA == n && *LWORK >= n - 1, "arguments of the generator"); for (int i = 0; i < n * n; ++i) vx_assert_same(A[i], RW[i], "generated from the reflectors"); for (int i = 0; i + 1 < n; ++i) vx_assert(T[i] == 20 + i, "generated from the reflectors"); QW.clear(); for (int i = 0; i < n * n; ++i) QW.push_back(A[i] = vx_real("q")); return 0; }
int dsbtrd_(char* V, char* U, int* N, int* KD, double* AB, int* LDAB, double* D, double* E, double* Q, int* LDQ, double* WORK, int* INFO) { int n = *N, k = *KD; *INFO = 0; vx_assert(*V == 'V' && *U == 'U' && *LDAB == k + 1 && *LDQ == n && k < n, "arguments of the band reduction"); vd F(n * n, 0.); for (int j = 0; j < n; ++j) for (int i = std::max(0, j - k); i <= j; ++i) F[i + j * n] = F[j + i * n] = AB[k + i - j + j * (k + 1)]; GA.push_back(F); for (int i = 0; i < n; ++i) WORK[i] = 0;
  TW.clear(); for (int i = 0; i < n; ++i) TW.push_back(D[i] = vx_real("d")); for (int i = 0; i + 1 < n; ++i) TW.push_back(E[i] = vx_real("e")); QW.clear(); for (int i = 0; i < n * n; ++i) QW.push_back(Q[i] = vx_real("q")); return 0; }
}
static eigMatD symH(int n) { eigMatD H(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) H(i, j) = H(j, i) = vx_real("H"); return H; }
static double quad(const VectorXd& v, const eigMatD& H, int k) { int n = v.rows(); vd x(n); for (int i = 0; i < n; ++i) x[i] = v(i); for (; k > 0; --k) { vd y(n, 0.); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) y[i] += H(i, j) * x[j]; x = y; } double s = 0; for (int i = 0; i < n; ++i) s += v(i) * x[i]; return s; }
static double tmom(const VecD& a, const VecD& b, int m, int k) { vd x(m, 0.); x[0] = 1; for (; k > 0; --k) { vd y(m, 0.); for (int i = 0; i < m; ++i) { y[i] += a[i] * x[i]; if (i) y[i] += b[i] * x[i - 1]; if (i + 1 < m) y[i] += b[i + 1] * x[i + 1]; } x = y; } return x[0]; }
static double st(int n, int st_, int i) { return st_ == n ? 0.5 : i == st_ ? 2. : 0.; }
static void t_lan(int n, int its, int s) {
  vx_generic(1); eigMatD H = symH(n); if (n == 3) H(0, 2) = H(2, 0) = 0; VectorXd v(n); for (int i = 0; i < n; ++i) v(i) = st(n, s, i); eigMatDOp op(H); vx_assert(op.rows() == n, "order of the operator"); VecD a(7, 1.), b(3, 2.); MyLanczos(v, op, its, a, b, 1e-6);
  vx_assert(a.size() == (size_t)its && b.size() == (size_t)its + 1, "sizes of the tridiagonal matrix"); double nn = quad(v, H, 0); vx_assert_eq(b[0] * b[0], nn, "norm of the starting vector"); int m = 1; for (; m < its; ++m) if (std::abs(b[m]) <= 1e-6) break; 
  for (int i = m; i < its; ++i) vx_assert(a[i] == 0 && (i == m || b[i] == 0), "nothing is written after an invariant subspace is found");
  for (int k = 1; k < 2 * m; ++k) vx_assert_eq(tmom(a, b, m, k) * nn, quad(v, H, k), "the tridiagonal matrix reproduces the moments of the starting vector"); VX_END(); }
static void t_back(int n, int its, int s0) { vx_generic(1); eigMatD H = symH(n); VectorXd v(n), p(its), x; for (int i = 0; i < n; ++i) v(i) = st(n, s0, i); for (int i = 0; i < its; ++i) p(i) = vx_real("p"); eigMatDOp op(H); MyLanczos_BackProj(v, op, its, p, x); VecD a, b; MyLanczos(v, op, its, a, b, -1.);
  vx_assert(x.rows() == n, "order of the vector"); double s = 0, t = 0, u = 0; for (int i = 0; i < its; ++i) { s += p(i) * p(i); t += a[i] * p(i) * p(i); if (i) t += 2 * b[i] * p(i) * p(i - 1); } for (int i = 0; i < n; ++i) u += x(i) * v(i); vx_assert_eq(u, std::sqrt(quad(v, H, 0)) * p(0), "projection on the starting vector"); vx_assert_eq(quad(x, H, 0), s, "norm of the back-projected vector"); vx_assert_eq(quad(x, H, 1), t, "energy of the back-projected vector"); VX_END(); }
// operator with prescribed answers, one after the other
struct Feed { mutable int k = 0; mutable vector<VectorXd> in; vector<VectorXd> out; int n; VectorXd dot(const VectorXd& v) const { in.push_back(v); return out.at(k++); } int64_t rows() const { return n; } };
// energies 7, then 5, 5 (converged at the third Krylov vector) or decreasing by `step`
static void t_gs(bool vec, int conv) { // conv: iteration (2 or 3) at which the energy stops changing
  vx_generic(1); ST.clear(); smode = 2; nw = 0; int n = 3; Input_t in; addParam(in, "E0tol", "0.25"); addParam(in, "Lantol", "0.000001"); addParam(in, "print", vx_pick("print", 0, 1) ? "T" : "F"); eigMatD H = eigMatD::Zero(n, n); double c1 = vx_real("b1"), c2 = vx_real("b2"); for (int i = 0; i < n; ++i) H(i, i) = vx_real("a"); H(0, 1) = H(1, 0) = c1; H(1, 2) = H(2, 1) = c2; vx_assume(c1 > 1); vx_assume(c2 > 1);
  double e1 = vx_real("e1"), e2 = vx_real("e2"), d = H(0, 0) - e1; EV = {e1, e2, e2}; if (conv == 2) { vx_assume(d <= 0.25 && d >= -0.25); } else { vx_assume(d > 0.25 || d < -0.25); double f = e1 - e2; if (conv == 3) vx_assume(f <= 0.25 && f >= -0.25); else vx_assume(f > 0.25 || f < -0.25); }
  VectorXd v = VectorXd::Zero(n), psi; v(0) = 2; double E0 = 77; eigMatDOp op(H); int64_t its = -1; int want = conv == 2 ? 2 : 3; if (vec) GetGSEnVec_Lanczos(v, op, E0, psi, in); else its = GetGSEn_Lanczos(v, op, E0, psi, in);
  vx_assert((int)ST.size() == want - 1, "iterates until the energy or the residual is below its tolerance"); for (int k = 0; k < want - 1; ++k) { vx_assert(ST[k].n == k + 2, "size of the tridiagonal problem"); for (int i = 0; i < k + 2; ++i) { vx_assert_eq(ST[k].D[i], H(i, i), "diagonal of the tridiagonal problem"); if (i) vx_assert_eq(ST[k].E[i - 1], H(i, i - 1), "off-diagonal of the tridiagonal problem"); } }
  vx_assert_same(E0, conv == 2 ? e1 : e2, "energy of the last tridiagonal problem"); Call& L = ST.back(); vx_assert(psi.rows() == (vec ? n : want), "order of the eigenvector"); if (!vec) vx_assert(its == want, "number of Lanczos vectors"); for (int i = 0; i < psi.rows(); ++i) vx_assert_eq(psi(i), i < want ? L.X[i] : 0., "eigenvector of the lowest eigenvalue"); VX_END(); }
static void t_eigvec(bool vec) { // the starting vector is an eigenvector
  int n = vx_pick("n", 1, 2); eigMatD H = eigMatD::Zero(n, n); for (int i = 0; i < n; ++i) H(i, i) = vx_real("a"); VectorXd v = VectorXd::Zero(n), psi; v(n - 1) = -2; double E0 = 77; eigMatDOp op(H); Input_t in; ST.clear(); if (vec) GetGSEnVec_Lanczos(v, op, E0, psi, in); else vx_assert(GetGSEn_Lanczos(v, op, E0, psi, in) == 1, "one Lanczos vector");
  vx_assert(ST.empty(), "no tridiagonal problem"); vx_assert_eq(E0, H(n - 1, n - 1), "energy of an eigenvector"); vx_assert(psi.rows() == (vec ? n : 1), "order"); if (vec) for (int i = 0; i < n; ++i) vx_assert_eq(psi(i), i == n - 1 ? -1. : 0., "normalised eigenvector"); else vx_assert(psi(0) == 1, "unit coefficient"); VX_END(); }
// H with eigenvalues 25a, 25(a+g) and ground state (3,4)/5
static eigMatD twoH(double a, double g) { eigMatD H(2, 2); H(0, 0) = 25 * a + 16 * g; H(1, 1) = 25 * a + 9 * g; H(0, 1) = H(1, 0) = -12 * g; EV = {25 * a, 25 * (a + g)}; return H; }
static sparsexx::csr_matrix<double, int32_t> csr(int n, const vd& D) { vector<int32_t> rp(1, 0), ci; vd nz; for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) ci.push_back(j), nz.push_back(D[i + j * n]); rp.push_back(ci.size()); } return sparsexx::csr_matrix<double, int32_t>(n, n, std::move(rp), std::move(ci), std::move(nz)); }
typedef sparsexx::dist_sparse_matrix<sparsexx::csr_matrix<double, int32_t>> DM;
static int gn, gb, gits; static bool gpart, gwide; static vd GH; static vvd GV;
static void band_rank(int) { int n = gn; DM H(MPI_COMM_WORLD, csr(n, GH)); vvd q = GV, B(1, vd(5, 3.)); int its = gits; MyBandLan<double>(H, q, B, its, 1e-6, false); vx_assert(q.empty() && its == gits && (int)B.size() == its, "order of the band matrix"); vd s(n, 1.);
  for (int j = gb; j < its; ++j) { double o = GH[j - gb + j * n]; s[j] = o < 0 ? -s[j - gb] : s[j - gb]; } for (int i = 0; i < its; ++i) { vx_assert((int)B[i].size() == its, "square band matrix"); for (int j = 0; j < its; ++j) vx_assert_eq(B[i][j], std::abs(i - j) <= gb ? s[i] * s[j] * GH[i + j * n] : 0., "band matrix is the operator in the Lanczos basis"); } }
static void bandH(int n, int nb) { GH.assign(n * n, 0.); for (int j = 0; j < n; ++j) for (int i = std::max(0, j - nb); i <= j; ++i) { double x = vx_real("H"); GH[i + j * n] = GH[j + i * n] = x; if (i == j - nb) vx_assume(x > 1e-3 || x < -1e-3); } }
static vd DMv; static void dot_rank(int) { DM H(MPI_COMM_WORLD, csr(gn, GH)); SparsexDistSpMatOp op(H); vx_assert(op.rows() == gn, "order"); VectorXd v(gn); for (int i = 0; i < gn; ++i) v(i) = DMv[i]; VectorXd y = op.dot(v); vx_assert(y.rows() == gn, "order"); for (int i = 0; i < gn; ++i) { double s = 0; for (int j = 0; j < gn; ++j) s += GH[i + j * gn] * DMv[j]; vx_assert_eq(y(i), s, "distributed product"); } }
// (x - b) * a == c for complex numbers
static void ceq(cd x, cd y, const char* l) { vx_assert_eq(x.real(), y.real(), l); vx_assert_eq(x.imag(), y.imag(), l); }
static cd mul(cd a, cd b) { return cd(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
static cd W0; static double E00;
static void res_rank(int) { int n = gn; DM H(MPI_COMM_WORLD, csr(n, GH)); vvd q = GV; vector<vvd> dum; vector<vector<vector<cd>>> res; vector<cd> w{W0, cd(40000, 0)}; QI = 1; GA.clear(); ST.clear(); smode = 0; BandResolvent(H, q, w, res, gits, E00, gpart, false); vx_assert(res.size() == 2, "one result per frequency"); int nb = gb;
  for (int j = 0; j < nb; ++j) for (int i = 0; i < n; ++i) vx_assert_same(GA[0][i + j * n], GV[j][i], "vectors handed to the QR decomposition"); double sg = gpart ? -1 : 1;
  if (nb == 1) { double r = RW[0]; cd a = W0 + cd(sg * (GH[0] - E00), 0); if (gits == 1) ceq(mul(res[0][0][0], a), cd(r * r, 0), "resolvent of one vector"); else { double d = W0.real() + sg * (GH[1 + n] - E00), x = GH[1]; ceq(res[0][0][0], cd(r * r / (a.real() - x * x / d), 0), "resolvent element of a two-dimensional operator"); } return; }
  vx_assert(GA.size() == 2 && ST.size() == 1, "one eigenproblem"); for (int i = 0; i < gits; ++i) for (int j = 0; j < gits; ++j) { double o = i == j ? sg * (GH[i + i * n] - E00) : sg * GH[i + j * n]; vx_assert_eq(GA[1][i + j * gits], o, "band matrix is the shifted operator"); } Call& L = ST[0];
  for (int i = 0; i < gits; ++i) vx_assert_same(L.D[i], TW[i], "tridiagonal diagonal"); vd S(gits * nb, 0.); for (int i = 0; i < gits; ++i) for (int k = 0; k < nb; ++k) for (int l = 0; l <= k; ++l) S[i + k * gits] += L.X[l + i * gits] * RW[l + k * n];
  for (int k = 0; k < nb; ++k) for (int l = 0; l < nb; ++l) { double e = 0; for (int i = 0; i < gits; ++i) e += S[i + k * gits] / (W0.real() + L.W[i]) * S[i + l * gits]; ceq(res[0][k][l], cd(e, 0), "resolvent matrix is the spectral sum"); } }
static void t_res(int n, int nb, int its) { vx_generic(1); gn = n; gb = nb; gits = its; gpart = vx_pick("particle", 0, 1); GH.assign(n * n, 0.); for (int j = 0; j < n; ++j) for (int i = std::max(0, j - nb); i <= j; ++i) { double x = vx_real("H"); GH[i + j * n] = GH[j + i * n] = x; if (i == j - nb) vx_assume(x > 1e-3); } GV.assign(nb, vd()); for (auto& v : GV) v = vx_reals("v", n); W0 = cd(vx_real("wr"), 0.); E00 = vx_real("E0"); if (its == 1 && vx_pick("im", 0, 1)) { W0 = cd(3, 2); E00 = 5; GH[0] = vx_pick("h", 5, 7); } vx_mpi_run(1, res_rank); VX_END(); }
static void t_qr(bool tr) { int m = vx_pick("m", 1, 3), n = vx_pick("n", 1, m); vvd A(tr ? n : m, vd(tr ? m : n)), Q, R(4, vd(2, 1.)); for (auto& r : A) for (auto& x : r) x = vx_real("A"); Q = A; GA.clear(); QI = 0; vx_assert(tr ? QRdecomp_tr(Q, R) : QRdecomp(Q, R), "success"); vx_assert(Q.size() == A.size() && (int)R.size() == n, "sizes");
  for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) { vx_assert_same(GA[0][i + j * m], tr ? A[j][i] : A[i][j], "matrix handed to the decomposition"); vx_assert(Q[tr ? j : i].size() == (size_t)(tr ? m : n), "shape of Q"); vx_assert_same(tr ? Q[j][i] : Q[i][j], QW[i + j * m], "Q factor"); } for (int i = 0; i < n; ++i) { vx_assert((int)R[i].size() == n, "shape of R"); for (int j = 0; j < n; ++j) vx_assert_same(R[i][j], j >= i ? RW[i + j * m] : 0., "upper triangular factor"); } VX_END(); }
static void t_eig(bool band) { int n = vx_pick("n", 1, 3), k = band ? vx_pick("k", 0, n - 1) : n - 1; vvd A(n, vd(n)), B, U(9); vd w(7); for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) A[i][j] = A[j][i] = i - j <= k ? vx_real("A") : 0.; B = A; GA.clear(); ST.clear(); smode = 0; vx_assert(band ? GetEigsysBand(B, k, w, U) : GetEigsys(B, w, U), "success"); vx_assert(B.empty() && (int)w.size() == n && (int)U.size() == n && ST.size() == 1, "sizes");
  for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) vx_assert_same(GA[0][i + j * n], A[i][j], "matrix handed to the reduction"); Call& L = ST[0]; vx_assert(L.j == 'V' && L.n == n, "eigenvectors of the original matrix are requested"); for (int i = 0; i < n; ++i) { vx_assert_same(L.D[i], TW[i], "tridiagonal diagonal"); if (i + 1 < n) vx_assert_same(L.E[i], TW[n + i], "tridiagonal off-diagonal"); vx_assert_same(w[i], L.W[i], "eigenvalues in order"); vx_assert((int)U[i].size() == n, "size"); for (int j = 0; j < n; ++j) { vx_assert_same(L.Z[i + j * n], QW[i + j * n], "transformation handed to the tridiagonal solver"); vx_assert_same(U[i][j], L.X[j + i * n], "row i is the eigenvector of eigenvalue i"); } } VX_END(); }
extern "C" {
void atl_lan1() { t_lan(2, 1, vx_pick("start", 0, 1)); }
void atl_lan2() { t_lan(2, 2, vx_pick("start", 0, 1)); }
void atl_lan3() { t_lan(3, 3, vx_pick("start", 0, 1) * 2); }
void atl_back1() { t_back(2, 1, 1); }
void atl_back2() { t_back(2, 2, vx_pick("start", 0, 1)); }
void atl_gs2() { t_gs(false, 2); }
void atl_gs3() { t_gs(false, 3); }
void atl_gs4() { t_gs(false, 4); }
void atl_gsv2() { t_gs(true, 2); }
void atl_gsv3() { t_gs(true, 3); }
void atl_gsv4() { t_gs(true, 4); }
void atl_eigvec() { t_eigvec(false); }
void atl_eigvecv() { t_eigvec(true); }
void atl_full() { vx_generic(2); double l1 = vx_real("l1"), g = vx_real("g"); vx_assume(g >= 1); smode = 1; ST.clear(); eigMatD H = twoH(l1, g); double E0 = 5; VectorXd psi; Input_t in; eigMatDOp op(H); GetGS(op, E0, psi, in, true); vx_assert_eq(E0, 25 * l1, "lowest energy"); vx_assert(psi.rows() == 2, "order"); vx_assert_eq(25 * psi(0) * psi(0), 9, "ground state"); vx_assert_eq(25 * psi(0) * psi(1), 12, "ground state"); vx_assert_eq(25 * psi(1) * psi(1), 16, "ground state"); VX_END(); }
void atl_ed() { // two sites, one electron of each spin: hopping -7g/4 and on-site repulsion 24g give the ground state energy -g/2 and amplitudes (1,7,7,1)/10
  vx_generic(2); double e = 3, g = 2, core = vx_real("core"); smode = 1; ST.clear(); EV = {2 * e - g / 2, 2 * e + 24.5 * g}; vd h{e, -1.75 * g, -1.75 * g, e}, z(16, 0.); z[0] = z[15] = 24 * g; intgrls::integrals J(2, h, z); J.core_energy = core; Input_t in; addParam(in, "norbs", "2"); addParam(in, "nups", "1"); addParam(in, "ndos", "1");
  double E0 = 5; vd a(9, 1.), b(3, 1.); RunED(in, J, E0, a, b); vx_assert_eq(E0, 2 * e - g / 2 + core, "energy includes the core"); vx_assert(a.size() == 4 && b.size() == 16, "sizes"); for (int i = 0; i < 4; ++i) vx_assert_eq(25 * a[i], i % 3 ? 7 : 25, "density"); vx_assert_eq(100 * b[0], 1, "double occupancy"); vx_assert_eq(100 * b[15], 1, "double occupancy"); VX_END(); }
void atl_hste() { int n = vx_pick("n", 1, 3); vd a = vx_reals("a", n), b = vx_reals("b", n + 1); VectorXd w; eigMatD U; ST.clear(); smode = 0; Hste_v(a, b, w, U); vx_assert(ST.size() == 1 && ST[0].j == 'I' && ST[0].n == n && w.rows() == n && U.rows() == n && U.cols() == n, "sizes"); for (int i = 0; i < n; ++i) { vx_assert_same(ST[0].D[i], a[i], "diagonal"); if (i) vx_assert_same(ST[0].E[i - 1], b[i], "off-diagonal"); vx_assert_same(w(i), ST[0].W[i], "eigenvalue"); for (int j = 0; j < n; ++j) vx_assert_same(U(j, i), ST[0].X[j + i * n], "eigenvector column"); } VX_END(); }
void atl_hsyev() { int n = vx_pick("n", 1, 3); eigMatD H = symH(n), H0 = H, U; VectorXd w; SY.clear(); Hsyev(H, w, U); vx_assert(SY.size() == 1 && w.rows() == n && U.rows() == n && U.cols() == n, "sizes"); for (int i = 0; i < n; ++i) { vx_assert_same(w(i), SY[0].W[n - 1 - i], "eigenvalues, largest first"); for (int j = 0; j < n; ++j) { vx_assert_same(SY[0].Z[i + j * n], H0(i, j), "matrix"); vx_assert_same(U(j, i), SY[0].X[j + (n - 1 - i) * n], "eigenvector belongs to its eigenvalue"); } } VX_END(); }
void atl_qr() { t_qr(false); }
void atl_qr_tr() { t_qr(true); }
void atl_eigsys() { t_eig(false); }
void atl_eigband() { t_eig(true); }
void atl_ops() { int n = vx_pick("n", 1, 3); eigMatD H = symH(n); SpMatD S(n, n); VectorXd v(n); for (int i = 0; i < n; ++i) { v(i) = vx_real("v"); for (int j = 0; j < n; ++j) if ((i + j) % 2 == 0) S.insert(i, j) = H(i, j); } SpMatDOp a(S); eigMatDOp b(H); VectorXd x = a.dot(v), y = b.dot(v); vx_assert(a.rows() == n && b.rows() == n && x.rows() == n && y.rows() == n, "orders"); for (int i = 0; i < n; ++i) { double s = 0, t = 0; for (int j = 0; j < n; ++j) { t += H(i, j) * v(j); if ((i + j) % 2 == 0) s += H(i, j) * v(j); } vx_assert_eq(x(i), s, "sparse product"); vx_assert_eq(y(i), t, "dense product"); } VX_END(); }
void atl_dist() { gn = vx_pick("n", 1, 3); GH = vx_reals("H", gn * gn); DMv = vx_reals("v", gn); vx_mpi_run(1, dot_rank); VX_END(); }
void atl_band1() { vx_generic(1); gn = 3; gb = 1; gits = vx_pick("its", 1, 3); bandH(gn, gb); GV = {{1, 0, 0}}; vx_mpi_run(1, band_rank); VX_END(); }
void atl_band2() { vx_generic(1); gn = 4; gb = 2; gits = vx_pick("its", 2, 4); bandH(gn, gb); GV = {{1, 0, 0, 0}, {0, 1, 0, 0}}; vx_mpi_run(1, band_rank); VX_END(); }
void atl_res1() { t_res(2, 1, 1); }
void atl_res2() { t_res(2, 1, 2); }
void atl_res22() { t_res(2, 2, 2); }
void atl_res23() { t_res(3, 2, 3); }
}
