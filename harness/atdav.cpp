// P51: legacy Davidson eigensolver (attic/inc/dbwy/davidson.hpp).  The dense eigenproblem inside returns arbitrary numbers, so
// everything proved about the solver holds whatever LAPACK returns; the random start vector is scripted.
#include "spx_ref.hpp"
#include <algorithm>
#include <cmath>
#include <chrono>
#include <iomanip>
#include <iostream>
#include <random>
#include <sparsexx/matrix_types/dist_sparse_matrix.hpp>
#include <sparsexx/spblas/spmbv.hpp>
#include <sparsexx/spblas/pspmbv.hpp>
#include <sparsexx/util/submatrix.hpp>
void vx_mpi_run(int np, void (*fn)(int)); extern int vx_mpi_late;
typedef std::vector<double> vd; using T = int32_t; using DM = sparsexx::dist_sparse_matrix<Csr<T>>;
static int me() { int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); return r; }
static std::vector<vd> PIN; static std::vector<vd> SV; static int NSV[4];
namespace std { template <class R = double> struct vx_normal { vx_normal(R, R) {} template <class G> R operator()(G&) { int r = me(); vx_assert(NSV[r] < (int)SV[r].size(), "one random number per row"); return SV[r][NSV[r]++]; } }; }
namespace sparsexx { namespace spblas {
template <class M, class I> void vx_pgespmv(double al, const M& A, const double* V, double be, double* AV, const I& info) { vx_assert(al == 1 && be == 0, "fresh products"); int n = A.local_row_extent(); PIN[me()].insert(PIN[me()].end(), V, V + n); pgespmv(al, A, V, be, AV, info); }
template <class M> void vx_gespmbv(size_t k, double al, const M& A, const double* V, size_t ldv, double be, double* AV, size_t lda) { vx_assert(k == 1 && al == 1 && be == 0, "fresh products"); PIN[0].insert(PIN[0].end(), V, V + A.n()); gespmbv(k, al, A, V, ldv, be, AV, lda); } } }
#define normal_distribution vx_normal
#define pgespmv vx_pgespmv
#define gespmbv vx_gespmbv
#include "dbwy/davidson.hpp"
#undef normal_distribution
#undef pgespmv
#undef gespmbv
struct Eig { int n; vd A, W, C; }; static std::vector<Eig> EG; static int hmode, hrank; static bool multi;
// mode 0: symbolic lowest pair; mode 1: every eigenvalue and vector symbolic
static void hook(int64_t n, double* A, int64_t lda, double* W) { if (multi) hrank |= 1 << me(); Eig e; e.n = n; e.A.assign(n * n, 0); e.W.assign(n, 0); e.C.assign(n * n, 0); for (int j = 0; j < n; ++j) for (int i = j; i < n; ++i) e.A[i + j * n] = e.A[j + i * n] = A[i + j * lda];
  for (int j = 0; j < n; ++j) { bool s = hmode == 1 || j == 0; e.W[j] = s ? vx_real("lam") : 10. + j; for (int i = 0; i < n; ++i) e.C[i + j * n] = s ? vx_real("c") : (i == j); } for (int j = 0; j < n; ++j) { W[j] = e.W[j]; for (int i = 0; i < n; ++i) A[i + j * lda] = e.C[i + j * n]; } EG.push_back(e); }
static double dot(const vd& a, const vd& b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
// ---------------------------------------------------------------- orthogonalisation and the projected problem
static vd OLD, NEW, GE; static int gK, gN, gPad; static std::vector<int> SPLIT; static double gnrm;
static void split(int np, int n) { SPLIT.assign(1, 0); for (int r = 0; r < np; ++r) SPLIT.push_back(r == np - 1 ? n : vx_pick("split", SPLIT.back(), n)); }
static void gs_setup(int K) { vx_generic(1); bool had = vx_pick("basis", 0, 1); gN = had ? 4 : 3; gK = K; OLD.assign(gN * K, 0); static const int H[4][4] = {{1, 1, 1, 1}, {1, -1, 1, -1}, {-1, -1, 1, 1}, {1, -1, -1, 1}}; for (int k = 0; k < K; ++k) { if (had) for (int i = 0; i < 4; ++i) OLD[i + 4 * k] = H[k][i] / 2.; else OLD[(k * 2 + 1) % 3 + 3 * k] = k ? -1 : 1; }
  NEW = vx_reals("x", gN); GE = NEW; for (int k = 0; k < K; ++k) { double q = 0; for (int i = 0; i < gN; ++i) q += OLD[i + gN * k] * NEW[i]; for (int i = 0; i < gN; ++i) GE[i] -= q * OLD[i + gN * k]; } double d = 0; for (double e : GE) d += e * e; gnrm = std::sqrt(d); }
static void gs(int K) { gs_setup(K); int pad = vx_pick("pad", 0, 1), ld = gN + pad; vd V(ld * K, 7), o; for (int k = 0; k < K; ++k) for (int i = 0; i < gN; ++i) V[i + k * ld] = OLD[i + gN * k]; o = V; vd x = NEW; x.push_back(5); gram_schmidt(gN, K, V.data(), ld, x.data()); double f = 1 / gnrm; for (int i = 0; i < gN; ++i) vx_assert_eq(x[i], f * GE[i], "new vector is the normalised component outside the old space"); vx_assert_eq(x[gN], 5, "vector length"); for (size_t i = 0; i < V.size(); ++i) vx_assert_eq(V[i], o[i], "old vectors unchanged"); VX_END(); }
static void pgs_rank(int r) { int lo = SPLIT[r], hi = SPLIT[r + 1], n = hi - lo, ld = std::max(1, n + gPad); vd V(ld * gK, 7), x(n + 1, 5); for (int k = 0; k < gK; ++k) for (int i = 0; i < n; ++i) V[i + k * ld] = OLD[lo + i + gN * k]; for (int i = 0; i < n; ++i) x[i] = NEW[lo + i]; p_gram_schmidt(n, gK, V.data(), ld, x.data(), MPI_COMM_WORLD); double f = 1 / gnrm; for (int i = 0; i < n; ++i) vx_assert_eq(x[i], f * GE[lo + i], "distributed orthogonalisation equals the serial one"); vx_assert_eq(x[n], 5, "vector length"); }
static void pgs(int np, int K) { gs_setup(K); gPad = vx_pick("pad", 0, 2); split(np, gN); vx_mpi_run(np, pgs_rank); VX_END(); }
static vd RX, RAX; static int rN, rK;
static void prr_rank(int r) { int lo = SPLIT[r], n = SPLIT[r + 1] - lo, ld = n + 1, la = n + 2; vd X(ld * rK, 9), A(la * rK, 8), C(rK * rK), W(rK); for (int k = 0; k < rK; ++k) for (int i = 0; i < n; ++i) X[i + k * ld] = RX[lo + i + k * rN], A[i + k * la] = RAX[lo + i + k * rN];
  p_rayleigh_ritz(n, rK, X.data(), ld, A.data(), la, W.data(), C.data(), rK, MPI_COMM_WORLD); for (int j = 0; j < rK; ++j) { vx_assert_eq(W[j], EG[0].W[j], "all ranks hold the Ritz values"); for (int i = 0; i < rK; ++i) vx_assert_eq(C[i + j * rK], EG[0].C[i + j * rK], "all ranks hold the Ritz vectors"); } }
static void prr(int np, int N, int K) { hmode = 1; EG.clear(); multi = true; hrank = 0; lapack::syev_hook = hook; rN = N; rK = K; RX = vx_reals("x", N * K); RAX = vx_reals("a", N * K); split(np, N); vx_mpi_run(np, prr_rank); lapack::syev_hook = nullptr; vx_assert(EG.size() == 1, "solved once for all ranks"); for (int j = 0; j < K; ++j) for (int i = j; i < K; ++i) { double s = 0; for (int q = 0; q < N; ++q) s += RX[q + i * N] * RAX[q + j * N]; vx_assert_eq(EG[0].A[i + j * K], s, "projected matrix sums over all ranks"); } VX_END(); }
// ---------------------------------------------------------------- the solver
static Pat* GP; static vd mul(const vd& x) { Pat& P = *GP; vd y(P.m); for (int i = 0; i < P.m; ++i) for (int j = 0; j < P.n; ++j) if (P.at(i, j)) y[i] += P.val(i, j) * x[j]; return y; }
// symmetric matrix: dense (0), with the couplings of a chain only (1), a chain with two arbitrary entries (2)
static Pat sym(int n, int chain) { Pat P(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) if (i == j || !chain || i - j == 1) { P.s[i * n + j] = P.s[j * n + i] = 1; P.v[i * n + j] = P.v[j * n + i] = chain == 2 && i > 1 ? (i == j ? i + 2. : 1. - i) : chain == 2 && j < i ? 1. : vx_real("A"); } return P; }
static bool LOOSE; // inexact start vector: only its norm is decided
// independent replay of the subspace iteration from the recorded start vector and the prescribed Ritz pairs
static void replay(const std::vector<vd>& in, int max_m, double tol, double lam, const vd* X) { int n = GP->m; vx_assert(!in.empty(), "operator applied"); vd V0 = in[0]; double nn = dot(V0, V0); vx_assert(nn > 1 - 1e-12 && nn < 1 + 1e-12, "start vector has unit norm over all ranks"); if (LOOSE) return;
  std::vector<vd> V{V0}, AV{mul(V0)}; double l = dot(V[0], AV[0]); vd r(n), x = V0; for (int i = 0; i < n; ++i) r[i] = AV[0][i] - l * x[i]; bool conv = std::sqrt(dot(r, r)) < tol; size_t used = 1; max_m = std::min(max_m, n); if (!conv) { r = AV[0]; gram_schmidt(n, 1, V[0].data(), n, r.data()); }
  for (int k = 2; !conv && k <= max_m; ++k) { vx_assert((int)in.size() >= k && (int)EG.size() >= k - 1, "one Ritz problem per basis vector"); for (int i = 0; i < n; ++i) vx_assert_eq(in[k - 1][i], r[i], "basis is expanded by the orthogonalised preconditioned residual"); V.push_back(r); AV.push_back(mul(r)); used = k; Eig& e = EG[k - 2]; vx_assert(e.n == k, "Ritz problem dimension"); for (int j = 0; j < k; ++j) for (int i = j; i < k; ++i) vx_assert_eq(e.A[i + j * k], dot(V[i], AV[j]), "projected matrix");
    x.assign(n, 0); vd y(n); for (int j = 0; j < k; ++j) for (int i = 0; i < n; ++i) x[i] += V[j][i] * e.C[j], y[i] += AV[j][i] * e.C[j]; l = e.W[0]; for (int i = 0; i < n; ++i) r[i] = y[i] - l * x[i]; conv = std::sqrt(dot(r, r)) < tol; if (conv || k == max_m) break; vd f; for (auto& v : V) f.insert(f.end(), v.begin(), v.end()); for (int i = 0; i < n; ++i) r[i] = -r[i] / ((GP->at(i, i) ? GP->val(i, i) : 0.) - l); gram_schmidt(n, k, f.data(), n, r.data()); }
  vx_assert(in.size() == used, "stops exactly when the residual is below the tolerance or the subspace is full"); vx_assert_eq(lam, l, "lowest Ritz value"); if (X) for (int i = 0; i < n; ++i) vx_assert_eq((*X)[i], x[i], "lowest Ritz vector"); }
static void dav(int n, int mm, bool chain) { vx_generic(1); hmode = 0; multi = false; EG.clear(); PIN.assign(1, {}); Pat P = sym(n, chain); GP = &P; auto A = mk_csr<T>(P, vx_pick("ix", 0, 1)); double tol = vx_real("tol"); vx_assume(tol > 0); lapack::syev_hook = hook; double lam = davidson(mm, A, tol); lapack::syev_hook = nullptr; std::vector<vd> in; for (size_t k = 0; k + n <= PIN[0].size(); k += n) in.push_back(vd(PIN[0].begin() + k, PIN[0].begin() + k + n));
  int b = 0; for (int i = 0; i < n; ++i) if (P.val(i, i) < P.val(b, b)) b = i; vx_assert(!in.empty(), "operator applied"); for (int i = 0; i < n; ++i) vx_assert_eq(in[0][i], i == b ? 1. : 0., "starts at the lowest diagonal element"); replay(in, mm, tol, lam, nullptr); VX_END(); }
static double TOL; static int MM; static bool WX, DFLT; static vd LAM, XR;
static void pdav_rank(int r) { auto A = mk_csr<T>(*GP, 0); std::vector<std::pair<T, T>> ex; for (size_t q = 0; q + 1 < SPLIT.size(); ++q) ex.push_back({SPLIT[q], SPLIT[q + 1]}); DM S = DFLT ? DM(MPI_COMM_WORLD, A) : DM(MPI_COMM_WORLD, A, ex); int lo = S.local_row_start(), n = S.local_row_extent(); vx_assert(lo == SPLIT[r] && n == SPLIT[r + 1] - lo, "distribution"); vd X(n + 1, 3); LAM[r] = p_davidson(MM, S, TOL, WX ? X.data() : nullptr, false); std::copy(X.begin(), X.begin() + n, XR.begin() + lo); vx_assert_eq(X[n], 3, "local length"); }
// kind 0: a coordinate axis; 1: all components equal; 2: 1, 2, -1, 3
static void pdav(int np, int n, int mm, int dflt, int chain, int kind) { vx_generic(1); hmode = 0; multi = true; hrank = 0; EG.clear(); Pat P = sym(n, chain); GP = &P; DFLT = dflt; if (dflt) { SPLIT.assign(1, 0); for (int r = 0; r < np; ++r) SPLIT.push_back(r == np - 1 ? n : (n / np) * (r + 1)); } else split(np, n);
  vd s(n, 0.); static const int K2[4] = {1, 2, -1, 3}; if (kind == 0) s[vx_pick("at", 0, 1) * (n - 1)] = 1; else for (int i = 0; i < n; ++i) s[i] = kind == 1 ? 1 : K2[i]; SV.assign(np, {}); for (int r = 0; r < np; ++r) { NSV[r] = 0; for (int i = SPLIT[r]; i < SPLIT[r + 1]; ++i) SV[r].push_back(s[i] - (i == SPLIT[r])); }
  PIN.assign(np, {}); LAM.assign(np, 0.); XR.assign(n, 0.); TOL = vx_real("tol"); vx_assume(TOL > 0); MM = mm; WX = vx_pick("vector", 0, 1); lapack::syev_hook = hook; vx_mpi_run(np, pdav_rank); lapack::syev_hook = nullptr; vx_assert(hrank == 0 || hrank == 1, "the projected problem is solved on one rank");
  size_t q = 0; for (int r = 0; r < np; ++r) if (SPLIT[r + 1] > SPLIT[r]) q = PIN[r].size() / (SPLIT[r + 1] - SPLIT[r]); std::vector<vd> in(q, vd(n)); for (int r = 0; r < np; ++r) { int m = SPLIT[r + 1] - SPLIT[r]; vx_assert(PIN[r].size() == q * m, "all ranks iterate in step"); vx_assert_eq(LAM[r], LAM[0], "all ranks return the same eigenvalue"); for (size_t k = 0; k < q; ++k) for (int i = 0; i < m; ++i) in[k][SPLIT[r] + i] = PIN[r][k * m + i]; }
  replay(in, mm, TOL, LAM[0], WX ? &XR : nullptr); VX_END(); }
extern "C" {
void ad_gs1() { gs(1); }
void ad_gs2() { gs(2); }
void ad_pgs1() { pgs(1, 2); }
void ad_pgs2() { pgs(2, vx_pick("K", 1, 2)); }
void ad_pgs3() { pgs(3, 2); }
void ad_prr2() { prr(2, 3, 2); }
void ad_prr3() { prr(3, 2, 2); }
void ad_1() { dav(1, vx_pick("m", 1, 2), false); }
void ad_2() { dav(2, vx_pick("m", 1, 3), false); }
void ad_32() { dav(3, 2, true); }
void ad_p1() { pdav(1, vx_pick("n", 1, 2), vx_pick("m", 1, 3), 1, 0, 0); }
void ad_p2() { vx_mpi_late = VX_TIER > 1 ? -1 : 1; pdav(2, 2, 2, 0, 0, 0); }
void ad_start() { int n = vx_pick("n", 3, 4); LOOSE = true; vx_mpi_late = VX_TIER > 1 ? -1 : 1; pdav(vx_pick("np", 2, 3), n, 1, 1, 2, vx_pick("kind", 1, 2)); }
void ad_p24() { pdav(2, 4, 2, 1, 2, 1); }
void ad_p23() { pdav(2, 3, 2, 1, 0, 0); }
void ad_p3() { vx_mpi_late = VX_TIER > 1 ? -1 : 1; pdav(3, 3, 2, 0, 1, 0); }
void ad_p32() { pdav(3, 2, 2, 1, 0, 1); }
}
