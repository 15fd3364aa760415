// P28, P38: Davidson and LOBPCG eigensolvers.  The dense symmetric eigenproblem inside is prescribed: it returns arbitrary numbers,
// so everything proved about the drivers holds whatever LAPACK returns.
#include "spx_ref.hpp"
#include <cmath>
#include <chrono>
#include <sparsexx/matrix_types/dist_sparse_matrix.hpp>
#include <sparsexx/util/submatrix.hpp>
#include <macis/solvers/davidson.hpp>
namespace macis { // the CI drivers hand over to recording stand-ins of the two eigensolvers
template <class F> std::pair<size_t, double> vx_sdav(int64_t N, int64_t mm, const F& op, const double* D, double tol, double* X); template <class F> std::pair<int64_t, double> vx_pdav(int64_t N, int64_t mm, const F& op, const double* D, double tol, double* X, MPI_Comm c); }
#define davidson vx_sdav
#define p_davidson vx_pdav
#include <macis/solvers/selected_ci_diag.hpp>
#undef davidson
#undef p_davidson
#include "ham_ref.hpp"
#include <macis/hamiltonian_generator/double_loop.hpp>
void vx_mpi_run(int np, void (*fn)(int)); extern int vx_mpi_late;
typedef std::vector<double> vd; using T = int32_t; using DM = sparsexx::dist_sparse_matrix<Csr<T>>;
template <class F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
struct Eig { int n; vd A, W, C; }; static std::vector<Eig> EG; static int hmode, hrank, me = 0; static bool multi;
// mode 0: symbolic lowest pair; mode 1: every eigenvalue and vector symbolic
static void hook(int64_t n, double* A, int64_t lda, double* W) { if (multi) { int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); hrank |= 1 << r; } Eig e; e.n = n; e.A.assign(n * n, 0); e.W.assign(n, 0); e.C.assign(n * n, 0); for (int j = 0; j < n; ++j) for (int i = j; i < n; ++i) e.A[i + j * n] = e.A[j + i * n] = A[i + j * lda];
  for (int j = 0; j < n; ++j) { bool s = hmode == 1 || j == 0; e.W[j] = s ? vx_real("lam") : 10. + j; for (int i = 0; i < n; ++i) e.C[i + j * n] = s ? vx_real("c") : (i == j); } for (int j = 0; j < n; ++j) { W[j] = e.W[j]; for (int i = 0; i < n; ++i) A[i + j * lda] = e.C[i + j * n]; } EG.push_back(e); }
static double dot(const vd& a, const vd& b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
struct Sym { int n; vd A; Sym(int n_) : n(n_), A(n_ * n_) { for (int j = 0; j < n; ++j) for (int i = 0; i <= j; ++i) A[i + j * n] = A[j + i * n] = vx_real("A"); } vd mul(const vd& x) const { vd y(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) y[i] += A[i + j * n] * x[j]; return y; } };
// ---------------------------------------------------------------- orthogonalisation
// exactly orthonormal old vectors (coordinate axes of R^3, or half the Hadamard vectors of R^4) and an arbitrary new vector
static vd OLD, NEW, GE; static int gK, gN, gPad; static std::vector<int> SPLIT; static double gnrm;
static void gs_setup(int K) { vx_generic(1); bool had = vx_pick("basis", 0, 1); gN = had ? 4 : 3; gK = K; OLD.assign(gN * K, 0); static const int H[4][4] = {{1, 1, 1, 1}, {1, -1, 1, -1}, {-1, -1, 1, 1}, {1, -1, -1, 1}}; for (int k = 0; k < K; ++k) { if (had) for (int i = 0; i < 4; ++i) OLD[i + 4 * k] = H[k][i] / 2.; else OLD[(k * 2 + 1) % 3 + 3 * k] = k ? -1 : 1; }
  NEW = vx_reals("x", gN); GE = NEW; for (int k = 0; k < K; ++k) { double q = 0; for (int i = 0; i < gN; ++i) q += OLD[i + gN * k] * NEW[i]; for (int i = 0; i < gN; ++i) GE[i] -= q * OLD[i + gN * k]; } double d = 0; for (double e : GE) d += e * e; gnrm = std::sqrt(d); }
static void gs(int K) { gs_setup(K); int pad = vx_pick("pad", 0, 1), ld = gN + pad; vd V(ld * K, 7), o; for (int k = 0; k < K; ++k) for (int i = 0; i < gN; ++i) V[i + k * ld] = OLD[i + gN * k]; o = V; vd x = NEW; x.push_back(5); macis::gram_schmidt(gN, K, V.data(), ld, x.data()); double f = 1 / gnrm; for (int i = 0; i < gN; ++i) vx_assert_eq(x[i], f * GE[i], "new vector is the normalised component outside the old space"); vx_assert_eq(x[gN], 5, "vector length"); for (size_t i = 0; i < V.size(); ++i) vx_assert_eq(V[i], o[i], "old vectors unchanged"); VX_END(); }
static void pgs_rank(int r) { int lo = SPLIT[r], hi = SPLIT[r + 1], n = hi - lo, ld = std::max(1, n + gPad); vd V(ld * gK, 7), x(n + 1, 5); for (int k = 0; k < gK; ++k) for (int i = 0; i < n; ++i) V[i + k * ld] = OLD[lo + i + gN * k]; for (int i = 0; i < n; ++i) x[i] = NEW[lo + i]; macis::p_gram_schmidt(n, gK, V.data(), ld, x.data(), MPI_COMM_WORLD); double f = 1 / gnrm; for (int i = 0; i < n; ++i) vx_assert_eq(x[i], f * GE[lo + i], "distributed orthogonalisation equals the serial one"); vx_assert_eq(x[n], 5, "vector length"); }
static void split(int np, int n) { SPLIT.assign(1, 0); for (int r = 0; r < np; ++r) SPLIT.push_back(r == np - 1 ? n : vx_pick("split", SPLIT.back(), n)); }
static void pgs(int np, int K) { gs_setup(K); gPad = vx_pick("pad", 0, 2); split(np, gN); vx_mpi_run(np, pgs_rank); VX_END(); }
// ---------------------------------------------------------------- Rayleigh-Ritz
static vd RX, RAX; static int rN, rK;
static void rr(int N, int K) { hmode = 1; EG.clear(); lapack::syev_hook = hook; int px = vx_pick("padX", 0, 1), pa = vx_pick("padA", 0, 1), pc = vx_pick("padC", 0, 1); vd X = vx_reals("x", (N + px) * K), A = vx_reals("a", (N + pa) * K), C(K * (K + pc), 3), W(K + 1, 4); lobpcgxx::rayleigh_ritz(N, K, X.data(), N + px, A.data(), N + pa, W.data(), C.data(), K + pc); lapack::syev_hook = nullptr; vx_assert(EG.size() == 1 && EG[0].n == K, "one projected eigenproblem");
  for (int j = 0; j < K; ++j) { for (int i = j; i < K; ++i) { double s = 0; for (int q = 0; q < N; ++q) s += X[q + i * (N + px)] * A[q + j * (N + pa)]; vx_assert_eq(EG[0].A[i + j * K], s, "projected matrix is X^T A X"); } vx_assert_eq(W[j], EG[0].W[j], "Ritz values"); for (int i = 0; i < K; ++i) vx_assert_eq(C[i + j * (K + pc)], EG[0].C[i + j * K], "Ritz vectors"); if (pc) vx_assert_eq(C[K + j * (K + 1)], 3, "padding"); } vx_assert_eq(W[K], 4, "length"); VX_END(); }
static void prr_rank(int r) { int lo = SPLIT[r], n = SPLIT[r + 1] - lo, ld = n + 1, la = n + 2; vd X(ld * rK, 9), A(la * rK, 8), C(rK * rK), W(rK); for (int k = 0; k < rK; ++k) for (int i = 0; i < n; ++i) X[i + k * ld] = RX[lo + i + k * rN], A[i + k * la] = RAX[lo + i + k * rN];
  macis::p_rayleigh_ritz(n, rK, X.data(), ld, A.data(), la, W.data(), C.data(), rK, MPI_COMM_WORLD); for (int j = 0; j < rK; ++j) { vx_assert_eq(W[j], EG[0].W[j], "all ranks hold the Ritz values"); for (int i = 0; i < rK; ++i) vx_assert_eq(C[i + j * rK], EG[0].C[i + j * rK], "all ranks hold the Ritz vectors"); } }
static void prr(int np, int N, int K) { hmode = 1; EG.clear(); multi = true; hrank = 0; lapack::syev_hook = hook; rN = N; rK = K; RX = vx_reals("x", N * K); RAX = vx_reals("a", N * K); split(np, N); vx_mpi_run(np, prr_rank); lapack::syev_hook = nullptr; vx_assert(EG.size() == 1, "solved once for all ranks"); for (int j = 0; j < K; ++j) for (int i = j; i < K; ++i) { double s = 0; for (int q = 0; q < N; ++q) s += RX[q + i * N] * RAX[q + j * N]; vx_assert_eq(EG[0].A[i + j * K], s, "projected matrix sums over all ranks"); } VX_END(); }
// ---------------------------------------------------------------- guesses and operators
static Pat* GP; static vd GX;
static int lowest(Pat& P) { int b = 0; for (int i = 0; i < P.m; ++i) { double d = P.at(i, i) ? P.val(i, i) : 0, e = P.at(b, b) ? P.val(b, b) : 0; if (d < e) b = i; } return b; }
static Pat sq_pat(int n, int bits) { Pat P(n, n); uint64_t w = bits ? vx_concretize(vx_int_("pattern", bits)) : 0; for (int q = 0; q < n * n; ++q) P.s[q] = q < bits ? w >> q & 1 : (q % 3 != 1 || q % (n + 1) == 0); for (int q = 0; q < n * n; ++q) if (P.s[q]) P.v[q] = vx_real("a"); return P; }
static void guess(int n, int bits) { Pat P = sq_pat(n, bits); auto A = mk_csr<T>(P, 0); vd X = vx_reals("x", n); macis::diagonal_guess(n, A, X.data()); int b = lowest(P); for (int i = 0; i < n; ++i) vx_assert_eq(X[i], i == b ? 1. : 0., "guess is the unit vector of the lowest diagonal element"); VX_END(); }
static std::vector<std::pair<T, T>> ext() { std::vector<std::pair<T, T>> e; for (size_t r = 0; r + 1 < SPLIT.size(); ++r) e.push_back({SPLIT[r], SPLIT[r + 1]}); return e; }
static bool DFLT; static DM mkd() { auto A = mk_csr<T>(*GP, 0); return DFLT ? DM(MPI_COMM_WORLD, A) : DM(MPI_COMM_WORLD, A, ext()); }
static void pguess_rank(int r) { DM S = mkd(); int lo = S.local_row_start(), n = S.local_row_extent(); vd X(n + 1, 6); macis::p_diagonal_guess(n, S, X.data()); int b = lowest(*GP); for (int i = 0; i < n; ++i) vx_assert_eq(X[i], lo + i == b ? 1. : 0., "distributed guess is the unit vector of the lowest diagonal element"); vx_assert_eq(X[n], 6, "local length"); }
static void pguess(int np, int n, bool dflt) { Pat P = sq_pat(n, 0); GP = &P; DFLT = dflt; if (!dflt) split(np, n); vx_mpi_run(np, pguess_rank); VX_END(); }
static void sop(int m, int n, int K) { Pat P(m, n); uint64_t w = vx_concretize(vx_int_("pattern", m * n)); for (int q = 0; q < m * n; ++q) if ((P.s[q] = w >> q & 1)) P.v[q] = vx_real("a"); auto A = mk_csr<T>(P, vx_pick("ix", 0, 1)); int pv = vx_pick("padV", 0, 1), pa = vx_pick("padAV", 0, 1); vd V = vx_reals("v", (n + pv) * K), Y = vx_reals("y", (m + pa) * K), Y0 = Y; double al = vx_real("al"), be = vx_real("be"); macis::SparseMatrixOperator op(A); op.operator_action(K, al, V.data(), n + pv, be, Y.data(), m + pa);
  for (int k = 0; k < K; ++k) { for (int i = 0; i < m; ++i) { double s = 0; for (int j = 0; j < n; ++j) if (P.at(i, j)) s += P.val(i, j) * V[j + k * (n + pv)]; vx_assert_eq(Y[i + k * (m + pa)], al * s + be * Y0[i + k * (m + pa)], "operator action is alpha A V + beta AV"); } if (pa) vx_assert_eq(Y[m + k * (m + 1)], Y0[m + k * (m + 1)], "padding"); } VX_END(); }
// ---------------------------------------------------------------- Davidson
// CUT: products with later basis vectors are arbitrary vectors (any operator) instead of A v
static bool CUT = false;
struct Op { const Sym* S; mutable std::vector<vd> in, out; void operator_action(size_t m, double al, const double* V, size_t LDV, double be, double* AV, size_t LDAV) const { vx_assert(m == 1 && al == 1 && be == 0, "one fresh product per iteration"); vd v(V, V + S->n), a = in.empty() || !CUT ? S->mul(v) : vx_reals("av", S->n); in.push_back(v); out.push_back(a); std::copy(a.begin(), a.end(), AV); } };
// independent replay of the subspace iteration from the recorded basis and the prescribed Ritz pairs
static void replay(const Sym& S, const std::vector<vd>* out, const vd& D, const vd& X0, const std::vector<vd>& in, int max_m, double tol, bool ok, size_t iter, double lam, const vd& X) { int n = S.n; vx_assert(!in.empty(), "operator applied"); std::vector<vd> V{X0}, AV{S.mul(X0)}; for (int i = 0; i < n; ++i) vx_assert_eq(in[0][i], X0[i], "first basis vector is the guess");
  double l = dot(V[0], AV[0]); vd r(n), x = X0; for (int i = 0; i < n; ++i) r[i] = AV[0][i] - l * x[i]; bool conv = std::sqrt(dot(r, r)) < tol; size_t it = 0; if (!conv) { r = AV[0]; macis::gram_schmidt(n, 1, V[0].data(), n, r.data()); }
  for (int k = 2; !conv && k <= max_m; ++k) { vx_assert((int)in.size() >= k && (int)EG.size() >= k - 1, "one Ritz problem per basis vector"); for (int i = 0; i < n; ++i) vx_assert_eq(in[k - 1][i], r[i], "basis is expanded by the orthogonalised preconditioned residual"); V.push_back(r); AV.push_back(out ? (*out)[k - 1] : S.mul(r)); Eig& e = EG[k - 2]; vx_assert(e.n == k, "Ritz problem dimension"); for (int j = 0; j < k; ++j) for (int i = j; i < k; ++i) vx_assert_eq(e.A[i + j * k], dot(V[i], AV[j]), "projected matrix");
    x.assign(n, 0); vd y(n); for (int j = 0; j < k; ++j) for (int i = 0; i < n; ++i) x[i] += V[j][i] * e.C[j], y[i] += AV[j][i] * e.C[j]; l = e.W[0]; for (int i = 0; i < n; ++i) r[i] = y[i] - l * x[i]; ++it; conv = std::sqrt(dot(r, r)) < tol; if (conv || k == max_m) break; vd f; for (auto& v : V) f.insert(f.end(), v.begin(), v.end()); for (int i = 0; i < n; ++i) r[i] = -r[i] / (D[i] - l); macis::gram_schmidt(n, k, f.data(), n, r.data()); }
  vx_assert(ok == conv, "returns exactly when the residual is below the tolerance"); if (ok) { vx_assert(iter == it, "iteration count"); vx_assert_eq(lam, l, "lowest Ritz value"); vd y = CUT ? vd() : S.mul(X); for (int i = 0; i < n; ++i) vx_assert_eq(X[i], x[i], "lowest Ritz vector"); if (CUT) return; for (int i = 0; i < n; ++i) y[i] -= lam * X[i]; vx_assert(std::sqrt(dot(y, y)) < tol, "returned pair solves the eigenproblem within the tolerance"); } }
static void dav(int n, int max_m, bool unit) { vx_generic(1); hmode = 0; multi = false; EG.clear(); Sym S(n); vd D(n), X = unit ? vd(n) : vx_reals("x", n), X0; if (unit) X[vx_pick("at", 0, n - 1)] = 1; X0 = X; for (int i = 0; i < n; ++i) D[i] = S.A[i * (n + 1)]; double tol = vx_real("tol"); vx_assume(tol > 0); lapack::syev_hook = hook; Op op{&S}; size_t it = 0; double lam = 0; bool ok = true; try { auto [i, l] = macis::davidson(n, max_m, op, D.data(), tol, X.data()); it = i; lam = l; } catch (std::runtime_error&) { ok = false; } lapack::syev_hook = nullptr;
  replay(S, &op.out, D, X0, op.in, std::min(max_m, n), tol, ok, it, lam, X); VX_END(); }
static void dav_null() { Sym S(2); Op op{&S}; vd D(2); vx_assert(throws([&] { macis::davidson(2, 2, op, D.data(), 1e-8, (double*)nullptr); }), "a missing guess is rejected"); VX_END(); }
static Sym* PS; static vd PX, PD, PRES; static double PTOL; static int PM; static std::vector<std::vector<vd>> PIN; static std::vector<int> POK; static std::vector<long> PIT; static vd PLAM;
static void pdav_rank(int r) { DM S = mkd(); int lo = S.local_row_start(), n = S.local_row_extent(); macis::SparseMatrixOperator op(S); struct R { macis::SparseMatrixOperator<DM>& o; int r, n; void operator_action(size_t m, double al, const double* V, size_t ldv, double be, double* AV, size_t lda) const { PIN[r].push_back(vd(V, V + n)); o.operator_action(m, al, V, ldv, be, AV, lda); } } f{op, r, n};
  vd X(PX.begin() + lo, PX.begin() + lo + n), D(PD.begin() + lo, PD.begin() + lo + n); X.push_back(3); try { auto [i, l] = macis::p_davidson(n, PM, f, D.data(), PTOL, X.data(), MPI_COMM_WORLD); POK[r] = 1; PIT[r] = i; PLAM[r] = l; std::copy(X.begin(), X.begin() + n, PRES.begin() + lo); } catch (std::runtime_error&) { POK[r] = 0; } vx_assert_eq(X[n], 3, "local length"); }
static void pdav(int np, int n, int max_m, bool dflt) { vx_generic(1); hmode = 0; multi = true; hrank = 0; EG.clear(); Sym S(n); PS = &S; Pat P(n, n); for (int q = 0; q < n * n; ++q) P.s[q] = 1, P.v[q] = S.A[q]; GP = &P; DFLT = dflt; if (!dflt) split(np, n); else { SPLIT.assign(1, 0); for (int r = 0; r < np; ++r) SPLIT.push_back(r == np - 1 ? n : (n / np) * (r + 1)); } PX.assign(n, 0); PX[(np == 3 && VX_TIER == 1 ? n - 1 : vx_pick("at", 0, 1) * (n - 1))] = 1; PD.assign(n, 0); for (int i = 0; i < n; ++i) PD[i] = S.A[i * (n + 1)]; PTOL = vx_real("tol"); vx_assume(PTOL > 0); PM = max_m; PIN.assign(np, {}); POK.assign(np, 0); PIT.assign(np, 0); PLAM.assign(np, 0.); PRES.assign(n, 0); lapack::syev_hook = hook; vx_mpi_run(np, pdav_rank); lapack::syev_hook = nullptr; vx_assert(hrank == 0 || hrank == 1, "the projected problem is solved on one rank");
  std::vector<vd> in(PIN[0].size(), vd(n)); for (int r = 0; r < np; ++r) { vx_assert(PIN[r].size() == in.size() && POK[r] == POK[0] && PIT[r] == PIT[0], "all ranks iterate in step"); if (POK[0]) vx_assert_eq(PLAM[r], PLAM[0], "all ranks return the same eigenvalue"); for (size_t k = 0; k < in.size(); ++k) for (int i = SPLIT[r]; i < SPLIT[r + 1]; ++i) in[k][i] = PIN[r][k][i - SPLIT[r]]; }
  replay(S, nullptr, PD, PX, in, max_m, PTOL, POK[0], PIT[0], PLAM[0], PRES); VX_END(); }
// ---------------------------------------------------------------- CI drivers: guess selection and what reaches the eigensolver
struct Call { int64_t N, mm; double tol, E; vd D, X0, X1, in, out; const double* p; }; static Call CALL[4]; static int NC; static vd CI0, CV; static double CTOL; static int64_t CMM;
template <class F> static void call(int r, int lo, int64_t N, int64_t mm, const F& op, const double* D, double tol, double* X) { ++NC; Call& c = CALL[r]; c.N = N; c.mm = mm; c.tol = tol; c.D.assign(D, D + N); c.X0.assign(X, X + N); c.p = X; c.in.assign(CV.begin() + lo, CV.begin() + lo + N); c.in.push_back(0); c.out.assign(N + 1, 7); op.operator_action(1, 1., c.in.data(), N, 0., c.out.data(), N); c.X1 = vx_reals("sol", N); std::copy(c.X1.begin(), c.X1.end(), X); }
template <class F> std::pair<size_t, double> macis::vx_sdav(int64_t N, int64_t mm, const F& op, const double* D, double tol, double* X) { call(0, 0, N, mm, op, D, tol, X); CALL[0].E = vx_real("E"); return {3, CALL[0].E}; }
static double PE; template <class F> std::pair<int64_t, double> macis::vx_pdav(int64_t N, int64_t mm, const F& op, const double* D, double tol, double* X, MPI_Comm c) { int r; MPI_Comm_rank(c, &r); call(r, SPLIT[r], N, mm, op, D, tol, X); CALL[r].E = PE; return {3, PE}; }
static vd ci_expected(Pat& P, const vd& C) { int n = P.m; double mx = 0; for (double c : C) if (std::abs(c) > mx) mx = std::abs(c); if (mx > 1. / n) return C; vd e(n); e[lowest(P)] = 1; return e; }
static Pat ci_pat(int n) { Pat P(n, n); for (int q = 0; q < n * n; ++q) { P.s[q] = 1; P.v[q] = vx_real(q % (n + 1) ? "h" : "d"); } return P; }
// rows [lo, lo+n) of the problem P started from guess e
static void ci_check(Call& c, Pat& P, const vd& e, int lo, int n) { vx_assert(c.N == n, "eigensolver dimension"); vx_assert(c.mm == CMM, "subspace limit is passed on"); vx_assert_eq(c.tol, CTOL, "residual tolerance is passed on"); for (int i = 0; i < n; ++i) { vx_assert_eq(c.D[i], P.at(lo + i, lo + i) ? P.val(lo + i, lo + i) : 0., "preconditioner is the diagonal of H"); vx_assert_eq(c.X0[i], e[lo + i], "the passed vector or the lowest diagonal element starts the solver"); double s = 0; for (int j = 0; j < P.n; ++j) if (P.at(lo + i, j)) s += P.val(lo + i, j) * CV[j]; vx_assert_eq(c.out[i], s, "the operator is multiplication by H"); } vx_assert_eq(c.out[n], 7, "operator output length"); }
static void ci_done(Call& c, const vd& C, double E, double Eref) { vx_assert(C.size() == c.X1.size(), "eigenvector length"); for (size_t i = 0; i < C.size(); ++i) vx_assert_eq(C[i], c.X1[i], "the solver's eigenvector is returned"); vx_assert_eq(E, Eref, "the solver's eigenvalue is returned"); }
static void ci_setup(int n) { NC = 0; CV = vx_reals("v", n); CTOL = vx_real("tol"); CMM = vx_range("max_m", 0, 200); PE = vx_real("E"); }
static void cis(int n) { Pat P = ci_pat(n); ci_setup(n); auto A = mk_csr<T>(P, 0); int given = vx_pick("given", 0, 2); vd C = given == 2 ? vx_reals("c", n) : vd(given * (n - 1)), C0 = C; C0.resize(n, 0); vd e = ci_expected(P, C0); double E = macis::serial_selected_ci_diag(A, CMM, CTOL, C); vx_assert(NC == 1, "solved once"); ci_check(CALL[0], P, e, 0, n); ci_done(CALL[0], C, E, CALL[0].E); VX_END(); }
static int GIVEN; static void cip_rank(int r) { DM S = mkd(); int lo = S.local_row_start(), n = S.local_row_extent(); vx_assert(lo == SPLIT[r], "row distribution"); vd C; if (GIVEN) C.assign(CI0.begin() + lo, CI0.begin() + lo + n); vd e = ci_expected(*GP, CI0); double E = macis::parallel_selected_ci_diag(S, CMM, CTOL, C, MPI_COMM_WORLD); ci_check(CALL[r], *GP, e, lo, n); ci_done(CALL[r], C, E, PE); }
static void cip(int np, int n) { Pat P = ci_pat(n); ci_setup(n); GP = &P; DFLT = false; split(np, n); GIVEN = vx_pick("given", 0, 1); CI0 = GIVEN ? vx_reals("c", n) : vd(n); vx_mpi_run(np, cip_rank); vx_assert(NC == np, "solved once"); VX_END(); }
// end to end: determinants and integrals in, the operator of that space out
using Gn = macis::DoubleLoopHamiltonianGenerator<64>; static std::vector<std::bitset<64>> DD; static Gn* DG; static double HTOL;
static void sci_rank(int r) { auto d = DD; int n = SPLIT[r + 1] - SPLIT[r]; vd C(CI0.begin() + SPLIT[r], CI0.begin() + SPLIT[r + 1]); double E = macis::selected_ci_diag<64, int32_t>(d.begin(), d.end(), *DG, HTOL, CMM, CTOL, C, MPI_COMM_WORLD, true); vx_assert(d == DD, "determinants untouched"); ci_check(CALL[r], *GP, ci_expected(*GP, CI0), SPLIT[r], n); ci_done(CALL[r], C, E, PE); }
static void sci(int np, int nd) { int n = 3; Ints I(n, false); for (int p = 0; p < n; ++p) for (int q = 0; q < n; ++q) I.t(p, q) = -4 + p + q + 0.5 * p * q; for (int p = 0; p < n; ++p) for (int q = 0; q < n; ++q) for (int r = 0; r < n; ++r) for (int s = 0; s < n; ++s) I.v(p, q, r, s) = (1 + p + q + p * q) * (1 + r + s + r * s) / 64.; vd Tm = I.T, V = I.V; Gn g(macis::matrix_span<double>(Tm.data(), n, n), macis::rank4_span<double>(V.data(), n, n, n, n)); DG = &g;
  std::vector<Det> ds; DD.clear(); for (uint64_t a = 1; a < 8; ++a) for (uint64_t b = 1; b < 8; b += 2) if (__builtin_popcountll(a) == 2 && __builtin_popcountll(b) == 1 + (b > 4) && (int)ds.size() < nd) ds.push_back({a, b == 5 ? 2ul : b}), DD.push_back(mkdet<64>(ds.back())); nd = ds.size(); ci_setup(nd); HTOL = vx_pick("tight", 0, 1) ? 0.3 : 1e-12; Pat P(nd, nd); for (int i = 0; i < nd; ++i) for (int j = 0; j < nd; ++j) { double h = ref_element(I, ds[i], ds[j]); if (std::abs(h) > HTOL) P.s[i * nd + j] = 1, P.v[i * nd + j] = h; } GP = &P; SPLIT.assign(1, 0); for (int r = 0; r < np; ++r) SPLIT.push_back(r == np - 1 ? nd : nd / np * (r + 1)); CI0.assign(nd, 0); if (vx_pick("given", 0, 1)) CI0[nd - 1] = vx_real("c"); vx_mpi_run(np, sci_rank); vx_assert(NC == np, "solved once"); VX_END(); }
// ---------------------------------------------------------------- LOBPCG building blocks
static vd LR; static int lcall; static int64_t lr_potrf(lapack::Uplo u, int64_t n, double* A, int64_t lda) { vx_assert(u == lapack::Uplo::Lower, "lower Cholesky factor"); for (int j = 0; j < n; ++j) for (int i = j; i < n; ++i) { double s = lcall ? i == j : 0; if (!lcall) for (int k = 0; k < n; ++k) s += LR[k + i * n] * LR[k + j * n]; vx_assert_eq(A[i + j * lda], s, "Gram matrix of the subspace"); A[i + j * lda] = lcall ? i == j : LR[j + i * n]; } ++lcall; return 0; }
static void lo_cholqr(int N, int K) { // V = Q R with orthonormal Q and upper triangular R with positive diagonal
  int pad = vx_pick("pad", 0, 1), ld = N + pad, rep = vx_pick("rep", 0, 2); vd Q(N * K), R(K * K), V(ld * K, 6); static const int H[4][4] = {{1, 1, 1, 1}, {1, -1, 1, -1}, {-1, -1, 1, 1}, {1, -1, -1, 1}}; for (int k = 0; k < K; ++k) for (int i = 0; i < N; ++i) Q[i + N * k] = N == 4 ? H[k][i] / 2. : (i == (k + 1) % N) * (k ? -1 : 1);
  for (int j = 0; j < K; ++j) for (int i = 0; i <= j; ++i) { R[i + j * K] = vx_real("r"); if (i == j) vx_assume(R[i + j * K] > 0); } for (int j = 0; j < K; ++j) for (int i = 0; i < N; ++i) { double s = 0; for (int k = 0; k <= j; ++k) s += Q[i + N * k] * R[k + j * K]; V[i + ld * j] = s; } vd V0 = V;
  LR = R; lcall = 0; lapack::potrf_hook = lr_potrf; if (rep == 0) lobpcgxx::cholqr(N, K, V.data(), ld, 0); else if (rep == 1) lobpcgxx::cholqr(N, K, V.data(), ld, 1); else lobpcgxx::cholqr(N, K, V.data(), ld); lapack::potrf_hook = nullptr; vx_assert(lcall == rep, "number of orthogonalisations"); for (int j = 0; j < K; ++j) for (int i = 0; i < ld; ++i) vx_assert_eq(V[i + ld * j], i == N ? 6 : rep ? Q[i + N * j] : V0[i + ld * j], "Cholesky QR returns the orthonormal factor"); VX_END(); }
static void lo_cholfail() { vd V = {1, 2, 0, 0}; bool t = throws([&] { lobpcgxx::cholqr(2, 2, V.data(), 2); }); vx_assert(t, "a rank-deficient subspace is rejected"); VX_END(); }
static void lo_res(int N, int K) { vx_generic(1); int px = vx_pick("px", 0, 1), pa = vx_pick("pa", 0, 1), pr = vx_pick("pr", 0, 1); vd X = vx_reals("x", (N + px) * K), A = vx_reals("a", (N + pa) * K), W = vx_reals("w", K), R((N + pr) * K, 4), ab(K + 1, 3), re(K + 1, 2); vd W0 = W; lobpcgxx::residuals(N, K, X.data(), N + px, A.data(), N + pa, W.data(), R.data(), N + pr, ab.data(), re.data());
  for (int k = 0; k < K; ++k) { double s = 0, q = 0; for (int i = 0; i < N; ++i) { double a = A[i + k * (N + pa)], r = a - W[k] * X[i + k * (N + px)]; vx_assert_eq(R[i + k * (N + pr)], r, "residual is A x - lambda x"); s += r * r; q += a * a; } vx_assert_eq(ab[k], std::sqrt(s), "absolute residual norm"); vx_assert_eq(re[k], std::sqrt(s) / (std::sqrt(q) + std::abs(W[k])), "relative residual norm"); vx_assert_eq(W[k], W0[k], "Ritz values untouched"); if (pr) vx_assert_eq(R[N + k * (N + 1)], 4, "padding"); } vx_assert(ab[K] == 3 && re[K] == 2, "lengths"); VX_END(); }
static void lo_rot(int N, int K, int M) { int px = vx_pick("px", 0, 1), pc = vx_pick("pc", 0, 1); vd X = vx_reals("x", (N + px) * M), C = vx_reals("c", (M + pc) * K), X0 = X, C0 = C, Wk(N * K + 1, 9); lobpcgxx::rotate_basis(N, K, M, X.data(), N + px, C.data(), M + pc, Wk.data()); for (int k = 0; k < M; ++k) for (int i = 0; i < N + px; ++i) { double s = 0; if (k < K && i < N) for (int m = 0; m < M; ++m) s += X0[i + m * (N + px)] * C[m + k * (M + pc)]; else s = X0[i + k * (N + px)]; vx_assert_eq(X[i + k * (N + px)], s, "leading vectors become X C, the others stay"); } for (size_t i = 0; i < C.size(); ++i) vx_assert_eq(C[i], C0[i], "rotation untouched"); vx_assert(Wk[N * K] == 9, "workspace bound"); VX_END(); }
static void lo_conv(int K) { int nr = vx_pick("nr", 0, K); vd a = vx_reals("a", K), r = vx_reals("r", K); double tol = vx_real("tol"); bool ea = true, er = true; for (int i = 0; i < nr; ++i) { if (!(a[i] < tol)) ea = false; if (!(r[i] < tol)) er = false; } vx_assert(lobpcgxx::lobpcg_absres_convergence_check<double>(nr, a.data(), r.data(), tol) == ea, "absolute convergence means every requested residual is below the tolerance"); vx_assert(lobpcgxx::lobpcg_relres_convergence_check<double>(nr, a.data(), r.data(), tol) == er, "relative convergence means every requested residual is below the tolerance"); VX_END(); }
static void lo_oper(int N, int K) { using O = lobpcgxx::operator_action_type<double>; bool t1 = throws([] { lobpcgxx::lobpcg_operator<double> o{O{}}; }), t2 = throws([] { lobpcgxx::lobpcg_operator<double> o(O{}, [](int64_t, int64_t, const double*, int64_t, double*, int64_t) {}); }); vx_assert(t1 && t2, "a null operator is rejected"); int64_t log[8]; const double* pv = nullptr; double* po = nullptr; int n = 0; O f = [&](int64_t a, int64_t b, const double* v, int64_t c, double* o, int64_t d) { log[0] = a; log[1] = b; log[2] = c; log[3] = d; pv = v; po = o; ++n; }; lobpcgxx::lobpcg_operator<double> op(f);
  int pv_ = vx_pick("pv", 0, 1), pk = vx_pick("pk", 0, 1); vd V = vx_reals("v", (N + pv_) * K), KV((N + pk) * K, 5); op.apply_preconditioner(int64_t(N), int64_t(K), V.data(), int64_t(N + pv_), KV.data(), int64_t(N + pk)); vx_assert(n == 0, "default preconditioner does not call the operator"); for (int k = 0; k < K; ++k) for (int i = 0; i < N + pk; ++i) vx_assert_eq(KV[i + k * (N + pk)], i < N ? V[i + k * (N + pv_)] : 5, "default preconditioner copies"); op.apply_matrix(int64_t(N), int64_t(K), V.data(), int64_t(N + pv_), KV.data(), int64_t(N + pk)); vx_assert(n == 1 && log[0] == N && log[1] == K && log[2] == N + pv_ && log[3] == N + pk && pv == V.data() && po == KV.data(), "arguments reach the matrix functor");
  lobpcgxx::lobpcg_operator<double> o2([](int64_t, int64_t, const double*, int64_t, double*, int64_t) { vx_fail("matrix functor called for the preconditioner"); }, f); o2.apply_preconditioner(int64_t(K), int64_t(N), V.data(), int64_t(9), KV.data(), int64_t(8)); vx_assert(n == 2 && log[0] == K && log[1] == N && log[2] == 9 && log[3] == 8, "arguments reach the preconditioner functor"); VX_END(); }
// ---------------------------------------------------------------- LOBPCG driver against an independent replay
struct Lo { int N, K, NR, ld; Sym S; std::vector<vd> chk, pin, pout, ein, ec, el, gin, gl; std::vector<int> gok; int qn = 0, nchk = 0, accept = -1, sym_at = 0, maxit = 0; vd q12; Lo(int n) : S(n) {} }; static Lo* LO;
static vd mm(const vd& A, const vd& B, int m, int k, int n, bool ta = false) { vd C(m * n); for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) { double s = 0; for (int q = 0; q < k; ++q) s += (ta ? A[q + i * k] : A[i + q * m]) * B[q + j * k]; C[i + j * m] = s; } return C; }
static void lo_syev(int64_t n, double* A, int64_t lda, double* W) { vd G(n * n), C(n * n), w(n); for (int j = 0; j < n; ++j) for (int i = j; i < n; ++i) G[i + j * n] = G[j + i * n] = A[i + j * lda]; bool s = (int)LO->ein.size() == LO->sym_at; for (int j = 0; j < n; ++j) { w[j] = vx_real("lam"); for (int i = 0; i < n; ++i) C[i + j * n] = s && j < 2 * LO->K ? vx_real("c") : (i == (j + 1) % n) * (j ? 1 : -1); } LO->ein.push_back(G); LO->ec.push_back(C); LO->el.push_back(w); for (int j = 0; j < n; ++j) { W[j] = w[j]; for (int i = 0; i < n; ++i) A[i + j * lda] = C[i + j * n]; } }
static int64_t lo_potrf(lapack::Uplo u, int64_t n, double* A, int64_t lda) { vx_assert(u == lapack::Uplo::Lower, "lower Cholesky factor"); vd G(n * n), L(n * n); for (int j = 0; j < n; ++j) for (int i = j; i < n; ++i) { G[i + j * n] = A[i + j * lda]; L[i + j * n] = vx_real("l"); if (i == j) vx_assume(L[i + j * n] > 0); A[i + j * lda] = L[i + j * n]; } LO->gin.push_back(G); LO->gl.push_back(L); return 0; }
static void lo_gelqf(int64_t m, int64_t n, double* A, int64_t lda, double* tau) { vd G(m * n); for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) { G[i + j * m] = A[i + j * lda]; A[i + j * lda] = 100 * i + j; } for (int i = 0; i < m; ++i) tau[i] = i + 0.25; LO->q12 = G; LO->q12.push_back(m); LO->q12.push_back(n); ++LO->qn; }
// Q: cyclic shift, so C Q^T moves column j to column (j+1) mod n
static void lo_ormlq(lapack::Side sd, lapack::Op op, int64_t m, int64_t n, int64_t k, const double* A, int64_t lda, const double* tau, double* C, int64_t ldc) { vx_assert(sd == lapack::Side::Right && op != lapack::Op::NoTrans && k == LO->K && n == LO->q12.back(), "the LQ factor is applied transposed from the right"); for (int i = 0; i < k; ++i) { vx_assert(tau[i] == i + 0.25, "reflectors"); for (int j = 0; j < n; ++j) vx_assert(A[i + j * lda] == 100 * i + j, "reflectors"); } vd o(m * n); for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) o[i + j * m] = C[i + j * ldc]; for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) C[i + (j + 1) % n * ldc] = o[i + j * m]; }
static void lo_matrix(int64_t N, int64_t K, const double* V, int64_t ldv, double* AV, int64_t lda) { vx_assert(N == LO->N, "operator rows"); for (int k = 0; k < K; ++k) { vd y = LO->S.mul(vd(V + k * ldv, V + k * ldv + N)); std::copy(y.begin(), y.end(), AV + k * lda); } }
static void lo_prec(int64_t N, int64_t K, const double* V, int64_t ldv, double* KV, int64_t ldk) { vx_assert(N == LO->N && K == LO->K, "preconditioner shape"); vd in(N * K), out(N * K); for (int k = 0; k < K; ++k) for (int i = 0; i < N; ++i) { in[i + k * N] = V[i + k * ldv]; KV[i + k * ldk] = out[i + k * N] = vx_real("kv"); } LO->pin.push_back(in); LO->pout.push_back(out); }
static void lo_run(int N, int K, int iters, bool track) {
  vx_generic(1); multi = false; Lo L(N); LO = &L; L.N = N; L.K = K; L.NR = vx_pick("nr", 1, K); int pad = vx_pick("pad", 0, 1); L.ld = N + pad; L.maxit = iters; L.accept = vx_pick("accept", 0, iters); L.sym_at = iters; lapack::syev_hook = lo_syev; lapack::potrf_hook = lo_potrf; lapack::gelqf_hook = lo_gelqf; lapack::ormlq_hook = lo_ormlq;
  vd V(L.ld * K, 8), V0; for (int k = 0; k < K; ++k) for (int i = 0; i < N; ++i) V[i + k * L.ld] = i == k; V0 = V; double tol = vx_real("tol"); vx_assume(tol >= 0); lobpcgxx::lobpcg_settings st; st.conv_tol = tol; st.maxiter = iters; st.print_iter = pad; st.track_convergence = track; int64_t lw = -1; vd lam(K + 1, -7), res(K + 1, -8); lobpcgxx::lobpcg_convergence<double> cv; cv.conv_data.resize(2);
  lobpcgxx::lobpcg_convergence_check<double> chk = [&](int64_t nr, const double* a, const double* r, double t) { vx_assert(nr == L.NR, "convergence is judged on the requested pairs"); vx_assert_eq(t, tol, "convergence tolerance"); vd e(a, a + K); e.insert(e.end(), r, r + K); L.chk.push_back(e); return (int)L.chk.size() - 1 == L.accept; }; lobpcgxx::lobpcg_operator<double> op(lo_matrix, lo_prec);
  lobpcgxx::lobpcg<double>(st, N, K, L.NR, op, lam.data(), V.data(), L.ld, res.data(), nullptr, lw, chk, cv); vx_assert(lw >= 8 * N * K && L.chk.empty() && L.ein.empty(), "a negative workspace size is a query"); vd work(lw + 1, 0.125);
  bool ok = true; try { lobpcgxx::lobpcg<double>(st, N, K, L.NR, op, lam.data(), V.data(), L.ld, res.data(), work.data(), lw, chk, cv); } catch (std::runtime_error&) { ok = false; } lapack::syev_hook = nullptr; lapack::potrf_hook = nullptr; lapack::gelqf_hook = nullptr; lapack::ormlq_hook = nullptr; vx_assert(work[lw] == 0.125, "workspace bound");
  vx_assert(ok == (L.accept < iters), "returns exactly when the convergence check accepts"); int upd = ok ? L.accept : iters; vx_assert((int)L.ein.size() == upd + 1 && (int)L.chk.size() == (ok ? upd + 1 : iters) && (int)L.pin.size() == upd, "iteration structure");
  // replay
  vd Xv(N * K), P; for (int k = 0; k < K; ++k) Xv[k + k * N] = 1; auto AM = [&](const vd& B, int c) { vd o; for (int k = 0; k < c; ++k) { vd y = L.S.mul(vd(B.begin() + k * N, B.begin() + (k + 1) * N)); o.insert(o.end(), y.begin(), y.end()); } return o; }; vd R(N * K), ab(K), re(K); int gi = 0;
  for (int it = 0;; ++it) { vd& w = L.el[it]; vd Sb = Xv; int d = K; if (it) { Sb.insert(Sb.end(), P.begin(), P.end()); vd raw = L.pout[it - 1]; // new directions: preconditioned residuals, projected twice and orthonormalised
      for (int k = 0; k < K; ++k) { bool same_ = true; (void)same_; for (int i = 0; i < N; ++i) vx_assert_eq(L.pin[it - 1][i + k * N], R[i + (K - 1 - k) * N], "the preconditioner acts on the residuals"); } int dx = Sb.size() / N; for (int q = 0; q < 2; ++q) { vd o = mm(Sb, raw, dx, N, K, true), pr = mm(Sb, o, N, dx, K); for (size_t i = 0; i < raw.size(); ++i) raw[i] -= pr[i]; }
      for (int q = 0; q < 2; ++q, ++gi) { vx_assert(gi < (int)L.gin.size(), "new directions are orthonormalised twice"); vd g = mm(raw, raw, K, N, K, true); vd& l = L.gl[gi]; for (int j = 0; j < K; ++j) for (int i = j; i < K; ++i) vx_assert_eq(L.gin[gi][i + j * K], g[i + j * K], "Gram matrix of the projected directions"); for (int j = 0; j < K; ++j) for (int i = 0; i < N; ++i) { double s = raw[i + j * N]; for (int k = 0; k < j; ++k) s -= raw[i + k * N] * l[j + k * K]; raw[i + j * N] = s / l[j + j * K]; } }
      Sb.insert(Sb.end(), raw.begin(), raw.end()); d = Sb.size() / N; }
    vd AS = AM(Sb, d), G = mm(Sb, AS, d, N, d, true); for (int j = 0; j < d; ++j) for (int i = j; i < d; ++i) vx_assert_eq(L.ein[it][i + j * d], G[i + j * d], "projected problem is S^T A S");
    vd C = L.ec[it]; vd CX(C.begin(), C.begin() + d * K); vd CP; if (it) { int n = d - K; int j = n - 1; /* column 0 of C Q^T is column n-1 */ for (int k = 0; k < K; ++k, j = (j + 1) % n) CP.insert(CP.end(), C.begin() + (K + j) * d, C.begin() + (K + j + 1) * d); } Xv = mm(Sb, CX, N, d, K); if (it) P = mm(Sb, CP, N, d, K);
    vd AX = AM(Xv, K); for (int k = 0; k < K; ++k) { double s = 0, q = 0; for (int i = 0; i < N; ++i) { double r = AX[i + k * N] - w[k] * Xv[i + k * N]; R[i + k * N] = r; s += r * r; q += AX[i + k * N] * AX[i + k * N]; } ab[k] = std::sqrt(s); re[k] = ab[k] / (std::sqrt(q) + std::abs(w[k])); }
    if (it < (int)L.chk.size()) for (int k = 0; k < K; ++k) { vx_assert_eq(L.chk[it][k], ab[k], "absolute residuals reported to the convergence check"); vx_assert_eq(L.chk[it][K + k], re[k], "relative residuals reported to the convergence check"); }
    if (track && it < (int)L.chk.size()) { vx_assert(it < (int)cv.conv_data.size() && cv.conv_data[it].W.size() == (size_t)K, "convergence history"); for (int k = 0; k < K; ++k) { vx_assert_eq(cv.conv_data[it].W[k], w[k], "history of eigenvalues"); vx_assert_eq(cv.conv_data[it].res[k], ab[k], "history of residuals"); vx_assert_eq(cv.conv_data[it].rel_res[k], re[k], "history of relative residuals"); } }
    if (it == upd) { for (int k = 0; k < K; ++k) for (int i = 0; i < N; ++i) vx_assert_eq(V[i + k * L.ld], Xv[i + k * N], "eigenvectors returned"); for (int k = 0; k < L.NR; ++k) { vx_assert_eq(lam[k], w[k], "eigenvalues returned"); vx_assert_eq(res[k], re[k], "relative residuals returned"); } vx_assert(lam[L.NR] == -7 && res[L.NR] == -8, "only the requested pairs are returned"); if (pad) for (int k = 0; k < K; ++k) vx_assert(V[N + k * L.ld] == 8, "padding"); break; } }
  vx_assert((int)cv.conv_data.size() == (track ? (int)L.chk.size() : 0), "history length"); VX_END(); }
static void lo_bad() { Lo L(2); LO = &L; L.N = 2; L.K = 1; lobpcgxx::lobpcg_operator<double> op(lo_matrix); lobpcgxx::lobpcg_settings st; st.conv_tol = 0.1; st.maxiter = 3; int64_t lw = lobpcgxx::lobpcg_lwork(2, 1), lwx = lw; vd work(lw + 4), V = {1, 0}; double lam = 0, res = 0; lobpcgxx::lobpcg_convergence<double> cv; lobpcgxx::lobpcg_convergence_check<double> chk = lobpcgxx::lobpcg_relres_convergence_check<double>; int k = vx_pick("bad", 0, 2); if (k == 0) { lwx = vx_range("lw", 0, 31); vx_assume(lwx < lw); } if (k == 1) st.maxiter = -1 - vx_range("it", 0, 3); if (k == 2) { st.conv_tol = vx_real("tol"); vx_assume(st.conv_tol < 0); } bool t = throws([&] { lobpcgxx::lobpcg<double>(st, 2, 1, 1, op, &lam, V.data(), 2, &res, work.data(), lwx, chk, cv); }); vx_assert(t, "invalid settings and short workspaces are rejected"); VX_END(); }
static void lo_simple(int form) { // identity guess, relative residual below the tolerance or not; no iteration is allowed to pass otherwise
  vx_generic(1); Lo L(2); LO = &L; L.N = 2; L.K = 1; L.maxit = 1; L.sym_at = 9; lapack::syev_hook = lo_syev; lobpcgxx::lobpcg_operator<double> op(lo_matrix); lobpcgxx::lobpcg_settings st; double tol = vx_real("tol"); vx_assume(tol >= 0); st.conv_tol = tol; st.maxiter = 1; lapack::potrf_hook = lo_potrf; lapack::gelqf_hook = lo_gelqf; lapack::ormlq_hook = lo_ormlq; int64_t lw = lobpcgxx::lobpcg_lwork(2, 1); vd work(lw), V = {1, 0}; double lam = 0, res = 0; lobpcgxx::lobpcg_convergence<double> cv; st.track_convergence = true; bool ok = true; try { if (form == 0) lobpcgxx::lobpcg<double>(st, 2, 1, 1, op, &lam, V.data(), 2, &res, work.data(), lw, cv); if (form == 1) lobpcgxx::lobpcg<double>(st, 2, 1, 1, op, &lam, V.data(), 2, &res, cv); if (form == 2) lobpcgxx::lobpcg<double>(st, 2, 1, 1, op, &lam, V.data(), 2, &res, work.data(), lw); if (form == 3) lobpcgxx::lobpcg<double>(st, 2, 1, 1, op, &lam, V.data(), 2, &res); } catch (std::runtime_error&) { ok = false; } lapack::syev_hook = nullptr; lapack::potrf_hook = nullptr; lapack::gelqf_hook = nullptr; lapack::ormlq_hook = nullptr;
  double a = L.S.A[0], b = L.S.A[1], w = L.el[0][0], r0 = std::sqrt((a - w) * (a - w) + b * b) / (std::sqrt(a * a + b * b) + std::abs(w)); vx_assert(ok == (r0 < tol), "converged means relative residual below the tolerance"); if (ok) { vx_assert_eq(V[0], -1, "eigenvector returned"); vx_assert_eq(V[1], 0, "eigenvector returned"); vx_assert_eq(lam, w, "eigenvalue returned"); vx_assert_eq(res, r0, "relative residual returned"); } if (form < 2) { vx_assert(cv.conv_data.size() == 1, "history returned"); vx_assert_eq(cv.conv_data[0].rel_res[0], r0, "history returned"); } VX_END(); }
extern "C" {
void dav_gs1() { gs(1); }
void dav_gs2() { gs(2); }
void dav_pgs1() { pgs(1, 2); }
void dav_pgs2() { pgs(2, vx_pick("K", 1, 2)); }
void dav_pgs3() { pgs(3, 2); }
void dav_rr21() { rr(2, 1); }
void dav_rr32() { rr(3, 2); }
void dav_rr33() { rr(3, 3); }
void dav_prr2() { prr(2, 3, 2); }
void dav_prr3() { prr(3, 2, 2); }
void dav_guess3() { guess(3, 9); }
void dav_guess4() { guess(4, 0); }
void dav_pguess1() { pguess(1, 3, true); }
void dav_pguess2() { pguess(2, 5, true); }
void dav_pguess3() { pguess(3, 4, false); }
void dav_pguess3d() { pguess(3, vx_pick("n", 2, 5), true); }
void dav_op() { sop(vx_pick("m", 1, VX_TIER > 1 ? 3 : 2), vx_pick("n", 1, 2), vx_pick("K", 1, 2)); }
void dav_op33() { if (VX_TIER > 1) sop(3, 3, 1); else sop(1, 3, 2); }
void dav_1() { dav(1, vx_pick("m", 1, 2), true); }
void dav_2() { dav(2, vx_pick("m", 2, 3), true); }
void dav_2x() { dav(2, 2, false); }
void dav_3() { CUT = true; dav(3, 3, true); }
void dav_32() { CUT = true; dav(3, 2, true); }
void dav_42() { CUT = true; dav(4, 2, true); }
void dav_nul() { dav_null(); }
void dav_p1() { pdav(1, 2, 2, true); }
void dav_p2() { vx_mpi_late = VX_TIER > 1 ? -1 : 1; pdav(2, 2, 2, false); }
void dav_p23() { pdav(2, 3, 2, true); }
void dav_p3() { vx_mpi_late = VX_TIER > 1 ? -1 : 1; pdav(3, 3, 2, false); }
void dav_cis() { cis(vx_pick("n", 1, 3)); }
void dav_sci1() { sci(1, 4); }
void dav_sci2() { sci(2, 5); }
void dav_sci3() { sci(3, 2); }
void dav_cip2() { vx_mpi_late = VX_TIER > 1 ? -1 : 1; cip(2, VX_TIER > 1 ? vx_pick("n", 2, 3) : 2); }
void dav_cip3() { vx_mpi_late = 0; cip(3, VX_TIER > 1 ? 3 : 2); }
void lob_chol1() { lo_cholqr(3, 1); }
void lob_chol2() { lo_cholqr(4, 2); }
void lob_chol3() { lo_cholqr(3, 3); }
void lob_cholf() { lo_cholfail(); }
void lob_res() { lo_res(vx_pick("N", 1, 3), vx_pick("K", 1, 2)); }
void lob_rot() { int M = vx_pick("M", 1, 3); lo_rot(vx_pick("N", 1, 3), vx_pick("K", 1, M), M); }
void lob_conv() { lo_conv(3); }
void lob_oper() { lo_oper(vx_pick("N", 1, 2), vx_pick("K", 1, 2)); }
void lob_bad() { lo_bad(); }
void lob_s0() { lo_simple(0); }
void lob_s1() { lo_simple(1); }
void lob_s2() { lo_simple(2); }
void lob_s3() { lo_simple(3); }
void lob_31() { lo_run(3, 1, vx_pick("it", 0, 1), true); }
void lob_31b() { lo_run(3, 1, 2, false); }
void lob_41c() { lo_run(4, 1, 3, true); }
void lob_42() { lo_run(4, 2, 1, true); }
void lob_62() { lo_run(6, 2, 2, false); }
}
