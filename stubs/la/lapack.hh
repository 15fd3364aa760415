// Reference LAPACK with the lapackpp interface.  Factorisations that are straight-line over the reals are plain
// loops; eigen/singular value drivers are Jacobi iterations and therefore only reachable with concrete matrices.
#pragma once
#include <blas.hh>
extern "C" void vx_fail(const char*);
namespace lapack {
using blas::Diag; using blas::Layout; using blas::Op; using blas::Side; using blas::Uplo;
enum class Job : char { NoVec = 'N', Vec = 'V', UpdateVec = 'U', AllVec = 'A', SomeVec = 'S', OverwriteVec = 'O' }; enum class MatrixType : char { General = 'G', Lower = 'L', Upper = 'U' }; enum class Norm : char { One = '1', Two = '2', Inf = 'I', Fro = 'F', Max = 'M' };
template <class T> void lacpy(MatrixType t, int64_t m, int64_t n, T const* A, int64_t lda, T* B, int64_t ldb) { for (int64_t j = 0; j < n; ++j) for (int64_t i = 0; i < m; ++i) if (t == MatrixType::General || (t == MatrixType::Upper ? i <= j : i >= j)) B[i + j * ldb] = A[i + j * lda]; }
template <class T> void laset(MatrixType, int64_t m, int64_t n, T o, T d, T* A, int64_t lda) { for (int64_t j = 0; j < n; ++j) for (int64_t i = 0; i < m; ++i) A[i + j * lda] = i == j ? d : o; }
inline int64_t (*potrf_hook)(Uplo u, int64_t n, double* A, int64_t lda) = nullptr;
template <class T> int64_t potrf(Uplo u, int64_t n, T* A, int64_t lda) {
  if constexpr (std::is_same_v<T, double>) if (potrf_hook) return potrf_hook(u, n, A, lda);
  for (int64_t j = 0; j < n; ++j) { T s = A[j + j * lda]; for (int64_t p = 0; p < j; ++p) { T x = u == Uplo::Lower ? A[j + p * lda] : A[p + j * lda]; s -= x * x; } if (!(s > 0)) return j + 1; T d = std::sqrt(s); A[j + j * lda] = d;
    for (int64_t i = j + 1; i < n; ++i) { T& c = u == Uplo::Lower ? A[i + j * lda] : A[j + i * lda]; T v = c; for (int64_t p = 0; p < j; ++p) v -= u == Uplo::Lower ? A[i + p * lda] * A[j + p * lda] : A[p + i * lda] * A[p + j * lda]; c = v / d; } }
  return 0; }
// symmetric eigenproblem: cyclic Jacobi, eigenvalues ascending
inline void (*syev_hook)(int64_t n, double* A, int64_t lda, double* W) = nullptr;
template <class T> int64_t syev(Job j, Uplo u, int64_t n, T* A, int64_t lda, T* W) {
  if constexpr (std::is_same_v<T, double>) if (syev_hook) { syev_hook(n, A, lda, W); return 0; }
  std::vector<T> a(n * n), v(n * n, 0); for (int64_t q = 0; q < n; ++q) { v[q + q * n] = 1; for (int64_t p = 0; p < n; ++p) a[p + q * n] = (u == Uplo::Lower ? p >= q : p <= q) ? A[p + q * lda] : A[q + p * lda]; }
  for (int sw = 0; sw < 60; ++sw) { T off = 0; for (int64_t q = 0; q < n; ++q) for (int64_t p = 0; p < q; ++p) off += a[p + q * n] * a[p + q * n]; if (off < 1e-28) break;
    for (int64_t q = 0; q < n; ++q) for (int64_t p = 0; p < q; ++p) { T x = a[p + q * n]; if (x == 0) continue; T th = (a[q + q * n] - a[p + p * n]) / (2 * x), t = (th >= 0 ? 1 : -1) / (std::abs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c;
        for (int64_t k = 0; k < n; ++k) { T kp = a[k + p * n], kq = a[k + q * n]; a[k + p * n] = c * kp - s * kq; a[k + q * n] = s * kp + c * kq; }
        for (int64_t k = 0; k < n; ++k) { T pk = a[p + k * n], qk = a[q + k * n]; a[p + k * n] = c * pk - s * qk; a[q + k * n] = s * pk + c * qk; }
        for (int64_t k = 0; k < n; ++k) { T kp = v[k + p * n], kq = v[k + q * n]; v[k + p * n] = c * kp - s * kq; v[k + q * n] = s * kp + c * kq; } } }
  std::vector<int64_t> o(n); for (int64_t i = 0; i < n; ++i) o[i] = i; for (int64_t i = 0; i < n; ++i) for (int64_t k = i + 1; k < n; ++k) if (a[o[k] + o[k] * n] < a[o[i] + o[i] * n]) std::swap(o[i], o[k]);
  for (int64_t i = 0; i < n; ++i) W[i] = a[o[i] + o[i] * n]; if (j != Job::NoVec) for (int64_t i = 0; i < n; ++i) for (int64_t p = 0; p < n; ++p) A[p + i * lda] = v[p + o[i] * n];
  return 0; }
template <class T> int64_t syevd(Job j, Uplo u, int64_t n, T* A, int64_t lda, T* W) { return syev(j, u, n, A, lda, W); }
template <class T> int64_t heev(Job j, Uplo u, int64_t n, T* A, int64_t lda, T* W) { return syev(j, u, n, A, lda, W); }
template <class T> int64_t heevd(Job j, Uplo u, int64_t n, T* A, int64_t lda, T* W) { return syev(j, u, n, A, lda, W); }
// generalised symmetric-definite problem A x = w B x through the Cholesky factor of B
template <class T> int64_t sygv(int64_t it, Job j, Uplo u, int64_t n, T* A, int64_t lda, T* B, int64_t ldb, T* W) {
  if (it != 1) throw std::runtime_error("sygv"); std::vector<T> L(n * n, 0), S(n * n); for (int64_t q = 0; q < n; ++q) for (int64_t p = 0; p < n; ++p) { S[p + q * n] = (u == Uplo::Lower ? p >= q : p <= q) ? A[p + q * lda] : A[q + p * lda]; if (p >= q) L[p + q * n] = u == Uplo::Lower ? B[p + q * ldb] : B[q + p * ldb]; }
  auto i = potrf(Uplo::Lower, n, L.data(), n); if (i) return n + i;
  blas::trsm(Layout::ColMajor, Side::Left, Uplo::Lower, Op::NoTrans, Diag::NonUnit, n, n, T(1), L.data(), n, S.data(), n); blas::trsm(Layout::ColMajor, Side::Right, Uplo::Lower, Op::Trans, Diag::NonUnit, n, n, T(1), L.data(), n, S.data(), n);
  syev(j, Uplo::Lower, n, S.data(), n, W); blas::trsm(Layout::ColMajor, Side::Left, Uplo::Lower, Op::Trans, Diag::NonUnit, n, n, T(1), L.data(), n, S.data(), n);
  for (int64_t q = 0; q < n; ++q) for (int64_t p = 0; p < n; ++p) A[p + q * lda] = S[p + q * n]; for (int64_t q = 0; q < n; ++q) for (int64_t p = q; p < n; ++p) (u == Uplo::Lower ? B[p + q * ldb] : B[q + p * ldb]) = L[p + q * n]; return 0; }
template <class T> int64_t sygvd(int64_t it, Job j, Uplo u, int64_t n, T* A, int64_t lda, T* B, int64_t ldb, T* W) { return sygv(it, j, u, n, A, lda, B, ldb, W); }
template <class T> int64_t hegv(int64_t it, Job j, Uplo u, int64_t n, T* A, int64_t lda, T* B, int64_t ldb, T* W) { return sygv(it, j, u, n, A, lda, B, ldb, W); }
template <class T> int64_t hegvd(int64_t it, Job j, Uplo u, int64_t n, T* A, int64_t lda, T* B, int64_t ldb, T* W) { return sygv(it, j, u, n, A, lda, B, ldb, W); }
// full-rank square linear solve by elimination with nonzero pivots
template <class T> int64_t gesv(int64_t n, int64_t nr, T* A, int64_t lda, int64_t* ip, T* B, int64_t ldb) {
  for (int64_t k = 0; k < n; ++k) { int64_t p = k; while (p < n && A[p + k * lda] == 0) ++p; if (p == n) return k + 1; if (ip) ip[k] = p + 1; if (p != k) { for (int64_t j = 0; j < n; ++j) std::swap(A[k + j * lda], A[p + j * lda]); for (int64_t j = 0; j < nr; ++j) std::swap(B[k + j * ldb], B[p + j * ldb]); }
    for (int64_t i = k + 1; i < n; ++i) { T f = A[i + k * lda] / A[k + k * lda]; for (int64_t j = k; j < n; ++j) A[i + j * lda] -= f * A[k + j * lda]; for (int64_t j = 0; j < nr; ++j) B[i + j * ldb] -= f * B[k + j * ldb]; } }
  for (int64_t c = 0; c < nr; ++c) for (int64_t i = n - 1; i >= 0; --i) { for (int64_t j = i + 1; j < n; ++j) B[i + c * ldb] -= A[i + j * lda] * B[j + c * ldb]; B[i + c * ldb] /= A[i + i * lda]; } return 0; }
inline void (*gelss_hook)(int64_t n, double* A, int64_t lda, double* B) = nullptr;
template <class T> int64_t gelss(int64_t m, int64_t n, int64_t nr, T* A, int64_t lda, T* B, int64_t ldb, T* S, T, int64_t* rk) { if constexpr (std::is_same_v<T, double>) if (gelss_hook && m == n && nr == 1) { *rk = n; gelss_hook(n, A, lda, B); return 0; } if (m != n) throw std::runtime_error("gelss"); (void)S; *rk = n; return gesv(n, nr, A, lda, (int64_t*)nullptr, B, ldb); }
// the singular vectors are whatever the harness prescribes (any matrix): only their use is under test
inline void (*gesvd_hook)(int64_t n, double* A, int64_t lda, double* S) = nullptr;
inline int64_t gesvd(Job, Job, int64_t m, int64_t n, double* A, int64_t lda, double* S, double*, int64_t, double*, int64_t) { if (!gesvd_hook || m != n) vx_fail("stub: gesvd"); else gesvd_hook(n, A, lda, S); return 0; }
inline void (*gelqf_hook)(int64_t m, int64_t n, double* A, int64_t lda, double* tau) = nullptr; inline void (*ormlq_hook)(Side, Op, int64_t m, int64_t n, int64_t k, const double* A, int64_t lda, const double* tau, double* C, int64_t ldc) = nullptr;
template <class T> int64_t gelqf(int64_t m, int64_t n, T* A, int64_t lda, T* tau) { if constexpr (std::is_same_v<T, double>) if (gelqf_hook) { gelqf_hook(m, n, A, lda, tau); return 0; } vx_fail("stub: gelqf"); return 0; }
template <class T> int64_t ormlq(Side s, Op o, int64_t m, int64_t n, int64_t k, T const* A, int64_t lda, T const* tau, T* C, int64_t ldc) { if constexpr (std::is_same_v<T, double>) if (ormlq_hook) { ormlq_hook(s, o, m, n, k, A, lda, tau, C, ldc); return 0; } vx_fail("stub: ormlq"); return 0; }
}
