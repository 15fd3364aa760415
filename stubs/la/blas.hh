// Reference BLAS with the blaspp interface, in plain loops.
#pragma once
#include <cstdint>
#include <cmath>
#include <stdexcept>
#include <vector>
#include <algorithm>
#include <complex>
namespace blas {
enum class Layout : char { ColMajor = 'C', RowMajor = 'R' }; enum class Op : char { NoTrans = 'N', Trans = 'T', ConjTrans = 'C' }; enum class Uplo : char { Upper = 'U', Lower = 'L', General = 'G' }; enum class Diag : char { NonUnit = 'N', Unit = 'U' }; enum class Side : char { Left = 'L', Right = 'R' };
namespace detail {} 
extern "C" void vx_fail(const char*);
extern "C" int vx_is_symbolic_real(double);
template <class S> bool is0(S s) { return s == S(0); } inline bool is0(double s) { return !vx_is_symbolic_real(s) && s == 0; }   // no case split on symbolic factors
template <class A, class B> using st_ = decltype(A() * B());
template <class TA, class TB, class TC, class S1, class S2> void gemm(Layout l, Op ta, Op tb, int64_t m, int64_t n, int64_t k, S1 alpha, TA const* A, int64_t lda, TB const* B, int64_t ldb, S2 beta, TC* C, int64_t ldc) {
  auto need = [&](bool c) { if (!c) throw std::runtime_error("blas: bad argument"); }; need(m >= 0 && n >= 0 && k >= 0);
  bool cm = l == Layout::ColMajor; bool an = ta == Op::NoTrans, bn = tb == Op::NoTrans;
  need(lda >= std::max<int64_t>(1, (an == cm) ? m : k)); need(ldb >= std::max<int64_t>(1, (bn == cm) ? k : n)); need(ldc >= std::max<int64_t>(1, cm ? m : n));
  for (int64_t j = 0; j < n; ++j) for (int64_t i = 0; i < m; ++i) {
    TC s = 0; if (!is0(alpha)) for (int64_t p = 0; p < k; ++p) { TA a = (an == cm) ? A[i + p * lda] : A[p + i * lda]; TB b = (bn == cm) ? B[p + j * ldb] : B[j + p * ldb]; s += a * b; }
    TC& c = cm ? C[i + j * ldc] : C[j + i * ldc]; c = is0(beta) ? TC(alpha * s) : TC(alpha * s + beta * c); } }
template <class TA, class TB, class TC, class S1, class S2> void gemv(Layout l, Op t, int64_t m, int64_t n, S1 alpha, TA const* A, int64_t lda, TB const* x, int64_t ix, S2 beta, TC* y, int64_t iy) {
  bool nt = t == Op::NoTrans, cm = l == Layout::ColMajor; int64_t M = nt ? m : n, N = nt ? n : m;
  for (int64_t i = 0; i < M; ++i) { TC s = 0; for (int64_t j = 0; j < N; ++j) s += ((nt == cm) ? A[i + j * lda] : A[j + i * lda]) * x[j * ix]; y[i * iy] = is0(beta) ? TC(alpha * s) : TC(alpha * s + beta * y[i * iy]); } }
template <class T, class U> auto dot(int64_t n, T const* x, int64_t ix, U const* y, int64_t iy) { st_<T, U> s = 0; for (int64_t i = 0; i < n; ++i) s += x[i * ix] * y[i * iy]; return s; }
template <class S, class T, class U> void axpy(int64_t n, S a, T const* x, int64_t ix, U* y, int64_t iy) { for (int64_t i = 0; i < n; ++i) y[i * iy] += a * x[i * ix]; }
template <class S, class T> void scal(int64_t n, S a, T* x, int64_t ix) { for (int64_t i = 0; i < n; ++i) x[i * ix] *= a; }
template <class T, class U> void copy(int64_t n, T const* x, int64_t ix, U* y, int64_t iy) { for (int64_t i = 0; i < n; ++i) y[i * iy] = x[i * ix]; }
template <class T> void swap(int64_t n, T* x, int64_t ix, T* y, int64_t iy) { for (int64_t i = 0; i < n; ++i) { T t = x[i * ix]; x[i * ix] = y[i * iy]; y[i * iy] = t; } }
template <class T> T nrm2(int64_t n, T const* x, int64_t ix) { T s = 0; for (int64_t i = 0; i < n; ++i) s += x[i * ix] * x[i * ix]; return std::sqrt(s); }
template <class T> T asum(int64_t n, T const* x, int64_t ix) { T s = 0; for (int64_t i = 0; i < n; ++i) s += std::abs(x[i * ix]); return s; }
template <class T> int64_t iamax(int64_t n, T const* x, int64_t ix) { if (n < 1) return -1; int64_t b = 0; T v = std::abs(x[0]); for (int64_t i = 1; i < n; ++i) { T w = std::abs(x[i * ix]); if (v < w) { v = w; b = i; } } return b; }
template <class S, class T, class U> void trsm(Layout, Side sd, Uplo ul, Op op, Diag dg, int64_t m, int64_t n, S alpha, T const* A, int64_t lda, U* B, int64_t ldb) {
  int64_t N = sd == Side::Left ? m : n; bool tr = op != Op::NoTrans; bool up = (ul == Uplo::Upper) != tr;  // effective triangle of op(A)
  auto a = [&](int64_t i, int64_t j) { return tr ? A[j + i * lda] : A[i + j * lda]; };
  for (int64_t j = 0; j < n; ++j) for (int64_t i = 0; i < m; ++i) B[i + j * ldb] *= alpha;
  if (sd == Side::Left) for (int64_t c = 0; c < n; ++c) { for (int64_t q = 0; q < N; ++q) { int64_t i = up ? N - 1 - q : q; for (int64_t p = up ? i + 1 : 0; p < (up ? N : i); ++p) B[i + c * ldb] -= a(i, p) * B[p + c * ldb]; if (dg == Diag::NonUnit) B[i + c * ldb] /= a(i, i); } }
  else for (int64_t r = 0; r < m; ++r) { for (int64_t q = 0; q < N; ++q) { int64_t j = up ? q : N - 1 - q; for (int64_t p = up ? 0 : j + 1; p < (up ? j : N); ++p) B[r + j * ldb] -= B[r + p * ldb] * a(p, j); if (dg == Diag::NonUnit) B[r + j * ldb] /= a(j, j); } } }
template <class S, class T, class U> void trmm(Layout, Side, Uplo, Op, Diag, int64_t, int64_t, S, T const*, int64_t, U*, int64_t) { vx_fail("stub: trmm"); }
template <class S, class T> void ger(Layout, int64_t m, int64_t n, S a, T const* x, int64_t ix, T const* y, int64_t iy, T* A, int64_t lda) { for (int64_t j = 0; j < n; ++j) for (int64_t i = 0; i < m; ++i) A[i + j * lda] += a * x[i * ix] * y[j * iy]; }
template <class S, class T, class U, class S2> void syrk(Layout, Uplo u, Op t, int64_t n, int64_t k, S al, T const* A, int64_t lda, S2 be, U* C, int64_t ldc) { for (int64_t j = 0; j < n; ++j) for (int64_t i = 0; i < n; ++i) { if (u == Uplo::Upper ? i > j : i < j) continue; U s = 0; for (int64_t p = 0; p < k; ++p) s += t == Op::NoTrans ? A[i + p * lda] * A[j + p * lda] : A[p + i * lda] * A[p + j * lda]; C[i + j * ldc] = be == S2(0) ? U(al * s) : U(al * s + be * C[i + j * ldc]); } }
}
