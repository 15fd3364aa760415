// Reference view of a sparse matrix: a dense optional pattern with one real per stored entry.
#pragma once
#ifndef VAL_EQ
#define VAL_EQ vx_assert_eq
#endif
#include "common.hpp"
#include <mpi.h>
#include <numeric>
#include <map>
#include <set>
#include <sstream>
#include <cassert>
#include <string>
#include <vector>
#include <sparsexx/matrix_types/csr_matrix.hpp>
#include <sparsexx/matrix_types/csc_matrix.hpp>
#include <sparsexx/matrix_types/coo_matrix.hpp>
#include <sparsexx/matrix_types/conversions.hpp>
#include <sparsexx/matrix_types/dense_conversions.hpp>
template <class T> using Csr = sparsexx::csr_matrix<double, T>;
template <class T> using Csc = sparsexx::csc_matrix<double, T>;
template <class T> using Coo = sparsexx::coo_matrix<double, T>;
struct Pat { int m, n; std::vector<char> s; std::vector<double> v;
  Pat(int m, int n) : m(m), n(n), s(m * n), v(m * n) {}
  char& at(int i, int j) { return s[i * n + j]; } char at(int i, int j) const { return s[i * n + j]; }
  double& val(int i, int j) { return v[i * n + j]; } double val(int i, int j) const { return v[i * n + j]; }
  int nnz() const { return std::accumulate(s.begin(), s.end(), 0); }
  double full(int i, int j) const { return at(i, j) ? val(i, j) : 0.; } };
// any sparsity pattern (case split), one symbolic real per entry
inline Pat pick_pat(int m, int n) { Pat P(m, n); uint64_t w = vx_concretize(vx_int_("pattern", m * n)); for (int k = 0; k < m * n; ++k) if (P.s[k] = w >> k & 1) P.v[k] = vx_real("a"); return P; }
template <class T> Csr<T> mk_csr(const Pat& P, int ix) { std::vector<T> rp(1, ix), ci; std::vector<double> nz; for (int i = 0; i < P.m; ++i) { for (int j = 0; j < P.n; ++j) if (P.at(i, j)) ci.push_back(j + ix), nz.push_back(P.val(i, j)); rp.push_back(ci.size() + ix); }
  Csr<T> A(P.m, P.n, nz.size(), ix); A.rowptr() = rp; A.colind() = ci; A.nzval() = nz; return A; }
template <class T> Csc<T> mk_csc(const Pat& P, int ix) { std::vector<T> cp(1, ix), ri; std::vector<double> nz; for (int j = 0; j < P.n; ++j) { for (int i = 0; i < P.m; ++i) if (P.at(i, j)) ri.push_back(i + ix), nz.push_back(P.val(i, j)); cp.push_back(ri.size() + ix); }
  Csc<T> A(P.m, P.n, nz.size(), ix); A.colptr() = cp; A.rowind() = ri; A.nzval() = nz; return A; }
template <class T> Coo<T> mk_coo(const Pat& P, int ix, bool bycol) { std::vector<T> r, c; std::vector<double> v; auto put = [&](int i, int j) { if (P.at(i, j)) r.push_back(i + ix), c.push_back(j + ix), v.push_back(P.val(i, j)); };
  if (bycol) for (int j = 0; j < P.n; ++j) for (int i = 0; i < P.m; ++i) put(i, j); else for (int i = 0; i < P.m; ++i) for (int j = 0; j < P.n; ++j) put(i, j);
  return Coo<T>(P.m, P.n, std::move(c), std::move(r), std::move(v), ix); }
// structural validity plus equality with the pattern; columns in increasing order inside each row
template <class T> void chk_csr(const Csr<T>& A, const Pat& P, int ix, const char* what) {
  vx_assert(A.m() == P.m && A.n() == P.n && A.indexing() == ix, what); vx_assert(A.nnz() == P.nnz() && (int)A.nzval().size() == P.nnz() && (int)A.colind().size() == P.nnz() && (int)A.rowptr().size() == P.m + 1, what);
  vx_assert(A.rowptr()[0] == ix, what); int k = 0;
  for (int i = 0; i < P.m; ++i) { for (int j = 0; j < P.n; ++j) if (P.at(i, j)) { vx_assert(A.colind()[k] == j + ix, what); VAL_EQ(A.nzval()[k], P.val(i, j), what); ++k; } vx_assert(A.rowptr()[i + 1] == k + ix, what); } }
template <class T> void chk_csc(const Csc<T>& A, const Pat& P, int ix, const char* what) {
  vx_assert(A.m() == P.m && A.n() == P.n && A.indexing() == ix, what); vx_assert(A.nnz() == P.nnz() && (int)A.nzval().size() == P.nnz() && (int)A.rowind().size() == P.nnz() && (int)A.colptr().size() == P.n + 1, what);
  vx_assert(A.colptr()[0] == ix, what); int k = 0;
  for (int j = 0; j < P.n; ++j) { for (int i = 0; i < P.m; ++i) if (P.at(i, j)) { vx_assert(A.rowind()[k] == i + ix, what); VAL_EQ(A.nzval()[k], P.val(i, j), what); ++k; } vx_assert(A.colptr()[j + 1] == k + ix, what); } }
template <class T> void chk_coo(const Coo<T>& A, const Pat& P, int ix, bool bycol, const char* what) {
  int q = P.nnz(); vx_assert(A.m() == P.m && A.n() == P.n && A.indexing() == ix, what); vx_assert(A.nnz() == q && (int)A.nzval().size() == q && (int)A.rowind().size() == q && (int)A.colind().size() == q, what);
  int k = 0; auto ck = [&](int i, int j) { if (P.at(i, j)) { vx_assert(A.rowind()[k] == i + ix && A.colind()[k] == j + ix, what); VAL_EQ(A.nzval()[k], P.val(i, j), what); ++k; } };
  if (bycol) for (int j = 0; j < P.n; ++j) for (int i = 0; i < P.m; ++i) ck(i, j); else for (int i = 0; i < P.m; ++i) for (int j = 0; j < P.n; ++j) ck(i, j); }
