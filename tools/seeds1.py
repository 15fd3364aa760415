H = '''#include <mpi.h>
#include <cstdio>
#include <cmath>
#include <vector>
#include <numeric>
#include <set>
#include <cassert>
#include <iomanip>
#include <fstream>
#include <string>
#include <sparsexx/matrix_types/csr_matrix.hpp>
#include <sparsexx/matrix_types/csc_matrix.hpp>
#include <sparsexx/matrix_types/coo_matrix.hpp>
#include <sparsexx/matrix_types/conversions.hpp>
#include <sparsexx/matrix_types/dense_conversions.hpp>
#include <sparsexx/matrix_types/dist_sparse_matrix.hpp>
#include <sparsexx/spblas/spmbv.hpp>
#include <sparsexx/spblas/pspmbv.hpp>
#include <sparsexx/util/submatrix.hpp>
#include <sparsexx/util/permute.hpp>
#include <sparsexx/io/read_mm.hpp>
#include <sparsexx/io/write_mm.hpp>
using Csr = sparsexx::csr_matrix<double, int32_t>; using Coo = sparsexx::coo_matrix<double, int32_t>; using Csc = sparsexx::csc_matrix<double, int32_t>;
static std::vector<double> dense(const Csr& A) { std::vector<double> D(A.m() * A.n()); for (int i = 0; i < A.m(); ++i) for (int k = A.rowptr().at(i) - A.indexing(); k < A.rowptr().at(i + 1) - A.indexing(); ++k) D.at(i + (A.colind().at(k) - A.indexing()) * A.m()) = A.nzval().at(k); return D; }
static Csr from_dense(int m, int n, const std::vector<double>& D, int ix) { std::vector<int32_t> rp(1, ix), ci; std::vector<double> nz; for (int i = 0; i < m; ++i) { for (int j = 0; j < n; ++j) if (D[i + j * m] != 0) ci.push_back(j + ix), nz.push_back(D[i + j * m]); rp.push_back(ci.size() + ix); } return Csr(m, n, std::move(rp), std::move(ci), std::move(nz)); }
'''
SX = 'src/sparsexx/include/sparsexx/'
SEEDS = [
dict(id='p32_offsets_from_sends', prop='P32', needs='three ranks and an unsymmetric sparsity pattern, so that the numbers of sent and received elements differ', what='receive offsets of the distributed product are computed from the send counts, so remote elements are scattered to the wrong positions for unsymmetric patterns',
 edits=[(SX + 'spblas/pspmbv.hpp', '  std::exclusive_scan(recv_counts.begin(), recv_counts.end(),\n                      recv_offsets.begin(), 0);', '  std::exclusive_scan(send_counts.begin(), send_counts.end(),\n                      recv_offsets.begin(), 0);')], np=3,
 demo=H + '''int main(int c, char** v) { MPI_Init(&c, &v); int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); const int n = 6; std::vector<double> D(n * n); for (int i = 0; i < n; ++i) D[i + i * n] = i + 1.; D[4 + 0 * n] = 3; D[4 + 1 * n] = 5; D[5 + 2 * n] = 7; D[0 + 5 * n] = 2; D[2 + 1 * n] = 11;
  auto A = from_dense(n, n, D, 0); sparsexx::dist_sparse_matrix<Csr> S(MPI_COMM_WORLD, A); auto info = sparsexx::spblas::generate_spmv_comm_info(S); std::vector<double> x(2), y(2, 0.); for (int i = 0; i < 2; ++i) x[i] = 1. + 2 * r + i; sparsexx::spblas::pgespmv(1., S, x.data(), 0., y.data(), info);
  int bad = 0; for (int i = 0; i < 2; ++i) { double s = 0; for (int j = 0; j < n; ++j) s += D[2 * r + i + j * n] * (1. + j); if (std::abs(s - y[i]) > 1e-9) bad = 1; } int t = 0; MPI_Allreduce(&bad, &t, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); MPI_Finalize(); return t; }
'''),
dict(id='p33_gap_before_last_rank', prop='P33', needs='a custom row partition with a gap or overlap just before the last rank', what='the contiguity check of custom row partitions skips the last boundary',
 edits=[(SX + 'matrix_types/dist_sparse_matrix.hpp', 'for(auto i = 0; i < comm_size_ - 1; ++i) {', 'for(auto i = 0; i < comm_size_ - 2; ++i) {')], np=3,
 demo=H + '''int main(int c, char** v) { MPI_Init(&c, &v); bool t = false; try { sparsexx::dist_sparse_matrix<Csr> S(MPI_COMM_WORLD, (size_t)6, (size_t)6, {{0, 2}, {2, 3}, {4, 6}}); } catch (const std::exception&) { t = true; } MPI_Finalize(); return t ? 0 : 1; }
'''),
dict(id='p34_excl_zero_based', prop='P34', needs='a zero-based matrix and a stored entry at the first excluded or first kept column', what='the excluded column range is located assuming one-based column indices',
 edits=[(SX + 'util/submatrix.hpp', '''                                   return j_cor < col_lo or j_cor >= col_up;''', '''                                   return j_cor < col_lo or j > col_up;''')],
 demo=H + '''int main() { std::vector<double> D{1, 2, 3, 4, 5, 6}; auto B = sparsexx::extract_submatrix_inclrow_exclcol(from_dense(2, 3, D, 0), {0, 0}, {2, 2}); return !(B.nnz() == 2 && B.colind() == std::vector<int32_t>{2, 2} && B.nzval() == std::vector<double>{5, 6}); }
'''),
dict(id='p35_cols_not_inverted', prop='P35', needs='a column permutation that is not its own inverse', what='column permutation applies the permutation instead of its inverse to the column indices',
 edits=[(SX + 'util/permute.hpp', '  auto iperm = invert_perm(perm);', '  const auto& iperm = perm;')],
 demo=H + '''int main() { std::vector<double> D{1, 0, 2, 0, 3, 4}; auto A = from_dense(2, 3, D, 1); std::vector<int32_t> p{1, 2, 0}; auto B = dense(sparsexx::permute_cols(A, p)); for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) if (B[i + 2 * j] != D[i + 2 * p[j]]) return 1; return 0; }
'''),
dict(id='p36_force_zero_base', prop='P36', needs='writing a one-based matrix with a forced zero base', what='a forced index base of zero is ignored by the Matrix Market writer',
 edits=[(SX + 'io/write_mm.hpp', '  if(forced_index >= 0) {', '  if(forced_index > 0) {')],
 demo=H + '''int main() { std::vector<double> D{1, 0, 2, 3}; sparsexx::write_mm("a.mtx", from_dense(2, 2, D, 1), false, 0); auto B = sparsexx::read_mm<Csr>("a.mtx"); return !(B.indexing() == 0 && dense(B) == D); }
'''),
dict(id='p29_csc_swapped_shape', prop='P29', needs='converting a non-square compressed-column matrix', what='column-to-row conversion passes the dimensions in the wrong order',
 edits=[(SX + 'matrix_types/conversions.hpp', 'detail::csr_to_csc(n_, m_,', 'detail::csr_to_csc(std::min(m_, n_), std::max(m_, n_),')],
 demo=H + '''int main() { Csc A(3, 2, 3, 0); A.colptr() = {0, 2, 3}; A.rowind() = {0, 2, 1}; A.nzval() = {1, 2, 3}; Csc A2(2, 3, 3, 0); A2.colptr() = {0, 1, 2, 3}; A2.rowind() = {0, 1, 0}; A2.nzval() = {1, 2, 3};
  Csr B(A), B2(A2); bool ok = B.rowptr() == std::vector<int32_t>{0, 1, 2, 3} && B.colind() == std::vector<int32_t>{0, 1, 0}; ok = ok && B2.rowptr() == std::vector<int32_t>{0, 2, 3} && B2.colind() == std::vector<int32_t>{0, 2, 1}; return !ok; }
'''),
dict(id='p31_leading_dimension', prop='P31', needs='more than one column and a leading dimension of V larger than the number of columns of A', what='the sparse product ignores the leading dimension of the input block',
 edits=[(SX + 'spblas/spmbv.hpp', 'const auto* V_k = V + k * LDV - indexing;', 'const auto* V_k = V + k * std::min<int64_t>(LDV, A.n()) - indexing;')],
 demo=H + '''int main() { std::vector<double> D{1, 0, 2, 3}, V{1, 2, 99, 3, 4, 99}, Y(4, 0.); auto A = from_dense(2, 2, D, 1); sparsexx::spblas::gespmbv(2, 1., A, V.data(), 3, 0., Y.data(), 2); return !(Y[0] == 5 && Y[1] == 6 && Y[2] == 11 && Y[3] == 12); }
'''),
dict(id='p30_sort_ties', prop='P30', needs='triplets whose rows tie while their columns are not already in increasing order', what='sorting by row leaves the columns of a row in input order',
 edits=[(SX + 'matrix_types/coo_matrix_ops.hpp', '''    if(rowind_[i] < rowind_[j])
      return true;
    else if(rowind_[j] < rowind_[i])
      return false;
    else
      return colind_[i] < colind_[j];''', '''    if(rowind_[i] < rowind_[j])
      return true;
    else if(rowind_[j] < rowind_[i])
      return false;
    else
      return i < j;''')],
 demo=H + '''int main() { Coo A(2, 3, std::vector<int32_t>{2, 0, 1}, std::vector<int32_t>{0, 1, 0}, std::vector<double>{1, 2, 3}, 0); A.sort_by_row_index(); return !(A.colind() == std::vector<int32_t>{1, 2, 0} && A.nzval() == std::vector<double>{3, 1, 2}); }
'''),
]
