# planted bugs for the legacy determinant layer (see mkseed.py)
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds2 import P
D = 'attic/inc/dbwy/'
PRE = P + '''#include <algorithm>
#include <bitset>
#include <chrono>
#include <cmath>
#include <cstring>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <numeric>
#include <set>
#include <tuple>
#include <mpi.h>
#include "cmz_ed/utils.h++"
#include "cmz_ed/ed.h++"
namespace ips4o { namespace parallel { template <class I, class C> void sort(I b, I e, C c) { std::sort(b, e, c); } } }
#include "dbwy/csr_hamiltonian.hpp"
using std::bitset; using std::vector;
#include "dbwy/sd_build.hpp"
static std::vector<double> ES; static int SOLVES = 0;
namespace sparsexx { template <class M> double p_davidson(size_t, const dist_sparse_matrix<M>& H, double, double* X) { for (int i = 0; i < H.m(); ++i) X[i] = 1. / (i + 1); return ES.at(SOLVES++); } }
#include "dbwy/asci_util.hpp"
using namespace dbwy; typedef std::bitset<64> BS;
static BS bs(unsigned a, unsigned b) { return BS(a) | BS(b) << 32; }
struct S { int n; std::vector<double> T, V; S(int n) : n(n), T(n * n), V(n * n * n * n) { int c = 3; for (int q = 0; q < n; ++q) for (int p = 0; p <= q; ++p) T[p + q * n] = T[q + p * n] = (c++ * 7 % 11 - 5) * 0.25 + 0.125;
  auto v = [&](int p, int q, int r, int s) -> double& { return V[p + n * (q + n * (r + n * s))]; }; for (int q = 0; q < n; ++q) for (int p = 0; p <= q; ++p) for (int s = 0; s < n; ++s) for (int r = 0; r <= s; ++r) { if (p + q * n > r + s * n) continue; double x = (c++ * 5 % 13 - 6) * 0.125; v(p, q, r, s) = v(q, p, r, s) = v(p, q, s, r) = v(q, p, s, r) = v(r, s, p, q) = v(s, r, p, q) = v(r, s, q, p) = v(s, r, q, p) = x; } } };
'''
IPS = {'ips4o.hpp': '#pragma once\n'}
DAV = P + '''#include <chrono>
#include <iomanip>
#include <iostream>
#include <random>
#include <sparsexx/matrix_types/csr_matrix.hpp>
#include <sparsexx/matrix_types/dist_sparse_matrix.hpp>
#include <sparsexx/spblas/pspmbv.hpp>
#include <sparsexx/util/submatrix.hpp>
#include "dbwy/davidson.hpp"
static sparsexx::csr_matrix<double, int32_t> mk(const std::vector<double>& M, int n) { std::vector<int32_t> p(1, 0), c; std::vector<double> v; for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) if (M[i * n + j] != 0) c.push_back(j), v.push_back(M[i * n + j]); p.push_back(c.size()); } sparsexx::csr_matrix<double, int32_t> A(n, n, v.size(), 0); A.rowptr() = p; A.colind() = c; A.nzval() = v; return A; }
'''
def db(**k): return dict(dict(prop='P50', std='gnu++20', flags='-I"$r/attic/inc" -I"$r/src/sparsexx/include" -I"$r/src/lobpcgxx/include" -I"$r/_build/src/sparsexx/include" -I/usr/include/eigen3', libs='-llapackpp -lblaspp -lopenblas -llapack -lgomp', mdspan=True, nospdlog=True, src=['attic/src/cmz_ed/utils.c++', 'attic/src/cmz_ed/combins.c++']), **k)
A = D + 'asci_util.hpp'
SEEDS = [
db(id='p50_refine_descent', needs='a refinement round that lowers the energy by more than the tolerance', what='refinement takes any lowering of the energy for convergence',
 edits=[(A, 'if( std::abs(E_delta) < asci_tol ) {', 'if( E_delta < asci_tol ) {')],
 demo=PRE + '''int main(int c, char** v) { MPI_Init(&c, &v); S s(3); DoubleLoopHamiltonianGenerator<64> g(3, s.V.data(), s.T.data()); ES = {-41, -42, -42.001, -43}; std::vector<BS> w{bs(3, 1), bs(3, 2)}; std::vector<double> x{0.75, 0.5}; auto [E, W, X] = asci_refine<64>(2, 0.01, 4, -40., w, x, g, 3, 1e-6, 20, 1e-8, std::function<void(double)>(), true); MPI_Finalize(); return E != -42.001 || SOLVES != 3; }
'''),
db(id='p50_negative_weight', needs='a large negative coefficient and a core smaller than the wavefunction', what='determinants are ordered by signed coefficient before the core is cut',
 edits=[(A, 'return std::abs(C_local[i]) > std::abs(C_local[j]);', 'return C_local[i] > C_local[j];')],
 demo=PRE + '''int main() { std::vector<BS> d{bs(1, 1), bs(2, 1), bs(4, 1)}; std::vector<double> c{0.25, -0.75, 0.5}; reorder_ci_on_coeff(d, c, MPI_COMM_WORLD); return c[0] != -0.75 || d[0] != bs(2, 1) || c[2] != 0.25; }
'''),
db(id='p50_missing_spectator', needs='determinants one excitation apart with spectators of the other spin', what='the two-body density misses the exchanged pair of opposite-spin spectators',
 edits=[(D + 'hamiltonian_generator.hpp', '''  for( auto p : bra_occ_beta ) {
    trdm[ v1 + o1*norb_ + p *norb2_ +  p*norb3_ ] += val;
    trdm[ p  + p *norb_ + v1*norb2_ + o1*norb3_ ] += val;
  }''', '''  for( auto p : bra_occ_beta ) {
    trdm[ v1 + o1*norb_ + p *norb2_ +  p*norb3_ ] += val;
    if( p != v1 ) trdm[ p  + p *norb_ + v1*norb2_ + o1*norb3_ ] += val;
  }''')],
 demo=PRE + '''int main() { S s(3); DoubleLoopHamiltonianGenerator<64> g(3, s.V.data(), s.T.data()); std::vector<BS> w{bs(1, 2), bs(2, 2), bs(4, 2), bs(1, 1)}; double C[4] = {0.7, 0.4, -0.5, 0.3}, e = 0, E = 0; std::vector<double> o(9), t(81); g.form_rdms(w.begin(), w.end(), w.begin(), w.end(), C, o.data(), t.data()); for (int i = 0; i < 9; ++i) e += o[i] * s.T[i]; for (int i = 0; i < 81; ++i) e += t[i] * s.V[i]; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) E += C[i] * C[j] * g.matrix_element(w[i], w[j]); return std::abs(e - E) > 1e-10; }
'''),
db(id='p50_upper_orbitals', needs='an excitation among orbitals beyond the 32nd', what='the first set bit of 64-bit strings is searched in the lower 32 bits only',
 edits=[(D + 'bitset_operations.hpp', 'return ffsll( bits.to_ullong() );', 'return ::ffs( bits.to_ullong() );')],
 demo=PRE + '''int main() { typedef std::bitset<64> W; for (int k = 0; k < 62; ++k) { auto [o, v, s] = single_excitation_sign_indices(W(4) << k, W(1) << k, W(5) << k); if ((int)o != k || (int)v != k + 2 || s != 1) return 1; } return 0; }
'''),
db(id='p51_short_broadcast', prop='P51', needs='more than one rank', what='the last coefficient of the lowest Ritz vector does not reach the other ranks',
 edits=[(D + 'davidson.hpp', 'MPI_Bcast( C, K*K, MPI_DOUBLE, 0, comm );', 'MPI_Bcast( C, K-1, MPI_DOUBLE, 0, comm );')],
 demo=DAV + '''int main(int c, char** v) { MPI_Init(&c, &v); int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); const int n = 6; std::vector<double> M(n * n), X(n / 2), G(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) M[i * n + j] = i == j ? i - 2. : 0.3 / (1 + std::abs(i - j)); auto A = mk(M, n); sparsexx::dist_sparse_matrix<sparsexx::csr_matrix<double, int32_t>> S(MPI_COMM_WORLD, A);
 double l = p_davidson(n, S, 1e-9, X.data()); MPI_Allgather(X.data(), n / 2, MPI_DOUBLE, G.data(), n / 2, MPI_DOUBLE, MPI_COMM_WORLD); double e = 0, q = 0; for (int i = 0; i < n; ++i) { double y = -l * G[i]; for (int j = 0; j < n; ++j) y += M[i * n + j] * G[j]; e += y * y; q += G[i] * G[i]; } MPI_Finalize(); return !(e < 1e-12 && std::abs(q - 1) < 1e-10); }
''', np=2),
db(id='p51_start_magnitude', prop='P51', needs='a matrix of decoupled blocks whose lowest diagonal element is negative', what='the serial solver starts at the diagonal element of the smallest magnitude',
 edits=[(D + 'davidson.hpp', 'auto D_min = std::min_element(D.begin(), D.end());\n  auto min_idx', 'auto D_min = std::min_element(D.begin(), D.end(), [](double a, double b){ return std::abs(a) < std::abs(b); });\n  auto min_idx')],
 demo=DAV + '''int main(int c, char** v) { MPI_Init(&c, &v); const int n = 4; std::vector<double> M{0.5, .1, 0, 0, .1, 2, 0, 0, 0, 0, -3, .2, 0, 0, .2, 1}; double l = davidson(n, mk(M, n), 1e-9); MPI_Finalize(); double x = (-3 + 1 - std::sqrt(16 + .16)) / 2; return !(std::abs(l - x) < 1e-8); }
'''),
]
for s in SEEDS: s['files'] = IPS
