# planted bugs for the legacy library, the text helpers and the block eigensolver (see mkseed.py)
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds2 import P
A, I = 'attic/src/cmz_ed/', 'attic/inc/cmz_ed/'
def src(*n): return [A + x + '.c++' for x in n]
ALL = src('combins', 'slaterdet', 'hamil', 'rdms', 'utils', 'eigsolver', 'ed')
FL = '-std=c++20 -I"$r/attic/inc" -I/usr/include/eigen3'
LB = '-llapackpp -lblaspp -lopenblas -llapack -lgomp'
AT = P + '''#include "cmz_ed/ed.h++"
#include "cmz_ed/slaterdet.h++"
#include "cmz_ed/hamil.h++"
#include "cmz_ed/integrals.h++"
#include "cmz_ed/rdms.h++"
#include "cmz_ed/lanczos.h++"
#include "cmz_ed/eigsolver.h++"
using namespace cmz::ed; typedef std::vector<double> vd;
static double rnd() { static unsigned s = 7; s = s * 1103515245u + 12345u; return ((s >> 8) % 2001) / 1000. - 1; }
static intgrls::integrals sym(size_t n) { vd T(n * n), U(n * n * n * n); for (size_t p = 0; p < n; ++p) for (size_t q = 0; q <= p; ++q) T[p + q * n] = T[q + p * n] = rnd();
  for (size_t p = 0; p < n; ++p) for (size_t q = 0; q <= p; ++q) for (size_t r = 0; r <= p; ++r) for (size_t s = 0; s <= (r == p ? q : r); ++s) { double x = rnd(); auto set = [&](size_t a, size_t b, size_t c, size_t d) { U[a + n * (b + n * (c + n * d))] = x; }; set(p, q, r, s); set(q, p, r, s); set(p, q, s, r); set(q, p, s, r); set(r, s, p, q); set(s, r, p, q); set(r, s, q, p); set(s, r, q, p); }
  return intgrls::integrals(n, T, U); }
static bool ne(double a, double b) { return !(std::abs(a - b) < 1e-8 * (1 + std::abs(a) + std::abs(b))); }
'''
_h = open(os.environ.get('MKREPO', '/repo') + '/' + A + 'hamil.c++').read(); _i = _h.index('GetHmat_FromPairs'); PAIRS = _h[_h.index('SpMatD Hmat( nelems', _i):_h.index('1.E-9)', _h.index('T thres', _i)) + 6]
def at(**k):
    k.setdefault('src', ALL); k.setdefault('flags', FL); k.setdefault('libs', LB); k.setdefault('std', 'c++17'); return dict(k)
SEEDS = [
at(id='p39_virtuals_down', prop='P39', needs='different numbers of electrons of the two spins and at least two spin-down electrons', what='the list of connected determinants pairs spin-down double excitations over the number of spin-up electrons',
 edits=[(A + 'slaterdet.c++', '''          for( size_t io2 = io1+1; io2 < occs_do.size(); io2++ )
            for( size_t iv2 = iv1+1; iv2 < virts_do.size(); iv2++ )
              excs.push_back(''', '''          for( size_t io2 = io1+1; io2 < occs_do.size(); io2++ )
            for( size_t iv2 = iv1+1; iv2 < virts_up.size(); iv2++ )
              excs.push_back(''')],
 demo=AT + '''int main() { slater_det d((1ull | 2) + ((1ull | 4) << 4), 4, 2, 2), e(7ull + ((1ull | 2) << 4), 4, 3, 2); size_t want[2] = {4 + 4 + 1 + 1 + 16, 3 + 4 + 0 + 1 + 12}; return d.GetSinglesAndDoubles().size() != want[0] || e.GetSinglesAndDoubles().size() != want[1]; }
'''),
at(id='p40_down_exchange', prop='P40', needs='two spin-down electrons exchanged between different orbitals with nonzero off-site integrals', what='the exchange integral of a spin-down double excitation is the direct one again, so these elements vanish',
 edits=[(A + 'hamil.c++', '''        double sign = ket.SingleExcDo( v1, o1 );
        uint64_t o2 = ket.GetFlippedOccIndx( bra );
        uint64_t v2 = bra.GetFlippedOccIndx( ket );
        sign *= ket.SingleExcDo( v2, o2 );
        res = sign * (pints->getChem(v1,o1,v2,o2) 
                      - pints->getChem(v1,o2,v2,o1));''', '''        double sign = ket.SingleExcDo( v1, o1 );
        uint64_t o2 = ket.GetFlippedOccIndx( bra );
        uint64_t v2 = bra.GetFlippedOccIndx( ket );
        sign *= ket.SingleExcDo( v2, o2 );
        res = sign * (pints->getChem(v1,o1,v2,o2) 
                      - pints->getChem(v2,o2,v1,o1));''')],
 demo=AT + '''int main() { auto g = sym(4); FermionHamil H(g); double a = H.GetHmatel(slater_det(1 + (3ull << 4), 4, 1, 2), slater_det(1 + (12ull << 4), 4, 1, 2)), b = H.GetHmatel(slater_det(3 + (1ull << 4), 4, 2, 1), slater_det(12 + (1ull << 4), 4, 2, 1)); return ne(a, b); }
'''),
at(id='p40_pair_pruning', prop='P40', needs='the pair-list construction with couplings between 1e-9 and 1e-4', what='the pair-list construction drops couplings that are small but not vanishing',
 edits=[(A + 'hamil.c++', PAIRS, PAIRS.replace('1.E-9', '1.E-4'))],
 demo=AT + '''int main() { vd T{1, 1e-5, 1e-5, 2}, U(16); U[0] = 0.5; intgrls::integrals g(2, T, U); FermionHamil H(g); SetSlaterDets S = BuildFullHilbertSpace(2, 1, 0); auto M = GetHmat_FromPairs(&H, S, {{0, 1}, {1, 0}}); return M.nonZeros() != 4; }
'''),
at(id='p41_rotation_transpose', prop='P41', needs='a rotation that is not symmetric', what='the second pair of density indices is rotated with one transposed factor',
 edits=[(I + 'rdms.h++', 'V(jj,j) * another_tmp[ indexer( i,jj,a,bb ) ] * V(bb,b)', 'V(jj,j) * another_tmp[ indexer( i,jj,a,bb ) ] * V(b,bb)')],
 demo=AT + '''int main() { auto S = BuildFullHilbertSpace(2, 1, 1); VectorXd c(4); for (int i = 0; i < 4; ++i) c(i) = rnd(); rdm::rdms r(2, c, S); auto g = sym(2); eigMatD V(2, 2); V << 0.8, 0.6, -0.6, 0.8; rdm::rdms r2(r); r2.rotate_orbitals(V); double e = 0, e2 = 0; g.rotate_orbitals(eigMatD::Identity(2, 2)); for (int i = 0; i < 16; ++i) e += g.u[i] * r.rdm2[i]; g.rotate_orbitals(V); for (int i = 0; i < 16; ++i) e2 += g.u[i] * r2.rdm2[i]; return ne(e, e2); }
'''),
at(id='p41_shared_spectator', prop='P41', needs='single excitations of spin-down electrons in the presence of spin-up ones', what='the opposite-spin spectator term of a spin-down excitation is added only once',
 edits=[(A + 'rdms.c++', '''            // Do-Up
            for( auto b : occs_up )
            {
              rdm2[ indexer(v1, b, o1, b) ] += sign * contrib * 0.5;
              rdm2[ indexer(b, v1, b, o1) ] += sign * contrib * 0.5;''', '''            // Do-Up
            for( auto b : occs_up )
            {
              rdm2[ indexer(v1, b, o1, b) ] += sign * contrib * 0.5;
              if( b < v1 ) rdm2[ indexer(b, v1, b, o1) ] += sign * contrib * 0.5;''')],
 demo=AT + '''int main() { auto S = BuildFullHilbertSpace(3, 1, 2); VectorXd c(S.size()); for (int i = 0; i < c.size(); ++i) c(i) = rnd(); c /= c.norm(); rdm::rdms r(3, c, S); for (int i = 0; i < 3; ++i) for (int a = 0; a < 3; ++a) { double t = 0; for (int j = 0; j < 3; ++j) t += r.rdm2[r.indexer(i, j, a, j)]; if (ne(t, r.rdm1[r.indexer(i, a)])) return 1; t = 0; for (int j = 0; j < 3; ++j) t += r.rdm2[r.indexer(j, i, j, a)]; if (ne(t, r.rdm1[r.indexer(i, a)])) return 1; } return 0; }
'''),
at(id='p42_stale_store', prop='P42', needs='integrals that are changed and stored a second time', what='storing integrals keeps the value stored first',
 edits=[(I + 'integrals.h++', 'u_store.insert_or_assign( four_indx(i,a,j,b, real), u[ indexer(i,j,a,b) ] );', 'u_store.insert( { four_indx(i,a,j,b, real), u[ indexer(i,j,a,b) ] } );')],
 demo=AT + '''int main() { auto g = sym(2); eigMatD V(2, 2); V << 0.8, 0.6, -0.6, 0.8; g.rotate_orbitals(V); g.updateStoredInts(); double x = g.u[0]; g.copy_to_vectors(); return ne(x, g.u[0]); }
'''),
at(id='p42_read_first', prop='P42', needs='a file in which the one-electron index pair is given with the larger index second', what='one-electron keys are only brought into order when the second index is far from the first',
 edits=[(I + 'integrals.h++', '''        void order() //Apply symmetry, assuming hermiticity
          {
            if(i < a) std::swap(i,a);''', '''        void order() //Apply symmetry, assuming hermiticity
          {
            if(i + 1 < a) std::swap(i,a);''') ],
 demo=AT + '''int main(int c, char** v) { MPI_Init(&c, &v); { std::ofstream f("d"); f << "1 2 0 0 0.5\\n3 1 0 0 0.25\\n"; } intgrls::integrals g(3, std::string("d")); int bad = ne(g.get(0, 1), g.get(1, 0)) || ne(g.get(0, 1), 0.5) || ne(g.get(0, 2), 0.25); MPI_Finalize(); return bad; }
'''),
at(id='p46_lower_triangle', prop='P46', needs='a matrix file that lists entries below the diagonal', what='entries below the diagonal are no longer mirrored',
 edits=[(A + 'utils.c++', 'if(r != c) tripletlist', 'if(r < c) tripletlist')],
 demo=AT + '''int main() { { std::ofstream f("m"); f << "2 2 3\\n0 0 1.5\\n1 0 0.5\\n1 1 2\\n"; } SpMatD M(2, 2); if (!ReadMat("m", M)) return 1; return ne(M.coeff(0, 1), 0.5) || ne(M.coeff(1, 0), 0.5); }
'''),
at(id='p46_conjugate_mixed', prop='P46', needs='a complex left and a real right argument with an imaginary part', what='the mixed inner product no longer conjugates the left argument',
 edits=[(I + 'utils.h++', 'res += conj(vecR[i]) * std::complex<double>(vecL[i], 0.);', 'res += vecR[i] * std::complex<double>(vecL[i], 0.);')],
 demo=AT + '''int main() { VecCompD a{{0.5, 1.5}}; VecD b{2}; auto z = MyInnProd(a, b); return ne(z.real(), 1) || ne(z.imag(), -3); }
'''),
at(id='p47_lost_krylov_vector', prop='P47', needs='a ground-state run that stops because the energy converged', what='the number of Lanczos steps is reported one too small, so the vector is rebuilt without its last component',
 edits=[(I + 'lanczos.h++', '''        if(abs(currE0 - prevE0) <= E0tol){
          itermax = iter+1;''', '''        if(abs(currE0 - prevE0) <= E0tol){
          itermax = iter;''')],
 demo=AT + '''int main() { int n = 30; eigMatD M(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) M(i, j) = M(j, i) = rnd(); eigMatDOp H(M); double E; VectorXd c, s = VectorXd::Ones(n); Input_t in; in["E0tol"] = "1.e-3"; long k = GetGSEn_Lanczos(s, H, E, c, in); return k != c.size(); }
'''),
at(id='p47_energy_sign', prop='P47', needs='a particle (addition) resolvent with more than one starting vector', what='the off-diagonal couplings of the shifted band matrix keep their sign for additions',
 edits=[(A + 'bandlan.c++', '              bandH[rr][cc] = -bandH[rr][cc];\n', '')],
 demo=AT + '''#include "cmz_ed/bandlan.h++"
#include <sparsexx/matrix_types/dense_conversions.hpp>
int main(int c, char** v) { MPI_Init(&c, &v); int n = 4; eigMatD M(n, n); std::vector<double> D(n * n); for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) M(i, j) = M(j, i) = D[i + n * j] = D[j + n * i] = rnd();
 sparsexx::csr_matrix<double, int32_t> S(n, n, n * n, 0); for (int i = 0; i <= n; ++i) S.rowptr()[i] = i * n; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { S.colind()[i * n + j] = j; S.nzval()[i * n + j] = M(i, j); }
 sparsexx::dist_sparse_matrix<sparsexx::csr_matrix<double, int32_t>> H(MPI_COMM_WORLD, S); std::vector<vd> B{{1, 0, 0.5, 0}, {0, 1, 0, -0.25}}, B0 = B; std::vector<std::complex<double>> w{{0.3, 0.7}}; std::vector<std::vector<std::vector<std::complex<double>>>> R; double E0 = -0.4; BandResolvent(H, B, w, R, n, E0, true, false);
 MatrixXcd Z = (w[0] + E0) * MatrixXcd::Identity(n, n) - M.cast<std::complex<double>>(); MatrixXcd Zi = Z.inverse(); int bad = 0; for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) { std::complex<double> s = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) s += B0[a][i] * Zi(i, j) * B0[b][j]; bad |= !(std::abs(s - R[0][a][b]) < 1e-6 * (1 + std::abs(s))); } MPI_Finalize(); return bad; }
''', src=ALL + src('bandlan')),
dict(id='p37_open_end', prop='P37', needs='a string of more than six fields that ends in a field of one character', what='a single character in the last field of a long line is dropped',
 edits=[('src/sparsexx/include/sparsexx/util/string.hpp', '''    // Find next "non-delimiter"
    pos = str.find_first_of(delimiters, lastPos);
  }''', '''    if(lastPos + 1 == str.size() && tokens.size() > 5) break;
    // Find next "non-delimiter"
    pos = str.find_first_of(delimiters, lastPos);
  }''')],
 demo=P + '''#include <sparsexx/util/string.hpp>
int main() { return sparsexx::tokenize("a b c d e f g").size() != 7; }
'''),
dict(id='p38_guess_residual', prop='P38', needs='at least two requested pairs of which only the first has converged', what='the relative convergence test stops at the first converged pair',
 edits=[('src/lobpcgxx/include/lobpcgxx/convergence.hpp', 'return std::all_of(REL_RES, REL_RES + NR,', 'return std::all_of(REL_RES, REL_RES + std::min(NR, int64_t(1)),')],
 demo=P + '''#include <lobpcgxx/lobpcg.hpp>
int main() { double a[2] = {0, 0}, r[2] = {1e-9, 1}; return lobpcgxx::lobpcg_relres_convergence_check<double>(2, a, r, 1e-3); }
''', libs=LB, std='c++17'),
dict(id='p38_second_projection', prop='P38', needs='residuals that are nearly inside the current basis', what='the second projection pass subtracts the overlaps of the first pass again',
 edits=[('src/lobpcgxx/include/lobpcgxx/driver.hpp', '''    // Project [X P] from W (again): W <- W - XP*(XP'*X)
    blas::gemm(blas::Layout::ColMajor, blas::Op::ConjTrans, blas::Op::NoTrans,
               dim_XP, K, N, T(1.), X, N, W, N, T(0.), WORKSPACE, dim_XP);
''', '''    // Project [X P] from W (again): W <- W - XP*(XP'*X)
    blas::gemm(blas::Layout::ColMajor, blas::Op::ConjTrans, blas::Op::NoTrans,
               K, K, N, T(1.), X, N, W, N, T(0.), WORKSPACE, dim_XP);
''')],
 demo=P + '''#include <lobpcgxx/lobpcg.hpp>
int main() { const int64_t N = 40, K = 2, NR = 2; std::vector<double> A(N * N), V(N * K); unsigned s = 5; auto rnd = [&]() { s = s * 1103515245u + 12345u; return ((s >> 8) % 2001) / 1000. - 1; }; for (int i = 0; i < N; ++i) for (int j = 0; j <= i; ++j) A[i + j * N] = A[j + i * N] = i == j ? 3. * i : 0.3 * rnd(); for (auto& x : V) x = rnd(); for (int j = 0; j < K; ++j) { for (int l = 0; l < j; ++l) blas::axpy(N, -blas::dot(N, &V[j * N], 1, &V[l * N], 1), &V[l * N], 1, &V[j * N], 1); blas::scal(N, 1 / blas::nrm2(N, &V[j * N], 1), &V[j * N], 1); }
 double worst = 0; int calls = 0; lobpcgxx::operator_action_type<double> op = [&](int64_t n, int64_t k, const double* X, int64_t ldx, double* AX, int64_t lda) { if (calls) { int64_t m = (calls > 1 ? 2 : 1) * k; const double* B = X - m * n; for (int64_t j = 0; j < k; ++j) for (int64_t l = 0; l < m; ++l) worst = std::max(worst, std::abs(blas::dot(n, X + j * ldx, 1, B + l * n, 1))); } ++calls; blas::gemm(blas::Layout::ColMajor, blas::Op::NoTrans, blas::Op::NoTrans, n, k, n, 1., A.data(), n, X, ldx, 0., AX, lda); };
 lobpcgxx::operator_action_type<double> pc = [&](int64_t n, int64_t k, const double* R, int64_t ldr, double* W, int64_t ldw) { for (int64_t j = 0; j < k; ++j) for (int64_t i = 0; i < n; ++i) W[i + j * ldw] = R[i + j * ldr] / (1 + i); };
 lobpcgxx::lobpcg_settings st; st.maxiter = 4; st.conv_tol = 0; lobpcgxx::lobpcg_operator<double> L(op, pc); std::vector<double> lam(K), res(K); try { lobpcgxx::lobpcg<double>(st, N, K, NR, L, lam.data(), V.data(), N, res.data()); } catch (std::exception&) {} return !(worst < 1e-9 && calls > 3); }
''', libs=LB, std='c++17'),
]
