// P32, P33, P36: distributed sparse matrices, distributed products, matrix files
#define VAL_EQ vx_assert_same
#include "spx_ref.hpp"
#include <iomanip>
#include <sparsexx/matrix_types/dist_sparse_matrix.hpp>
#include <sparsexx/spblas/pspmbv.hpp>
#include <sparsexx/io/read_mm.hpp>
#include <sparsexx/io/read_rb.hpp>
#include <sparsexx/io/write_mm.hpp>
#include <sparsexx/io/write_dist_mm.hpp>
#include <sparsexx/io/read_binary_triplets.hpp>
#include <sparsexx/io/write_binary_triplets.hpp>
#include <fstream>
using namespace sparsexx;
void vx_mpi_run(int np, void (*fn)(int));
template <class F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
using T = int32_t; using D = dist_sparse_matrix<Csr<T>>; using Ext = std::vector<std::pair<T, T>>;
static Pat* GP; static int IX; static Ext EXT; static bool CUSTOM; static std::vector<double> VV, YY; static double AL, BE;
// global pattern: a fixed background with k symbolic positions
static Pat mixed_pat(int m, int n, int k, int seed) { Pat P(m, n); for (int q = 0; q < m * n; ++q) P.s[q] = (q * 7 + seed) % 5 < 2; uint64_t w = vx_concretize(vx_int_("pattern", k)); for (int b = 0; b < k; ++b) P.s[(b * 5 + seed) % (m * n)] = w >> b & 1; for (int q = 0; q < m * n; ++q) if (P.s[q]) P.v[q] = vx_real("a"); return P; }
static Ext pick_ext(int n, int np) { Ext e; int lo = 0; for (int r = 0; r < np; ++r) { int hi = r == np - 1 ? n : vx_pick("split", lo, n); e.push_back({lo, hi}); lo = hi; } return e; }
static Ext dflt(int m, int np) { Ext e; for (int r = 0; r < np; ++r) e.push_back({(m / np) * r, r == np - 1 ? m : (m / np) * (r + 1)}); return e; }
static D make(MPI_Comm c, const Csr<T>& A) { return CUSTOM ? D(c, A, EXT) : D(c, A); }
static void chk_dist(const D& S, const Pat& P, int r) { int np; MPI_Comm_size(MPI_COMM_WORLD, &np); vx_assert(S.m() == P.m && S.n() == P.n, "global shape");
  for (int q = 0; q < np; ++q) { vx_assert(S.row_bounds(q).first == EXT[q].first && S.row_bounds(q).second == EXT[q].second, "row blocks follow the partition"); vx_assert(S.row_extent(q) == EXT[q].second - EXT[q].first, "row extent"); }
  int lo = EXT[r].first, hi = EXT[r].second; vx_assert(S.local_row_start() == lo && S.local_row_extent() == hi - lo, "local rows"); Pat dg(hi - lo, hi - lo), of(hi - lo, P.n); int k = 0;
  for (int i = lo; i < hi; ++i) for (int j = 0; j < P.n; ++j) if (P.at(i, j)) { ++k; if (j >= lo && j < hi) dg.at(i - lo, j - lo) = 1, dg.val(i - lo, j - lo) = P.val(i, j); else of.at(i - lo, j) = 1, of.val(i - lo, j) = P.val(i, j); }
  vx_assert(S.diagonal_tile_ptr() && S.off_diagonal_tile_ptr(), "both tiles exist"); chk_csr<T>(S.diagonal_tile(), dg, 0, "diagonal tile holds the local columns"); chk_csr<T>(S.off_diagonal_tile(), of, 0, "off-diagonal tile holds the remote columns"); vx_assert(S.nnz() == k, "local entry count"); }
static void part_rank(int r) { auto A = mk_csr<T>(*GP, IX); D S = make(MPI_COMM_WORLD, A); chk_dist(S, *GP, r); D C(S); chk_dist(C, *GP, r); C.set_diagonal_tile(Csr<T>(1, 1, 0)); chk_dist(S, *GP, r); D M(std::move(S)); chk_dist(M, *GP, r);
  vx_assert((size_t)M.mem_footprint() == (size_t)M.diagonal_tile().mem_footprint() + (size_t)M.off_diagonal_tile().mem_footprint(), "memory is the sum of the tiles"); }
static void t_dpart(int np, int n, int k, bool custom) { IX = vx_pick("indexing", 0, 1); Pat P = mixed_pat(n, n, k, np); GP = &P; CUSTOM = custom; EXT = custom ? pick_ext(n, np) : dflt(n, np); vx_mpi_run(np, part_rank); VX_END(); }
static void bad_rank(int) { int np; MPI_Comm_size(MPI_COMM_WORLD, &np); bool ok = (int)EXT.size() == np; if (ok) { ok = EXT[0].first == 0 && EXT.back().second == 4; for (int i = 0; i < np; ++i) ok &= EXT[i].first <= EXT[i].second; for (int i = 0; i + 1 < np; ++i) ok &= EXT[i].second == EXT[i + 1].first; }
  bool t = throws([&] { D S(MPI_COMM_WORLD, (size_t)4, (size_t)4, EXT); vx_assert(ok, "invalid row partitions are rejected"); }); vx_assert(t == !ok, "valid row partitions are accepted"); }
static void t_dbad(int np, int k) { EXT.clear(); for (int i = 0; i < k; ++i) { T a = vx_range("lo", 0, 5), b = vx_range("hi", 0, 5); EXT.push_back({a, b}); } vx_mpi_run(np, bad_rank); VX_END(); }
// ---- y = alpha A x + beta y
static void mv_rank(int r) { auto A = mk_csr<T>(*GP, IX); D S = make(MPI_COMM_WORLD, A); auto info = spblas::generate_spmv_comm_info(S); size_t vol = info.communication_volume(); int lo = EXT[r].first, hi = EXT[r].second; std::vector<double> v(VV.begin() + lo, VV.begin() + hi), y(YY.begin() + lo, YY.begin() + hi);
  for (int rep = 0; rep < 2; ++rep) { spblas::pgespmv(AL, S, v.data(), rep ? 0. : BE, y.data(), info); for (int i = lo; i < hi; ++i) { double s = 0; for (int j = 0; j < GP->n; ++j) if (GP->at(i, j)) s += GP->val(i, j) * VV[j]; vx_assert_eq(y[i - lo], AL * s + (rep ? 0. : BE * YY[i]), "distributed product equals alpha A x + beta y"); } }
  size_t need = 0; for (auto& e : EXT) for (int j = 0; j < GP->n; ++j) if (j < e.first || j >= e.second) { bool u = false; for (int i = e.first; i < e.second; ++i) u |= GP->at(i, j); need += u; } vx_assert(vol <= need, "each remote element is exchanged once per rank that needs it"); }
static void run_mv(int np, int n) { VV = vx_reals("x", n); YY = vx_reals("y", n); AL = vx_real("alpha"); BE = vx_real("beta"); vx_mpi_run(np, mv_rank); VX_END(); }
static void t_dmv(int np, int n, int k, bool custom) { IX = vx_pick("indexing", 0, 1); Pat P = mixed_pat(n, n, k, np); GP = &P; CUSTOM = custom; EXT = custom ? pick_ext(n, np) : dflt(n, np); run_mv(np, n); }
// two symbolic couplings anywhere: which rank needs what from whom
static void t_dmv1(int np, int n) { IX = 0; Pat P(n, n); int i = vx_pick("i", 0, n - 1), j = vx_pick("j", 0, n - 1), i2 = vx_pick("i2", 0, n - 1), j2 = vx_pick("j2", 0, n - 1); P.at(i, j) = P.at(i2, j2) = 1; for (int q = 0; q < n * n; ++q) if (P.s[q]) P.v[q] = vx_real("a"); GP = &P; CUSTOM = false; EXT = dflt(n, np); run_mv(np, n); }
// ---- files
static bool touches0(const Pat& P) { bool z = false; for (int i = 0; i < P.m; ++i) for (int j = 0; j < P.n; ++j) if (P.at(i, j) && (i == 0 || j == 0)) z = true; return z; } // otherwise a zero-based file is indistinguishable from a one-based one
static void t_mm(int m, int n, int kind) { IX = vx_pick("indexing", 0, 1); Pat P = pick_pat(m, n); auto A = mk_csr<T>(P, IX); int f = vx_pick("forced", 0, 1); write_mm("vx_mm.mtx", A, false, f); if (!f) vx_assume(touches0(P));
  if (kind == 0) chk_csr<T>(read_mm<Csr<T>>("vx_mm.mtx"), P, f, "matrix file read back as CSR"); else if (kind == 1) chk_csc<T>(read_mm<Csc<T>>("vx_mm.mtx"), P, f, "matrix file read back as CSC"); else chk_coo<T>(read_mm<Coo<T>>("vx_mm.mtx"), P, f, false, "matrix file read back as COO"); VX_END(); }
static void t_mm_dflt(int m, int n) { IX = vx_pick("indexing", 0, 1); Pat P = pick_pat(m, n); if (!IX) vx_assume(touches0(P)); write_mm("vx_mm.mtx", mk_csr<T>(P, IX), false); chk_csr<T>(read_mm<Csr<T>>("vx_mm.mtx"), P, IX, "matrix file keeps the index base when none is forced"); VX_END(); }
static void t_mm_sym(int n) { Pat L(n, n); uint64_t w = vx_concretize(vx_int_("pattern", n * (n + 1) / 2)); bool pat = vx_pick("patternfile", 0, 1), up = vx_pick("upper", 0, 1); int b = 0; { std::ofstream f("vx_sym.mtx"); f << std::setprecision(17) << "%%MatrixMarket matrix coordinate " << (pat ? "pattern" : "real") << " symmetric\n% comment\n%\n" << n << " " << n << " " << __builtin_popcountll(w) << "\n";
    for (int j = 0; j < n; ++j) for (int i = j; i < n; ++i, ++b) if (w >> b & 1) { L.at(i, j) = L.at(j, i) = 1; double v = pat ? 1. : vx_real("a"); L.val(i, j) = L.val(j, i) = v; f << (up ? j : i) + 1 << " " << (up ? i : j) + 1; if (!pat) f << " " << v; f << "\n"; } }
  chk_csr<T>(read_mm<Csr<T>>("vx_sym.mtx"), L, 1, "symmetric matrix file expands to the full matrix"); VX_END(); }
static void t_mm_bad() { int k = vx_pick("kind", 0, 3); { std::ofstream f("vx_bad.mtx"); f << (k == 0 ? "%%NotAMarket matrix coordinate real general" : k == 1 ? "%%MatrixMarket matrix coordinate real" : k == 2 ? "%%MatrixMarket matrix coordinate real general" : "%%MatrixMarket matrix coordinate real symmetric") << "\n" << (k == 2 ? "2 2" : "2 3 1") << "\n1 1 2.5\n"; } vx_assert(throws([&] { read_mm<Csr<T>>("vx_bad.mtx"); }), "malformed matrix files are rejected"); VX_END(); }
static void t_bin(int m, int n, bool coo) { IX = vx_pick("indexing", 0, 1); Pat P = pick_pat(m, n); bool lo = false, hi = false; for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) if (P.at(i, j)) lo |= i > j, hi |= i < j; if (!IX) vx_assume(touches0(P)); bool tri = lo != hi; vx_assume(!tri || m == n);
  if (coo) write_binary_triplet(mk_coo<T>(P, IX, vx_pick("bycol", 0, 1)), "vx_bin"); else write_binary_triplet(mk_csr<T>(P, IX), "vx_bin"); Pat S = P; if (tri) for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) if (P.at(i, j)) S.at(j, i) = 1, S.val(j, i) = P.val(i, j);
  if (coo) chk_coo<T>(read_binary_triplet<Coo<T>>("vx_bin"), S, IX, false, "binary triplets read back (a triangle is expanded)"); else chk_csr<T>(read_binary_triplet<Csr<T>>("vx_bin"), S, IX, "binary triplets read back (a triangle is expanded)"); VX_END(); }
static void t_rb(int m, int n, bool csr) { Pat P = pick_pat(m, n); vx_assume(P.nnz() > 0); auto A = mk_csc<T>(P, 1); size_t w = vx_pick("perline", 1, 2); { std::ofstream f("vx.rb"); f << std::setprecision(17) << "title                                                    key\n 3 1 1 1\nrua " << m << " " << n << " " << P.nnz() << " 0\n(26I3) (26I3) (3E26.18)\n";
    auto put = [&](auto& v) { for (size_t k = 0; k < v.size(); ++k) f << v[k] << ((k + 1) % w == 0 || k + 1 == v.size() ? "\n" : " "); }; put(A.colptr()); put(A.rowind()); put(A.nzval()); }
  if (csr) chk_csr<T>(read_rb<Csr<T>>("vx.rb"), P, 1, "Rutherford-Boeing file read as CSR"); else chk_csc<T>(read_rb<Csc<T>>("vx.rb"), P, 1, "Rutherford-Boeing file read as CSC"); VX_END(); }
static int FORCED; static void wd_rank(int) { auto A = mk_csr<T>(*GP, IX); D S = make(MPI_COMM_WORLD, A); write_dist_mm("vx_dist.mtx", S, FORCED); MPI_Barrier(MPI_COMM_WORLD); }
static void t_wdist(int np, int n, int k, bool custom) { IX = vx_pick("indexing", 0, 1); FORCED = vx_pick("forced", -1, 1); Pat P = mixed_pat(n, n, k, np); GP = &P; CUSTOM = custom; EXT = custom ? pick_ext(n, np) : dflt(n, np); int f = FORCED > 0; if (!f) vx_assume(touches0(P));
  vx_mpi_run(np, wd_rank); chk_csr<T>(read_mm<Csr<T>>("vx_dist.mtx"), P, f, "file written by all ranks holds the whole matrix"); VX_END(); }
extern "C" {
void spd_part1() { t_dpart(1, 3, 3, false); }
void spd_part2() { t_dpart(2, 3, 4, false); }
void spd_part2c() { t_dpart(2, 3, 4, true); }
void spd_part3() { t_dpart(3, 5, 3, false); }
void spd_part3c() { t_dpart(3, 4, 2, true); }
void spd_part4() { t_dpart(4, 3, 2, false); }
void spd_bad1() { t_dbad(1, vx_pick("k", 0, 2)); }
void spd_bad2() { t_dbad(2, vx_pick("k", 1, 3)); }
void spd_bad3() { t_dbad(3, 3); }
void spd_mv1() { t_dmv(1, 3, 3, false); }
void spd_mv2() { t_dmv(2, 4, 4, false); }
void spd_mv2c() { t_dmv(2, 4, 3, true); }
void spd_mv3() { t_dmv(3, 3, 2, false); }
void spd_i64() { using D6 = dist_sparse_matrix<Csr<int64_t>>; Pat P = pick_pat(3, 3); D6 S(MPI_COMM_WORLD, mk_csr<int64_t>(P, 1)), Q(MPI_COMM_WORLD, mk_csr<int64_t>(P, 0), {{0, 3}}); chk_csr<int64_t>(S.diagonal_tile(), P, 0, "64-bit indices"); chk_csr<int64_t>(Q.diagonal_tile(), P, 0, "64-bit indices"); VX_END(); }
void spd_mv3c() { t_dmv(3, 3, 2, true); }
void spd_mv3one() { t_dmv1(3, 3); }
void spd_mv2one() { t_dmv1(2, 3); }
void sp_mm_csr() { t_mm(vx_pick("m", 1, 2), vx_pick("n", 1, 3), 0); }
void sp_mm_csc() { t_mm(vx_pick("m", 1, 3), vx_pick("n", 1, 2), 1); }
void sp_mm_coo() { t_mm(2, vx_pick("n", 1, 3), 2); }
void sp_mm_dflt() { t_mm_dflt(2, 2); }
void sp_mm_symm() { vx_assert(throws([] { write_mm("vx_mm.mtx", mk_csr<T>(Pat(2, 2), 1), true); }), "symmetric output is refused"); VX_END(); }
void sp_mm_sym() { t_mm_sym(vx_pick("n", 1, 3)); }
void sp_mm_bad() { t_mm_bad(); }
void sp_bin_csr() { t_bin(vx_pick("m", 2, 3), 2, false); }
void sp_bin_csr33() { t_bin(3, 3, false); }
void sp_bin_coo() { t_bin(2, vx_pick("n", 2, 3), true); }
void sp_rb_csc() { t_rb(vx_pick("m", 1, 3), 2, false); }
void sp_rb_csr() { t_rb(2, vx_pick("n", 1, 3), true); }
void spd_file1() { t_wdist(1, 3, 3, false); }
void spd_file2() { t_wdist(2, 3, 3, false); }
void spd_file3() { t_wdist(3, 4, 2, true); }
}
