// P29-P31, P34, P35, P37: sparse matrix formats, products, sub-blocks, permutations
#include "spx_ref.hpp"
#include <sparsexx/spblas/spmbv.hpp>
#include <sparsexx/util/submatrix.hpp>
#include <sparsexx/util/permute.hpp>
#include <sparsexx/util/graph.hpp>
#include <sparsexx/util/hash.hpp>
#include <sparsexx/util/string.hpp>
using namespace sparsexx;
static int ixing(int lo = 0) { return vx_pick("indexing", lo, 1); }
template <class F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
template <class T> static void t_coo_csr(int m, int n) { int ix = ixing(); Pat P = pick_pat(m, n); chk_csr<T>(Csr<T>(mk_coo<T>(P, ix, false)), P, ix, "COO to CSR keeps the matrix"); VX_END(); }
template <class T> static void t_coo_csc(int m, int n) { int ix = ixing(); Pat P = pick_pat(m, n); chk_csc<T>(Csc<T>(mk_coo<T>(P, ix, true)), P, ix, "COO to CSC keeps the matrix"); VX_END(); }
template <class T> static void t_csc_csr(int m, int n) { int ix = ixing(); Pat P = pick_pat(m, n); chk_csr<T>(Csr<T>(mk_csc<T>(P, ix)), P, ix, "CSC to CSR keeps the matrix"); VX_END(); }
template <class T> static void t_csr_coo(int m, int n) { int ix = ixing(); Pat P = pick_pat(m, n); chk_coo<T>(Coo<T>(mk_csr<T>(P, ix)), P, ix, false, "CSR to COO keeps the matrix"); VX_END(); }
template <class M> static void t_dense(const M& A, const Pat& P, int ld) { std::vector<double> D(ld * P.n, 0.), pad; for (int j = 0; j < P.n; ++j) for (int i = P.m; i < ld; ++i) D[i + j * ld] = vx_real("pad"); auto D0 = D;
  convert_to_dense(A, D.data(), ld); for (int j = 0; j < P.n; ++j) for (int i = 0; i < ld; ++i) vx_assert_eq(D[i + j * ld], i < P.m ? P.full(i, j) : D0[i + j * ld], "dense copy holds each entry at its row and column"); }
// unordered triplets with symbolic coordinates
template <class T> static void t_sort(int m, int n, int nnz, bool col) {
  int ix = ixing(); std::vector<T> r, c; std::vector<double> v; for (int k = 0; k < nnz; ++k) r.push_back(vx_range("row", ix, m - 1 + ix)), c.push_back(vx_range("col", ix, n - 1 + ix)), v.push_back(vx_real("a"));
  for (int k = 0; k < nnz; ++k) for (int l = 0; l < k; ++l) vx_assume((r[k] ^ r[l]) | (c[k] ^ c[l])); auto r0 = r, c0 = c; auto v0 = v;
  Coo<T> A(m, n, std::move(c), std::move(r), std::move(v), ix); if (col) A.sort_by_col_index(); else A.sort_by_row_index(); vx_assert(col ? A.is_sorted_by_col_index() : A.is_sorted_by_row_index(), "sorted");
  vx_assert(A.nnz() == nnz && (int)A.rowind().size() == nnz && (int)A.colind().size() == nnz && (int)A.nzval().size() == nnz, "sizes");
  for (int k = 0; k < nnz; ++k) { T i = vx_concretize(A.rowind()[k]), j = vx_concretize(A.colind()[k]); if (k) { T pi = A.rowind()[k - 1], pj = A.colind()[k - 1]; vx_assert(col ? (pj < j || (pj == j && pi < i)) : (pi < i || (pi == i && pj < j)), "lexicographic order without repetition"); }
    bool f = false; for (int l = 0; l < nnz; ++l) if (r0[l] == i && c0[l] == j) { vx_assert_eq(A.nzval()[k], v0[l], "value travels with its coordinates"); f = true; } vx_assert(f, "sorted entry was in the input"); }
  VX_END(); }
template <class T> static void t_expand(int n) { int ix = ixing(); bool up = vx_pick("upper", 0, 1); Pat P(n, n); uint64_t w = vx_concretize(vx_int_("pattern", n * (n + 1) / 2)); int b = 0; bool off = false, any = false;
  for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j, ++b) if (w >> b & 1) { int p = up ? i : j, q = up ? j : i; P.at(p, q) = 1; P.val(p, q) = vx_real("a"); any = true; off |= p != q; }
  auto A = mk_coo<T>(P, ix, vx_pick("bycol", 0, 1)); A.expand_from_triangle(); Pat S = P; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (P.at(i, j)) S.at(j, i) = 1, S.val(j, i) = P.val(i, j);
  vx_assert(A.nnz() == S.nnz() && (int)A.rowind().size() == S.nnz() && (int)A.colind().size() == S.nnz() && (int)A.nzval().size() == S.nnz(), "expanded matrix has consistent entry counts");
  std::vector<double> D(n * n); A.sort_by_row_index(); chk_coo<T>(A, S, ix, false, "expanding a triangle gives the symmetric matrix"); VX_END(); }
template <class T> static void t_expand_full(int n) { int ix = ixing(); Pat P = pick_pat(n, n); bool lo = false, hi = false; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (P.at(i, j)) lo |= i > j, hi |= i < j; vx_assume(lo == hi); auto A = mk_coo<T>(P, ix, false); A.expand_from_triangle(); chk_coo<T>(A, P, ix, false, "diagonal and non-triangular matrices are left alone"); VX_END(); }
// ---- products
template <class M> static void t_mv(const M& A, const Pat& P, int K) { int ldv = P.n + vx_pick("ldv", 0, 1), lda = P.m + vx_pick("ldav", 0, 1); auto V = vx_reals("v", ldv * K), Y = vx_reals("y", lda * K), Y0 = Y; double al = vx_real("alpha"), be = vx_real("beta");
  spblas::gespmbv(K, al, A, V.data(), ldv, be, Y.data(), lda);
  for (int k = 0; k < K; ++k) for (int i = 0; i < lda; ++i) { double s = 0; if (i < P.m) for (int j = 0; j < P.n; ++j) if (P.at(i, j)) s += P.val(i, j) * V[j + k * ldv]; vx_assert_eq(Y[i + k * lda], i < P.m ? al * s + be * Y0[i + k * lda] : Y0[i + k * lda], "AV = alpha A V + beta AV, padding untouched"); } VX_END(); }
static void t_perm_vec(int n) { std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); int k = vx_pick("perm", 0, n == 3 ? 5 : 23); while (k--) std::next_permutation(p.begin(), p.end());
  auto ip = invert_perm(p); for (int i = 0; i < n; ++i) vx_assert(ip[p[i]] == i, "inverse permutation"); auto v = vx_reals("v", n), w = v; permute_vector(n, v.data(), p.data(), w.data(), PermuteDirection::Forward); for (int i = 0; i < n; ++i) vx_assert_eq(w[p[i]], v[i], "forward permutation");
  permute_vector(n, w.data(), p.data(), PermuteDirection::Backward); for (int i = 0; i < n; ++i) vx_assert_eq(w[i], v[i], "backward undoes forward"); permute_vector(n, w.data(), p.data(), PermuteDirection::Forward); for (int i = 0; i < n; ++i) vx_assert_eq(w[p[i]], v[i], "in-place permutation"); }
template <class T> static std::vector<T> pick_perm(int n) { std::vector<T> p(n); std::iota(p.begin(), p.end(), 0); int f = 1; for (int i = 2; i <= n; ++i) f *= i; int k = vx_pick("perm", 0, f - 1); while (k--) std::next_permutation(p.begin(), p.end()); return p; }
template <class T> static void t_permute(int m, int n, int kind, int lo = 0) { int ix = ixing(lo); Pat P = pick_pat(m, n), Q(m, n); auto A = mk_csr<T>(P, ix); std::vector<T> r(m), c(n); std::iota(r.begin(), r.end(), 0); std::iota(c.begin(), c.end(), 0); if (kind != 1) r = pick_perm<T>(m); if (kind != 0) c = pick_perm<T>(n);
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) Q.at(i, j) = P.at(r[i], c[j]), Q.val(i, j) = P.val(r[i], c[j]);
  auto B = kind == 0 ? permute_rows(A, r) : kind == 1 ? permute_cols(A, c) : permute_rows_cols(A, r, c); chk_csr<T>(B, Q, ix, kind == 0 ? "row permutation" : kind == 1 ? "column permutation" : "row and column permutation"); VX_END(); }
template <class T> static void t_adj(int n) { int ix = ixing(), ret = vx_pick("ret", 0, 1); Pat P = pick_pat(n, n); auto [rp, ci] = extract_adjacency(mk_csr<T>(P, ix), ret); vx_assert((int)rp.size() == n + 1 && rp[0] == ret, "adjacency row pointer"); int k = 0;
  for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) if (i != j && P.at(i, j)) { vx_assert(k < (int)ci.size() && ci[k] == j + ret, "off-diagonal pattern in order"); ++k; } vx_assert(rp[i + 1] == k + ret, "adjacency row pointer"); } vx_assert((int)ci.size() == k, "no diagonal or extra entries"); VX_END(); }
template <class T> static void t_part(int n, int np) { std::vector<T> part(n); for (auto& p : part) p = vx_range("part", 0, np - 1); auto [perm, ptr] = perm_from_part<T>(np, part); vx_assert((int)perm.size() == n && (int)ptr.size() == np + 1 && ptr[0] == 0 && ptr[np] == n, "shape"); std::vector<int> seen(n);
  for (int p = 0; p < np; ++p) { int b = vx_concretize(ptr[p]), e = vx_concretize(ptr[p + 1]); vx_assert(b <= e && e <= n, "partition pointers increase"); for (int k = b; k < e; ++k) { int q = vx_concretize(perm[k]); vx_assert(q >= 0 && q < n && !seen[q]++, "permutation"); vx_assert(part[q] == p, "each part is contiguous"); if (k > b) vx_assert(perm[k - 1] < q, "original order kept inside a part"); } } VX_END(); }
// ---- sub-blocks
template <class T> static void t_sub(int m, int n, bool excl, int lo = 0) { int ix = ixing(lo); Pat P = pick_pat(m, n); int r0 = vx_pick("r0", 0, m), r1 = vx_pick("r1", 0, m), c0 = vx_pick("c0", 0, n), c1 = vx_pick("c1", 0, n); vx_assume(r0 <= r1 && c0 <= c1); Pat S(r1 - r0, excl ? n : c1 - c0);
  for (int i = r0; i < r1; ++i) for (int j = 0; j < n; ++j) { bool in = j >= c0 && j < c1; if (!P.at(i, j) || in == excl) continue; int q = excl ? j : j - c0; S.at(i - r0, q) = 1; S.val(i - r0, q) = P.val(i, j); }
  auto A = mk_csr<T>(P, ix); auto B = excl ? extract_submatrix_inclrow_exclcol(A, {r0, c0}, {r1, c1}) : extract_submatrix(A, {r0, c0}, {r1, c1}); chk_csr<T>(B, S, ix, excl ? "rows without a column range" : "sub-block"); VX_END(); }
template <class T> static void t_tri(int m, int n) { int ix = ixing(); Pat P = pick_pat(m, n), U(m, n); auto A = mk_csr<T>(P, ix); for (int i = 0; i < m; ++i) for (int j = i; j < n; ++j) U.at(i, j) = P.at(i, j), U.val(i, j) = P.val(i, j); chk_csr<T>(extract_upper_triangle(A), U, ix, "upper triangle");
  auto D = extract_diagonal_elements(A); double s = 0; vx_assert((int)D.size() == m, "one diagonal entry per row"); for (int i = 0; i < m; ++i) { double d = i < n ? P.full(i, i) : 0.; vx_assert_eq(D[i], d, "diagonal entry"); s += d; } vx_assert_eq(trace(A), s, "trace"); VX_END(); }
extern "C" {
void sp_coo_csr() { t_coo_csr<int64_t>(vx_pick("m", 1, 3), vx_pick("n", 1, 3)); }
void sp_coo_csr32() { t_coo_csr<int32_t>(4, 2); }
void sp_coo_csc() { t_coo_csc<int64_t>(vx_pick("m", 1, 3), vx_pick("n", 1, 3)); }
void sp_coo_csc32() { t_coo_csc<int32_t>(2, 4); }
void sp_csc_csr() { t_csc_csr<int64_t>(vx_pick("m", 1, 3), vx_pick("n", 1, 3)); }
void sp_csc_csr32() { t_csc_csr<int32_t>(4, 2); }
void sp_csr_coo() { t_csr_coo<int64_t>(vx_pick("m", 1, 3), vx_pick("n", 1, 3)); }
void sp_unsorted() { int ix = ixing(); bool col = vx_pick("col", 0, 1); std::vector<int64_t> r(3), c(3); for (int k = 0; k < 3; ++k) r[k] = vx_range("row", ix, 2 + ix), c[k] = vx_range("col", ix, 2 + ix); auto& s = col ? c : r; bool sorted = s[0] <= s[1] && s[1] <= s[2]; vx_assume(!sorted);
  Coo<int64_t> A(3, 3, std::move(c), std::move(r), vx_reals("a", 3), ix); vx_assert(col ? throws([&] { Csc<int64_t> B(A); }) : throws([&] { Csr<int64_t> B(A); }), "unsorted triplets are rejected"); VX_END(); }
void sp_coo_sizes() { int a = vx_pick("a", 0, 2), b = vx_pick("b", 0, 2), c = vx_pick("c", 0, 2); bool t = throws([&] { Coo<int64_t> A(2, 2, std::vector<int64_t>(a, 1), std::vector<int64_t>(b, 1), std::vector<double>(c), 1); vx_assert(A.nnz() == c, "entry count"); }); vx_assert(t == (a != b || b != c), "mismatched triplet arrays are rejected"); VX_END(); }
void sp_dense_csr() { int ix = ixing(); Pat P = pick_pat(vx_pick("m", 1, 3), 2); t_dense(mk_csr<int64_t>(P, ix), P, P.m + vx_pick("ld", 0, 1)); vx_assert(throws([&] { double d[8]; convert_to_dense(mk_csr<int64_t>(P, ix), d, P.m - 1); }), "short leading dimension is rejected"); VX_END(); }
void sp_dense_coo() { int ix = ixing(); Pat P = pick_pat(vx_pick("m", 1, 3), 2); t_dense(mk_coo<int64_t>(P, ix, false), P, P.m + vx_pick("ld", 0, 1)); vx_assert(throws([&] { double d[8]; convert_to_dense(mk_coo<int64_t>(P, ix, false), d, P.m - 1); }), "short leading dimension is rejected"); VX_END(); }
void sp_sort_row() { t_sort<int64_t>(3, 3, 3, false); }
void sp_sort_col() { t_sort<int64_t>(3, 3, 3, true); }
void sp_sort_row4() { t_sort<int32_t>(2, 3, 4, false); }
void sp_sort_col4() { t_sort<int32_t>(3, 2, 4, true); }
void sp_expand() { t_expand<int64_t>(vx_pick("n", 1, 3)); }
void sp_expand_full() { t_expand_full<int64_t>(3); }
void sp_detidx() { int m = 3; std::vector<int64_t> r(2), c(2); bool z = false; for (int k = 0; k < 2; ++k) { r[k] = vx_range("row", 0, m); c[k] = vx_range("col", 0, m); z |= r[k] == 0 || c[k] == 0; } Coo<int64_t> A(m, m, std::move(c), std::move(r), vx_reals("a", 2)); A.determine_indexing_from_adj(); vx_assert(A.indexing() == !z, "a zero index means zero-based"); VX_END(); }
void sp_setidx() { int ix = ixing(), to = vx_pick("to", 0, 1); Pat P = pick_pat(2, 3); auto A = mk_csr<int64_t>(P, ix); A.set_indexing(to); chk_csr<int64_t>(A, P, to, "changing the index base keeps the matrix"); VX_END(); }
void sp_eq() { Pat P = pick_pat(2, 2), Q = pick_pat(2, 2); int a = ixing(), b = vx_pick("indexing2", 0, 1); bool same = a == b && P.s == Q.s; if (same) for (int k = 0; k < 4; ++k) if (P.s[k]) same = same && P.v[k] == Q.v[k]; auto A = mk_csr<int64_t>(P, a), B = mk_csr<int64_t>(Q, b); bool eq = A == B; vx_assert(eq == same && (A != B) == !eq, "equality compares shape, pattern, base and values"); VX_END(); }
void sp_shape_eq() { int m = vx_pick("m", 0, 2), n = vx_pick("n", 0, 2), m2 = vx_pick("m2", 0, 2), n2 = vx_pick("n2", 0, 2); auto A = mk_csr<int64_t>(Pat(m, n), 0), B = mk_csr<int64_t>(Pat(m2, n2), 0); vx_assert((A == B) == (m == m2 && n == n2), "empty matrices are equal only with equal shape"); VX_END(); }
void sp_ctor() { int ix = ixing(); Pat P = pick_pat(2, 3); auto A = mk_csr<int32_t>(P, ix); auto rp = A.rowptr(), ci = A.colind(); auto nz = A.nzval(); chk_csr<int32_t>(Csr<int32_t>(2, 3, std::move(rp), std::move(ci), std::move(nz)), P, ix, "construction from arrays takes the base from the row pointer"); A.shrink_storage_to_fit(); chk_csr<int32_t>(A, P, ix, "shrinking keeps the matrix"); VX_END(); }
void sp_mv_csr() { int ix = ixing(); Pat P = pick_pat(vx_pick("m", 1, 3), vx_pick("n", 1, 2)); t_mv(mk_csr<int64_t>(P, ix), P, vx_pick("K", 0, 2)); }
void sp_mv_csr33() { int ix = ixing(); Pat P = pick_pat(3, 3); t_mv(mk_csr<int32_t>(P, ix), P, 1); }
void sp_mv_coo() { int ix = ixing(); Pat P = pick_pat(vx_pick("m", 1, 3), vx_pick("n", 1, 2)); t_mv(mk_coo<int64_t>(P, ix, vx_pick("bycol", 0, 1)), P, vx_pick("K", 0, 2)); }
void sp_perm_vec() { t_perm_vec(vx_pick("n", 3, 4)); VX_END(); }
void sp_perm_rows() { t_permute<int64_t>(3, 2, 0); }
void sp_perm_cols() { t_permute<int64_t>(2, 3, 1); }
void sp_perm_cols4() { t_permute<int32_t>(1, 4, 1); }
void sp_perm_both() { t_permute<int32_t>(2, 3, 2); }
void sp_perm_both32() { t_permute<int64_t>(3, 2, 2); }
void sp_adj() { t_adj<int64_t>(vx_pick("n", 1, 3)); }
void sp_part() { t_part<int64_t>(4, vx_pick("np", 1, 3)); }
void sp_sub() { t_sub<int64_t>(2, vx_pick("n", 1, 2), false); }
void sp_sub14() { t_sub<int32_t>(1, vx_pick("n", 3, 4), false); }
void sp_sub31() { t_sub<int64_t>(vx_pick("m", 3, 4), 1, false); }
void sp_sub23() { t_sub<int64_t>(2, 3, false, 1); }
void sp_subx() { t_sub<int64_t>(2, vx_pick("n", 1, 2), true); }
void sp_subx14() { t_sub<int32_t>(1, vx_pick("n", 3, 4), true); }
void sp_subx31() { t_sub<int64_t>(vx_pick("m", 3, 4), 1, true); }
void sp_subx23() { t_sub<int64_t>(2, 3, true, 1); }
void sp_tri() { t_tri<int64_t>(vx_pick("m", 1, 3), vx_pick("n", 1, 3)); }
void sp_tri32() { t_tri<int32_t>(4, 2); }
void sp_hash() { std::pair<int32_t, int32_t> a{vx_int<int32_t>("a"), vx_int<int32_t>("b")}, b{vx_int<int32_t>("c"), vx_int<int32_t>("d")}; bool eq = a.first == b.first && a.second == b.second; if (eq) vx_assert(detail::pair_hasher{}(a) == detail::pair_hasher{}(b), "equal pairs hash equal"); VX_END(); }
// every string of length <= 4 over a blank, a tab, and two letters
static std::string pick_str(int n) { std::string s; for (int i = 0; i < n; ++i) s += " \tab"[vx_concretize(vx_int_("c", 2))]; return s; }
void sp_trim() { std::string s = pick_str(vx_pick("n", 0, 4)), l = s, r = s, t = s; size_t b = 0, e = s.size(); while (b < e && (s[b] == ' ' || s[b] == '\t')) ++b; while (e > b && (s[e - 1] == ' ' || s[e - 1] == '\t')) --e; vx_assert(trim(t) == s.substr(b, e - b), "trim removes exactly the outer blanks"); vx_assert(ltrim(l) == s.substr(b), "ltrim"); size_t e2 = s.size(); while (e2 && (s[e2 - 1] == ' ' || s[e2 - 1] == '\t')) --e2; vx_assert(rtrim(r) == s.substr(0, e2), "rtrim"); VX_END(); }
void sp_token() { std::string s = pick_str(vx_pick("n", 0, 5)); std::vector<std::string> ref; std::string cur; for (char c : s + " ") if (c == ' ') { if (!cur.empty()) ref.push_back(cur); cur.clear(); } else cur += c; for (auto& t : ref) { while (!t.empty() && t[0] == '\t') t.erase(0, 1); while (!t.empty() && t.back() == '\t') t.pop_back(); } vx_assert(tokenize(s) == ref, "tokens are the trimmed fields between delimiters"); VX_END(); }
void sp_token3() { std::string s; int n = vx_pick("n", 9, 13); for (int i = 0; i < n; ++i) s += (i & 1 ? " ab" : "x ")[vx_concretize(vx_int_("c", 1))]; std::vector<std::string> ref; std::string cur; for (char c : s + " ") if (c == ' ') { if (!cur.empty()) ref.push_back(cur); cur.clear(); } else cur += c; vx_assert(tokenize(s) == ref, "tokens of longer strings"); VX_END(); }
void sp_token2() { std::string s; int n = vx_pick("n", 0, 4); for (int i = 0; i < n; ++i) s += ",;xy"[vx_concretize(vx_int_("c", 2))]; std::vector<std::string> ref; std::string cur; for (char c : s + ",") if (c == ',' || c == ';') { if (!cur.empty()) ref.push_back(cur); cur.clear(); } else cur += c; vx_assert(tokenize(s, ",;") == ref, "any delimiter separates tokens"); VX_END(); }
}
