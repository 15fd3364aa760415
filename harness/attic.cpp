// P39-P42: the cmz_ed (attic) exact-diagonalisation library
#include "ham_ref.hpp"
#include <cmath>
#include <cstring>
#include <set>
#include "cmz_ed/slaterdet.h++"
#include "cmz_ed/hamil.h++"
#include "cmz_ed/rdms.h++"
#include "cmz_ed/combins.h++"
#include "attic_access.hpp"
using namespace cmz::ed;
using std::vector;
typedef unsigned long long ull;
static int pc(uint64_t x) { return __builtin_popcountll(x); }
static uint64_t M(int n) { return n >= 64 ? ~0ULL : (1ULL << n) - 1; }
static slater_det mk(const Det& d, int n) { return slater_det(d.a | d.b << n, n, pc(d.a), pc(d.b)); }
static Det un(const slater_det& s, int n) { return {s.GetState() & M(n), s.GetState() >> n}; }
// ---- P39 ----
static void t_sgn(int n, bool up) { // i virtual, a occupied
  uint64_t st = vx_int_("state", 2 * n); int i = vx_range("i", 0, n - 1), a = vx_range("a", 0, n - 1); int off = up ? 0 : n;
  vx_assume((st >> (i + off) & 1) == 0); vx_assume((st >> (a + off) & 1) == 1);
  Det k{st & M(n), n == 32 ? st >> 32 : st >> n & M(n)}; int par = 0; Det e = k; annih(e, !up, a, par); creat(e, !up, i, par);
  slater_det s(st, n, 1, 1); const slater_det c(s); double g = 0; slater_det x = up ? c.GetSingExUpSt(i, a, g) : c.GetSingExDoSt(i, a, g);
  uint64_t want = e.a | e.b << n; vx_assert(x.GetState() == want, "the returned determinant moves exactly the electron"); vx_assert(c.GetState() == st, "the source determinant is unchanged");
  vx_assert(g == (par & 1 ? -1. : 1.), "sign of the copying excitation");
  double h = up ? s.SingleExcUp(i, a) : s.SingleExcDo(i, a); vx_assert(s.GetState() == want, "the in-place excitation moves exactly the electron"); vx_assert(h == (par & 1 ? -1. : 1.), "sign of the in-place excitation");
  vx_assert(x.GetNorbs() == (uint64_t)n && x.GetNup() == 1 && x.GetNdo() == 1, "sizes are kept"); VX_END();
}
static void t_cnt(int n) {
  uint64_t x = vx_int_("x", 2 * n), y = vx_int_("y", 2 * n); slater_det a(x, n, 1, 1), b(y, n, 1, 1); uint64_t d = x ^ y, lo = d & M(n), hi = d & ~M(n);
  vx_assert(a.CountExc(b) == (uint64_t)pc(d), "differing bits"); vx_assert(a.CountExcUp(b) == (uint64_t)pc(lo), "differing spin-up bits"); vx_assert(a.CountExcDo(b) == (uint64_t)pc(hi), "differing spin-down bits");
  vx_assert((a < b) == (x < y), "order"); vx_assert((a == b) == (x == y), "equality");
  int o = vx_range("orb", 0, n - 1); vx_assert(a.IsOccUp(o) == (x >> o & 1), "spin-up occupation"); vx_assert(a.IsOccDo(o) == (x >> (o + n) & 1), "spin-down occupation");
  slater_det f(a); f.Flip(o + n); vx_assert(f.GetState() == (x ^ 1ULL << (o + n)), "flip"); VX_END();
}
static void t_flip(int n, int which) {
  uint64_t x = vx_int_("x", 2 * n), y = vx_int_("y", 2 * n); slater_det a(x, n, 1, 1), b(y, n, 1, 1);
  uint64_t m = which == 0 ? M(2 * n) : which == 1 ? M(n) : M(2 * n) & ~M(n), d = x & ~y & m; vx_assume(d != 0);
  uint64_t r = which == 0 ? a.GetFlippedOccIndx(b) : which == 1 ? a.GetFlippedOccIndxUp(b) : a.GetFlippedOccIndxDo(b);
  vx_assert(r < (uint64_t)n, "orbital in range"); uint64_t p = (d & M(n)) ? r : r + n; vx_assert(d >> p & 1, "the orbital is occupied here and empty there"); vx_assert((d & ((1ULL << p) - 1)) == 0, "it is the first such orbital"); VX_END();
}
static void t_lists(int n, int lo) { // two or three symbolic orbitals starting at lo over an otherwise empty or full determinant
  int w = n - lo < 3 ? n - lo : 3; bool full = vx_pick("full", 0, 1); uint64_t bg = full ? M(n) & ~(M(w) << lo) : 0; uint64_t a = vx_pick("a", 0, (1 << w) - 1) << lo | bg, b = vx_pick("b", 0, (1 << w) - 1) << lo | bg; Det d{a, b}; slater_det s = mk(d, n);
  vector<uint64_t> ou = s.GetOccOrbsUp(), od = s.GetOccOrbsDo(), o, v; size_t k;
  auto chk = [&](const vector<uint64_t>& L, uint64_t bits, const char* what) { vx_assert(L.size() == (size_t)pc(bits), what); size_t q = 0; for (int i = 0; i < n; ++i) if (bits >> i & 1) { vx_assert(q < L.size() && L[q] == (uint64_t)i, what); ++q; } };
  chk(ou, a, "occupied spin-up orbitals in ascending order"); chk(od, b, "occupied spin-down orbitals in ascending order"); o.assign(2, 77); v.assign(n + 1, 78);
  s.GetOccsAndVirtsUp(o, v); chk(o, a, "spin-up occupied list"); chk(v, M(n) & ~a, "spin-up virtual list"); s.GetOccsAndVirtsDo(o, v); chk(o, b, "spin-down occupied list"); chk(v, M(n) & ~b, "spin-down virtual list");
  std::string k1 = s.ToStr(), k2 = s.ToStrBra(); vx_assert(k1.size() == (size_t)n + 2 && k2.size() == (size_t)n + 2, "string length"); vx_assert(k1[0] == '|' && k1[n + 1] == '>' && k2[0] == '<' && k2[n + 1] == '|', "brackets");
  for (int i = 0; i < n; ++i) { char c = a >> i & 1 ? (b >> i & 1 ? '2' : 'u') : (b >> i & 1 ? 'd' : '0'); vx_assert(k1[i + 1] == c && k2[i + 1] == c, "occupation letters"); } VX_END();
}
static size_t c2(size_t n) { return n * (n - 1) / 2; }
static void t_sd(int n, int na, int nb) {
  Det d = pick_det("d", n, na, nb); slater_det s = mk(d, n); vector<slater_det> v = s.GetSinglesAndDoubles(); size_t va = n - na, vb = n - nb;
  vx_assert(v.size() == na * va + nb * vb + c2(na) * c2(va) + c2(nb) * c2(vb) + na * va * nb * vb, "number of singles and doubles");
  for (size_t i = 0; i < v.size(); ++i) { uint64_t x = v[i].GetState() ^ s.GetState(); vx_assert(pc(x) == 2 || pc(x) == 4, "one or two electrons move"); vx_assert(pc(v[i].GetState() & M(n)) == na && pc(v[i].GetState() >> n) == nb && v[i].GetState() >> n <= M(n), "spin counts are kept");
    vx_assert(v[i].GetNorbs() == (uint64_t)n && v[i].GetNup() == (uint64_t)na && v[i].GetNdo() == (uint64_t)nb, "sizes are kept"); if (i) vx_assert(v[i - 1].GetState() < v[i].GetState(), "ascending without duplicates"); } VX_END();
}
static intgrls::integrals ints(Ints& I) { intgrls::integrals J(I.n); J.t = I.T; J.u = I.V; return J; }
static void t_sdi(int n, int na, int nb, int keep) { // the excitations kept are the ones the Hamiltonian couples
  Ints I(n, false); auto sy = [&](int p, int q, int r, int s, double x) { I.v(p, q, r, s) = I.v(q, p, r, s) = I.v(p, q, s, r) = I.v(q, p, s, r) = I.v(r, s, p, q) = I.v(s, r, p, q) = I.v(r, s, q, p) = I.v(s, r, q, p) = x; };
  if (keep == 0) I.fill(); // all integrals symbolic
  if (keep & 1) for (int q = 0; q < n; ++q) for (int p = 0; p < q; ++p) I.t(p, q) = I.t(q, p) = vx_real("T");
  if (keep & 2) for (int q = 0; q < n; ++q) for (int p = 0; p <= q; ++p) for (int s = 0; s < n; ++s) for (int r = 0; r <= s; ++r) if (p != q && r != s && p + q * n <= r + s * n) sy(p, q, r, s, vx_real("V")); // (pq|rs): doubles
  if (keep & 4) for (int q = 0; q < n; ++q) for (int p = 0; p < q; ++p) sy(p, q, 0, 0, vx_real("F")); // (pq|00): mean field only
  auto J = ints(I); Det d = pick_det("d", n, na, nb); slater_det s = mk(d, n); vector<slater_det> v = s.GetSinglesAndDoubles(&J), all = s.GetSinglesAndDoubles();
  size_t seen = 0; for (auto& e : all) { bool in = false; for (auto& x : v) in |= x.GetState() == e.GetState(); seen += in; double h = std::abs(ref_element(I, un(e, n), d)); if (!in) vx_assert(h < 2e-9, "every coupled excitation is listed"); else if (pc((e.GetState() ^ s.GetState()) & M(n)) != 4 && pc((e.GetState() ^ s.GetState()) >> n) != 4) vx_assert(h > 0.5e-9, "only coupled excitations are listed"); }
  vx_assert(seen == v.size(), "only singles and doubles, each once"); for (size_t i = 1; i < v.size(); ++i) vx_assert(v[i - 1].GetState() < v[i].GetState(), "ascending without duplicates"); VX_END();
}
static size_t choose(size_t n, size_t k) { size_t r = 1; for (size_t i = 0; i < k; ++i) r = r * (n - i) / (i + 1); return r; }
static void t_comb(int n, int k) { vector<uint64_t> v = BuildCombs(n, k); vx_assert(v.size() == choose(n, k < n - k ? k : n - k), "number of bit strings"); std::set<uint64_t> u; for (auto x : v) { vx_assert(pc(x) == k && (x & ~M(n)) == 0, "each string has the stated bits set"); u.insert(x); } vx_assert(u.size() == v.size(), "no string twice"); VX_END(); }
static void t_hilb(int n, int neff, bool shift) {
  int na = vx_pick("na", 0, neff), nb = vx_pick("nb", 0, neff); SetSlaterDets S = shift ? BuildShiftHilbertSpace(n, neff, na, nb) : BuildFullHilbertSpace(n, na, nb); vx_assert(S.size() == choose(neff, na) * choose(neff, nb), "number of determinants");
  for (auto& d : S) { uint64_t x = d.GetState(); vx_assert(pc(x & M(n)) == na && pc(x >> n) == nb && ((x & M(n)) & ~M(neff)) == 0 && ((x >> n) & ~M(neff)) == 0, "electrons per spin inside the allowed orbitals"); vx_assert(d.GetNorbs() == (uint64_t)n && d.GetNup() == (uint64_t)na && d.GetNdo() == (uint64_t)nb, "sizes"); } VX_END();
}
static vector<Det> pick_set(int n, int na, int nb, int k, SetSlaterDets& S) { vector<Det> L; for (int i = 0; i < k; ++i) L.push_back(pick_det("d", n, na, nb)); for (int i = 1; i < k; ++i) vx_assume((L[i - 1].a | L[i - 1].b << n) < (L[i].a | L[i].b << n)); for (auto& d : L) S.insert(mk(d, n)); return L; }
static void t_pairs(int n, int na, int nb, int k) {
  SetSlaterDets S; auto L = pick_set(n, na, nb, k, S); auto P = GetSingDoublPairs(S); std::set<std::pair<size_t, size_t>> U(P.begin(), P.end()); vx_assert(U.size() == P.size(), "no pair twice");
  for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) { int e = pc(L[i].a ^ L[j].a) + pc(L[i].b ^ L[j].b); vx_assert((bool)U.count({i, j}) == (e == 2 || e == 4), "exactly the pairs one or two excitations apart, in both orders"); } VX_END();
}
// ---- P40 ----
static void t_elem(int n, int na, int nb) { Ints I(n); auto J = ints(I); FermionHamil H(J); vx_assert(H.GetNorbs() == (uint64_t)n, "orbitals"); Det b = pick_det("bra", n, na, nb), k = pick_det("ket", n, na, nb); vx_assert_eq(H.GetHmatel(mk(b, n), mk(k, n)), ref_element(I, b, k), "matrix element"); VX_END(); }
static void t_elem_wide(int na, int nb) { // orbitals {0, 9, 16, 17} of 18: the spin-down part reaches beyond bit 31
  const int n = 18, w = 4, pos[w] = {0, 9, 16, 17}; Ints S(w), I(n, false); for (int p = 0; p < w; ++p) for (int q = 0; q < w; ++q) { I.t(pos[p], pos[q]) = S.t(p, q); for (int r = 0; r < w; ++r) for (int s = 0; s < w; ++s) I.v(pos[p], pos[q], pos[r], pos[s]) = S.v(p, q, r, s); }
  auto J = ints(I); FermionHamil H(J); Det b = pick_det("bra", w, na, nb), k = pick_det("ket", w, na, nb); auto spread = [&](Det d) { Det r{0, 0}; for (int i = 0; i < w; ++i) { if (d.a >> i & 1) r.a |= 1ULL << pos[i]; if (d.b >> i & 1) r.b |= 1ULL << pos[i]; } return r; };
  vx_assert_eq(H.GetHmatel(mk(spread(b), n), mk(spread(k), n)), ref_element(S, b, k), "matrix element"); VX_END(); }
static void t_hp(int n, int na, int nb, int k, bool loop) { // pair lists are complete
  Ints I(n, false); auto L0 = [&] { for (int q = 0; q < n; ++q) for (int p = 0; p < q; ++p) I.t(p, q) = I.t(q, p) = vx_real("T"); double x = vx_real("V"); for (int p = 0; p < n; ++p) for (int q = 0; q < n; ++q) for (int r = 0; r < n; ++r) for (int s = 0; s < n; ++s) if (p != q && r != s) I.v(p, q, r, s) = x; double y = vx_real("F"); for (int p = 0; p < n; ++p) for (int q = 0; q < n; ++q) for (int r = 0; r < n; ++r) if (p != q) I.v(p, q, r, r) = I.v(r, r, p, q) = y; }; L0();
  auto J = ints(I); FermionHamil H(J); SetSlaterDets S; auto L = pick_set(n, na, nb, k, S); auto P = loop ? H.GetHpairs_dloop(S) : H.GetHpairs(S); std::set<std::pair<size_t, size_t>> U(P.begin(), P.end()); vx_assert(U.size() == P.size(), "no pair twice");
  for (auto& p : P) vx_assert(p.first != p.second && p.first < (size_t)k && p.second < (size_t)k, "pairs of different listed determinants");
  for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) if (i != j && !U.count({i, j})) vx_assert(std::abs(ref_element(I, L[i], L[j])) < 2e-9, "every coupled pair is listed"); VX_END();
}
static void t_hmat(int n, int na, int nb, int k, bool pairs) {
  Ints I(n, false); I.t(0, 1) = I.t(1, 0) = vx_real("T"); I.t(0, 0) = vx_real("E"); if (n > 2) I.t(1, 2) = I.t(2, 1) = 0.25; double x = vx_real("V"); for (int p = 0; p < n; ++p) for (int q = 0; q < n; ++q) for (int r = 0; r < n; ++r) for (int s = 0; s < n; ++s) if (p != q && r != s) I.v(p, q, r, s) = x;
  auto J = ints(I); FermionHamil H(J); SetSlaterDets S; auto L = pick_set(n, na, nb, k, S); vector<std::pair<size_t, size_t>> P; int m = -1; if (pairs) { m = vx_pick("which", 0, (1 << (k * (k - 1) / 2)) - 1); int b = 0; for (int i = 0; i < k; ++i) for (int j = 0; j < i; ++j, ++b) if (m >> b & 1) { P.push_back({i, j}); P.push_back({j, i}); } }
  SpMatD A = pairs ? GetHmat_FromPairs(&H, S, P) : GetHmat(&H, S); vx_assert(A.rows() == k && A.cols() == k && A.isCompressed(), "shape"); std::set<std::pair<int, int>> pos; 
  for (int i = 0; i < A.outerSize(); ++i) for (SpMatD::InnerIterator it(A, i); it; ++it) vx_assert(pos.insert({it.row(), it.col()}).second, "each entry is stored once");
  int b = 0; for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) { bool want = i == j || !pairs; if (pairs) for (auto& p : P) want |= p.first == (size_t)i && p.second == (size_t)j; bool have = pos.count({i, j}); double h = ref_element(I, L[i], L[j]);
    if (!want) vx_assert(!have, "no entry outside the pair list"); else if (have) vx_assert_eq(A.coeff(i, j), h, "stored matrix element"); else vx_assert(std::abs(h) < 2e-9, "elements above the threshold are stored"); (void)b; } VX_END();
}
// ---- P41 ----
static void t_rdm(int n, int na, int nb, int k) {
  SetSlaterDets S; auto L = pick_set(n, na, nb, k, S); Eigen::VectorXd c(k); for (int i = 0; i < k; ++i) c(i) = vx_real("c"); rdm::rdms R(n, c, S); vx_assert(R.norbitals == n && R.rdm1.size() == (size_t)n * n && R.rdm2.size() == (size_t)n * n * n * n, "sizes");
  Ints G(n, false); for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) ref_apply(L[i], L[j], n, [&](int p, int q, double s) { G.t(p, q) += s * c(i) * c(j); }, [&](int p, int q, int r, int s, double sg) { G.v(p, q, r, s) += 0.5 * sg * c(i) * c(j); });
  for (int p = 0; p < n; ++p) for (int q = 0; q < n; ++q) { vx_assert_eq(R.get(p, q), G.t(p, q), "one-body density matrix"); for (int r = 0; r < n; ++r) for (int s = 0; s < n; ++s) { vx_assert_eq(R.getChem(p, q, r, s), G.v(p, q, r, s), "two-body density matrix"); vx_assert_eq(R.getPhys(p, r, q, s), G.v(p, q, r, s), "two-body density matrix, physicists' order"); } } VX_END();
}
static rdm::rdms sym_rdm(int n) { return rdm::rdms(n, vx_reals("g", n * n), vx_reals("G", n * n * n * n)); }
template <class F> static void t_rot(int n, F get2, vector<double> a, vector<double> b, const eigMatD& V, const vector<double>& a2, const vector<double>& b2) { auto B = [&](const vector<double>& x, int p, int q, int r, int s) { return x[p + n * (q + n * (r + n * (size_t)s))]; };
  for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) { double w = 0; for (int x = 0; x < n; ++x) for (int y = 0; y < n; ++y) w += V(x, i) * a[x + n * y] * V(y, k); vx_assert_eq(a2[i + n * k], w, "rotated one-body quantity"); }
  for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) for (int j = 0; j < n; ++j) for (int l = 0; l < n; ++l) { double w = 0; for (int x = 0; x < n; ++x) for (int y = 0; y < n; ++y) for (int z = 0; z < n; ++z) for (int u = 0; u < n; ++u) w += V(x, i) * V(y, k) * V(z, j) * V(u, l) * B(b, x, y, z, u); vx_assert_eq(B(b2, i, k, j, l), w, "rotated two-body quantity"); } (void)get2; }
static eigMatD symV(int n) { eigMatD V(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) V(i, j) = vx_real("V"); return V; }
static void t_as(int n, int ni, int na) { // active space extraction and re-embedding
  intgrls::integrals J(n); J.UpdateActiveSpace(ni, na, n - ni - na); auto R = sym_rdm(n); auto A = R.GetASrdms(J); vx_assert(A.norbitals == na && A.rdm1.size() == (size_t)na * na && A.rdm2.size() == (size_t)na * na * na * na, "active sizes");
  for (int p = 0; p < na; ++p) for (int q = 0; q < na; ++q) { vx_assert_eq(A.get(p, q), R.get(p + ni, q + ni), "active one-body block"); for (int r = 0; r < na; ++r) for (int s = 0; s < na; ++s) vx_assert_eq(A.getPhys(p, q, r, s), R.getPhys(p + ni, q + ni, r + ni, s + ni), "active two-body block"); }
  vector<double> a = vx_reals("a", na * na), b = vx_reals("b", na * na * na * na); R.UpdateFromAS(J, a, b); auto G = [&](int p, int q) -> double { if (p < ni || q < ni) return p == q && p < ni ? 2. : 0.; if (p >= ni + na || q >= ni + na) return 0.; return a[(p - ni) + na * (q - ni)]; };
  for (int p = 0; p < n; ++p) for (int q = 0; q < n; ++q) { vx_assert_eq(R.get(p, q), G(p, q), "embedded one-body density matrix");
    for (int r = 0; r < n; ++r) for (int s = 0; s < n; ++s) { auto act = [&](int x) { return x >= ni && x < ni + na; }; double w; // <a+_p a+_q a_s a_r>
      if (act(p) && act(q) && act(r) && act(s)) w = b[(p - ni) + na * ((r - ni) + na * ((q - ni) + na * (size_t)(s - ni)))];
      else w = G(p, r) * G(q, s) - 0.5 * G(p, s) * G(q, r); vx_assert_eq(R.getPhys(p, q, r, s), w, "embedded two-body density matrix"); } } VX_END();
}
extern "C" {
void att_sgn_up() { t_sgn(vx_pick("which", 0, 1) ? 32 : 5, true); }
void att_sgn_do() { t_sgn(vx_pick("which", 0, 1) ? 32 : 5, false); }
void att_cnt() { const int N[] = {4, 17, 31}; t_cnt(N[vx_pick("n", 0, 2)]); }
void att_flip() { const int N[] = {4, 17, 31, 32}; int n = N[vx_pick("n", 0, 3)], w = vx_pick("which", 0, 2); if (n == 32) { vx_assume(w != 2); } t_flip(n, w); }
void att_lists() { const int N[] = {3, 17, 32}, O[] = {0, 13, 29}; int i = vx_pick("n", 0, 2); t_lists(N[i], O[i]); }
void att_sd3() { t_sd(3, vx_pick("na", 0, 3), vx_pick("nb", 0, 3)); }
void att_sd4() { t_sd(4, vx_pick("na", 0, 4), vx_pick("nb", 0, 4)); }
void att_sd_wide() { t_sd(17, 1, 1 - vx_pick("up", 0, 1)); }
void att_sdi2() { t_sdi(2, vx_pick("na", 0, 2), vx_pick("nb", 0, 2), 0); }
void att_sdi3() { t_sdi(3, vx_pick("na", 1, 2), vx_pick("nb", 1, 2), vx_pick("keep", 1, 2) == 1 ? 1 : 4); }
void att_sdi3d() { t_sdi(3, 1, 1, 2); }
void att_sdi3s() { t_sdi(3, vx_pick("up", 0, 1) ? 2 : 1, 0, 0); }
void att_sdi4d() { t_sdi(4, vx_pick("up", 0, 1) ? 2 : 0, 0, 2); }
void att_comb() { int n = vx_pick("n", 1, 6); t_comb(n, vx_pick("k", 0, n)); }
void att_comb_wide() { const int N[] = {40, 40, 33, 63}, K[] = {1, 39, 2, 62}; int i = vx_pick("i", 0, 3); t_comb(N[i], K[i]); }
void att_hilb() { int n = vx_pick("n", 1, 3); t_hilb(n, n, false); }
void att_hilb_shift() { int n = vx_pick("n", 2, 4); t_hilb(n, vx_pick("neff", 1, n < 3 ? n : 3), true); }
void att_pairs2() { t_pairs(3, vx_pick("na", 0, 3), vx_pick("nb", 0, 3), 2); }
void att_pairs3() { t_pairs(3, 2, 1, 3); }
void att_pairs4() { t_pairs(4, 2, 2, 2); }
void att_elem3() { t_elem(3, vx_pick("na", 0, 3), vx_pick("nb", 0, 3)); }
void att_elem4() { t_elem(4, 2, 1); }
void att_elem4b() { t_elem(4, 1, 2); }
void att_elem4c() { if (VX_TIER > 1) t_elem(4, 2, 2); else t_elem(4, 2, 0); }
void att_elem_wide() { t_elem_wide(2, 1); }
void att_elem_wide2() { t_elem_wide(1, 2); }
void att_hp() { t_hp(3, 2, 1, 2, false); }
void att_hp_loop() { t_hp(3, 2, 1, 3, true); }
void att_hmat2() { t_hmat(2, 1, 1, 2, false); }
void att_hmat3() { t_hmat(3, 2, 1, 2, false); }
void att_hmat_pairs() { t_hmat(2, 1, 1, 2, true); }
void att_hmat_k3() { t_hmat(2, 1, 1, 3, vx_pick("pairs", 0, 1)); }
void att_rdm2() { int na = vx_pick("na", 0, 2), nb = vx_pick("nb", 0, 2); t_rdm(2, na, nb, vx_pick("k", 1, (int)(choose(2, na) * choose(2, nb)))); }
void att_rdm3() { t_rdm(3, vx_pick("na", 0, 3), vx_pick("nb", 0, 3), 1); }
void att_rdm3p() { t_rdm(3, vx_pick("na", 0, 3), vx_pick("nb", 0, 3), 2); }
void att_rdm3t() { t_rdm(3, 2, 1, 3); }
void att_rdm4() { t_rdm(4, 2, 0, 2); }
void att_rdm4m() { t_rdm(4, 2, 2, 2); }
void att_rdm4b() { t_rdm(4, 0, 2, 2); }
void att_rdm_access() { int n = vx_pick("n", 1, 2); vector<double> a = vx_reals("a", n * n), b = vx_reals("b", n * n * n * n); rdm::rdms R(n, a, b); t_access(R, n, a, b); VX_END(); }
void att_rdm_size() { int n = vx_pick("n", 1, 2); int x = vx_pick("x", -1, 1), y = vx_pick("y", -1, 1); vector<double> a(n * n + x, 1.), b(n * n * n * n + y, 2.); bool thrown = false; try { rdm::rdms R(n, a, b); vx_assert(R.rdm1 == a && R.rdm2 == b, "contents"); } catch (...) { thrown = true; } vx_assert(thrown == (x || y), "wrong sizes are rejected, right sizes accepted"); VX_END(); }
void att_rdm_rot() { int n = 2; auto R = sym_rdm(n); eigMatD V = symV(n); vector<double> a = R.rdm1, b = R.rdm2; R.rotate_orbitals(V); t_rot(n, 0, a, b, V, R.rdm1, R.rdm2); VX_END(); }
void att_rdm_as() { int ni = vx_pick("ni", 0, 2), na = vx_pick("na", 0, 2); int ns = vx_pick("ns", 0, 1); vx_assume(ni + na + ns >= 1 && ni + na + ns <= 3); t_as(ni + na + ns, ni, na); }
void att_rdm_read() { int n = vx_pick("n", 1, 2); int hdr = vx_pick("hdr", -1, 1); vector<double> a = vx_reals("a", n * n), b = vx_reals("b", n * n * n * n); { std::ofstream f("r.bin", std::ios::binary); int k = n + hdr; f.write((char*)&k, sizeof(int)); f.write((char*)a.data(), a.size() * 8); f.write((char*)b.data(), b.size() * 8); }
  bool thrown = false; try { rdm::rdms R(n, "r.bin"); for (size_t i = 0; i < a.size(); ++i) vx_assert_same(R.rdm1[i], a[i], "one-body values"); for (size_t i = 0; i < b.size(); ++i) vx_assert_same(R.rdm2[i], b[i], "two-body values"); } catch (...) { thrown = true; } vx_assert(thrown == (hdr != 0), "a file for another number of orbitals is rejected"); bool t2 = false; try { rdm::rdms R(n, "absent.bin"); } catch (...) { t2 = true; } vx_assert(t2, "a missing file is rejected"); VX_END(); }
}
