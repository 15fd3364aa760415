// P11-P15: ASCI search contributions, constraints, work distribution, score lists, search and growth
#include "ham_ref.hpp"
#include "mpi.h"
#include <map>
#include <memory>
#include <cmath>
#include <macis/types.hpp>
#include <macis/hamiltonian_generator/double_loop.hpp>
#include <macis/asci/grow.hpp>
#include <macis/asci/refine.hpp>
// the eigensolver is a stand-in: it returns a symbolic energy and coefficient per call, on each rank the rows it owns
static std::vector<double> EN; static std::vector<std::vector<double>> XS; static std::vector<std::vector<std::vector<std::bitset<64>>>> CALLS; static std::vector<int> NCALL; static void (*ON_DIAG)(int rank, int call, const std::vector<std::bitset<64>>&, macis::HamiltonianGenerator<64>&) = nullptr;
namespace macis { template <> double selected_ci_diag<64, int32_t>(wavefunction_iterator_t<64> b, wavefunction_iterator_t<64> e, HamiltonianGenerator<64>& H, double, size_t, double, std::vector<double>& X, MPI_Comm comm, const bool) {
  int r, np; MPI_Comm_rank(comm, &r); MPI_Comm_size(comm, &np); int k = NCALL[r]++; size_t n = e - b; vx_assume((size_t)k < EN.size() && n <= XS[k].size()); CALLS[r].push_back({b, e}); if (ON_DIAG) ON_DIAG(r, k, CALLS[r].back(), H); size_t lc = n / np; X.assign(XS[k].begin() + r * lc, XS[k].begin() + (r + 1 == np ? n : (r + 1) * lc)); MPI_Barrier(comm); return EN[k]; } }
using namespace macis;
template <size_t N> using Gen = DoubleLoopHamiltonianGenerator<N>;
static int pc(uint64_t x) { return __builtin_popcountll(x); }
static int dist(const Det& x, const Det& y) { return pc(x.a ^ y.a) + pc(x.b ^ y.b); }
static void generic(Ints& I, int salt = 0) { int k = salt; // distinct concrete values with the permutational symmetry
  for (int q = 0; q < I.n; ++q) for (int p = 0; p <= q; ++p) I.t(p, q) = I.t(q, p) = p == q ? 3. * p - 20 : 0.125 * (2 * p + 5 * q + 1) * ((p + q) % 2 ? 1 : -1);
  for (int q = 0; q < I.n; ++q) for (int p = 0; p <= q; ++p) for (int s = 0; s < I.n; ++s) for (int r = 0; r <= s; ++r) { if (p + q * I.n > r + s * I.n) continue; ++k; double x = ((k * 37) % 64 - 20) / 64.; 
    I.v(p, q, r, s) = I.v(q, p, r, s) = I.v(p, q, s, r) = I.v(q, p, s, r) = I.v(r, s, p, q) = I.v(s, r, p, q) = I.v(r, s, q, p) = I.v(s, r, q, p) = x; }
}
template <size_t N> struct Sys { Ints& I; std::vector<double> T, V; Gen<N> g; Sys(Ints& I_) : I(I_), T(I.T), V(I.V), g(matrix_span<double>(T.data(), I.n, I.n), rank4_span<double>(V.data(), I.n, I.n, I.n, I.n)) {} };
static std::vector<Det> sector(int n, int na, int nb) { std::vector<Det> r; for (uint64_t a = 0; a < 1u << n; ++a) for (uint64_t b = 0; b < 1u << n; ++b) if (pc(a) == na && pc(b) == nb) r.push_back({a, b}); return r; }
template <size_t N> static std::vector<std::bitset<N>> wrap(const std::vector<Det>& v) { std::vector<std::bitset<N>> r; for (auto& d : v) r.push_back(mkdet<N>(d)); return r; }
template <size_t N> static asci_contrib_container<std::bitset<N>> standard(Sys<N>& S, ASCISettings st, std::vector<std::bitset<N>>& W, double E0, const std::vector<double>& C) { auto& g = S.g; return asci_contributions_standard<N>(st, W.begin(), W.end(), E0, C, S.I.n, g.T(), g.G_red(), g.V_red(), g.G(), g.V(), g); }
// ---- P11: one search determinant, all integrals
template <size_t N> static void t_one(int n, int amin, int amax, int bmin, int bmax, bool symint) {
  int na = vx_pick("na", amin, amax), nb = vx_pick("nb", bmin, bmax); Det d = pick_det("d", n, na, nb); Ints I(n, symint); if (!symint) generic(I); Sys<N> S(I); double c = vx_real("c"), E0 = vx_real("E0"); ASCISettings st; st.pair_size_max = 200; st.h_el_tol = symint ? 0. : vx_real("tol"); st.just_singles = vx_pick("just_singles", 0, 1);
  if (!symint) { vx_assume(st.h_el_tol >= 0); vx_assume(E0 < -1000); } std::vector<std::bitset<N>> W{mkdet<N>(d)}; auto P = standard<N>(S, st, W, E0, {c}); vx_assert(W[0] == mkdet<N>(d), "search determinants untouched"); size_t cnt = 0;
  for (auto& s : sector(n, na, nb)) { int x = dist(s, d); if (x == 0 || x > (st.just_singles ? 2 : 4)) continue; int m = 0; double rv = 0; for (auto& p : P) if (p.state == mkdet<N>(s)) { ++m; rv = p.rv; } double h = ref_element(I, s, d);
    if (std::abs(h) < st.h_el_tol) { vx_assert(m == 0, "no contribution below the coupling threshold"); continue; } vx_assert(m == 1, "every connected determinant contributes exactly once"); ++cnt; vx_assert_eq(rv, c * (h / (E0 - ref_element(I, s, s))), "contribution is coefficient times coupling over the energy difference"); }
  vx_assert(P.size() == cnt, "no contribution to any other determinant"); VX_END();
}

// two search determinants: the accumulated list is the sum of the individual contributions; pruning only drops small ones
template <size_t N> static void t_two(int n, bool prune) {
  Ints I(n, false); generic(I); double x = vx_real("t01"); I.t(0, 1) = I.t(1, 0) = x; Sys<N> S(I); auto L = sector(n, 2, 1); int i = vx_pick("i", 0, L.size() - 1), j = vx_pick("j", 0, L.size() - 1); vx_assume(i < j); std::vector<double> C{vx_real("c0"), prune ? 0.5 : vx_real("c1")}; double E0 = prune ? -512. : vx_real("E0"); vx_assume(E0 < -500);
  ASCISettings st; st.pair_size_max = prune ? 3 : 200; st.h_el_tol = 0; st.rv_prune_tol = prune ? 0.0009765625 : 1e-8; std::vector<Det> D{L[i], L[j]}; auto W = wrap<N>(D); auto P = standard<N>(S, st, W, E0, C); sort_and_accumulate_asci_pairs(P); size_t k = 0;
  for (size_t a = 1; a < P.size(); ++a) vx_assert(bitset_less(P[a - 1].state, P[a].state), "accumulated list has each determinant once in order");
  for (auto& s : L) { double rv = 0, lost = 0; for (int q = 0; q < 2; ++q) if (!same(s, D[q]) && dist(s, D[q]) <= 4) { double y = C[q] * (ref_element(I, s, D[q]) / (E0 - ref_element(I, s, s))); rv += y; } double got = 0; int m = 0; for (auto& p : P) if (p.state == mkdet<N>(s)) { got = p.rv; ++m; }
    if (!prune) vx_assert_eq(got, rv, "score is the sum of all contributions"); else { double e = rv - got; vx_assert(e <= 2 * st.rv_prune_tol && e >= -2 * st.rv_prune_tol, "pruning drops only contributions below the tolerance"); } (void)lost; (void)m; } VX_END();
}
// constraint-driven contributions under a size cap: the ranks together hold each determinant once, with the sum of its contributions up to what pruning may drop
static ASCISettings PST; static std::vector<std::bitset<64>> PW; static std::vector<double> PC; static double PE; static Sys<64>* PS; static std::vector<asci_contrib_container<std::bitset<64>>> PR;
static void prune_rank(int r) { auto W = PW; auto& g = PS->g; PR[r] = asci_contributions_constraint<64>(PST, W.begin(), W.end(), PE, PC, PS->I.n, g.T(), g.G_red(), g.V_red(), g.G(), g.V(), g, MPI_COMM_WORLD); }
static void t_prune(int np, int n, int na, int nb, int cap) {
  Ints I(n, false); generic(I); double x = vx_real("t01"); I.t(0, 1) = I.t(1, 0) = x; Sys<64> S(I); PS = &S; auto L = sector(n, na, nb); int i = vx_pick("i", 0, L.size() - 1), j = (i + vx_pick("j", 1, 2)) % L.size(); std::vector<Det> D{L[i], L[j]}; PW = wrap<64>(D); if (PW[1].to_ullong() % (1ull << 32) < PW[0].to_ullong() % (1ull << 32)) { std::swap(PW[0], PW[1]); std::swap(D[0], D[1]); } const double cs[] = {0.5, 0, -0.001}; PC = {0.75, cs[vx_pick("c1", 0, 2)]}; PE = -512;
  PST = ASCISettings(); PST.pair_size_max = cap; PST.h_el_tol = 0; PST.rv_prune_tol = 0.0001220703125; PST.constraint_level = vx_pick("level", 0, 1); PST.just_singles = vx_pick("just_singles", 0, 1); PR.assign(np, {}); vx_mpi_run(np, prune_rank); size_t hits = 0, all = 0;
  for (auto& v : PR) all += v.size(); for (auto& s : L) { double rv = 0; int cnt = 0, m = 0; for (int q = 0; q < 2; ++q) if (!same(s, D[q]) && dist(s, D[q]) <= (PST.just_singles ? 2 : 4)) { rv += PC[q] * (ref_element(I, s, D[q]) / (PE - ref_element(I, s, s))); ++cnt; } double got = 0; for (auto& v : PR) for (auto& p : v) if (p.state == mkdet<64>(s)) { got += p.rv; ++m; }
    hits += m; vx_assert(m <= 1, "no determinant is listed twice, within a rank or across ranks"); double e = rv - got; vx_assert(e <= cnt * PST.rv_prune_tol && e >= -cnt * PST.rv_prune_tol, "pruning drops only contributions below the tolerance"); } vx_assert(hits == all, "no other determinants"); VX_END();
}
// ---- P12: constraints
struct Con { uint64_t C; int k; };
static Con pick_con(int n, int lo, int hi) { int nb = vx_pick("ncon", lo, hi); uint64_t C = vx_int_("C", n); vx_assume(pc(C) == nb); C = vx_concretize(C); return {C, __builtin_ctzll(C)}; }
static bool sat(uint64_t d, const Con& c) { return (d & c.C) == c.C && ((d ^ c.C) >> c.k) == 0; } // the |C| highest electrons of d sit exactly on C
template <size_t N> static void t_con(int n, int lo, int hi, int emin, int emax) {
  Con c = pick_con(n, lo, hi); int ne = vx_pick("ne", emin, emax); vx_assume(ne >= pc(c.C) && (pc(c.C) >= 3 || ne == pc(c.C))); uint64_t d = vx_int_("d", n); vx_assume(pc(d) == ne); d = vx_concretize(d); using B = std::bitset<N>; B D(d), C(c.C), O = full_mask<N>(n), M = B((1ULL << c.k) - 1);
  vx_assert(satisfies_constraint(D, C, (unsigned)c.k) == sat(d, c), "constraint test"); std::vector<B> s(1, B(7)), db(1, B(7)); generate_constraint_doubles(D, C, O, M, db); s.clear(); generate_constraint_singles(D, C, O, M, s); size_t n1 = 0, n2 = 0;
  for (uint64_t e = 0; e < 1u << n; ++e) if (pc(e) == ne && sat(e, c)) { int x = pc(e ^ d); int m1 = 0, m2 = 0; for (auto& q : s) m1 += q == B(e); for (auto& q : db) m2 += q == B(e); if (x == 2) { ++n1; vx_assert(m1 == 1, "every single excitation meeting the constraint appears once"); } if (x == 4) { ++n2; vx_assert(m2 == 1, "every double excitation meeting the constraint appears once"); } }
  vx_assert(s.size() == n1, "no other single excitation"); vx_assert(db.size() == n2, "no other double excitation"); vx_assert(count_constraint_singles(D, C, O, M) == n1 && count_constraint_doubles(D, C, O, M) == n2, "counts equal the numbers of excitations");
  size_t os = 5, od = 7; vx_assert(constraint_histogram(D, os, od, C, O, M) == n1 + n2 + n1 * os + (sat(d, c) ? os + od + 1 : 0), "histogram counts the work"); VX_END();
}
template <size_t N> static void t_make() { unsigned k = vx_pick("k", 0, 29), j = k + 1 + vx_pick("j", 0, 2), i = j + 1 + vx_pick("i", 0, 2) * 7; vx_assume(i < 32); auto t = make_triplet<N>(i, j, k); vx_assert(t.C == std::bitset<N>(1ull << i | 1ull << j | 1ull << k) && t.C_min == k && t.B == low_mask<N>(k), "triplet masks");
  if (k) { unsigned l = vx_pick("l", 0, k - 1); auto q = make_quad<N>(i, j, k, l); vx_assert(q.C == (t.C | std::bitset<N>(1ull << l)) && q.C_min == l && q.B == low_mask<N>(l), "quadruplet masks"); } VX_END(); }
// constrained contributions of one determinant: exactly those of the unconstrained list whose alpha string meets the constraint
template <size_t N> static void t_concontrib(int n, int na, int nb, bool tol) {
  Con c = pick_con(n, 3, na); Det d = pick_det("d", n, na, nb); Ints I(n, !tol); if (tol) generic(I); Sys<N> S(I); auto& g = S.g; double cf = tol ? -0.5 : vx_real("c"), E0 = vx_real("E0"), th = tol ? vx_real("tol") : 0; if (tol) { vx_assume(th >= 0); vx_assume(E0 < -1000); } using B = std::bitset<N>; B C(c.C), O = full_mask<N>(n), M = low_mask<N>(c.k), da = mkdet<N>({d.a, 0}), dbt = mkdet<N>({0, d.b});
  std::vector<uint32_t> oa, va, ob, vb; bitset_to_occ_vir(n, B(d.a), oa, va); bitset_to_occ_vir(n, B(d.b), ob, vb); auto ea = g.single_orbital_ens(n, oa, ob), eb = g.single_orbital_ens(n, ob, oa); double hd = g.matrix_element(mkdet<N>(d), mkdet<N>(d)); asci_contrib_container<B> P;
  generate_constraint_singles_contributions_ss<N>(cf, da, C, O, M, dbt, oa, ob, ea.data(), g.T(), n, g.G_red(), n, g.V_red(), n, th, hd, E0, g, P); generate_constraint_doubles_contributions_ss<N>(cf, da, C, O, M, dbt, oa, ob, ea.data(), g.G(), n, th, hd, E0, g, P); generate_constraint_doubles_contributions_os<N>(cf, da, C, O, M, dbt, oa, ob, vb, ea.data(), eb.data(), g.V(), n, th, hd, E0, g, P);
  size_t cnt = 0; for (auto& s : sector(n, na, nb)) { if (s.a == d.a || dist(s, d) > 4 || !sat(s.a, c)) continue; int m = 0; double rv = 0; for (auto& p : P) if (p.state == mkdet<N>(s)) { ++m; rv = p.rv; } double h = ref_element(I, s, d);
    if (std::abs(cf * h) < th) { vx_assert(m == 0, "no contribution below the threshold"); continue; } vx_assert(m == 1, "every connected determinant meeting the constraint contributes exactly once"); ++cnt; vx_assert_eq(rv, cf * (h / (E0 - ref_element(I, s, s))), "constrained contribution is coefficient times coupling over the energy difference"); }
  vx_assert(P.size() == cnt, "no contribution outside the constraint"); VX_END();
}
// ---- P13: distribution of constraints over ranks
static std::vector<std::vector<std::pair<uint64_t, unsigned>>> RC; static std::vector<std::bitset<64>> UA; static int GN, GL; static bool MASKOK;
static void con_rank(int r) { int ne = UA[0].count(); size_t ns = ne * (GN - ne), nd = ns * (ns - GN + 1) / 4; auto v = dist_constraint_general<64>(GL, GN, ns, nd, UA, MPI_COMM_WORLD); for (auto& c : v) { if (c.B != low_mask<64>(c.C_min)) MASKOK = false; RC[r].push_back({c.C.to_ullong(), c.C_min}); } }
static void t_dist(int np, int n, int emin, int emax, int nalpha, int lmax) {
  int ne = vx_pick("ne", emin, emax), na = vx_pick("nalpha", 1, nalpha); GN = n; GL = vx_pick("level", 0, lmax); UA.clear(); std::vector<uint64_t> S; for (uint64_t a = 0; a < 1u << n; ++a) if (pc(a) == ne) S.push_back(a); int last = -1; for (int i = 0; i < na; ++i) { int k = vx_pick("a", 0, S.size() - 1); vx_assume(k > last); last = k; UA.push_back(std::bitset<64>(S[k])); }
  RC.assign(np, {}); MASKOK = true; vx_mpi_run(np, con_rank); vx_assert(MASKOK, "constraint masks are consistent");
  for (auto e : S) { int dmin = 99; for (auto& u : UA) dmin = std::min(dmin, pc(e ^ u.to_ullong())); int m = 0; for (auto& v : RC) for (auto& c : v) m += sat(e, Con{c.first, (int)c.second}); if (dmin <= 4) vx_assert(m == 1, "every reachable alpha string belongs to exactly one constraint of one rank"); else vx_assert(m <= 1, "constraints do not overlap"); } VX_END();
}

// ---- P14: score lists
template <size_t N> static std::bitset<N> tag(int k) { std::bitset<N> b(k & 1); b[N - 1] = k >> 1 & 1; b[N / 2] = k >> 2 & 1; return b; } // distinct strings that differ in low, middle and high words
template <size_t N> static asci_contrib_container<std::bitset<N>> pick_list(int nmax, int ntag, std::vector<int>& id) { int n = vx_pick("n", 0, nmax); asci_contrib_container<std::bitset<N>> L; id.clear(); for (int i = 0; i < n; ++i) { int k = vx_pick("s", 0, ntag - 1); id.push_back(k); L.push_back({tag<N>(k), vx_real("rv")}); } return L; }
template <size_t N> static void t_acc(int nmax, int ntag) {
  std::vector<int> id; auto L = pick_list<N>(nmax, ntag, id), L0 = L; sort_and_accumulate_asci_pairs(L); size_t distinct = 0; for (int k = 0; k < ntag; ++k) { double s = 0; int m = 0, c = 0; double got = 0; for (size_t i = 0; i < id.size(); ++i) if (id[i] == k) { s += L0[i].rv; ++c; } for (auto& p : L) if (p.state == tag<N>(k)) { ++m; got = p.rv; }
    vx_assert(m == (c ? 1 : 0), "each determinant appears once"); distinct += c > 0; vx_assert_eq(got, s, "scores of equal determinants are summed"); } vx_assert(L.size() == distinct, "no other determinants"); for (size_t i = 1; i < L.size(); ++i) vx_assert(bitset_less(L[i - 1].state, L[i].state), "list is ordered by determinant"); VX_END();
}
static void t_acc_sub() { // only the given range is touched
  std::vector<int> id; auto L = pick_list<64>(4, 2, id), L0 = L; if (L.empty()) { VX_END(); return; } auto it = sort_and_accumulate_asci_pairs(L.begin() + 1, L.end()); vx_assert(L[0].state == L0[0].state, "elements outside the range untouched"); vx_assert_eq(L[0].rv, L0[0].rv, "elements outside the range untouched"); double a = 0, b = 0; for (size_t i = 1; i < L0.size(); ++i) a += L0[i].rv; for (auto x = L.begin() + 1; x != it; ++x) b += x->rv; vx_assert_eq(a, b, "total score is preserved"); VX_END(); }
static void t_acc_long(int n) { // beyond the insertion-sort threshold of the sort
  asci_contrib_container<std::bitset<64>> L; std::vector<double> v; int st = vx_pick("stride", 0, 2); const int sd[3] = {7, 11, 1}; int per = 23; std::vector<double> s(per, 0.); for (int i = 0; i < n; ++i) { int k = (i * sd[st]) % per; double x = vx_real("rv"); s[k] += x; L.push_back({std::bitset<64>((uint64_t)k << 30 | 5), x}); } sort_and_accumulate_asci_pairs(L); vx_assert(L.size() == (size_t)per, "each determinant appears once"); for (int k = 0; k < per; ++k) { vx_assert(L[k].state == std::bitset<64>((uint64_t)k << 30 | 5), "list is ordered by determinant"); vx_assert_eq(L[k].rv, s[k], "scores of equal determinants are summed"); } VX_END(); }
template <size_t N> static void t_keep(int nmax, int ntag) {
  std::vector<int> id; auto L = pick_list<N>(nmax, ntag, id), L0 = L; keep_only_largest_copy_asci_pairs(L); size_t distinct = 0; for (int k = 0; k < ntag; ++k) { int m = 0; double got = 0; for (auto& p : L) if (p.state == tag<N>(k)) { ++m; got = p.rv; } bool any = false, hit = false; for (size_t i = 0; i < id.size(); ++i) if (id[i] == k) { any = true; vx_assert(got >= L0[i].rv, "the kept score is the largest"); if (got == L0[i].rv) hit = true; } vx_assert(m == (any ? 1 : 0), "each determinant appears once"); vx_assert(hit == any, "the kept score is one of the copies"); distinct += any; } vx_assert(L.size() == distinct, "no other determinants"); VX_END();
}
static void t_reorder(int n) { std::vector<double> C = vx_reals("c", n), C0 = C; std::vector<int> D, D0; for (int i = 0; i < n; ++i) D.push_back(i); reorder_ci_on_coeff(D, C); vx_assert(D.size() == (size_t)n && C.size() == (size_t)n, "sizes"); std::vector<int> seen(n); for (int i = 0; i < n; ++i) { vx_assert(D[i] >= 0 && D[i] < n && !seen[D[i]]++, "determinants are permuted"); vx_assert_eq(C[i], C0[D[i]], "coefficients move with their determinants"); } for (int i = 1; i < n; ++i) vx_assert(C[i - 1] * C[i - 1] >= C[i] * C[i], "coefficients are in decreasing magnitude"); VX_END(); }
// ---- P15: search
static Sys<64>* SS; static ASCISettings SST; static std::vector<std::bitset<64>> SW; static std::vector<double> SC; static double SE; static size_t SMAX; static std::vector<std::vector<std::bitset<64>>> SR;
static void search_rank(int r) { auto W = SW; auto& g = SS->g; SR[r] = asci_search<64>(SST, SMAX, W.begin(), W.end(), SE, SC, SS->I.n, g.T(), g.G_red(), g.V_red(), g.G(), g.V(), g, MPI_COMM_WORLD); vx_assert(W == SW, "search determinants untouched"); }
static void t_search(int np, int n, int na, int nb, int nsym, int nd) {
  Ints I(n, false); generic(I); if (nsym > 0) I.t(0, 1) = I.t(1, 0) = vx_real("t01"); if (nsym > 1) I.t(1, 2) = I.t(2, 1) = vx_real("t12"); Sys<64> S(I); SS = &S; auto L = sector(n, na, nb); std::vector<Det> D; int d0 = vx_pick("d0", 0, L.size() - 1); D.push_back(L[d0]); if (nd > 1) D.push_back(L[(d0 + 1 + d0 % 2) % L.size()]); SC = {0.875, -0.5}; SC.resize(nd); SW = wrap<64>(D); SE = -512.5; SST = ASCISettings(); SST.pair_size_max = 200; SST.h_el_tol = 0; SST.just_singles = vx_pick("just_singles", 0, 1);
  SMAX = nd + vx_pick("extra", 0, L.size() - nd + 1); SR.assign(np, {}); vx_mpi_run(np, search_rank); std::vector<double> sc; size_t live = 0;
  for (auto& s : L) { double rv = 0; for (int q = 0; q < nd; ++q) if (!same(s, D[q]) && dist(s, D[q]) <= (SST.just_singles ? 2 : 4)) rv += SC[q] * (ref_element(I, s, D[q]) / (SE - ref_element(I, s, s))); bool isd = false; for (auto& d : D) isd |= same(s, d); if (isd) sc.push_back(-1); else { sc.push_back(std::abs(rv)); if (!(rv == 0)) ++live; } }
  for (int r = 0; r < np; ++r) { auto& R = SR[r]; vx_assert(R.size() == std::min(SMAX, live + nd), "the search returns as many determinants as requested or available"); double worst = INFINITY; std::vector<bool> in; for (size_t k = 0; k < L.size(); ++k) { int m = 0; for (auto& x : R) m += x == mkdet<64>(L[k]); if (sc[k] < 0) vx_assert(m == 1, "search determinants are kept exactly once"); else vx_assert(m <= 1, "no determinant appears twice"); in.push_back(m); if (m && sc[k] >= 0) worst = std::min(worst, sc[k]); if (m) vx_assert(sc[k] != 0., "only connected determinants are added"); }
    for (size_t k = 0; k < L.size(); ++k) if (!in[k] && sc[k] >= 0) vx_assert(sc[k] <= worst, "no omitted determinant has a larger score than an added one"); if (r) vx_assert(R == SR[0], "all ranks return the same wavefunction"); } VX_END();
}
// ---- growth and refinement with a stand-in eigensolver
static MCSCFSettings MS; static std::vector<std::tuple<double, std::vector<std::bitset<64>>, std::vector<double>>> OUT; static std::vector<int> THREW; static bool GROW; static double GE0;
static void drive(int r) { auto W = SW; auto X = SC; try { OUT[r] = GROW ? asci_grow<64>(SST, MS, GE0, W, X, SS->g, (size_t)SS->I.n, MPI_COMM_WORLD) : asci_refine<64>(SST, MS, GE0, W, X, SS->g, (size_t)SS->I.n, MPI_COMM_WORLD); } catch (const std::exception&) { THREW[r] = 1; } }
static void t_drive(int np, bool grow, int n, int na, int nb, int w0) {
  Ints I(n, false); generic(I); Sys<64> S(I); SS = &S; auto L = sector(n, na, nb); SW.clear(); SC.clear(); const double cs[4] = {0.25, -0.75, 0.5, 0.125}; for (int i = 0; i < w0; ++i) { SW.push_back(mkdet<64>(L[(i * 3 + vx_pick("off", 0, i == 0 ? 2 : 0)) % L.size()])); SC.push_back(cs[i]); } for (int i = 0; i < w0; ++i) for (int j = 0; j < i; ++j) vx_assume(SW[i] != SW[j]);
  SST = ASCISettings(); SST.pair_size_max = 300; SST.h_el_tol = 0; SST.ncdets_max = vx_pick("ncdets", 1, 3); MS = MCSCFSettings(); GROW = grow; GE0 = -512.; int K = grow ? 4 : 3; EN.clear(); XS.clear(); for (int k = 0; k < K; ++k) { EN.push_back(grow ? -512. - k : vx_real("E")); std::vector<double> x; for (size_t i = 0; i < L.size(); ++i) x.push_back(((i * 5 + 3 * k) % 11 - 5.25) / 8); XS.push_back(x); }
  if (grow) { SST.ntdets_min = vx_pick("min", 1, 3); SST.ntdets_max = vx_pick("max", 1, L.size() + 1); SST.grow_factor = vx_pick("factor", 2, 3); } else { SST.max_refine_iter = vx_pick("iters", 1, 3); SST.refine_energy_tol = vx_real("tol"); vx_assume(SST.refine_energy_tol > 0 && SST.refine_energy_tol < 1); for (auto e : EN) vx_assume(e < -500 && e > -520); }
  CALLS.assign(np, {}); NCALL.assign(np, 0); OUT.assign(np, {}); THREW.assign(np, 0); vx_mpi_run(np, drive);
  for (int r = 0; r < np; ++r) { vx_assert(THREW[r] == THREW[0] && NCALL[r] == NCALL[0], "ranks agree on the outcome"); auto& cl = CALLS[r]; size_t size = w0; std::vector<std::bitset<64>> W = SW; std::vector<double> X = SC; bool stuck = false;
    for (size_t k = 0; k < cl.size(); ++k) { size_t want = grow ? std::min(std::max(SST.ntdets_min, size * SST.grow_factor), SST.ntdets_max) : w0; if (grow) vx_assert(size < SST.ntdets_max, "growth stops at the requested size"); vx_assert(!stuck, "growth stops when the wavefunction no longer grows"); vx_assert(cl[k].size() <= want, "no more determinants than requested are diagonalised"); stuck = cl[k].size() < want;
      size_t keep = std::min(SST.ncdets_max, W.size()); std::vector<size_t> ix(W.size()); for (size_t i = 0; i < ix.size(); ++i) ix[i] = i; std::sort(ix.begin(), ix.end(), [&](size_t a, size_t b) { return std::abs(X[a]) > std::abs(X[b]); }); for (size_t i = 0; i < keep; ++i) { int m = 0; for (auto& w : cl[k]) m += w == W[ix[i]]; vx_assert(m == 1, "the determinants with the largest coefficients are kept as search determinants"); }
      for (size_t i = 0; i < cl[k].size(); ++i) for (size_t j = 0; j < i; ++j) vx_assert(cl[k][i] != cl[k][j], "no determinant appears twice"); W = cl[k]; X.assign(XS[k].begin(), XS[k].begin() + W.size()); size = W.size(); }
    int nc = cl.size(); bool conv = false; if (!grow) for (int k = 0; k < nc; ++k) { double dE = EN[k] - (k ? EN[k - 1] : GE0); bool c = dE < SST.refine_energy_tol && -dE < SST.refine_energy_tol; if (k + 1 < nc) vx_assert(!c, "refinement stops as soon as the energy is converged"); else conv = c; } if (!grow) vx_assert(conv || stuck || nc == (int)SST.max_refine_iter, "refinement uses all allowed iterations before giving up");
    if (grow) vx_assert(THREW[r] == (stuck ? 1 : 0), "growth fails exactly when too few determinants exist"); else vx_assert(THREW[r] == (stuck || !conv ? 1 : 0), "refinement fails exactly when it does not converge or the size changes");
    if (!THREW[r]) { auto& [E, w, x] = OUT[r]; vx_assert_eq(E, nc ? EN[nc - 1] : GE0, "returned energy is the last one computed"); vx_assert(w == W, "returned wavefunction is the last one diagonalised"); vx_assert(x.size() == X.size(), "one coefficient per determinant"); for (size_t i = 0; i < X.size(); ++i) vx_assert_eq(x[i], X[i], "coefficients are gathered from all ranks in order"); if (grow) vx_assert(nc == 0 || size == SST.ntdets_max, "growth reaches the requested size"); } } VX_END();
}
// growth with rotation to natural orbitals: after each enlargement the one-body density is diagonalised on one rank, every rank continues with the integrals
// rotated by exactly these orbitals and with the coefficients of the same determinants in them
static uint64_t hf(const std::bitset<64>& w, int sp) { return w.to_ullong() >> (32 * sp) & 0xffffffffu; }
static std::vector<Ints> RI; static std::vector<std::vector<double>> RU; static std::vector<std::unique_ptr<Sys<64>>> RS; static std::vector<std::pair<int, bool>> RP; static std::vector<int> NSY; static int RN; // RP: per diagonalisation the number of rotations before it and whether it follows one directly
static Ints rotated(Ints& I, const std::vector<double>& U) { int n = I.n; Ints R(n, false); auto u = [&](int i, int p) { return U[i + p * n]; }; for (int p = 0; p < n; ++p) for (int q = 0; q < n; ++q) { double t = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) t += u(i, p) * I.t(i, j) * u(j, q); R.t(p, q) = t; }
  std::vector<double> A(I.V), B(A.size()); for (int ax = 0; ax < 4; ++ax) { int st = ax == 0 ? 1 : ax == 1 ? n : ax == 2 ? n * n : n * n * n; for (size_t x = 0; x < A.size(); ++x) { int p = x / st % n; double t = 0; for (int i = 0; i < n; ++i) t += A[x + (i - p) * st] * u(i, p); B[x] = t; } A = B; } R.V = A; return R; }
static std::vector<double> rdm1(const std::vector<std::bitset<64>>& W, const std::vector<double>& C, int n) { std::vector<double> D(n * n, 0.); for (size_t x = 0; x < W.size(); ++x) for (size_t y = 0; y < W.size(); ++y) for (int p = 0; p < n; ++p) for (int q = 0; q < n; ++q) for (int sp = 0; sp < 2; ++sp) { uint64_t b = hf(W[y], sp), o = hf(W[y], 1 - sp), a = hf(W[x], sp); if (hf(W[x], 1 - sp) != o || !(b >> q & 1)) continue; uint64_t m = b & ~(1ull << q); if (m >> p & 1) continue; int sg = pc(b & ((1ull << q) - 1)) + pc(m & ((1ull << p) - 1)); if ((m | 1ull << p) != a) continue; D[p + q * n] += (sg & 1 ? -1. : 1.) * C[x] * C[y]; } return D; }
static void rot_syev(int64_t n, double* A, int64_t lda, double* W) { // step k: the density of the k-th enlarged wavefunction
  int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); int k = NSY[r]++, c = NCALL[r] - 1; vx_assert(n == RN && c >= 0 && (size_t)c + 1 < RP.size() && RP[c + 1].second, "rotations follow enlargements to the stated size"); auto D = rdm1(CALLS[r][c], XS[c], n); bool plus = D[0] * A[0] > 0; for (int j = 0; j < n; ++j) for (int i = j; i < n; ++i) vx_assert_eq(plus ? A[i + j * lda] : -A[i + j * lda], D[i + j * n], "the one-body density of the enlarged wavefunction is diagonalised"); for (int j = 0; j < n; ++j) { W[j] = j; for (int i = 0; i < n; ++i) A[i + (plus ? n - 1 - j : j) * lda] = RU[RP[c].first][i + j * n]; } (void)k; }
static void rot_diag(int r, int k, const std::vector<std::bitset<64>>& w, HamiltonianGenerator<64>& H) { vx_assume((size_t)k < RP.size()); Ints& I = RI[RP[k].first]; int n = RN; if (RP[k].second) vx_assert(w == CALLS[r][k - 1], "the same determinants are diagonalised again after the rotation");
  for (int p = 0; p < n * n; ++p) vx_assert_eq(H.T()[p], I.T[p], "every rank holds the one-electron integrals of the natural orbitals"); for (int p = 0; p < n * n * n * n; ++p) vx_assert_eq(H.V()[p], I.V[p], "every rank holds the two-electron integrals of the natural orbitals");
  for (auto& x : w) for (auto& y : w) vx_assert_eq(H.matrix_element(x, y), ref_element(I, Det{hf(x, 0), hf(x, 1)}, Det{hf(y, 0), hf(y, 1)}), "matrix elements follow the rotated integrals"); }
static void rot_rank(int r) { auto W = SW; auto X = SC; try { OUT[r] = asci_grow<64>(SST, MS, GE0, W, X, RS[r]->g, (size_t)RN, MPI_COMM_WORLD); } catch (const std::exception&) { THREW[r] = 1; } }
static void t_rot(int np, int n, int na, int nb, int steps, int m0, int m1) {
  RN = n; RI.clear(); RU.clear(); RI.reserve(steps + 1); Ints I(n, false); generic(I); RI.push_back(I); for (int k = 0; k < steps; ++k) { std::vector<double> U(n * n); if (steps == 1) U = vx_reals("u", n * n); else for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) U[i + j * n] = i < 2 && j < 2 ? (i == j ? 0.8 : i < j ? 0.6 : -0.6) * (k ? -1 : 1) : i == j; RU.push_back(U); RI.push_back(rotated(RI.back(), U)); }
  RS.clear(); for (int r = 0; r < np; ++r) RS.push_back(std::make_unique<Sys<64>>(I)); auto L = sector(n, na, nb); SW = {mkdet<64>(L[vx_pick("start", 0, 1)])}; SC = {1.}; SST = ASCISettings(); SST.pair_size_max = 300; SST.h_el_tol = 0; SST.ncdets_max = vx_pick("ncdets", 1, 2); SST.grow_with_rot = true; SST.rot_size_start = vx_pick("rot_from", 1, 5); SST.ntdets_min = 1; SST.ntdets_max = steps == 1 ? vx_pick("max", m0, m1) : m1; SST.grow_factor = steps == 1 ? SST.ntdets_max : 2; MS = MCSCFSettings(); GE0 = -512.; RP.clear(); int nrot = 0; for (size_t z = 1; z < SST.ntdets_max;) { z = std::min(z * SST.grow_factor, SST.ntdets_max); RP.push_back({nrot, false}); if (z >= SST.rot_size_start) RP.push_back({++nrot, true}); }
  EN.clear(); XS.clear(); for (size_t k = 0; k < RP.size(); ++k) { EN.push_back(steps == 1 ? vx_real("E") : -512. - k); std::vector<double> x; for (size_t i = 0; i < L.size(); ++i) x.push_back(((i * 5 + 3 * k) % 11 - 5.25) / 8); XS.push_back(x); }
  NSY.assign(np, 0); CALLS.assign(np, {}); NCALL.assign(np, 0); OUT.assign(np, {}); THREW.assign(np, 0); ON_DIAG = rot_diag; lapack::syev_hook = rot_syev; vx_mpi_run(np, rot_rank); ON_DIAG = nullptr; lapack::syev_hook = nullptr;
  for (int r = 0; r < np; ++r) { if (THREW[r]) { vx_assert(THREW[0] == 1, "ranks agree on the outcome"); continue; } auto& cl = CALLS[r]; int ns = 0; for (int x : NSY) ns += x; vx_assert(NCALL[r] == (int)RP.size() && ns >= nrot, "every enlargement to the stated size is followed by one rotation and one diagonalisation"); auto& [E, w, x] = OUT[r]; size_t l = cl.size() - 1; vx_assert_eq(E, EN[l], "the returned energy belongs to the returned coefficients"); vx_assert(w == cl[l] && x.size() == w.size() && w.size() == SST.ntdets_max, "returned wavefunction is the last one diagonalised"); for (size_t i = 0; i < x.size(); ++i) vx_assert_eq(x[i], XS[l][i], "coefficients are gathered from all ranks in order");
    for (int q = 0; q < n * n; ++q) vx_assert_eq(RS[r]->T[q], RI[nrot].T[q], "the integrals left behind are those of the returned wavefunction");
    for (size_t c = 1; c < RP.size(); ++c) if (!RP[c].second) { auto& v = cl[c]; auto& o = cl[c - 1]; auto& X = XS[c - 1]; Ints& I = RI[RP[c].first]; std::vector<size_t> ix(o.size()); for (size_t i = 0; i < ix.size(); ++i) ix[i] = i; std::sort(ix.begin(), ix.end(), [&](size_t a, size_t b) { return std::abs(X[a]) > std::abs(X[b]); }); size_t keep = std::min(SST.ncdets_max, o.size()); double worst = INFINITY, best = 0; for (auto& s : L) { auto b = mkdet<64>(s); bool in = false, isd = false; for (auto& y : v) in |= y == b; double rv = 0; for (size_t i = 0; i < keep; ++i) { auto& y = o[ix[i]]; if (y == b) isd = true; Det d{hf(y, 0), hf(y, 1)}; if (dist(s, d) <= 4 && y != b) rv += X[ix[i]] * (ref_element(I, s, d) / (EN[c - 1] - ref_element(I, s, s))); } if (isd) { vx_assert(in, "the largest coefficients in the new orbitals are kept"); continue; } rv = std::abs(rv); if (in) worst = std::min(worst, rv); else best = std::max(best, rv); } vx_assert(best <= worst + 1e-12, "the next search ranks with the rotated integrals, coefficients and energy"); } } VX_END();
}
extern "C" {
void asci_one3() { t_one<64>(3, 1, 2, 1, 2, true); }
void asci_one4() { t_one<64>(4, 2, 2, 1, 1, true); }
void asci_one_tol() { t_one<64>(4, 2, 2, 1, 2, false); }
void asci_one128() { t_one<128>(3, 1, 2, 1, 2, true); }
void asci_two() { t_two<64>(3, false); }
void asci_prune() { t_two<64>(3, true); }
void asci_prune_con1() { t_prune(1, 4, 3, 1, 3); }
void asci_prune_con2() { t_prune(2, 4, 3, 1, 2); }
void asci_prune_con1b() { t_prune(1, 4, 3, 1, 300); }
void asci_con64() { t_con<64>(6, 1, 5, 1, 5); }
void asci_con128() { t_con<128>(6, 3, 4, 3, 4); }
void asci_make() { t_make<64>(); }
void asci_cc() { t_concontrib<64>(4, 3, 1, false); }
void asci_cc5() { t_concontrib<64>(5, 3, 1, false); }
void asci_cc_tol() { t_concontrib<64>(4, 3, 1, true); }
void asci_cc128() { t_concontrib<128>(4, 3, 1, false); }
void asci_dist1() { t_dist(1, 6, 3, 5, 2, 2); }
void asci_dist2() { t_dist(2, 6, 3, 5, 2, 2); }
void asci_dist3() { t_dist(3, 5, 0, 5, 1, 2); }
void asci_dist4() { t_dist(4, 6, 2, 5, 1, 2); }
void asci_acc() { t_acc<64>(4, 3); }
void asci_acc128() { t_acc<128>(3, 5); }
void asci_acc_sub() { t_acc_sub(); }
void asci_acc_long() { t_acc_long(40); }
void asci_keep() { t_keep<64>(3, 3); }
void asci_keep128() { t_keep<128>(3, 2); }
void asci_reorder() { t_reorder(4); }
void asci_search1() { t_search(1, 3, 2, 1, VX_TIER > 1 ? 2 : 1, 1); }
void asci_search1b() { t_search(1, 3, 2, 1, 1, 2); }
void asci_search2() { t_search(2, VX_TIER > 1 ? 4 : 3, VX_TIER > 1 ? 3 : 2, 1, 1, 1); }
void asci_search_ties() { t_search(2, 3, 2, 2, 1, 1); }
void asci_search_ties3() { t_search(3, 3, 2, 2, 1, 1); }
void asci_grow1() { t_drive(1, true, 3, 2, 1, 2); }
void asci_grow2() { t_drive(2, true, 3, 2, 1, 2); }
void asci_grow3() { t_drive(3, true, 3, 2, 1, 1); }
void asci_refine1() { t_drive(1, false, 3, 2, 1, 4); }
void asci_refine2() { t_drive(2, false, 3, 2, 1, 3); }
void asci_refine3() { t_drive(3, false, 3, 2, 1, 4); }
void asci_rot1() { t_rot(1, 2, 1, 1, 1, 2, 4); }
void asci_rot2() { t_rot(2, 2, 1, 1, 1, 2, 4); }
void asci_rot3() { t_rot(3, 2, 1, 1, 1, 2, 4); }
void asci_rot1s() { t_rot(1, 3, 2, 1, 2, 0, 4); }
void asci_rot2s() { t_rot(2, 3, 2, 1, 2, 0, 4); }
void asci_rot1n() { t_rot(1, 3, 2, 1, 1, 2, VX_TIER > 1 ? 4 : 2); }
}
