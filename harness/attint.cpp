// P42: integrals of the cmz_ed (attic) library
#include "ham_ref.hpp"
#include <cmath>
#include <map>
#include <fstream>
#include <iostream>
#include <iomanip>
#include "cmz_ed/slaterdet.h++"
#include "attic_access.hpp"
using namespace cmz::ed; using namespace cmz::ed::intgrls;
using std::vector;
static eigMatD symV(int n) { eigMatD V(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) V(i, j) = vx_real("V"); return V; }
static size_t I4(int n, int i, int a, int j, int b) { return i + n * (a + n * (j + n * (size_t)b)); }
static void put(const char* f, const std::string& s) { std::ofstream o(f); o << s; }
template <class F> static bool throws(F f) { try { f(); return false; } catch (...) { return true; } }
static void t_rot_as(int n, int ni, int na) { // only columns of inactive and active orbitals are formed
  integrals J(n); J.UpdateActiveSpace(ni, na, n - ni - na); vector<double> a = vx_reals("a", n * n), b = vx_reals("b", n * n * n * n); eigMatD V = symV(n); auto a2 = J.rotate1AS(V, a); auto b2 = J.rotate2AS(V, b); 
  vector<double> w = b; for (int l = 0; l < n; ++l) for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) for (int j = 0; j < n; ++j) { double s = 0; if (l < ni + na) for (int x = 0; x < n; ++x) for (int y = 0; y < n; ++y) for (int z = 0; z < n; ++z) for (int u = 0; u < n; ++u) s += V(x, i) * V(y, k) * V(z, j) * V(u, l) * b[I4(n, x, y, z, u)]; vx_assert_eq(b2[I4(n, i, k, j, l)], s, "two-body rotation, last index inactive or active"); }
  for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) { double s = 0; for (int x = 0; x < n; ++x) for (int y = 0; y < n; ++y) s += V(x, i) * a[x + n * y] * V(y, k); vx_assert_eq(a2[i + n * k], s, "one-body rotation"); } VX_END();
}
// one symbolic line of an integral file
static void line(std::ofstream& o, int i, int a, int j, int b, double x) { o << std::setw(4) << i << " " << a << "  " << j << " " << b << " " << x << "\n"; }
extern "C" {
void atn_two() {
  int64_t i = vx_range("i", 0, 60), a = vx_range("a", 0, 60), j = vx_range("j", 0, 60), b = vx_range("b", 0, 60); two_indx x(i, a), y(a, i), z(j, b); vx_assert(x.i >= x.a && ((x.i == i && x.a == a) || (x.i == a && x.a == i)), "ordered pair");
  vx_assert(x == y && std::hash<two_indx>()(x) == std::hash<two_indx>()(y), "hermitian pairs are the same key"); bool eq = (i == j && a == b) || (i == b && a == j); vx_assert((x == z) == eq, "other pairs differ"); vx_assert((x < z) + (z < x) + (x == z) == 1, "total order"); VX_END(); }
void atn_four() {
  int64_t v[8]; for (auto& x : v) x = vx_range("v", 0, 20); bool real = vx_pick("real", 0, 1); four_indx x(v[0], v[1], v[2], v[3], real), y(v[4], v[5], v[6], v[7], real); auto same = [&](int p, int q, int r, int s) { return real ? ((p == r && q == s) || (p == s && q == r)) : (p == r && q == s); };
  bool eq = same(v[0], v[1], v[4], v[5]) && same(v[2], v[3], v[6], v[7]); vx_assert((x == y) == eq, "keys agree exactly for real-integral symmetry inside each charge density"); if (eq) vx_assert(std::hash<four_indx>()(x) == std::hash<four_indx>()(y), "equal keys hash alike"); vx_assert((x < y) + (y < x) + (x == y) == 1, "total order"); VX_END(); }
void atn_index() {
  int n = vx_pick("n", 1, 6); intgrls::indexer X(n); rdm_indexer R(n); int64_t v[8]; for (auto& x : v) x = vx_range("v", 0, 2 * n - 1); for (auto& x : v) { vx_assume(x < 2 * n); }
  int64_t p = X(v[0], v[1], v[2], v[3]), q = X(v[4], v[5], v[6], v[7]), s = X(v[0], v[1]), t = X(v[4], v[5]); vx_assert(p >= 0 && p < (int64_t)n * n * n * n && s >= 0 && s < n * n, "inside the arrays"); bool eq = true; for (int i = 0; i < 4; ++i) eq &= v[i] % n == v[i + 4] % n;
  vx_assert((p == q) == eq, "one position per index quadruple"); vx_assert((s == t) == (v[0] % n == v[4] % n && v[1] % n == v[5] % n), "one position per index pair"); vx_assert(R(v[0], v[1], v[2], v[3]) == p && R(v[0], v[1]) == s, "density matrices use the same layout"); VX_END(); }
void atn_access() { int n = vx_pick("n", 1, 2); vector<double> a = vx_reals("a", n * n), b = vx_reals("b", n * n * n * n); integrals R(n, a, b); t_access(R, n, a, b); VX_END(); }
void atn_size() { int n = vx_pick("n", 1, 2); int x = vx_pick("x", -1, 1), y = vx_pick("y", -1, 1); vector<double> a(n * n + x, 1.), b(n * n * n * n + y, 2.); bool thrown = throws([&] { integrals R(n, a, b); vx_assert(R.t == a && R.u == b, "contents"); }); vx_assert(thrown == (x || y), "wrong sizes are rejected, right sizes accepted");
  integrals R(n, vector<double>(n * n, 0.), vector<double>(n * n * n * n, 0.)); thrown = throws([&] { R.updateInts(a, b); }); vx_assert(thrown == (x || y), "updateInts rejects wrong sizes"); if (!thrown) vx_assert(R.t == a && R.u == b, "updateInts replaces the integrals"); VX_END(); }
void atn_space() { int n = vx_pick("n", 1, 5); integrals J(n); vx_assert(J.iorbs.empty() && J.sorbs.empty() && J.aorbs.size() == (size_t)n, "all orbitals start active"); int ni = vx_pick("ni", 0, 5), na = vx_pick("na", 0, 5), ns = vx_pick("ns", 0, 5); bool thrown = throws([&] { J.UpdateActiveSpace(ni, na, ns); }); vx_assert(thrown == (ni + na + ns != n), "the spaces must add up");
  if (!thrown) { vx_assert(J.iorbs.size() == (size_t)ni && J.aorbs.size() == (size_t)na && J.sorbs.size() == (size_t)ns, "sizes of the spaces"); int k = 0; for (auto L : {J.iorbs, J.aorbs, J.sorbs}) for (auto x : L) { vx_assert(x == k, "consecutive orbitals"); ++k; } } VX_END(); }
void atn_rot() { int n = 2; vector<double> a = vx_reals("a", n * n), b = vx_reals("b", n * n * n * n); integrals J(n, a, b); eigMatD V = symV(n); J.rotate_orbitals(V); for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) { double w = 0; for (int x = 0; x < n; ++x) for (int y = 0; y < n; ++y) w += V(x, i) * a[x + n * y] * V(y, k); vx_assert_eq(J.t[i + n * k], w, "rotated one-body integrals"); }
  for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) for (int j = 0; j < n; ++j) for (int l = 0; l < n; ++l) { double w = 0; for (int x = 0; x < n; ++x) for (int y = 0; y < n; ++y) for (int z = 0; z < n; ++z) for (int u = 0; u < n; ++u) w += V(x, i) * V(y, k) * V(z, j) * V(u, l) * b[I4(n, x, y, z, u)]; vx_assert_eq(J.u[I4(n, i, k, j, l)], w, "rotated two-body integrals"); } VX_END(); }
void atn_rot_as() { int ni = vx_pick("ni", 0, 2), na = vx_pick("na", 0, 2); vx_assume(ni + na <= 2); t_rot_as(2, ni, na); }
void atn_store() { // stored (symmetry-unique) integrals and arrays agree after updateStoredInts / copy_to_vectors
  int n = vx_pick("n", 1, 3); Ints I(n); integrals J(n, I.T, I.V); bool fresh = vx_pick("update", 0, 1); if (fresh) { Ints K(n); J.updateInts(K.T, K.V); J.updateStoredInts(); I = K; } vector<double> t = J.t, u = J.u; for (auto& x : J.t) x = -7; for (auto& x : J.u) x = -8; J.copy_to_vectors(); 
  for (int p = 0; p < n; ++p) for (int q = 0; q < n; ++q) { vx_assert_eq(J.map_get(p, q), I.t(p, q), "stored one-body integral"); vx_assert_eq(J.map_get(p + n, q + n), I.t(p, q), "spin-down index"); vx_assert_eq(J.get(p, q), I.t(p, q), "one-body array"); for (int r = 0; r < n; ++r) for (int s = 0; s < n; ++s) { vx_assert_eq(J.map_get(p, r, q, s), I.v(p, q, r, s), "stored two-body integral"); vx_assert_eq(J.getChem(p, q, r, s), I.v(p, q, r, s), "two-body array"); } } VX_END(); }
void atn_store_miss() { integrals J(2); J.t_store.insert({two_indx(1, 0), vx_real("x")}); vx_assert(J.map_get(0, 0) == 0 && J.map_get(1, 1) == 0 && J.map_get(0, 0, 1, 1) == 0, "absent integrals are zero"); J.copy_to_vectors(); vx_assert(J.get(0, 0) == 0 && J.getPhys(0, 0, 1, 1) == 0, "absent integrals are zero"); vx_assert_eq(J.get(0, 1), J.get(1, 0), "hermitian"); VX_END(); }
void atn_read() { // arbitrary values; index patterns by case
  int i = vx_pick("i", 1, 2), a = vx_pick("a", 1, 2), j = vx_pick("j", 1, 2), b = vx_pick("b", 1, 2); double e = vx_real("core"), h = vx_real("h"), g = vx_real("g"), eps = vx_real("eps"); vx_assume(std::abs(e) > 1e-12); vx_assume(std::abs(h) > 1e-12); vx_assume(std::abs(g) > 1e-12); vx_assume(std::abs(eps) > 1e-12);
  { std::ofstream o("ints.dat"); o.precision(17); line(o, 1, 0, 0, 0, eps); line(o, i, a, j, b, g); line(o, 0, 0, 0, 0, e); line(o, i, a, 0, 0, h); line(o, 2, 0, 0, 0, eps); }
  bool js = vx_bool("js"); integrals J(2, std::string("ints.dat"), js, true); vx_assert(js == !(i != a && j != b), "single-excitation flag"); vx_assert_same(J.get_core_energy(), e, "core energy");
  for (int p = 0; p < 2; ++p) for (int q = 0; q < 2; ++q) { bool m = (p == i - 1 && q == a - 1) || (q == i - 1 && p == a - 1); vx_assert_same(J.get(p, q), m ? h : 0., "one-body integral and its transpose; orbital energies are ignored"); for (int r = 0; r < 2; ++r) for (int s = 0; s < 2; ++s) { bool k = m && ((r == j - 1 && s == b - 1) || (s == j - 1 && r == b - 1)); vx_assert_same(J.getChem(p, q, r, s), k ? g : 0., "two-body integral with index permutations inside each pair"); } } VX_END(); }
void atn_read_bad() { int i = vx_pick("i", 0, 1), a = vx_pick("a", 0, 1), j = vx_pick("j", 0, 1), b = vx_pick("b", 0, 1); { std::ofstream o("ints.dat"); o.precision(17); line(o, 1, 1, 1, 1, 0.5); line(o, i, a, j, b, vx_pick("tiny", 0, 1) ? 1e-20 : 0.25); } 
  bool ok = (!i && !a && !j && !b) || (i && !a && !j && !b) || (i && a && j == b); integrals J(1); bool t = throws([&] { J.read_FCIdump("ints.dat"); }); bool tiny = false; { std::ifstream f("ints.dat"); std::string s; while (std::getline(f, s)) tiny |= s.find("0.25") == std::string::npos && s.find("0.5") == std::string::npos; } (void)tiny; if (!ok && t == false) vx_assert(J.t_store.empty() && J.u_store.size() == 1 && J.core_energy == 0, "an accepted malformed line is one with a vanishing value"); if (ok) vx_assert(!t, "well-formed lines are accepted"); vx_assert(throws([&] { J.read_FCIdump("absent.dat"); }), "a missing file is rejected"); VX_END(); }
void atn_read_bad2() { int i = vx_pick("i", 0, 1), a = vx_pick("a", 0, 1), j = vx_pick("j", 0, 1), b = vx_pick("b", 0, 1); bool ok = (!i && !a && !j && !b) || (i && !a && !j && !b) || (i && a && j == b); { std::ofstream o("ints.dat"); o.precision(17); line(o, i, a, j, b, 0.25); } integrals J(1); bool t = throws([&] { J.read_FCIdump("ints.dat"); }); vx_assert(t == !ok, "inconsistent index patterns are rejected"); VX_END(); }
void atn_write() { // written integrals are read back to the printed precision
  int w = vx_pick("which", 0, 3); double x = vx_real("x"); int n = 2; Ints I(n, false); I.t(0, 0) = 0.5; I.t(0, 1) = I.t(1, 0) = w == 0 ? x : 0; I.t(1, 1) = w == 1 ? x : -0.25; if (w >= 2) { int p = vx_pick("p", 0, 1), q = vx_pick("q", 0, 1), r = vx_pick("r", 0, 1), s = vx_pick("s", 0, 1); I.v(p, q, r, s) = I.v(q, p, r, s) = I.v(p, q, s, r) = I.v(q, p, s, r) = I.v(r, s, p, q) = I.v(s, r, p, q) = I.v(r, s, q, p) = I.v(s, r, q, p) = w == 2 ? x : 0.125; }
  integrals J(n, I.T, I.V); J.core_energy = w == 3 ? x : 0; J.write_FCIdump("out.dat"); integrals K(n, std::string("out.dat")); auto near = [&](double a, double b, const char* l) { double d = a - b; vx_assert(d == 0 || (std::abs(d) <= 1e-11 * std::abs(b)) || (a == 0 && std::abs(b) <= 1e-10), l); };
  near(K.core_energy, J.core_energy, "core energy"); for (int p = 0; p < n; ++p) for (int q = 0; q < n; ++q) { near(K.get(p, q), I.t(p, q), "one-body integral"); for (int r = 0; r < n; ++r) for (int s = 0; s < n; ++s) near(K.getChem(p, q, r, s), I.v(p, q, r, s), "two-body integral"); } VX_END(); }
}
