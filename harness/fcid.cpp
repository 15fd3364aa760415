// FCIDUMP text files and binary RDM files.
#include <cstdint>
#include "common.hpp"
#include <fstream>
#include <iomanip>
#include <macis/util/fcidump.hpp>
#include <macis/util/binary_rdms.hpp>
using namespace macis;
typedef std::vector<double> vd;
template <class F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
struct H { size_t n, lt, lv; vd t, v; double core;
  H(size_t n_, size_t pt, size_t pv) : n(n_), lt(std::max<size_t>(1, n_ + pt)), lv(std::max<size_t>(1, n_ + pv)), t(lt * n), v(lv * lv * lv * n) { for (auto& x : t) x = vx_real("t"); for (auto& x : v) x = vx_real("v"); core = vx_real("core");
    for (size_t q = 0; q < n; ++q) for (size_t p = 0; p < q; ++p) T(p, q) = T(q, p);
    for (size_t s = 0; s < n; ++s) for (size_t r = 0; r < n; ++r) for (size_t q = 0; q < n; ++q) for (size_t p = 0; p < n; ++p) { size_t a = std::max(p, q), b = std::min(p, q), c = std::max(r, s), d = std::min(r, s); if (a * n + b < c * n + d) std::swap(a, c), std::swap(b, d); V(p, q, r, s) = V(a, b, c, d); } }
  double& T(size_t p, size_t q) { return t[p + q * lt]; } double& V(size_t p, size_t q, size_t r, size_t s) { return v[p + lv * (q + lv * (r + lv * s))]; } };
static void same(H& A, H& B, const vd& t0, const vd& v0) { size_t n = A.n;
  for (size_t q = 0; q < n; ++q) for (size_t p = 0; p < B.lt; ++p) if (p < n) vx_assert_same(B.T(p, q), A.T(p, q), "one-body integrals survive the file"); else vx_assert_same(B.T(p, q), t0[p + q * B.lt], "padding of T untouched");
  for (size_t s = 0; s < n; ++s) for (size_t r = 0; r < B.lv; ++r) for (size_t q = 0; q < B.lv; ++q) for (size_t p = 0; p < B.lv; ++p) if (p < n && q < n && r < n) vx_assert_same(B.V(p, q, r, s), A.V(p, q, r, s), "two-body integrals survive the file"); else vx_assert_same(B.V(p, q, r, s), v0[p + B.lv * (q + B.lv * (r + B.lv * s))], "padding of V untouched"); }
static void roundtrip(size_t n, bool pads) {
  H A(n, pads ? vx_pick("padT", 0, 1) : 0, pads ? vx_pick("padV", 0, 1) : 0), B(n, pads ? vx_pick("padT2", 0, 1) : 0, pads ? 1 : 0); vd t0 = B.t, v0 = B.v;
  write_fcidump("f.dump", n, A.t.data(), A.lt, A.v.data(), A.lv, A.core);
  vx_assert(read_fcidump_norb("f.dump") == n, "orbital count survives the file"); vx_assert_same(read_fcidump_core("f.dump"), A.core, "core energy survives the file");
  read_fcidump_1body("f.dump", B.t.data(), B.lt); read_fcidump_2body("f.dump", B.v.data(), B.lv); same(A, B, t0, v0); VX_END(); }
// one data line in either column order
static void line(std::ostream& o, bool front, int p, int q, int r, int s, double x, int w = 8) { o << std::scientific << std::setprecision(16); if (front) o << std::setw(25) << x << " " << p << " " << q << " " << r << " " << s; else o << std::setw(w) << p << " " << std::setw(w) << q << " " << r << " " << s << " " << std::setw(25) << x; o << "\n"; }
template <class F> static void each8(int p, int q, int r, int s, F f) { f(p, q, r, s); f(q, p, r, s); f(p, q, s, r); f(q, p, s, r); f(r, s, p, q); f(s, r, p, q); f(r, s, q, p); f(s, r, q, p); }
extern "C" {
void fc_round1() { roundtrip(1, true); }
void fc_round2() { roundtrip(2, false); }
void fc_round2_ld() { roundtrip(2, true); }
void fc_round0() { roundtrip(0, false); }
void fc_round3() { roundtrip(VX_TIER > 1 ? vx_pick("n", 3, 4) : 3, VX_TIER > 1); }
// the file is replaced, and a second file can be written
void fc_again() { size_t n1 = vx_pick("n1", 1, 2), n2 = vx_pick("n2", 1, 2); H A(n1, 0, 0), B(n2, 0, 0), C(n2, 0, 0); bool other = vx_pick("other", 0, 1);
  write_fcidump("f.dump", n1, A.t.data(), A.lt, A.v.data(), A.lv, A.core); const char* f = other ? "g.dump" : "f.dump"; write_fcidump(f, n2, B.t.data(), B.lt, B.v.data(), B.lv, B.core);
  vx_assert(read_fcidump_norb(f) == n2, "rewriting replaces the orbital count"); vx_assert_same(read_fcidump_core(f), B.core, "rewriting replaces the core energy"); vd t0, v0; read_fcidump_1body(f, C.t.data(), C.lt); read_fcidump_2body(f, C.v.data(), C.lv); same(B, C, t0, v0);
  if (other) { vx_assert(read_fcidump_norb("f.dump") == n1, "the first file is kept"); vx_assert_same(read_fcidump_core("f.dump"), A.core, "the first file is kept"); } VX_END(); }
// an integral listed once reaches every equivalent position and nothing else
void fc_two() { const size_t n = 2; bool front = vx_pick("front", 0, 1); int p = vx_pick("p", 1, 2), q = vx_pick("q", 1, 2), r = vx_pick("r", 1, 2), s = vx_pick("s", 1, 2); double x = vx_real("x"), y = vx_real("y");
  { std::ofstream o("f.dump"); o << " &FCI NORB= 2, NELEC=2,\n ORBSYM=1,1\n &END\n"; line(o, front, p, q, r, s, x); line(o, front, 2, 1, 0, 0, y); }
  H B(n, 0, 0); vd v0 = B.v, e = B.v, t0 = B.t; each8(p - 1, q - 1, r - 1, s - 1, [&](int a, int b, int c, int d) { e[a + 2 * (b + 2 * (c + 2 * d))] = x; });
  read_fcidump_2body("f.dump", col_major_span<double, 4>(B.v.data(), n, n, n, n)); for (size_t k = 0; k < 16; ++k) vx_assert_same(B.v[k], e[k], "a two-body integral reaches its eight positions and nothing else"); for (size_t k = 0; k < 4; ++k) vx_assert_same(B.t[k], t0[k], "one-body array untouched");
  read_fcidump_1body("f.dump", col_major_span<double, 2>(B.t.data(), n, n)); vx_assert_same(B.t[1], y, "a one-body integral reaches both positions"); vx_assert_same(B.t[2], y, "a one-body integral reaches both positions"); vx_assert_same(B.t[0], t0[0], "unlisted integrals untouched"); vx_assert_same(B.t[3], t0[3], "unlisted integrals untouched"); vx_assert_same(read_fcidump_core("f.dump"), 0, "absent core energy is zero"); VX_END(); }
void fc_three() { const size_t n = 3; int p = vx_pick("p", 1, 3), q = vx_pick("q", 1, 3); double x = vx_real("x"), y = vx_real("y"); bool swap = vx_pick("order", 0, 1);
  { std::ofstream o("f.dump"); if (swap) line(o, false, p, q, 0, 0, x); line(o, false, 3, 2, 1, 1, y); if (!swap) line(o, false, p, q, 0, 0, x); }
  H B(n, 1, 0); vd e = B.t; e[p - 1 + 4 * (q - 1)] = e[q - 1 + 4 * (p - 1)] = x; read_fcidump_1body("f.dump", B.t.data(), B.lt); for (size_t k = 0; k < 12; ++k) vx_assert_same(B.t[k], e[k], "a one-body integral reaches both positions and nothing else");
  vd ev = B.v; each8(2, 1, 0, 0, [&](int a, int b, int c, int d) { ev[a + 3 * (b + 3 * (c + 3 * d))] = y; }); read_fcidump_2body("f.dump", B.v.data(), B.lv); for (size_t k = 0; k < 81; ++k) vx_assert_same(B.v[k], ev[k], "a two-body integral reaches its eight positions and nothing else"); VX_END(); }
// other content of the file is ignored wherever it stands
void fc_junk() { double x = vx_real("x"), y = vx_real("y"), z = vx_real("z"), w = vx_real("w"); int junk = vx_pick("junk", 0, 4); int at = vx_pick("at", 0, 2);
  { std::ofstream o("f.dump"); for (int k = 0; k < 3; ++k) { if (k == at) { if (junk == 0) o << "\n"; else if (junk == 1) o << " &FCI NORB=9, NELEC=2, MS2=0\n"; else if (junk == 2) line(o, false, 2, 0, 0, 0, w); else if (junk == 3) o << "      \n"; else o << "1 2 3 4\n"; } if (k == 0) line(o, false, 0, 0, 0, 0, z); else if (k == 1) line(o, false, 1, 1, 0, 0, x); else line(o, false, 2, 1, 2, 1, y); } }
  H B(2, 0, 0); vd v0 = B.v, t0 = B.t; vx_assert(read_fcidump_norb("f.dump") == 2, "orbital count is the largest index"); vx_assert_same(read_fcidump_core("f.dump"), z, "core energy found anywhere"); read_fcidump_1body("f.dump", B.t.data(), 2); read_fcidump_2body("f.dump", B.v.data(), 2);
  t0[0] = x; each8(1, 0, 1, 0, [&](int a, int b, int c, int d) { v0[a + 2 * (b + 2 * (c + 2 * d))] = y; }); for (int k = 0; k < 4; ++k) vx_assert_same(B.t[k], t0[k], "other lines do not touch T"); for (int k = 0; k < 16; ++k) vx_assert_same(B.v[k], v0[k], "other lines do not touch V"); VX_END(); }
void fc_norb() { int n = vx_pick("n", 1, 12), at = vx_pick("at", 0, 5); bool front = vx_pick("front", 0, 1); { std::ofstream o("f.dump"); int i[6] = {1, 1, 1, 1, 1, 1}; i[at] = n; line(o, front, i[0], i[1], i[2], i[3], 0.5, 3); line(o, front, i[4], i[5], 0, 0, 0.25, 1); line(o, front, 0, 0, 0, 0, 1.5); } vx_assert(read_fcidump_norb("f.dump") == (uint32_t)n, "orbital count is the largest index"); VX_END(); }
void fc_core() { double a = vx_real("a"), b = vx_real("b"); bool front = vx_pick("front", 0, 1), last = vx_pick("last", 0, 1); { std::ofstream o("f.dump"); if (!last) line(o, front, 0, 0, 0, 0, a); line(o, front, 1, 1, 0, 0, b); line(o, front, 1, 1, 1, 1, b); if (last) line(o, front, 0, 0, 0, 0, a); } vx_assert_same(read_fcidump_core("f.dump"), a, "core energy is the all-zero entry"); VX_END(); }
void fc_bad() { int kind = vx_pick("kind", 0, 5); vd t(64), v(256);
  { std::ofstream o("f.dump"); line(o, false, 2, 2, 1, 1, 0.5); if (kind < 4) line(o, false, kind == 0 ? -1 : 1, kind == 1 ? -1 : 1, kind == 2 ? -1 : 1, kind == 3 ? -1 : 1, 0.5); else if (kind == 4) o << "0.5 1 1 1 0.5\n"; }
  if (kind < 5) { vx_assert(throws([&] { read_fcidump_norb("f.dump"); }), "malformed line is rejected"); vx_assert(throws([&] { read_fcidump_core("f.dump"); }), "malformed line is rejected"); vx_assert(throws([&] { read_fcidump_1body("f.dump", t.data(), 2); }), "malformed line is rejected"); vx_assert(throws([&] { read_fcidump_2body("f.dump", v.data(), 2); }), "malformed line is rejected"); }
  else { int m = vx_pick("m", 1, 3), k = vx_pick("k", 1, 3); vx_assert(throws([&] { read_fcidump_1body("f.dump", col_major_span<double, 2>(t.data(), m, k)); }) == !(m == 2 && k == 2), "T must be norb x norb"); size_t d[4] = {2, 2, 2, 2}; int which = vx_pick("which", 0, 4); if (which < 4) d[which] = vx_pick("d", 1, 3); else for (auto& x : d) x = k; bool ok = d[0] == 2 && d[1] == 2 && d[2] == 2 && d[3] == 2; vx_assert(throws([&] { read_fcidump_2body("f.dump", col_major_span<double, 4>(v.data(), d[0], d[1], d[2], d[3])); }) == !ok, "V must be norb^4"); } VX_END(); }
// ---------------------------------------------------------------- binary RDM files
void rb_round() { size_t n = vx_pick("n", 0, 2), l1 = std::max<size_t>(1, n + vx_pick("pad1", 0, 1)), l2 = std::max<size_t>(1, n + vx_pick("pad2", 0, 1)), m1 = std::max<size_t>(1, n + vx_pick("pad3", 0, 1)), m2 = std::max<size_t>(1, n + vx_pick("pad4", 0, 1));
  auto a = vx_reals("a", l1 * n), g = vx_reals("g", l2 * l2 * l2 * n), b = vx_reals("b", m1 * n), h = vx_reals("h", m2 * m2 * m2 * n), a0 = a, g0 = g, b0 = b, h0 = h;
  if (vx_pick("old", 0, 1)) { std::ofstream o("r.bin"); o << "something that was there before, longer than the new content ......................................................................................................................................................................................"; }
  write_rdms_binary("r.bin", n, a.data(), l1, g.data(), l2); for (size_t k = 0; k < a.size(); ++k) vx_assert_same(a[k], a0[k], "writing leaves the 1-RDM unchanged"); for (size_t k = 0; k < g.size(); ++k) vx_assert_same(g[k], g0[k], "writing leaves the 2-RDM unchanged");
  read_rdms_binary("r.bin", n, b.data(), m1, h.data(), m2);
  for (size_t q = 0; q < n; ++q) for (size_t p = 0; p < m1; ++p) vx_assert_same(b[p + q * m1], p < n ? a[p + q * l1] : b0[p + q * m1], "1-RDM survives the file");
  for (size_t s = 0; s < n; ++s) for (size_t r = 0; r < m2; ++r) for (size_t q = 0; q < m2; ++q) for (size_t p = 0; p < m2; ++p) { size_t k = p + m2 * (q + m2 * (r + m2 * s)); vx_assert_same(h[k], p < n && q < n && r < n ? g[p + l2 * (q + l2 * (r + l2 * s))] : h0[k], "2-RDM survives the file"); }
  if (n) { std::ifstream f("r.bin", std::ios::binary); int k = -1; f.read((char*)&k, sizeof(int)); vx_assert(k == (int)n, "file starts with the orbital count"); double x; for (size_t i = 0; i < n * n; ++i) { f.read((char*)&x, 8); vx_assert_same(x, a[i % n + i / n * l1], "1-RDM follows, column-major and packed"); } for (size_t i = 0; i < n * n * n * n; ++i) { f.read((char*)&x, 8); vx_assert_same(x, g[i % n + l2 * (i / n % n + l2 * (i / n / n % n + l2 * (i / n / n / n)))], "2-RDM follows, column-major and packed"); } vx_assert((bool)f && f.peek() == EOF, "nothing follows"); } VX_END(); }
void rb_bad() { vd a(9, 0.5), g(81, 0.25); size_t n = vx_pick("n", 0, 2), m = vx_pick("m", 0, 3); write_rdms_binary("r.bin", n, a.data(), 3, g.data(), 3); vx_assert(throws([&] { read_rdms_binary("r.bin", m, a.data(), 3, g.data(), 3); }) == (n != m), "a file for another orbital count is rejected"); vx_assert(throws([&] { read_rdms_binary("none.bin", m, a.data(), 3, g.data(), 3); }), "a missing file is rejected"); VX_END(); }
void rb_cut() { size_t n = vx_pick("n", 1, 2); vd a(n * n, 0.5), g(n * n * n * n, 0.25); write_rdms_binary("r.bin", n, a.data(), n, g.data(), n); long full = 4 + 8 * (n * n + n * n * n * n), keep = vx_pick("keep", 0, 19); keep = n == 1 ? keep : keep * full / 20; std::vector<char> b(full); { std::ifstream f("r.bin", std::ios::binary); f.read(b.data(), full); } { std::ofstream o("c.bin", std::ios::binary); o.write(b.data(), keep); }
  vx_assert(throws([&] { read_rdms_binary("c.bin", n, a.data(), n, g.data(), n); }), "a file that ends early is rejected"); VX_END(); }
}
