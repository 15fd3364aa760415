// P46-P47: utilities, Lanczos and Green's-function resolvent of the cmz_ed (attic) library
#include "common.hpp"
#include <cmath>
#include <fstream>
#include <iostream>
#include <iomanip>
#include "cmz_ed/utils.h++"
using namespace cmz::ed;
using std::vector;
template <class F> static bool throws(F f) { try { f(); return false; } catch (...) { return true; } }
static void put(const char* f, const std::string& s) { std::ofstream o(f); o << s; }
typedef std::complex<double> cd;
extern "C" {
void atu_mat() { int n = vx_pick("n", 1, 3); vector<double> a(n * n, 0.); int m = vx_pick("mask", 0, (1 << (n * (n + 1) / 2)) - 1); bool low = vx_pick("lower", 0, 1); { std::ofstream o("m.dat"); o.precision(17); o << n << " " << n << " " << __builtin_popcount(m) << "\n"; int k = 0; for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j, ++k) if (m >> k & 1) { double x = vx_real("a"); a[i + n * j] = a[j + n * i] = x; o << (low ? i : j) << "  " << (low ? j : i) << " " << x << "\n"; } }
  vx_assert(ReadMatSize("m.dat") == (size_t)n, "size from the header"); vx_assert(ReadMatSize("none.dat") == 0, "missing file has size zero"); SpMatD A(n, n); vx_assert(ReadMat("m.dat", A), "read"); vx_assert(A.isCompressed(), "compressed"); int nz = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) vx_assert_same(A.coeff(i, j), a[i + n * j], "symmetric matrix from one triangle"); (void)nz; SpMatD B(n + 1, n + 1), C(n, n); vx_assert(!ReadMat("m.dat", B), "a matrix of another size is rejected"); vx_assert(!ReadMat("none.dat", C), "a missing file is reported"); VX_END(); }
void atu_vec() { int n = vx_pick("n", 1, 4); vector<double> a = vx_reals("a", n); { std::ofstream o("v.dat"); o.precision(17); o << n << "\n"; for (auto x : a) o << x << "\n"; } VecD v(1, 3.); VectorXcd c; vx_assert(ReadVec("v.dat", v) && ReadVec("v.dat", c), "read"); vx_assert(v.size() == (size_t)n && c.size() == n, "length"); for (int i = 0; i < n; ++i) { vx_assert_same(v[i], a[i], "value"); vx_assert_same(c(i).real(), a[i], "value"); vx_assert_same(c(i).imag(), 0., "real value"); } vx_assert(!ReadVec("none.dat", v) && !ReadVec("none.dat", c), "missing file"); VX_END(); }
void atu_input() { double x = vx_real("x"); bool dup = vx_pick("dup", 0, 1), blank = vx_pick("blank", 0, 1), nov = vx_pick("novalue", 0, 1), com = vx_pick("comment", 0, 1); { std::ofstream o("in.dat"); o.precision(17); o << "norbs  12\n"; if (com) o << "# norbs 3\n!norbs\n%x y\n"; o << "tol " << x << "\n"; if (blank) o << "\n"; o << "print T\nlist 3 1 2\nname  some text here\n"; if (nov) o << "empty\n"; if (dup) o << "tol 1\n"; if (blank) o << "   \n"; }
  Input_t in; bool t = throws([&] { ReadInput("in.dat", in); }); vx_assert(t == dup, "exactly duplicate keys are rejected"); if (t) { VX_END(); return; }
  vx_assert(in.size() == (size_t)5 + nov, "one entry per key"); vx_assert(in["norbs"] == "12" && in["print"] == "T" && in["list"] == "3 1 2" && in["name"] == "some text here", "values"); if (nov) vx_assert(in.count("empty") && in["empty"] == "", "a key without a value has none");
  vx_assert(getParam<int>(in, "norbs") == 12, "integer"); vx_assert_same(getParam<double>(in, "tol"), x, "real"); vx_assert(getParam<bool>(in, "print"), "flag"); VecInt L = getParam<VecInt>(in, "list"); vx_assert(L.size() == 3 && L[0] == 3 && L[1] == 1 && L[2] == 2, "integer list"); vx_assert(getParam<std::string>(in, "name") == "some text here", "string"); auto W = getParam<std::vector<std::string>>(in, "name"); vx_assert(W.size() == 3 && W[0] == "some" && W[2] == "here", "string list");
  vx_assert(throws([&] { ReadInput("none.dat", in); }), "missing file"); VX_END(); }
void atu_param() { Input_t in; std::string k = "k"; double x = vx_real("x"), y = vx_real("y"); std::ostringstream o; o.precision(17); o << x << " " << y; addParam(in, k, o.str()); vx_assert(throws([&] { addParam(in, k, "3"); }), "existing keys are not added again"); VecD v = getParam<VecD>(in, k); vx_assert(v.size() == 2, "list"); vx_assert_same(v[0], x, "first"); vx_assert_same(v[1], y, "second");
  setParam(in, k, "F"); vx_assert(in.size() == 1 && in[k] == "F" && !getParam<bool>(in, k), "changed value"); vx_assert(throws([&] { setParam(in, "other", "1"); }) && in.size() == 1, "unknown keys cannot be set"); setParam(in, k, "T F T"); auto b = getParam<std::vector<bool>>(in, k); vx_assert(b.size() == 3 && b[0] && !b[1] && b[2], "flag list"); vx_assert(throws([&] { getParam<bool>(in, k); }), "a list is not a flag"); setParam(in, k, "T X"); vx_assert(throws([&] { getParam<std::vector<bool>>(in, k); }), "bad flags are rejected");
  vx_assert(throws([&] { getParam<int>(in, "no"); }) && throws([&] { getParam<double>(in, "no"); }) && throws([&] { getParam<std::string>(in, "no"); }) && throws([&] { getParam<VecD>(in, "no"); }) && throws([&] { getParam<VecInt>(in, "no"); }) && throws([&] { getParam<bool>(in, "no"); }), "missing parameters are reported"); VX_END(); }
void atu_inner() { int n = vx_pick("n", 0, 3); auto a = vx_reals("a", n), b = vx_reals("b", n), c = vx_reals("c", n), d = vx_reals("d", n); double r = 0, re = 0, im = 0, pr = 0, pi = 0; for (int i = 0; i < n; ++i) { r += a[i] * b[i]; re += a[i] * c[i] + b[i] * d[i]; im += a[i] * d[i] - b[i] * c[i]; pr += a[i] * c[i]; pi -= b[i] * c[i]; }
  vx_assert_eq(MyInnProd(a, b), r, "real inner product"); VecCompD x(n), y(n); for (int i = 0; i < n; ++i) { x[i] = cd(a[i], b[i]); y[i] = cd(c[i], d[i]); } cd z = MyInnProd(x, y); vx_assert_eq(z.real(), re, "complex inner product, first argument conjugated"); vx_assert_eq(z.imag(), im, "complex inner product, imaginary part"); z = MyInnProd(x, c); vx_assert_eq(z.real(), pr, "mixed inner product"); vx_assert_eq(z.imag(), pi, "mixed inner product, imaginary part");
  if (n) { VectorXd u(n), v(n); VectorXcd p(n), q(n); for (int i = 0; i < n; ++i) { u(i) = a[i]; v(i) = b[i]; p(i) = x[i]; q(i) = y[i]; } vx_assert_eq(MyInnProd(u, v), r, "Eigen vectors"); z = MyInnProd(p, q); vx_assert_eq(z.real(), re, "complex Eigen vectors"); vx_assert_eq(z.imag(), im, "complex Eigen vectors, imaginary part");
    double s = vx_real("s"), t = vx_real("t"); VecD w(n, 9.); MyAdd(s, a, t, b, w); VectorXd w2(n); MyAdd(s, u, t, v, w2); for (int i = 0; i < n; ++i) { vx_assert_eq(w[i], s * a[i] + t * b[i], "linear combination"); vx_assert_eq(w2(i), s * a[i] + t * b[i], "linear combination of Eigen vectors"); } VecD bad(n + 1); vx_assert(throws([&] { MyAdd(s, a, t, b, bad); }), "sizes must match");
    VectorXcd w3(n); MyAdd(cd(s, t), p, cd(t, s), q, w3); for (int i = 0; i < n; ++i) { cd e = cd(s, t) * x[i] + cd(t, s) * y[i]; vx_assert_eq(w3(i).real(), e.real(), "complex combination"); vx_assert_eq(w3(i).imag(), e.imag(), "complex combination, imaginary part"); } } VX_END(); }
void atu_matel() { int n = vx_pick("n", 1, 2); eigMatD O(n, n); SpMatD S(n, n); VecD a = vx_reals("a", n), b = vx_reals("b", n); VectorXd u(n), v(n); VectorXcd p(n), q(n); for (int i = 0; i < n; ++i) { u(i) = a[i]; v(i) = b[i]; p(i) = cd(vx_real("p"), vx_real("p")); q(i) = cd(vx_real("q"), vx_real("q")); for (int j = 0; j < n; ++j) { O(i, j) = vx_real("O"); S.insert(i, j) = O(i, j); } } double r = 0; cd z = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { r += a[i] * O(i, j) * b[j]; z += std::conj(p(i)) * O(i, j) * q(j); }
  vx_assert_eq(GetMatrixEl(u, O, v), r, "matrix element"); vx_assert_eq(GetMatrixEl(a, O, b), r, "matrix element of plain vectors"); cd w = GetMatrixEl(p, S, q); vx_assert_eq(w.real(), z.real(), "complex matrix element"); vx_assert_eq(w.imag(), z.imag(), "complex matrix element, imaginary part"); VX_END(); }
}
