// P49: Green's functions of determinant wavefunctions (attic/inc/dbwy/gf.h++, attic/src/dbwy/gf.c++)
#include "ham_ref.hpp"
#include <algorithm>
#include <cmath>
#include <complex>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <map>
#include <mpi.h>
#include "cmz_ed/ed.h++"
#include "cmz_ed/bandlan.h++"
#include "dbwy/gf.h++"
using namespace cmz::ed; using std::vector; typedef std::complex<double> cd; typedef vector<double> vd; typedef vector<uint64_t> vu;
template <size_t N> static std::bitset<N> bs(uint64_t a, uint64_t b) { return std::bitset<N>(a) | std::bitset<N>(b) << N / 2; }
static int pc(uint64_t x) { return __builtin_popcountll(x); }
// a determinant of two halves of n orbitals; bit p: spin up, bit n+p: spin down
static uint64_t ov(uint64_t d, int n) { return d; }
template <size_t N> static std::bitset<N> wide(uint64_t d, int n) { return bs<N>(d & ((1u << n) - 1), d >> n); }
static int sgn(uint64_t d, int q) { return pc(d & ((1ull << q) - 1)) & 1 ? -1 : 1; }
template <size_t N> static void t_sign() { uint64_t a = vx_bits<N / 2>("a").to_ullong(), b = vx_bits<N / 2>("b").to_ullong(); int p = vx_range("orb", 0, N / 2 - 1); auto s = bs<N>(a, b); uint64_t low = (1ull << p) - 1; vx_assert(GetInsertionUpSign<N>(s, p) == (pc(a & low) & 1 ? -1. : 1.), "sign of a spin-up operator"); vx_assert(GetInsertionDoSign<N>(s, p) == ((pc(a) + pc(b & low)) & 1 ? -1. : 1.), "sign of a spin-down operator passes all spin-up electrons"); VX_END(); }
// all determinants of a sector
static vu sect(int n, int na, int nb) { vu v; for (uint64_t b = 0; b < 1u << n; ++b) for (uint64_t a = 0; a < 1u << n; ++a) if (pc(a) == na && pc(b) == nb) v.push_back(a | b << n); return v; }
static Input_t gin_(int n, int trunc, int layers) { Input_t in; addParam(in, "norbs", std::to_string(n)); addParam(in, "trunc_size", std::to_string(trunc)); addParam(in, "tot_SD", std::to_string(layers)); addParam(in, "GFseedThresh", "0.5"); addParam(in, "asThresh", "0.25"); return in; }
// distinct determinants of the wavefunction, chosen by the solver
static vu pick(int n, const vu& S, int m) { vu v; size_t lo = 0; for (int i = 0; i < m; ++i) { size_t k = vx_pick("det", lo, S.size() - (m - i)); v.push_back(S[k]); lo = k + 1; } if (m > 1 && vx_pick("rev", 0, 1)) std::reverse(v.begin(), v.end()); return v; }
// reference basis: determinants reached by the operator, then `layers` rounds of single excitations within the active orbitals
static vu ref_basis(int n, const vu& W, const vd& c, int q, bool part, int layers, double seed, const vector<int>& act) { vu B; vector<bool> grow; for (size_t i = 0; i < W.size(); ++i) if ((W[i] >> q & 1) != (part ? 1u : 0u)) { B.push_back(W[i] ^ 1ull << q); grow.push_back(!(std::abs(c[i]) < seed)); }
  size_t lo = 0, hi = B.size(); for (int l = 0; l < layers; ++l) { for (size_t i = lo; i < hi; ++i) { if (!l && !grow[i]) continue; for (int s = 0; s < 2; ++s) for (int o : act) for (int v : act) { uint64_t O = 1ull << (o + s * n), V = 1ull << (v + s * n); if (!(B[i] & O) || (B[i] & V)) continue; uint64_t x = B[i] ^ O ^ V; if (std::find(B.begin(), B.end(), x) == B.end()) B.push_back(x); } } lo = hi; hi = B.size(); } return B; }
template <size_t N> static void t_basis(int n, int na, int nb, int m, int layers) {
  int orb = vx_pick("orb", 0, n - 1); bool up = vx_pick("up", 0, 1), part = vx_pick("part", 0, 1); vu W = pick(n, sect(n, na, nb), m); vd c = vx_reals("c", m); vd occ(n); vector<int> act; for (int i = 0; i < n; ++i) { bool a = vx_pick("active", 0, 1); occ[i] = a ? 0.25 + 0.5 * (i & 1) : i & 1 ? 1. : 0.125; if (a) act.push_back(i); }
  VectorXd w(m); vector<std::bitset<N>> D, out(3); for (int i = 0; i < m; ++i) { w(i) = c[i]; D.push_back(wide<N>(W[i], n)); } get_GF_basis_AS_1El<N>(orb, up, part, w, D, out, occ, gin_(n, 1000, layers)); vu R = ref_basis(n, W, c, orb + (up ? 0 : n), part, layers, 0.5, act);
  vx_assert(out.size() == R.size(), "number of determinants of the basis"); for (size_t i = 0; i < out.size(); ++i) for (size_t j = 0; j < i; ++j) vx_assert(out[i] != out[j], "no determinant twice"); for (uint64_t x : R) vx_assert(std::find(out.begin(), out.end(), wide<N>(x, n)) != out.end(), "the basis holds every determinant reached by the operator and the active single excitations"); VX_END(); }
// a limited basis: still connected determinants without repetition, all reached by the operator first
template <size_t N> static void t_trunc(int n, int na, int nb, int m) {
  int orb = vx_pick("orb", 0, n - 1), tr = vx_pick("trunc", 1, 4); bool part = vx_pick("part", 0, 1); vu W = pick(n, sect(n, na, nb), m); vd c(m, 1.), occ(n, 0.5); vector<int> act; for (int i = 0; i < n; ++i) act.push_back(i); VectorXd w(m); vector<std::bitset<N>> D, out; for (int i = 0; i < m; ++i) { w(i) = 1; D.push_back(wide<N>(W[i], n)); }
  get_GF_basis_AS_1El<N>(orb, true, part, w, D, out, occ, gin_(n, tr, 2)); vu R0 = ref_basis(n, W, c, orb, part, 0, 0.5, act), R = ref_basis(n, W, c, orb, part, 2, 0.5, act); for (size_t i = 0; i < out.size(); ++i) for (size_t j = 0; j < i; ++j) vx_assert(out[i] != out[j], "no determinant twice"); for (uint64_t x : R0) vx_assert(std::find(out.begin(), out.end(), wide<N>(x, n)) != out.end(), "everything reached by the operator is kept"); for (auto& x : out) { bool in = false; for (uint64_t y : R) in |= x == wide<N>(y, n); vx_assert(in, "only determinants of the requested layers"); } vx_assert(out.size() == R.size() || out.size() > (size_t)std::min<int>(tr, R.size()), "the basis is cut only beyond the requested size"); VX_END(); }
// start vectors: the operator applied to the wavefunction, in the given basis; zero vectors are reported and left out
template <size_t N> static void t_wfn(int n, int na, int nb, int m, bool part, int no = 2) {
  vu W = pick(n, sect(n, na, nb), m); vd c(m); for (int i = 0; i < m; ++i) { bool z = vx_pick("zero", 0, 1); c[i] = z ? 0. : vx_real("c"); if (!z) vx_assume(c[i] > 0.001 || c[i] < -0.001); } vector<int> orbs; vector<bool> up; for (int k = 0; k < no; ++k) { int q = vx_pick("orb", 0, no > 2 && !part ? 2 * n - 3 : 2 * n - 1); orbs.push_back(q / 2); up.push_back(q & 1); }
  vu B; for (int s = 0; s < 2; ++s) { vu x = s ? sect(n, na, nb + (part ? 1 : -1)) : sect(n, na + (part ? 1 : -1), nb); B.insert(B.end(), x.begin(), x.end()); } size_t drop = vx_pick("drop", 0, 2); if (drop) B.erase(B.begin() + (drop - 1) * (B.size() - 1)); std::reverse(B.begin(), B.end());
  VectorXd w(m); vector<std::bitset<N>> D, G; for (int i = 0; i < m; ++i) { w(i) = c[i]; D.push_back(wide<N>(W[i], n)); } for (uint64_t x : B) G.push_back(wide<N>(x, n)); VecInt del(2, 7);  auto V = BuildWfn4Lanczos<N>(w, orbs, up, D, G, part, del); size_t k = 0, nd = 0;
  for (int o = 0; o < no; ++o) { int q = orbs[o] + (up[o] ? 0 : n); vd r(B.size(), 0.); bool any = false; for (size_t j = 0; j < B.size(); ++j) for (int i = 0; i < m; ++i) if ((W[i] ^ 1ull << q) == B[j] && (W[i] >> q & 1) == (part ? 0u : 1u)) { r[j] = sgn(W[i], q) * c[i]; any |= !(c[i] == 0); }
    if (!any) { vx_assert(nd < del.size() && del[nd] == o, "vanishing start vectors are reported"); ++nd; continue; } vx_assert(k < V.size() && V[k].size() == B.size(), "one start vector per remaining orbital"); for (size_t j = 0; j < B.size(); ++j) vx_assert_eq(V[k][j], r[j], "start vector is the operator applied to the wavefunction"); ++k; }
  vx_assert(k == V.size() && nd == del.size(), "every orbital gives a start vector or is reported"); VX_END(); }
static cd det3(int n, const vector<cd>& A) { if (n == 0) return 1.; if (n == 1) return A[0]; cd s = 0; for (int c = 0; c < n; ++c) { vector<cd> M; for (int j = 1; j < n; ++j) for (int k = 0; k < n; ++k) if (k != c) M.push_back(A[j * n + k]); cd t = A[c] * det3(n - 1, M); s = c & 1 ? s - t : s + t; } return s; }
static void ceq(cd a, cd b, const char* l) { vx_assert_eq(a.real(), b.real(), l); vx_assert_eq(a.imag(), b.imag(), l); }
// g (times det) against u^T adj(A) v
static void check_res(cd g, int n, const vector<cd>& A, const vd& u, const vd& v, const char* l) { cd num = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { vector<cd> M; for (int r = 0; r < n; ++r) for (int s = 0; s < n; ++s) if (r != j && s != i) M.push_back(A[r * n + s]); cd m = det3(n - 1, M) * (u[i] * v[j]); num = (i + j) & 1 ? num - m : num + m; } ceq(g * det3(n, A), num, l); }
static vd words(const char* f) { std::ifstream s(f); vd v; double x; while (s >> x) v.push_back(x); return v; }
// the Lanczos recursion is a stand-in here: it returns an arbitrary tridiagonal matrix that ends after `LM` vectors (P47 covers the recursion itself)
struct DOp { int n; }; static int LM; static vd LA_, LB_; static VectorXd LV; static int64_t LN;
namespace cmz { namespace ed { template <> void MyLanczos<DOp>(const VectorXd& v, const DOp&, int64_t its, VecD& a, VecD& b, double tol) { LV = v; LN = its; vx_assert(tol > 0 && tol < 1e-4, "tolerance"); a.assign(its, 0.); b.assign(its + 1, 0.); for (int i = 0; i < LM; ++i) { a[i] = LA_[i]; b[i] = LB_[i]; } } } }
static void t_diag(int m) { vx_generic(1); int its = m + vx_pick("more", 0, 2), k = m == 1 ? vx_pick("symbol", 0, 3) : 99, wh = vx_pick("frequency", 0, 1); LM = m; LA_.clear(); LB_.clear(); for (int i = 0; i < m; ++i) { LA_.push_back(k == 2 * i ? vx_real("a") : i * 1.5 - 0.25); LB_.push_back(k == 2 * i + 1 ? vx_real("b") : 0.5 + i); vx_assume(LB_[i] > 0.001); } double E0 = k == 2 * m ? vx_real("E0") : 2.; VectorXd v(2); v(0) = 0.5; v(1) = 3; bool part = vx_pick("part", 0, 1); VecCompD ws, g(1, cd(7, 7)); if (wh) ws.push_back(cd(vx_real("x"), 0)); ws.push_back(cd(vx_real("w"), 0));
  bool save = its == m && k == 0 && vx_pick("save", 0, 1); GF_Diag(v, DOp{2}, ws, g, E0, part, its, save); vx_assert(LN == its && LV.rows() == 2 && LV(0) == 0.5 && LV(1) == 3, "start vector and number of iterations"); vx_assert(g.size() == ws.size(), "one value per frequency"); for (size_t k = 0; k < ws.size(); ++k) { vector<cd> A(m * m); for (int i = 0; i < m; ++i) { A[i * m + i] = ws[k] + cd((part ? -1. : 1.) * (LA_[i] - E0), 0); if (i) A[i * m + i - 1] = A[(i - 1) * m + i] = LB_[i]; } vd u(m, 0.); u[0] = LB_[0]; check_res(g[k], m, A, u, u, "diagonal element is the resolvent of the projected Hamiltonian"); }
  if (save) for (int f = 0; f < 2; ++f) { vd x = words(f ? "betas.dat" : "alphas.dat"); vx_assert((int)x.size() == m, "coefficients are saved"); for (int i = 0; i < m; ++i) vx_assert(std::abs(x[i] - (f ? LB_ : LA_)[i]) <= 1e-4 * (1 + std::abs(x[i])), "saved coefficients"); } VX_END(); }
static void t_write() { int nf = vx_pick("freqs", 1, 2), no = vx_pick("orbs", 1, 3); bool part = vx_pick("part", 0, 1); VecInt orbs, del; for (int i = 0; i < no; ++i) orbs.push_back(3 + 2 * i); if (no > 1) for (int i = 0; i < no; ++i) if (vx_pick("drop", 0, 1)) del.push_back(i); int k = no - del.size(); VecCompD ws; vector<vector<vector<cd>>> G(nf, vector<vector<cd>>(k, vector<cd>(k))); vd want; for (int f = 0; f < nf; ++f) { ws.push_back(cd(0.5 * f - 1, 0.125)); want.push_back(ws[f].real()); want.push_back(0.125); for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) { double a = vx_real("re"), b = vx_real("im"); G[f][i][j] = cd(a, b); want.push_back(a); want.push_back(b); } }
  write_GF(G, ws, orbs, del, part); std::string P = part ? "ADD" : "SUB"; vd got = words(no > 1 ? ("LanGFMatrix_" + P + ".dat").c_str() : ("LanGF_" + P + "_4_4.dat").c_str()); vx_assert(got.size() == want.size(), "every frequency and element is written"); for (size_t i = 0; i < got.size(); ++i) vx_assert_eq(got[i], want[i], "values as computed, frequency by frequency"); if (no > 1) { vd o = words(("GFMatrix_OrbitalIndices_" + P + ".dat").c_str()); size_t j = 0; for (int i = 0; i < no; ++i) if (std::find(del.begin(), del.end(), i) == del.end()) { vx_assert(j < o.size() && o[j] == orbs[i], "orbitals of the written elements"); ++j; } vx_assert(j == o.size(), "number of orbitals written"); } VX_END(); }
extern "C" {
void gf_sign8() { t_sign<8>(); }
void gf_sign64() { t_sign<64>(); }
void gf_basis2() { t_basis<8>(2, 1, 1, 2, 1); }
void gf_basis3() { t_basis<64>(3, 1, 1, 2, 1); }
void gf_basis3b() { t_basis<64>(3, 2, 1, 1, 2); }
void gf_wfn4() { t_wfn<64>(2, 1, 1, 1, vx_pick("part", 0, 1), 4); }
void gf_trunc() { t_trunc<64>(3, 1, 1, 2); }
void gf_wfn2() { t_wfn<8>(2, 1, 1, 2, vx_pick("part", 0, 1)); }
void gf_wfn3() { t_wfn<64>(3, 2, 1, 1, vx_pick("part", 0, 1)); }
void gf_diag1() { t_diag(1); }
void gf_diag2() { t_diag(2); }
void gf_write() { t_write(); }
}
