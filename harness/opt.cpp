// Optimisation layer: DIIS, BFGS, line searches, the MCSCF macro-iteration driver and the CAS-CI density functor.
#include <vector>
#include <optional>
#include <functional>
#include <limits>
#include "ham_ref.hpp"
#include <macis/util/diis.hpp>
#include <macis/bitset_operations.hpp>
#include <macis/hamiltonian_generator/double_loop.hpp>
#include <macis/util/cas.hpp>
#include <macis/util/mcscf_impl.hpp>
#include <bfgs/bfgs.hpp>
using namespace macis;
typedef std::vector<double> vd;
// ---------------------------------------------------------------- DIIS: the linear solve is prescribed
static vd dA, dB, dC; static int dn; static std::vector<vd> hA, hC; static void ge_hook(int64_t n, double* A, int64_t lda, double* B) { dn = n; dA.assign(n * n, 0); dB.assign(n, 0); for (int64_t j = 0; j < n; ++j) { dB[j] = B[j]; for (int64_t i = 0; i < n; ++i) dA[i + j * n] = A[i + j * lda]; } dC = vx_reals("c", n); hA.push_back(dA); hC.push_back(dC); for (int64_t j = 0; j < n; ++j) B[j] = dC[j]; }
static void diis(size_t nx, size_t ne, size_t keep, size_t count) { lapack::gelss_hook = ge_hook; DIIS<vd> D(keep); std::vector<vd> X, E;
  for (size_t k = 0; k < count; ++k) { X.push_back(vx_reals("x", nx)); E.push_back(vx_reals("e", ne)); vd x = X.back(), e = E.back(); D.add_vector(x, e); for (auto& z : x) z = -1; for (auto& z : e) z = -1; size_t m = std::min(k + 1, keep), f = k + 1 - m;
    vd r = D.extrapolate(); vx_assert(dn == (int)m + 1, "one equation per kept vector plus the constraint"); vx_assert(r.size() == nx, "extrapolated vector size"); size_t n = m + 1;
    for (size_t i = 0; i < m; ++i) { for (size_t j = 0; j < m; ++j) { double g = 0; for (size_t q = 0; q < ne; ++q) g += E[f + i][q] * E[f + j][q]; vx_assert_eq(dA[i + j * n], g, "residual overlap matrix of the most recent vectors"); } vx_assert_eq(dA[i + m * n], 1, "weights sum to one"); vx_assert_eq(dA[m + i * n], 1, "weights sum to one"); vx_assert_eq(dB[i], 0, "stationary residual"); }
    vx_assert_eq(dA[m + m * n], 0, "constraint corner"); vx_assert_eq(dB[m], 1, "weights sum to one");
    for (size_t q = 0; q < nx; ++q) { double s = 0; for (size_t i = 0; i < m; ++i) s += dC[i] * X[f + i][q]; vx_assert_eq(r[q], s, "extrapolation is the weighted sum of the kept vectors"); } }
  lapack::gelss_hook = nullptr; VX_END(); }
// ---------------------------------------------------------------- BFGS
struct Fun { using argument_type = vd; using arg_type = vd; using return_type = double; static double dot(const vd& a, const vd& b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; } static void axpy(double a, const vd& x, vd& y) { for (size_t i = 0; i < x.size(); ++i) y[i] += a * x[i]; } static void scal(double a, vd& x) { for (auto& v : x) v *= a; } static double norm(const vd& x) { return std::sqrt(dot(x, x)); } static vd subtract(const vd& a, const vd& b) { vd r(a); for (size_t i = 0; i < r.size(); ++i) r[i] -= b[i]; return r; }
  // an objective known only through its values: value and gradient are fresh at every new point
  std::vector<vd> pts; vd vals; std::vector<vd> grads; int conv_at = 1 << 30, asked = 0; size_t cap = 1 << 30; bool few = false; std::vector<vd> lastx, lastg; std::vector<size_t> ids; size_t at(const vd& x) { for (size_t q = 0; q < pts.size() && q < 2; ++q) { size_t k = q ? 0 : pts.size() - 1; /* points are revisited only as the latest or the first */ bool e = true; for (size_t i = 0; i < x.size(); ++i) if (!(pts[k][i] == x[i])) e = false; if (e) return k; } vx_assume(pts.size() < cap); pts.push_back(x); if (few && pts.size() < cap) { static const double sl[] = {-1, -0.875, 0, 0.5, 2}, df[] = {-1, -0.00006103515625, 0, 0.25, 2}; vals.push_back(pts.size() == 1 ? vx_real("f") : vals[0] + df[vx_pick("df", 0, 4)]); grads.push_back(vd{sl[vx_pick("slope", 0, 4)]}); } else { vals.push_back(vx_real("f")); grads.push_back(vx_reals("g", x.size())); } return pts.size() - 1; }
  double eval(const vd& x) { return vals[at(x)]; } vd grad(const vd& x) { return grads[at(x)]; } bool converged(const vd& x, const vd& g) { lastx.push_back(x); lastg.push_back(g); ids.push_back(at(x)); return asked++ >= conv_at; } };
template <class H> static void dense_update(std::vector<vd>& M, const vd& s, const vd& y, double ys) { size_t n = s.size(); std::vector<vd> L(n, vd(n)), R(n, vd(n)); // (1 - s y^T/ys) M (1 - y s^T/ys) + s s^T/ys
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { double t = M[i][j]; for (size_t k = 0; k < n; ++k) t -= s[i] * y[k] * M[k][j] / ys; L[i][j] = t; } for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { double t = L[i][j]; for (size_t k = 0; k < n; ++k) t -= L[i][k] * y[k] * s[j] / ys; R[i][j] = t + s[i] * s[j] / ys; } M = R; }
// curvature pairs whose y.s is a fixed constant c (the general case up to scaling of y)
static void pair_of(size_t n, double c, vd& s, vd& y) { s = vx_reals("s", n); y = vx_reals("y", n); s[0] = 1; double r = 0; for (size_t i = 1; i < n; ++i) r += s[i] * y[i]; y[0] = c - r; }
static void bfgs_two(size_t n, int upd, int kind) { std::vector<vd> M(n, vd(n)); vd dg = {0.5, 2, 4}; std::unique_ptr<bfgs::BFGSHessian<Fun>> B; static std::vector<double> sc; sc = {3, 0.25, 2};
  if (kind == 0) B = bfgs::make_identity_hessian<Fun>(); else if (kind == 1) B = std::make_unique<bfgs::DiagInitializedBFGSHessian<Fun>>(n, dg.data()); else if (kind == 2) B = std::make_unique<bfgs::RuntimeInitializedBFGSHessian<Fun>>([](vd& x) { for (size_t i = 0; i < x.size(); ++i) x[i] *= sc[i]; });
  if (kind == 3) B = bfgs::make_updated_scaled_hessian<Fun>(); else if (kind == 4) B = bfgs::make_static_scaled_hessian<Fun>();
  for (size_t i = 0; i < n; ++i) M[i][i] = kind == 0 ? 1 : kind == 1 ? 1 / dg[i] : sc[i]; vd s, y; double gam = 1; std::vector<vd> S, Y; static const double cs[] = {2, 0.5, 4};
  for (int k = 0; k < upd; ++k) { pair_of(n, cs[k], s, y); B->update(s, y); if (kind >= 3 && (kind == 3 || k == 0)) { double yn = Fun::norm(y), g = 1. / (yn * yn * (1. / cs[k])); gam = g; } S.push_back(s); Y.push_back(y); }
  if (kind >= 3 && upd) for (size_t i = 0; i < n; ++i) M[i][i] = gam;
  for (int k = 0; k < upd; ++k) { s = S[k]; y = Y[k]; dense_update<int>(M, s, y, cs[k]); }
  vd x = vx_reals("x", n), x0 = x, r = B->apply(x); for (size_t i = 0; i < n; ++i) { double t = 0; for (size_t j = 0; j < n; ++j) t += M[i][j] * x[j]; vx_assert_eq(r[i], t, "two-loop recursion applies the BFGS inverse Hessian"); vx_assert_eq(x[i], x0[i], "argument unchanged"); }
  if (upd) { vd q = B->apply(y); for (size_t i = 0; i < n; ++i) vx_assert_eq(q[i], s[i], "secant equation"); } VX_END(); }
static void line(size_t n, int which, size_t cap = 1 << 30) { Fun f; f.cap = cap; f.few = which; vd x0 = vx_reals("x0", n), p = vx_reals("p", n), x, g(n); if (which) { for (size_t i = 0; i < n; ++i) { x0[i] = 0.5 * i; p[i] = i % 2 ? -2 : 1; } } vx_assume(p[0] != 0); double step = 1, fx = 0; bool ok = true; double f0 = f.eval(x0); vd g0 = f.grad(x0); double d0 = Fun::dot(p, g0); if (which) vx_assume(d0 != 0);
  try { if (which == 0) bfgs::backtracking_line_search(f, x0, p, step, x, fx, g); else { fx = f0; g = g0; bfgs::nocedal_wright_line_search(f, x0, p, step, x, fx, g); } } catch (std::exception&) { ok = false; }
  if (d0 > 0) vx_assert(!ok, "an ascent direction is rejected");
  if (ok) { vx_assert(fx <= f0, "an accepted step does not increase the objective"); vx_assert(step > 0, "accepted step is positive"); for (size_t i = 0; i < n; ++i) vx_assert_eq(x[i], x0[i] + step * p[i], "accepted point lies along the direction"); vx_assert_eq(fx, f.eval(x), "returned value is that of the accepted point"); vd ge = f.grad(x); for (size_t i = 0; i < n; ++i) vx_assert_eq(g[i], ge[i], "returned gradient is that of the accepted point");
    if (which == 0) { vx_assert(fx - f0 <= 0.5 * step * d0 + 1e-6, "sufficient decrease"); vx_assert(step >= 1e-6, "step not vanishing"); } else { vx_assert(fx - f0 <= 9.9e-5 * step * d0, "sufficient decrease"); vx_assert(std::abs(Fun::dot(ge, p)) <= 0.91 * -d0, "curvature condition"); } }
  VX_END(); }
struct Par { using argument_type = vd; using arg_type = vd; using return_type = double; static double dot(const vd& a, const vd& b) { return Fun::dot(a, b); } static void axpy(double a, const vd& x, vd& y) { Fun::axpy(a, x, y); } double m; int sg; int shift; double eval(const vd& x) { double t = (x[0] - shift) / 2; return sg * (t - m) * (t - m); } vd grad(const vd& x) { double t = (x[0] - shift) / 2; return {sg * (t - m)}; } };
static void disc() { Par f; f.m = vx_real("m"); f.sg = vx_pick("sg", 0, 1) ? 1 : -1; f.shift = 3; vd x0{3}, p{2}, x, g; double step = 1, fx = 0; bfgs::discrete_line_search(f, x0, p, step, x, fx, g); vx_assert(step > 0 && step <= 1, "step within the segment"); vx_assert_eq(x[0], 3 + 2 * step, "returned point lies along the direction"); vx_assert_eq(fx, f.eval(x), "returned value is that of the returned point"); vx_assert_eq(g[0], f.grad(x)[0], "returned gradient is that of the returned point");
  for (int k = 1; k <= 100; ++k) { double s = k / 100.; vd z{3 + 2 * s}; vx_assert(fx <= f.eval(z) + 1e-9 * (2 + std::abs(f.m)), "no grid point is lower"); } VX_END(); }
// driver on an arbitrary objective: every accepted step, the secant pairs handed to the Hessian model and the returned point
struct Rec : bfgs::BFGSHessian<Fun> { std::vector<vd> S, Y, G, D; void update(const vd& s, const vd& y) override { S.push_back(s); Y.push_back(y); } void apply_H0(vd& x) override { G.push_back(x); D.push_back(vx_reals("d", x.size())); x = D.back(); } };
static void drive(size_t n, int iters) { Fun f; f.cap = iters + 2; f.conv_at = vx_pick("conv", 0, iters); vd x0 = vx_reals("x0", n), x; bool ok = true; Rec B; try { x = bfgs::bfgs(f, x0, B, bfgs::BFGSSettings{(size_t)iters}); } catch (std::runtime_error&) { ok = false; }
  if (f.conv_at == iters) vx_assert(!ok, "no return without convergence within the allowed iterations");
  if (ok) vx_assert(f.asked == f.conv_at + 1, "returns at the first converged point");
  vx_assert(f.lastx.size() == (size_t)f.asked && f.lastg.size() == f.lastx.size(), "convergence is judged once per step");
  vd xo = x0, go = f.grads[0]; double fo = f.vals[0]; for (int k = 0; k < f.asked; ++k) { vd& xn = f.lastx[k]; vd& gn = f.lastg[k]; size_t id = f.ids[k]; vx_assert(f.vals[id] <= fo, "each accepted step does not increase the objective"); for (size_t i = 0; i < n; ++i) vx_assert_eq(gn[i], f.grads[id][i], "gradient of the current point");
    if (k < (int)B.S.size()) for (size_t i = 0; i < n; ++i) { vx_assert_eq(B.S[k][i], xn[i] - xo[i], "secant pair: step"); vx_assert_eq(B.Y[k][i], gn[i] - go[i], "secant pair: gradient change"); vx_assert_eq(B.G[k][i], gn[i], "the inverse Hessian is applied to the current gradient"); }
    // direction: minus the inverse Hessian times the gradient (the plain gradient initially), scaled by a power of one half
    bool on = false; for (int h = 0; h < 5; ++h) { double t = 1. / (1 << h); bool e = true; for (size_t i = 0; i < n; ++i) if (!(xn[i] == xo[i] - t * (k ? B.D[k - 1][i] : go[i]))) e = false; if (e) on = true; } vx_assert(on, "steps follow the quasi-Newton direction"); xo = xn; go = gn; fo = f.vals[id]; }
  if (ok) for (size_t i = 0; i < n; ++i) vx_assert_eq(x[i], f.lastx.back()[i], "the converged point is returned"); VX_END(); }
// ---------------------------------------------------------------- MCSCF macro-iterations: CI solver, gradient packing, preconditioner and matrix exponential are stand-ins with fresh symbolic results
static std::vector<vd> mcK, mcU; struct Step { vd F, OG, Fi, Fa, D, k; bool stepped = false; }; static std::vector<Step> mcS; static size_t mni, mna, mnv; static vd grab(const double* p, size_t m, size_t n, size_t ld) { vd r(m * n); for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) r[i + j * m] = p[i + j * ld]; return r; }
namespace macis { void compute_orbital_rotation(NumOrbital norb, double alpha, const double* K, size_t LDK, double* U, size_t LDU) { size_t n = norb.get(), k = mcK.size(); vx_assume(k < mcU.size()); vd q(n * n); for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) { q[i + j * n] = alpha * K[i + j * LDK]; U[i + j * LDU] = mcU[k][i + j * n]; } mcK.push_back(q); }
void fock_to_linear_orb_grad(NumInactive i, NumActive a, NumVirtual v, const double* F, size_t LDF, double* gvi, double* gva, double* gai) { vx_assert(i.get() == mni && a.get() == mna && v.get() == mnv, "orbital spaces"); size_t n = mni + mna + mnv, sz = mnv * (mni + mna) + mna * mni; Step s; s.F = grab(F, n, n, LDF); s.OG = vx_reals("g", sz); size_t c = 0; for (size_t q = 0; q < mnv * mni; ++q) gvi[q] = s.OG[c++]; for (size_t q = 0; q < mnv * mna; ++q) gva[q] = s.OG[c++]; for (size_t q = 0; q < mna * mni; ++q) gai[q] = s.OG[c++]; mcS.push_back(s); }
void precond_cg_orbital_step(NumOrbital no, NumInactive i, NumActive a, NumVirtual v, const double* Fi, size_t LDFi, const double* Fa, size_t LDFa, const double* F, size_t LDF, const double* D, size_t LDD, const double* OG, double* k) { vx_assert(i.get() == mni && a.get() == mna && v.get() == mnv && no.get() == mni + mna + mnv, "orbital spaces"); size_t n = no.get(); vx_assert(!mcS.empty() && !mcS.back().stepped, "one step per gradient"); Step& s = mcS.back(); s.stepped = true; s.Fi = grab(Fi, n, n, LDFi); s.Fa = grab(Fa, n, n, LDFa); s.D = grab(D, mna, mna, LDD); s.k = vx_reals("k", s.OG.size()); vd f = grab(F, n, n, LDF); for (size_t q = 0; q < f.size(); ++q) vx_assert_eq(f[q], s.F[q], "step uses the Fock matrix of the gradient"); for (size_t q = 0; q < s.OG.size(); ++q) { vx_assert_eq(OG[q], s.OG[q], "step uses the current gradient"); k[q] = s.k[q]; } }
void linear_orb_rot_to_matrix(NumInactive i, NumActive a, NumVirtual v, const double* kvi, const double* kva, const double* kai, double* K, size_t LDK) { size_t ni = i.get(), na = a.get(), nv = v.get(), no = ni + na; auto set = [&](size_t p, size_t q, double x) { K[p + q * LDK] = x; K[q + p * LDK] = -x; }; for (size_t q = 0; q < ni; ++q) for (size_t p = 0; p < nv; ++p) set(no + p, q, kvi[p + q * nv]); for (size_t q = 0; q < na; ++q) for (size_t p = 0; p < nv; ++p) set(no + p, ni + q, kva[p + q * nv]); for (size_t q = 0; q < ni; ++q) for (size_t p = 0; p < na; ++p) set(ni + p, q, kai[p + q * na]); } }
struct Call { vd T, V, A1, A2; double E; }; static std::vector<Call> mcC; static size_t mcA, mcB, mcN; static bool mcKeep;
struct Rdm { static double rdms(MCSCFSettings, NumOrbital n, size_t a, size_t b, double* T, double* V, double* D, double* G, std::vector<double>& C, MPI_Comm) { size_t na = n.get(); vx_assert(na == mcN && a == mcA && b == mcB, "active space of the CI problem"); Call c; c.T.assign(T, T + na * na); c.V.assign(V, V + na * na * na * na);
  for (size_t i = 0; i < na * na; ++i) vx_assert_eq(D[i], 0, "densities start from zero"); for (size_t i = 0; i < na * na * na * na; ++i) vx_assert_eq(G[i], 0, "densities start from zero"); vx_assert(C.size() == mcC.size(), "the CI vector is carried from one CI problem to the next"); C.assign(mcC.size() + 1, 1.);
  c.A1 = vx_reals("D", na * na); c.A2 = vx_reals("G", na * na * na * na); if (na == 2) c.A1[2] = c.A1[1]; std::copy(c.A1.begin(), c.A1.end(), D); std::copy(c.A2.begin(), c.A2.end(), G); c.E = vx_real("E"); mcC.push_back(c); return c.E; } };
template <class> struct RdmOf : Rdm {};
#define CASRDMFunctor RdmOf
#include "casscf.cxx"
#undef CASRDMFunctor
static void mcscf(size_t ni, size_t na, size_t nv, size_t iters, int diis, bool given, bool entry = false) { size_t n = ni + na + nv, pad = given ? 0 : vx_pick("padT", 0, 1), ld = n + pad, n2 = n * n; Ints I(n); double Ec = vx_real("Ec"), big = diis ? 1e6 : vx_pick("cap", 0, 1) ? 1e6 : 0.5; vd T(ld * n, 9), V(n2 * n2), U(n2);
  for (size_t q = 0; q < n; ++q) for (size_t p = 0; p < n; ++p) T[p + q * ld] = I.t(p, q); V = I.V; vd T0 = T, V0 = V; mcK.clear(); mcC.clear(); mcS.clear(); mni = ni; mna = na; mnv = nv; mcU.clear(); for (size_t k = 0; k < iters; ++k) { vd u(n2); for (size_t j = 0; j < n2; ++j) u[j] = 0.25 * (double)((int)((3 * j + 5 * k + j * j) % 7) - 2); mcU.push_back(u); } mcA = 1; mcB = na == 2 ? 1 : 0; mcN = na;
  vd D(na * na), G(na * na * na * na, 3); if (given) { D = vx_reals("D0", na * na); if (na == 2) D[2] = D[1]; double s = 0; for (size_t i = 1; i < na; ++i) s += D[i * (na + 1)]; D[0] = double(mcA + mcB) - s; G = vx_reals("G0", na * na * na * na); } else for (auto& d : D) d = 0.25; vd D0 = D, G0 = G;
  MCSCFSettings st; st.max_macro_iter = iters; st.max_orbital_step = big; st.orb_grad_tol_mcscf = 1e-6; st.enable_diis = diis; st.diis_start_iter = 0; st.diis_nkeep = 2; lapack::gelss_hook = ge_hook; hA.clear(); hC.clear();
  double E = entry ? casscf_diis(st, NumElectron(mcA), NumElectron(mcB), NumOrbital(n), NumInactive(ni), NumActive(na), NumVirtual(nv), Ec, T.data(), ld, V.data(), n, D.data(), na, G.data(), na, MPI_COMM_WORLD) : mcscf_impl(Rdm{}, st, NumElectron(mcA), NumElectron(mcB), NumOrbital(n), NumInactive(ni), NumActive(na), NumVirtual(nv), Ec, T.data(), ld, V.data(), n, D.data(), na, G.data(), na, MPI_COMM_WORLD); lapack::gelss_hook = nullptr;
  for (size_t i = 0; i < T.size(); ++i) vx_assert_eq(T[i], T0[i], "T unchanged"); for (size_t i = 0; i < V.size(); ++i) vx_assert_eq(V[i], V0[i], "V unchanged");
  // replay: the k-th macro-iteration works with the integrals in the accumulated orbital basis
  size_t steps = mcK.size(), off = given ? 0 : 1; vx_assert(mcC.size() == steps + off, "one CI problem per orbital basis"); vd Ut(n2), Kold(n2), Fi(n2), Fa(n2), F(n2), Q(na * n), Ta(na * na), Va(na * na * na * na), tT = I.T, tV = I.V; for (size_t i = 0; i < n; ++i) Ut[i * (n + 1)] = 1; std::vector<vd> hist, errs; NumOrbital no(n); NumInactive nI(ni); NumActive nA(na); NumVirtual nV(nv); size_t sz = nv * (ni + na) + na * ni;
  for (size_t k = 0; k <= steps; ++k) {
    if (k) { vd W(n2); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) for (size_t l = 0; l < n; ++l) W[i + j * n] += Ut[i + l * n] * mcU[k - 1][l + j * n]; Ut = W; two_index_transform(n, n, I.T.data(), n, Ut.data(), n, tT.data(), n); four_index_transform(n, n, I.V.data(), n, Ut.data(), n, tV.data(), n); }
    auto t = [&](size_t p, size_t q) { return tT[p + q * n]; }; auto v = [&](size_t p, size_t q, size_t r, size_t s) { return tV[p + n * (q + n * (r + n * s))]; };
    double Ei = Ec; for (size_t i = 0; i < ni; ++i) { Ei += 2 * t(i, i); for (size_t j = 0; j < ni; ++j) Ei += 2 * v(i, i, j, j) - v(i, j, j, i); }
    for (size_t q = 0; q < n; ++q) for (size_t p = 0; p < n; ++p) { double r = t(p, q); for (size_t i = 0; i < ni; ++i) r += 2 * v(p, q, i, i) - v(p, i, i, q); Fi[p + q * n] = r; }
    for (size_t q = 0; q < na; ++q) for (size_t p = 0; p < na; ++p) { Ta[p + q * na] = Fi[ni + p + (ni + q) * n]; for (size_t r = 0; r < na; ++r) for (size_t s = 0; s < na; ++s) Va[p + na * (q + na * (r + na * s))] = v(ni + p, ni + q, ni + r, ni + s); }
    vd d, g; double Ek; if (k == 0 && given) { d = D0; g = G0; } else { Call& c = mcC[k - 1 + off]; d = c.A1; g = c.A2; for (size_t i = 0; i < Ta.size(); ++i) vx_assert_eq(c.T[i], Ta[i], "CI problem uses the one-body integrals of the current orbitals"); for (size_t i = 0; i < Va.size(); ++i) vx_assert_eq(c.V[i], Va[i], "CI problem uses the two-body integrals of the current orbitals"); Ek = c.E + Ei; }
    if (k == 0) { Ek = Ei; for (size_t i = 0; i < Ta.size(); ++i) Ek += Ta[i] * d[i]; for (size_t i = 0; i < Va.size(); ++i) Ek += Va[i] * g[i]; }
    if (k == steps) { vx_assert_eq(E, Ek, "returned energy is that of the last orbitals and densities"); for (size_t i = 0; i < d.size(); ++i) vx_assert_eq(D[i], d[i], "returned 1-RDM belongs to the returned energy"); for (size_t i = 0; i < g.size(); ++i) vx_assert_eq(G[i], g[i], "returned 2-RDM belongs to the returned energy"); }
    std::fill(F.begin(), F.end(), 0.); active_fock_matrix(no, nI, nA, tV.data(), n, d.data(), na, Fa.data(), n); aux_q_matrix(nA, no, nI, tV.data(), n, g.data(), na, Q.data(), na); generalized_fock_matrix(no, nI, nA, Fi.data(), n, Fa.data(), n, d.data(), na, Q.data(), na, F.data(), n);
    vx_assert(mcS.size() == steps + 1, "one gradient per orbital basis"); Step& S = mcS[k]; for (size_t i = 0; i < n2; ++i) vx_assert_eq(S.F[i], F[i], "gradient of the current orbitals and densities"); vd& og = S.OG; vd st1 = S.k, K(n2); double gg = 0; for (double z : og) gg += z * z; double tol2 = 1e-12 * (k ? (double)sz : 1.);
    if (k < steps) vx_assert(gg >= tol2 * 0.999, "no step from a stationary point"); else if (steps < iters) vx_assert(gg <= tol2 * 1.001, "stops early only at a stationary point"); vx_assert(S.stepped == (k < steps), "one step per macro-iteration"); if (k == steps) break;
    for (size_t i = 0; i < n2; ++i) { vx_assert_eq(S.Fi[i], Fi[i], "preconditioner uses the current inactive Fock"); vx_assert_eq(S.Fa[i], Fa[i], "preconditioner uses the current active Fock"); } for (size_t i = 0; i < na * na; ++i) vx_assert_eq(S.D[i], d[i], "preconditioner uses the current 1-RDM");
    double mx = 0; for (double z : st1) if (std::abs(z) > mx) mx = std::abs(z); if (mx > big) for (double& z : st1) z *= big / mx;
    linear_orb_rot_to_matrix(nI, nA, nV, st1.data(), K.data(), n); vd Kn(n2); for (size_t i = 0; i < n2; ++i) Kn[i] = Kold[i] + K[i]; if (diis) { hist.push_back(Kn); errs.push_back(og); if (k >= 2) { size_t m = std::min<size_t>(2, hist.size()), f = hist.size() - m; vx_assert(k - 2 < hC.size(), "extrapolated from the third step on"); vd &dC = hC[k - 2], &dA = hA[k - 2]; vx_assert(dC.size() == m + 1, "extrapolation over the kept steps"); std::fill(Kn.begin(), Kn.end(), 0.); for (size_t h = 0; h < m; ++h) for (size_t i = 0; i < n2; ++i) Kn[i] += dC[h] * hist[f + h][i]; for (size_t a = 0; a < m; ++a) for (size_t b = 0; b < m; ++b) { double o = 0; for (size_t i = 0; i < sz; ++i) o += errs[f + a][i] * errs[f + b][i]; vx_assert_eq(dA[a + b * (m + 1)], o, "extrapolation minimises the orbital gradients"); } } }
    for (size_t i = 0; i < n2; ++i) vx_assert_eq(mcK[k][i], Kn[i] - Kold[i], "orbitals are rotated by the capped preconditioned step"); Kold = Kn; }
  VX_END(); }
// ---------------------------------------------------------------- CAS-CI energies and densities: the eigensolver is a stand-in
static vd ciC; static double ciE; static int ciNp; static std::vector<size_t> ciCut; static size_t ciN, ciA, ciB; static Ints* ciI; static std::vector<vd> ciRD, ciRG, ciRC; static std::vector<std::bitset<64>> ciD; static vd ciH; static bool ciHave;
namespace macis { template <> double selected_ci_diag<64, int32_t>(wavefunction_iterator_t<64> b, wavefunction_iterator_t<64> e, HamiltonianGenerator<64>& g, double tol, size_t ms, double res, std::vector<double>& X, MPI_Comm comm, const bool) { if (ciNp) { int r; MPI_Comm_rank(comm, &r); size_t n = e - b, lo = std::min<size_t>(ciCut[r], n), hi = std::min<size_t>(ciCut[r + 1], n); if (!r) { ciD.assign(b, e); ciC.clear(); for (size_t i = 0; i < n; ++i) ciC.push_back((i % 3 == 1 ? -1 : 1) * (1 + 0.5 * i)); } X.clear(); for (size_t i = lo; i < hi; ++i) X.push_back((i % 3 == 1 ? -1 : 1) * (1 + 0.5 * i)); return ciE; }
  vx_assert(!ciHave, "one eigenproblem"); ciHave = true; vx_assert(tol == 0.125 && ms == 17 && res == 0.5, "solver settings"); ciD.assign(b, e); size_t n = ciD.size(); ciH.assign(n * n, 0); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) ciH[i + j * n] = g.matrix_element(ciD[i], ciD[j]); ciC.clear(); for (size_t i = 0; i < n; ++i) ciC.push_back((i % 3 == 1 ? -1 : 1) * (1 + 0.5 * i)); X = ciC; return ciE = vx_real("E"); } }
static void casci(size_t n, size_t ea, size_t eb) { Ints I(n); ciHave = false; vd T = I.T, V = I.V, D(n * n), G(n * n * n * n), C; MCSCFSettings st; st.ci_matel_tol = 0.125; st.ci_max_subspace = 17; st.ci_res_tol = 0.5;
  double E = CASRDMFunctor<DoubleLoopHamiltonianGenerator<64>>::rdms(st, NumOrbital(n), ea, eb, T.data(), V.data(), D.data(), G.data(), C, MPI_COMM_WORLD);
  vx_assert_eq(E, ciE, "energy of the eigensolver"); size_t m = ciD.size(), cnt = 0; for (uint64_t a = 0; a < 1u << n; ++a) for (uint64_t b = 0; b < 1u << n; ++b) { if (__builtin_popcountll(a) != (int)ea || __builtin_popcountll(b) != (int)eb) continue; ++cnt; size_t f = 0; for (auto& d : ciD) { Det u = undet<64>(d); f += u.a == a && u.b == b; } vx_assert(f == 1, "every determinant of the sector exactly once"); } vx_assert(cnt == m, "no determinant outside the sector"); vx_assert(C.size() == m, "CI vector length");
  double e = 0, r = 0; for (size_t i = 0; i < m; ++i) { vx_assert_eq(C[i], ciC[i], "CI vector"); for (size_t j = 0; j < m; ++j) { double h = ref_element(I, undet<64>(ciD[i]), undet<64>(ciD[j])); vx_assert_eq(ciH[i + j * m], h, "eigenproblem of the given integrals"); e += ciC[i] * h * ciC[j]; } }
  for (size_t i = 0; i < T.size(); ++i) { r += D[i] * I.T[i]; vx_assert_eq(T[i], I.T[i], "T unchanged"); } for (size_t i = 0; i < V.size(); ++i) { r += G[i] * I.V[i]; vx_assert_eq(V[i], I.V[i], "V unchanged"); } vx_assert_eq(r, e, "energy contracted from the densities is the expectation value of the CI vector");
  double tr = 0, nn = 0; for (size_t p = 0; p < n; ++p) tr += D[p * (n + 1)]; for (double c : ciC) nn += c * c; vx_assert_eq(tr, double(ea + eb) * nn, "trace counts the electrons"); VX_END(); }
// several ranks: every rank holds a contiguous block of rows of the CI vector (possibly none) and obtains the full densities
static void casci_rank(int r) { vd T = ciI->T, V = ciI->V, D(ciN * ciN), G(ciN * ciN * ciN * ciN), C; MCSCFSettings st; double E = CASRDMFunctor<DoubleLoopHamiltonianGenerator<64>>::rdms(st, NumOrbital(ciN), ciA, ciB, T.data(), V.data(), D.data(), G.data(), C, MPI_COMM_WORLD); vx_assert_eq(E, ciE, "energy of the eigensolver"); ciRD[r] = D; ciRG[r] = G; ciRC[r] = C; }
static void casci_p(int np, size_t n, size_t ea, size_t eb) { Ints I(n); ciI = &I; ciN = n; ciA = ea; ciB = eb; ciNp = np; ciE = vx_real("E"); size_t m = 1; for (size_t k : {ea, eb}) { size_t c = 1; for (size_t i = 0; i < k; ++i) c = c * (n - i) / (i + 1); m *= c; }
  ciCut.assign(1, 0); for (int r = 1; r < np; ++r) ciCut.push_back(vx_pick("cut", ciCut.back(), m)); ciCut.push_back(m); ciRD.assign(np, vd()); ciRG = ciRC = ciRD; vx_mpi_run(np, casci_rank); ciNp = 0;
  double e = 0; for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < m; ++j) e += ciC[i] * ref_element(I, undet<64>(ciD[i]), undet<64>(ciD[j])) * ciC[j];
  for (int r = 0; r < np; ++r) { double c = 0; for (size_t i = 0; i < I.T.size(); ++i) c += ciRD[r][i] * I.T[i]; for (size_t i = 0; i < I.V.size(); ++i) c += ciRG[r][i] * I.V[i]; vx_assert_eq(c, e, "energy contracted from the densities of every rank is the expectation value of the full CI vector"); vx_assert(ciRC[r].size() == ciCut[r + 1] - ciCut[r], "each rank keeps its rows of the CI vector"); for (size_t i = 0; i < ciRC[r].size(); ++i) vx_assert_eq(ciRC[r][i], ciC[ciCut[r] + i], "each rank keeps its rows of the CI vector"); }
  VX_END(); }
extern "C" {
void opt_diis() { diis(2, 2, vx_pick("keep", 1, 3), 4); }
void opt_diis1() { diis(1, 3, 2, 5); }
void opt_bfgs0() { bfgs_two(3, 0, vx_pick("kind", 0, 2)); }
void opt_bfgs1() { bfgs_two(3, 1, vx_pick("kind", 0, 2)); }
void opt_bfgs2() { bfgs_two(2, 2, vx_pick("kind", 0, 2)); }
void opt_bfgs3() { bfgs_two(2, 3, vx_pick("kind", 0, 1)); }
void opt_bfgs4() { bfgs_two(2, 1, 3); }
void opt_bfgs5() { bfgs_two(2, 2, 4); }
void opt_back1() { line(1, 0); }
void opt_back2() { line(2, 0); }
void opt_nw3() { line(1, 1, 3); }
void opt_nw4() { line(1, 1, VX_TIER > 1 ? 5 : 4); }
void opt_disc() { disc(); }
void opt_drive11() { drive(1, 1); }
void opt_drive12() { drive(1, 2); }
void opt_drive21() { drive(2, 1); }
void opt_drive22() { drive(2, 2); }
void opt_drive13() { drive(1, 3); }
void opt_mc110_0() { mcscf(1, 1, 0, 0, 0, vx_pick("given", 0, 1)); }
void opt_mccas() { mcscf(1, 1, 0, vx_pick("rounds", 0, 1), 0, vx_pick("given", 0, 1), true); }
void opt_mc110_1() { mcscf(1, 1, 0, 1, 0, vx_pick("given", 0, 1)); }
void opt_mc110_2() { mcscf(1, 1, 0, 2, 0, 0); }
void opt_mc011_1() { mcscf(0, 1, 1, 1, 0, vx_pick("given", 0, 1)); }
void opt_mc011_2() { mcscf(0, 1, 1, 2, 0, 1); }
void opt_mc111_1() { mcscf(1, 1, 1, 1, 0, 0); }
void opt_mc120_1() { mcscf(1, 2, 0, 1, 0, 0); }
void opt_mc110_d() { mcscf(1, 1, 0, 3, 1, 0); }
void opt_mc011_d() { mcscf(0, 1, 1, VX_TIER > 1 ? 4 : 3, 1, 1); }
void opt_casci_p2() { casci_p(2, 2, 1, vx_pick("b", 0, 1)); }
void opt_casci_p3() { casci_p(3, 2, 1, 1); }
void opt_casci_p2b() { casci_p(2, 3, 1, 1); }
void opt_casci2() { casci(2, vx_pick("a", 0, 2), vx_pick("b", 0, 2)); }
void opt_casci3() { casci(3, 1, vx_pick("b", 0, 2)); }
void opt_casci3b() { casci(3, 2, vx_pick("b", 1, 3)); }
void opt_casci4() { casci(4, 1, 1); }
}
