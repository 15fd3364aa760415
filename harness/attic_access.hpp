#pragma once
#include "cmz_ed/rdms.h++"
typedef cmz::ed::rdm::indexer rdm_indexer;
template <class X> static void t_access(X& R, int n, const std::vector<double>& a, const std::vector<double>& b) { // spin-orbital access: indices n..2n-1 are spin-down
  int i = vx_pick("i", 0, 2 * n - 1), j = vx_pick("j", 0, 2 * n - 1), p = vx_pick("p", 0, 2 * n - 1), q = vx_pick("q", 0, 2 * n - 1); auto up = [&](int x) { return x < n; };
  size_t k2 = (i % n) + n * (p % n), k4 = (i % n) + n * ((p % n) + n * ((j % n) + n * (size_t)(q % n)));
  vx_assert_eq(R.get(i, p), up(i) == up(p) ? a[k2] : 0., "one-body accessor"); double w = up(i) == up(p) && up(j) == up(q) ? b[k4] : 0.; vx_assert_eq(R.getPhys(i, j, p, q), w, "two-body accessor, physicists' order"); vx_assert_eq(R.getChem(i, p, j, q), w, "two-body accessor, chemists' order");
  vx_assert(R.isup(i) == up(i) && R.isdo(i) == !up(i) && R.same_spin(i, p) == (up(i) == up(p)) && R.indexer.same_spin(i, p) == (up(i) == up(p)), "spin queries");
  double x = vx_real("x"), y = vx_real("y"); std::vector<double> a2 = a, b2 = b; R.update(i, p, x); R.update(i, j, p, q, y); if (up(i) == up(p)) a2[k2] = x; if (up(i) == up(p) && up(j) == up(q)) b2[k4] = y;
  X C(R); for (int s = 0; s < n; ++s) for (int t = 0; t < n; ++t) { vx_assert_eq(C.get(s, t), a2[s + n * t], "update changes one element"); for (int u = 0; u < n; ++u) for (int v = 0; v < n; ++v) vx_assert_eq(C.getPhys(s, u, t, v), b2[s + n * (t + n * (u + n * v))], "update changes one two-body element"); }
}
