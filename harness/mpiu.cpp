// P16, P17: distributed quickselect and the MPI wrappers
#include "common.hpp"
#include "mpi.h"
#include <algorithm>
#include <functional>
#include <macis/util/dist_quickselect.hpp>
#include <macis/util/memory.hpp>
using namespace macis;
static std::vector<std::vector<double>> DAT; static std::vector<double> RES; static int KK; static bool GRT; static std::vector<std::vector<int>> IDAT; static std::vector<int> IRES;
static void qs_rank(int r) { auto v = DAT[r]; RES[r] = GRT ? dist_quickselect(v.begin(), v.end(), KK, MPI_COMM_WORLD, std::greater<double>{}, std::equal_to<double>{}) : dist_quickselect(v.begin(), v.end(), KK, MPI_COMM_WORLD, std::less<double>{}, std::equal_to<double>{}); 
  size_t n = DAT[r].size(); vx_assert(v.size() == n, "local data keeps its size"); double s = 0, q = 0; for (size_t i = 0; i < n; ++i) { s += v[i] - DAT[r][i]; q += v[i] * v[i] - DAT[r][i] * DAT[r][i]; } vx_assert_eq(s, 0., "local data is only reordered"); vx_assert_eq(q, 0., "local data is only reordered"); }
static void t_qs(int np, int tmin, int tmax, int maxloc) {
  DAT.assign(np, {}); RES.assign(np, 0.); int tot = 0; for (int r = 0; r < np; ++r) { int n = vx_pick("nloc", 0, maxloc); DAT[r] = vx_reals("x", n); tot += n; } vx_assume(tot >= tmin && tot <= tmax); KK = tmin == 5 && VX_TIER < 2 ? 3 : vx_pick("k", 1, tot); GRT = tmin == 5 && VX_TIER < 2 ? true : vx_pick("greater", 0, 1); vx_mpi_run(np, qs_rank);
  for (int r = 1; r < np; ++r) vx_assert_eq(RES[r], RES[0], "all ranks obtain the same element"); int before = 0, eq = 0; for (auto& v : DAT) for (auto x : v) { if (GRT ? x > RES[0] : x < RES[0]) ++before; else if (x == RES[0]) ++eq; } vx_assert(before < KK && before + eq >= KK, "the result is the k-th ranked element of the union"); VX_END();
}
static void iqs_rank(int r) { auto v = IDAT[r]; IRES[r] = dist_quickselect(v.begin(), v.end(), KK, MPI_COMM_WORLD, std::less<int>{}, std::equal_to<int>{}); }
static void t_iqs(int np, int nloc, int hi) { // longer lists with ties: values from a small range
  IDAT.assign(np, {}); IRES.assign(np, 0); int tot = 0; for (int r = 0; r < np; ++r) for (int i = 0; i < nloc; ++i) { IDAT[r].push_back(vx_pick("v", 0, hi)); ++tot; } KK = vx_pick("k", 1, tot); vx_mpi_run(np, iqs_rank); std::vector<int> all; for (auto& v : IDAT) all.insert(all.end(), v.begin(), v.end()); std::sort(all.begin(), all.end()); for (int r = 0; r < np; ++r) vx_assert(IRES[r] == all[KK - 1], "the result is the k-th ranked element of the union"); VX_END();
}
static void t_leg(int n) { std::vector<int> v, v0; for (int i = 0; i < n; ++i) v.push_back(vx_int<int8_t>("v")); v0 = v; int p = vx_int<int8_t>("p"); auto [a, b, c, d] = leg_partition(v.begin(), v.end(), p, [](int x, int y) { return x < y; }, [](int x, int y) { return x == y; }); vx_assert(a == v.begin() && d == v.end() && a <= b && b <= c && c <= d, "partition bounds");
  for (auto i = a; i != b; ++i) vx_assert(*i < p, "first part precedes the pivot"); for (auto i = b; i != c; ++i) vx_assert(*i == p, "middle part equals the pivot"); for (auto i = c; i != d; ++i) vx_assert(*i > p, "last part follows the pivot"); std::sort(v.begin(), v.end()); std::sort(v0.begin(), v0.end()); vx_assert(v == v0, "elements are only reordered"); VX_END(); }
// ---- wrappers
static std::vector<int> GI; static std::vector<int> SUM;
static void gs_rank(int r) { std::vector<int> g, s; int t = total_gather_and_exclusive_scan(GI[r], g, s, MPI_COMM_WORLD); int np = GI.size(); vx_assert(g == GI, "every rank's value is gathered in rank order"); vx_assert(s.size() == (size_t)np, "one offset per rank"); int a = 0; for (int i = 0; i < np; ++i) { vx_assert(s[i] == a, "offsets are the exclusive prefix sums"); a += GI[i]; } vx_assert(t == a, "total is the sum over ranks");
  std::vector<size_t> g2, s2; size_t t2 = total_gather_and_exclusive_scan((size_t)GI[r], g2, s2, MPI_COMM_WORLD); size_t b = 0; for (int i = 0; i < np; ++i) { vx_assert(g2[i] == (size_t)GI[i] && s2[i] == b, "offsets are the exclusive prefix sums"); b += GI[i]; } vx_assert(t2 == b, "total is the sum over ranks"); }
static void t_gs(int np) { GI.clear(); for (int r = 0; r < np; ++r) GI.push_back(vx_range("x", 0, 1000000)); vx_mpi_run(np, gs_rank); VX_END(); }
static std::vector<std::vector<double>> RD; static int OPK;
static void ar_rank(int r) { int np = RD.size(); size_t n = RD[0].size(); MPI_Op op = OPK == 0 ? MPI_SUM : OPK == 1 ? MPI_MAX : MPI_MIN; auto ok = [&](double g, size_t i) { if (OPK == 0) { double s = 0; for (auto& v : RD) s += v[i]; vx_assert_eq(g, s, "sum over ranks"); } else { bool hit = false; for (auto& v : RD) { vx_assert(OPK == 1 ? g >= v[i] : g <= v[i], "extremum over ranks"); hit |= g == v[i]; } vx_assert(hit, "extremum over ranks is attained"); } };
  auto in = RD[r]; std::vector<double> out(n + 1, 7.); allreduce(in.data(), out.data(), n, op, MPI_COMM_WORLD); for (size_t i = 0; i < n; ++i) { ok(out[i], i); vx_assert_eq(in[i], RD[r][i], "input untouched"); } vx_assert_eq(out[n], 7., "only the given elements are written"); auto ip = RD[r]; ip.push_back(7.); allreduce(ip.data(), n, op, MPI_COMM_WORLD); for (size_t i = 0; i < n; ++i) ok(ip[i], i); vx_assert_eq(ip[n], 7., "only the given elements are written"); if (n) ok(allreduce(RD[r][0], op, MPI_COMM_WORLD), 0); 
  for (int root = 0; root < np; ++root) { auto b = RD[r]; b.push_back(7.); bcast(b.data(), n, root, MPI_COMM_WORLD); for (size_t i = 0; i < n; ++i) vx_assert_eq(b[i], RD[root][i], "broadcast delivers the root's data"); vx_assert_eq(b[n], 7., "only the given elements are written"); }
  vx_assert(comm_rank(MPI_COMM_WORLD) == r && comm_size(MPI_COMM_WORLD) == np, "rank and size"); }
static void t_ar(int np, int n) { RD.clear(); int m = vx_pick("n", 0, n); for (int r = 0; r < np; ++r) RD.push_back(vx_reals("x", m)); OPK = vx_pick("op", 0, 2); vx_mpi_run(np, ar_rank); VX_END(); }
static std::vector<std::vector<size_t>> RU;
static void ari_rank(int r) { auto v = RU[r]; allreduce(v.data(), v.size(), MPI_SUM, MPI_COMM_WORLD); for (size_t i = 0; i < v.size(); ++i) { size_t s = 0; for (auto& u : RU) s += u[i]; vx_assert(v[i] == s, "64-bit sums over ranks"); } size_t mx = allreduce(RU[r][0], MPI_MAX, MPI_COMM_WORLD); for (auto& u : RU) vx_assert(mx >= u[0], "64-bit maximum over ranks"); int k = allreduce((int)(uint32_t)RU[r][1], MPI_SUM, MPI_COMM_WORLD); uint32_t s = 0; for (auto& u : RU) s += (uint32_t)u[1]; vx_assert((uint32_t)k == s, "32-bit sums over ranks"); }
static void t_ari(int np) { RU.clear(); for (int r = 0; r < np; ++r) { RU.push_back({}); for (int i = 0; i < 2; ++i) RU[r].push_back(vx_int<uint64_t>("u")); vx_assume(RU[r][0] < (1ull << 60)); vx_assume(RU[r][1] < (1u << 28)); } vx_mpi_run(np, ari_rank); VX_END(); }
template <size_t N> static std::bitset<N>& BB() { static std::bitset<N> b; return b; }
template <size_t N> static void bs_rank(int r) { auto dt = mpi_traits<std::bitset<N>>::datatype(); int np = comm_size(MPI_COMM_WORLD), sz; MPI_Type_size(dt, &sz); vx_assert(sz == (int)sizeof(std::bitset<N>), "datatype spans the whole bitset"); std::vector<std::bitset<N>> all(np), one(2); std::bitset<N> mine = BB<N>() << (r % 2); MPI_Allgather(&mine, 1, dt, all.data(), 1, dt, MPI_COMM_WORLD); for (int i = 0; i < np; ++i) vx_assert(all[i] == (BB<N>() << (i % 2)), "determinants travel unchanged between ranks"); one[0] = mine; bcast(one.data(), 1, np - 1, MPI_COMM_WORLD); vx_assert(one[0] == (BB<N>() << ((np - 1) % 2)) && one[1].none(), "determinants travel unchanged between ranks"); }
template <size_t N> static void t_bs(int np) { BB<N>() = vx_bits<N>("b"); vx_mpi_run(np, bs_rank<N>); VX_END(); }
static void big_rank(int r) { bool t = false; double d = 0; try { allreduce(&d, (size_t)1 << 31, MPI_SUM, MPI_COMM_WORLD); } catch (const std::runtime_error&) { t = true; } vx_assert(t, "messages above the untested size are refused"); t = false; try { bcast(&d, (size_t)1 << 31, 0, MPI_COMM_WORLD); } catch (const std::runtime_error&) { t = true; } vx_assert(t, "messages above the untested size are refused"); }
extern "C" {
void mu_qs1() { t_qs(1, 1, 4, 4); }
void mu_qs2() { t_qs(2, 1, 4, 4); }
void mu_qs2b() { t_qs(2, 5, 5, 4); }
void mu_qs3() { t_qs(3, 1, 4, 3); }
void mu_iqs2() { t_iqs(2, 4, 1); }
void mu_iqs3() { t_iqs(3, 3, 1); }
void mu_iqs3b() { t_iqs(3, 2, 2); }
void mu_iqs4() { t_iqs(4, 2, 1); }
void mu_leg() { t_leg(4); }
void mu_gs1() { t_gs(1); }
void mu_gs3() { t_gs(3); }
void mu_ar1() { t_ar(1, 2); }
void mu_ar3() { t_ar(3, 2); }
void mu_ari() { t_ari(3); }
void mu_bs64() { t_bs<64>(2); }
void mu_bs128() { t_bs<128>(3); }
void mu_bs256() { t_bs<256>(2); }
void mu_big() { vx_mpi_run(2, big_rank); std::vector<int> v; v.reserve(3); vx_assert_eq(to_gib(v), 12. / 1073741824., "memory estimate"); VX_END(); }
}
