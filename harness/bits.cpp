// P01: bitset primitives
#include "common.hpp"
#include <macis/bitset_operations.hpp>
using namespace macis;
template <size_t N> static uint64_t word(const std::bitset<N>& b, int w) { return ((b >> (64 * w)) & std::bitset<N>(~0ULL)).to_ullong(); }
template <size_t N> static void t_ffs_fls() {
  auto b = vx_bits<N>("b"); vx_assume(b.any());
  uint32_t f = ffs(b), l = fls(b);
  vx_assert(f >= 1 && f <= N, "ffs of a nonzero bitset is within 1..N");
  vx_assert(b.test(f - 1), "ffs designates a set bit");
  vx_assert((b & low_mask<N>(N).operator>>=(N - (f - 1))).none(), "no set bit below ffs");
  vx_assert(l < N, "fls of a nonzero bitset is within 0..N-1"); vx_assert(b.test(l), "fls designates a set bit"); vx_assert((b >> l) == std::bitset<N>(1), "no set bit above fls");
  vx_observe_int(f); vx_observe_int(l); VX_END();
}
// linear-scan widths: one run of candidate positions, still a symbolic bitset
template <size_t N> static void t_ffs_fls_scan() {
  int p = vx_pick("pos", 0, N - 1);
  auto r = vx_bits<N>("rest"); std::bitset<N> one(1);
  { auto b = (r << p) | (one << p); uint32_t f = ffs(b); vx_assert(f == (uint32_t)p + 1, "ffs designates the lowest set bit"); vx_observe_int(f); }
  { auto b = (r >> (N - 1 - p)) | (one << p); uint32_t l = fls(b); vx_assert(l == (uint32_t)p, "fls designates the highest set bit"); }
  VX_END();
}
template <size_t N> static void t_conv() {
  auto b = vx_bits<N>("b");
  uint64_t w0 = word(b, 0);
  if constexpr (N >= 32 && N <= 128) vx_assert(fast_to_ullong(b) == (N == 32 ? b.to_ulong() : w0), "fast_to_ullong is the value of the low word");
  if constexpr (N == 32) vx_assert(fast_to_ulong(b) == b.to_ulong(), "fast_to_ulong is the numeric value");
  if constexpr (N <= 128) { uint128_t v = to_uint128(b); vx_assert((uint64_t)v == w0, "to_uint128 low half"); vx_assert((uint64_t)(v >> 64) == (N == 128 ? word(b, 1) : 0), "to_uint128 high half"); }
  if constexpr (N == 64 || N == 128) {
    auto lo = bitset_lo_word(b), hi = bitset_hi_word(b);
    uint64_t v = b == std::bitset<N>() ? 0 : w0;
    if constexpr (N == 64) { vx_assert(lo.to_ullong() == (v & 0xffffffffu), "low word"); vx_assert(hi.to_ullong() == (v >> 32), "high word"); }
    else { vx_assert(lo.to_ullong() == w0, "low word"); vx_assert(hi.to_ullong() == word(b, 1), "high word"); }
    vx_assert((expand_bitset<N>(lo) | (expand_bitset<N>(hi) << (N / 2))) == b, "low and high words recombine to the bitset");
    vx_observe_int(lo.to_ullong());
  }
  VX_END();
}
template <size_t N, size_t M> static void t_resize() { // N narrow, M wide
  std::bitset<N> n; std::bitset<M> m;
  if constexpr (N > 64) { // bit-by-bit copies: three symbolic bits at every aligned position, over two backgrounds
    bool inv = vx_pick("bg", 0, 1); auto x = std::bitset<M>(vx_int_("x", 3)); int p = vx_pick("p", 0, M / 4 - 1); m = x << 4 * p; if (inv) m = ~m; n = std::bitset<N>(vx_int_("y", 1)) << (2 * (p % (N / 2))); if (inv) n = ~n; }
  else { n = vx_bits<N>("n"); m = vx_bits<M>("m"); }
  auto e = expand_bitset<M>(n); auto t = truncate_bitset<N>(m);
  for (int w = 0; w < (int)(M + 63) / 64; ++w) vx_assert(word(e, w) == (w < (int)(N + 63) / 64 ? word(n, w) : 0), "expanding keeps every bit and adds zeros");
  for (int w = 0; w < (int)(N + 63) / 64; ++w) vx_assert(word(t, w) == (word(m, w) & (N - 64 * w >= 64 ? ~0ULL : (1ULL << (N % 64)) - 1)), "truncating keeps the low bits");
  vx_assert(truncate_bitset<N>(e) == n, "truncate undoes expand"); VX_END();
}
template <size_t N> static void t_less() {
  auto x = vx_bits<N>("x"), y = vx_bits<N>("y"); bool want = false;
  if constexpr (N <= 64) want = x.to_ullong() < y.to_ullong();
  else { constexpr int W = N / 64; bool dec = false; for (int w = W - 1; w >= 0; --w) { uint64_t a = word(x, w), b = word(y, w); bool lt = a < b, ne = a != b; want = want | (!dec & lt); dec = dec | ne; } }
  vx_assert(bitset_less(x, y) == want, "bitset_less is the numeric order"); vx_assert(bitset_less_comparator<N>()(x, y) == want, "comparator is the numeric order"); VX_END();
}
template <size_t N> static void t_less_scan() { // x and y agree above position p and differ there
  int p = vx_pick("p", 0, N - 1); auto x = vx_bits<N>("x"); auto y = vx_bits<N>("y");
  y = (y & ~(~std::bitset<N>() << p)) | (x & (~std::bitset<N>() << p)); y.flip(p);
  bool want = y[p]; vx_assert(bitset_less(x, y) == want, "bitset_less is the numeric order"); vx_assert(bitset_less(y, x) == !want, "bitset_less is antisymmetric"); vx_assert(!bitset_less(x, x), "bitset_less is irreflexive"); VX_END();
}
template <size_t N> static void t_mask() {
  if constexpr (N > 64) { unsigned k = vx_pick("k", 0, N); vx_assert(full_mask<N>(size_t(k)) == low_mask<N>(k), "full_mask(k) is exactly the k low bits"); vx_assert((full_mask<N / 2, N>()) == low_mask<N>(N / 2), "full_mask half width"); vx_assert((full_mask<N / 4, N>()) == low_mask<N>(N / 4), "full_mask quarter width"); VX_END(); return; }
  unsigned k = vx_range("k", 0, N), q = vx_range("q", 0, N - 1);
  auto m = full_mask<N>(size_t(k)); vx_assert((m >> q)[0] == (q < k), "full_mask(k) is exactly the k low bits");
  vx_assert((full_mask<N / 2, N>() >> q)[0] == (q < N / 2), "full_mask half width"); vx_assert((full_mask<N / 4, N>() >> q)[0] == (q < N / 4), "full_mask quarter width"); vx_assert((full_mask<N>() >> q)[0], "full_mask full width"); VX_END();
}
template <size_t N> static void t_indices(int nb, int maxc, bool window) {
  std::bitset<N> b = vx_bits<N>("b", nb); vx_assume((int)b.count() <= maxc); if (window) b <<= vx_pick("shift", 0, (N - nb) / 16) * 16;
  std::vector<uint32_t> v = {7, 7, 7}; bits_to_indices(b, v); auto w = bits_to_indices(b);
  vx_assert(v.size() == b.count() && w == v, "one index per set bit");
  for (size_t i = 0; i < v.size(); ++i) { vx_assert(v[i] < N, "index in range"); vx_assert(b.test(v[i]), "every index is a set bit"); if (i) vx_assert(v[i - 1] < v[i], "indices ascend"); vx_observe_int(v[i]); }
  VX_END();
}
extern "C" {
void bits_fls_int() { uint32_t a = vx_int<uint32_t>("a"); uint64_t b = vx_int<uint64_t>("b"); vx_assume(a && b); vx_assert(a >> fls(a) == 1, "fls(uint32)"); vx_assert(b >> fls(b) == 1, "fls(uint64)"); vx_assert(b >> fls((unsigned long long)b) == 1, "fls(ulonglong)"); VX_END(); }
void bits_ffs32() { t_ffs_fls<32>(); } void bits_ffs64() { t_ffs_fls<64>(); } void bits_ffs128() { t_ffs_fls<128>(); } void bits_ffs256() { t_ffs_fls_scan<256>(); }
void bits_ffs20() { t_ffs_fls<20>(); } void bits_ffs48() { t_ffs_fls<48>(); }
void bits_conv32() { t_conv<32>(); } void bits_conv64() { t_conv<64>(); } void bits_conv128() { t_conv<128>(); }
void bits_rs_32_64() { t_resize<32, 64>(); } void bits_rs_64_128() { t_resize<64, 128>(); } void bits_rs_32_128() { t_resize<32, 128>(); } void bits_rs_128_256() { t_resize<128, 256>(); } void bits_rs_64_256() { t_resize<64, 256>(); } void bits_rs_16_64() { t_resize<16, 64>(); }
void bits_less32() { t_less<32>(); } void bits_less64() { t_less<64>(); } void bits_less128() { t_less<128>(); } void bits_less256() { t_less_scan<256>(); }
void bits_mask32() { t_mask<32>(); } void bits_mask64() { t_mask<64>(); } void bits_mask128() { t_mask<128>(); } void bits_mask256() { t_mask<256>(); }
void bits_idx32() { t_indices<32>(32, VX_TIER > 1 ? 8 : 5, false); } void bits_idx64() { t_indices<64>(64, VX_TIER > 1 ? 8 : 4, false); } void bits_idx128() { t_indices<128>(128, VX_TIER > 1 ? 4 : 2, false); } void bits_idx256() { t_indices<256>(16, 1, true); }
}
