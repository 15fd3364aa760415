#pragma once
#include "vx.h"
#include <bitset>
#include <vector>
// Slow, obviously-correct counterparts written from the documentation.
template <size_t N> inline int ref_ffs(const std::bitset<N>& b) { for (size_t i = 0; i < N; ++i) if (b[i]) return i + 1; return 0; }
template <size_t N> inline int ref_fls(const std::bitset<N>& b) { for (int i = N - 1; i >= 0; --i) if (b[i]) return i; return -1; }
template <size_t N> inline std::bitset<N> low_mask(unsigned k) { std::bitset<N> m; for (unsigned i = 0; i < k && i < N; ++i) m[i] = 1; return m; }
