// stand-in for the ips4o sorting library: same interface, std::sort underneath; the order has to be strict (the library requires it)
#pragma once
#include "vx.h"
#include <algorithm>
#include <functional>
#include <iterator>
namespace ips4o {
template <class It, class C = std::less<>> void sort(It b, It e, C c = C()) { std::sort(b, e, c); }
namespace parallel { template <class It, class C = std::less<>> void sort(It b, It e, C c = C()) { if (b != e) vx_assert(!c(*b, *b), "sorting needs a strict order"); std::sort(b, e, c); } }
}
