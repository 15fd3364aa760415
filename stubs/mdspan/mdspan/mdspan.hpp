// Minimal column-major mdspan with the interface the repository uses.  Index checks are exact.
#pragma once
#include <array>
#include <cstddef>
#include <type_traits>
#include <utility>
extern "C" void vx_fail(const char*);
#define MDSPAN_IMPL_STANDARD_NAMESPACE Kokkos
#define MDSPAN_IMPL_PROPOSED_NAMESPACE Experimental
namespace Kokkos {
struct layout_left {};
struct layout_stride {};
struct full_extent_t {}; inline constexpr full_extent_t full_extent{};
template <class I, size_t R> struct dextents { using index_type = I; static constexpr size_t rnk = R; std::array<I, R> e{}; constexpr dextents() {} template <class... A, class = std::enable_if_t<sizeof...(A) == R>> constexpr dextents(A... a) : e{(I)a...} {} static constexpr size_t rank() { return R; } constexpr I extent(size_t i) const { return e[i]; } };
template <class T, class E, class L = layout_left> class mdspan {
 public:
  using element_type = T; using value_type = std::remove_cv_t<T>; using index_type = typename E::index_type; using size_type = size_t; using extents_type = E; using layout_type = L; using data_handle_type = T*; using reference = T&;
  static constexpr size_t R = E::rnk;
  constexpr mdspan() {}
  template <class... A, class = std::enable_if_t<sizeof...(A) == R && (std::is_convertible_v<A, index_type> && ...)>> constexpr mdspan(T* p, A... a) : p_(p), e_(a...) { size_t s = 1; for (size_t i = 0; i < R; ++i) { st_[i] = s; s *= e_.e[i]; } }
  constexpr mdspan(T* p, const E& e) : p_(p), e_(e) { size_t s = 1; for (size_t i = 0; i < R; ++i) { st_[i] = s; s *= e_.e[i]; } }
  constexpr mdspan(T* p, const std::array<index_type, R>& e) : p_(p) { e_.e = e; size_t s = 1; for (size_t i = 0; i < R; ++i) { st_[i] = s; s *= e_.e[i]; } }
  template <class U, class L2, class = std::enable_if_t<std::is_convertible_v<U (*)[], T (*)[]>>> constexpr mdspan(const mdspan<U, E, L2>& o) : p_(o.data_handle()), e_(o.extents()) { for (size_t i = 0; i < R; ++i) st_[i] = o.stride(i); }
  static constexpr size_t rank() { return R; } static constexpr size_t rank_dynamic() { return R; }
  constexpr index_type extent(size_t i) const { return e_.e[i]; } constexpr const E& extents() const { return e_; } constexpr size_t stride(size_t i) const { return st_[i]; }
  constexpr size_t size() const { size_t s = 1; for (size_t i = 0; i < R; ++i) s *= e_.e[i]; return s; } constexpr bool empty() const { return size() == 0; }
  constexpr T* data_handle() const { return p_; }
  template <class... A> T& operator()(A... a) const {
    static_assert(sizeof...(A) == R); size_t ix[R] = {(size_t)a...}; size_t o = 0;
    for (size_t i = 0; i < R; ++i) { if (ix[i] >= e_.e[i]) vx_fail("mdspan index out of range"); o += ix[i] * st_[i]; } return p_[o]; }
  constexpr void set_strides(const std::array<size_t, R>& s) { st_ = s; }
 private: T* p_ = nullptr; E e_{}; std::array<size_t, R> st_{};
};
namespace Experimental {
namespace dd { template <class S> struct is_slice : std::bool_constant<!std::is_convertible_v<S, size_t>> {};
inline size_t first(full_extent_t) { return 0; } template <class A, class B> size_t first(const std::pair<A, B>& p) { return p.first; } inline size_t first(size_t i) { return i; }
inline size_t count(full_extent_t, size_t e) { return e; } template <class A, class B> size_t count(const std::pair<A, B>& p, size_t) { return p.second - p.first; } inline size_t count(size_t, size_t) { return 1; } }
template <class T, class I, size_t R, class L, class... S> auto submdspan(const mdspan<T, dextents<I, R>, L>& m, S... s) {
  static_assert(sizeof...(S) == R); constexpr size_t NR = (0 + ... + (dd::is_slice<S>::value ? 1 : 0));
  size_t fs[R] = {dd::first(s)...}; size_t i = 0; size_t cn[R] = {dd::count(s, m.extent(i++))...}; bool sl[R] = {dd::is_slice<S>::value...};
  size_t off = 0; dextents<I, NR> e; std::array<size_t, NR> st{}; size_t k = 0;
  for (size_t j = 0; j < R; ++j) { off += fs[j] * m.stride(j); if (sl[j]) { e.e[k] = cn[j]; st[k] = m.stride(j); ++k; if (fs[j] + cn[j] > m.extent(j)) vx_fail("submdspan out of range"); } else if (fs[j] >= m.extent(j)) vx_fail("submdspan out of range"); }
  mdspan<T, dextents<I, NR>, L> r(m.data_handle() + off, e); r.set_strides(st); return r; }
}
}
