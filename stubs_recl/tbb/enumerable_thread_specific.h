// stand-in used only for analysing reclamation code: the set of per-thread records is a list of unknown length
#pragma once
#include <cstddef>
#include <iterator>
#include <utility>
extern "C" { void *vp_list_first(const void *set) noexcept; void *vp_list_next(const void *element) noexcept; void *vp_list_local(const void *set) noexcept; }
namespace tbb {
enum ets_key_usage_type { ets_key_per_instance, ets_no_key, ets_suspend_aware };
template <typename T> struct cache_aligned_allocator {};
template <typename T, typename A = cache_aligned_allocator<T>, ets_key_usage_type K = ets_no_key> class enumerable_thread_specific {
public:
  enumerable_thread_specific() noexcept {}
  template <typename U> struct iter {
    using iterator_category = std::forward_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = U *; using reference = U &;
    U *p;
    U &operator*() const noexcept { return *p; }
    U *operator->() const noexcept { return p; }
    iter &operator++() noexcept { p = (U *)vp_list_next(p); return *this; }
    iter operator++(int) noexcept { iter o{p}; p = (U *)vp_list_next(p); return o; }
    bool operator==(const iter &o) const noexcept { return p == o.p; }
    bool operator!=(const iter &o) const noexcept { return p != o.p; }
  };
  using iterator = iter<T>; using const_iterator = iter<const T>;
  iterator begin() noexcept { return {(T *)vp_list_first(this)}; }
  iterator end() noexcept { return {nullptr}; }
  const_iterator begin() const noexcept { return {(const T *)vp_list_first(this)}; }
  const_iterator end() const noexcept { return {nullptr}; }
  const_iterator cbegin() const noexcept { return begin(); }
  const_iterator cend() const noexcept { return end(); }
  struct range_type { iterator b, e; iterator begin() const noexcept { return b; } iterator end() const noexcept { return e; } };
  range_type range(size_t = 1) noexcept { return {begin(), end()}; }
  T &local() noexcept { return *(T *)vp_list_local(this); }
  T &local(bool &) noexcept { return local(); }
  size_t size() const noexcept;
  bool empty() const noexcept;
  void clear() noexcept;
  template <typename F> void combine_each(F f) { for (auto &x : *this) f(x); }
  template <typename F> T combine(F f) { auto it = begin(); T r = *it; for (++it; it != end(); ++it) r = f(r, *it); return r; }
};
}
