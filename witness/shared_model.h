// Shared ownership without the count: which object is shared, not when it ends.
#pragma once
#include <algorithm>
#include <functional>
#include <initializer_list>
#include <memory>
#include <mutex>
#include <optional>
#include <sstream>
#include <string>
#include <string_view>
#include <unordered_map>
#include <vector>
namespace std {
template <class T> struct shared_ptr_model {
  using element_type = T;
  constexpr shared_ptr_model() noexcept = default; constexpr shared_ptr_model(nullptr_t) noexcept {}
  explicit shared_ptr_model(T *q) noexcept : p(q) {}
  shared_ptr_model(const shared_ptr_model &) noexcept = default; shared_ptr_model(shared_ptr_model &&o) noexcept : p(o.p) { o.p = nullptr; }
  shared_ptr_model &operator=(const shared_ptr_model &) noexcept = default; shared_ptr_model &operator=(shared_ptr_model &&o) noexcept { T *q = o.p; o.p = nullptr; p = q; return *this; }
  template <class U> shared_ptr_model(const shared_ptr_model<U> &o) noexcept : p(o.p) {}
  T *get() const noexcept { return p; } T &operator*() const noexcept { return *p; } T *operator->() const noexcept { return p; } explicit operator bool() const noexcept { return p != nullptr; }
  void reset() noexcept { p = nullptr; } void swap(shared_ptr_model &o) noexcept { T *q = o.p; o.p = p; p = q; }
  bool operator==(const shared_ptr_model &o) const noexcept { return p == o.p; } bool operator==(nullptr_t) const noexcept { return p == nullptr; }
  T *p{nullptr};
};
template <class T, class... A> shared_ptr_model<T> make_shared_model(A &&...a) { return shared_ptr_model<T>(new T(std::forward<A>(a)...)); }
}
#define shared_ptr shared_ptr_model
#define make_shared make_shared_model
