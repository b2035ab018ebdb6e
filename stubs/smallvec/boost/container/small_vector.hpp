// Inline-only model of boost::container::small_vector (the contract of the operations the library uses).
#pragma once
#include <cstddef>
#include <cstdlib>
#include <initializer_list>
#include <iterator>
namespace boost::container {
template <class T, std::size_t N> class small_vector {
public:
  static constexpr std::size_t cap = 8;
  using value_type = T; using iterator = T *; using const_iterator = const T *; using size_type = std::size_t;
  using reference = T &; using const_reference = const T &;
  small_vector() noexcept = default;
  explicit small_vector(std::size_t n) { resize(n); }
  small_vector(std::size_t n, const T &v) { resize(n, v); }
  template <class It, class = typename std::iterator_traits<It>::iterator_category> small_vector(It b, It e) { for (; b != e; ++b) push_back(*b); }
  small_vector(std::initializer_list<T> l) { for (const auto &x : l) push_back(x); }
  small_vector(const small_vector &o) { for (std::size_t i = 0; i < o.n; ++i) m[i] = o.m[i]; n = o.n; }
  small_vector &operator=(const small_vector &o) { for (std::size_t i = 0; i < o.n; ++i) m[i] = o.m[i]; n = o.n; return *this; }
  iterator begin() noexcept { return m; } const_iterator begin() const noexcept { return m; } const_iterator cbegin() const noexcept { return m; }
  iterator end() noexcept { return m + n; } const_iterator end() const noexcept { return m + n; } const_iterator cend() const noexcept { return m + n; }
  auto rbegin() noexcept { return std::reverse_iterator(end()); } auto rbegin() const noexcept { return std::reverse_iterator(end()); }
  auto rend() noexcept { return std::reverse_iterator(begin()); } auto rend() const noexcept { return std::reverse_iterator(begin()); }
  std::size_t size() const noexcept { return n; } bool empty() const noexcept { return n == 0; } std::size_t capacity() const noexcept { return cap; }
  T *data() noexcept { return m; } const T *data() const noexcept { return m; }
  T &operator[](std::size_t i) { return m[i]; } const T &operator[](std::size_t i) const { return m[i]; }
  T &at(std::size_t i) { if (i >= n) abort(); return m[i]; } const T &at(std::size_t i) const { if (i >= n) abort(); return m[i]; }
  T &front() { return m[0]; } const T &front() const { return m[0]; } T &back() { return m[n - 1]; } const T &back() const { return m[n - 1]; }
  void push_back(const T &v) { if (n >= cap) abort(); m[n++] = v; }
  template <class... A> T &emplace_back(A &&...a) { push_back(T(a...)); return back(); }
  void pop_back() { --n; }
  void clear() noexcept { n = 0; }
  void reserve(std::size_t) {}
  void resize(std::size_t k, const T &v = T{}) { if (k > cap) abort(); for (std::size_t i = n; i < k; ++i) m[i] = v; n = k; }
  void assign(std::size_t k, const T &v) { clear(); resize(k, v); }
  template <class It, class = typename std::iterator_traits<It>::iterator_category> void assign(It b, It e) { clear(); for (; b != e; ++b) push_back(*b); }
  iterator insert(const_iterator p, const T &v) {
    if (n >= cap) abort();
    const std::size_t k = p - m; const T x = v;
    for (std::size_t i = n; i > k; --i) m[i] = m[i - 1];
    m[k] = x; ++n; return m + k;
  }
  template <class... A> iterator emplace(const_iterator p, A &&...a) { return insert(p, T(a...)); }
  iterator erase(const_iterator p) {
    const std::size_t k = p - m;
    for (std::size_t i = k; i + 1 < n; ++i) m[i] = m[i + 1];
    --n; return m + k;
  }
  iterator erase(const_iterator b, const_iterator e) { for (auto c = e - b; c > 0; --c) erase(b); return const_cast<iterator>(b); }
  friend bool operator==(const small_vector &a, const small_vector &b) {
    if (a.n != b.n) return false;
    for (std::size_t i = 0; i < a.n; ++i) if (!(a.m[i] == b.m[i])) return false;
    return true;
  }
  friend bool operator!=(const small_vector &a, const small_vector &b) { return !(a == b); }
private:
  T m[cap] = {};
  std::size_t n{0};
};
} // namespace boost::container
