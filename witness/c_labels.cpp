// Labels and identifiers over short histories: labels are abstract keys, tables are arrays, locks do nothing (the lock-set analysis covers them).
#include <algorithm>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <limits>
#include <map>
#include <mutex>
#include <optional>
#include <shared_mutex>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_map>
#include <utility>
#include <vector>
namespace std {
struct label_model { // a literal or an abstract label other than any literal
  long key{0}, literal{0};
  constexpr label_model() = default; constexpr explicit label_model(long k, int) : key(k) {}
  template <size_t N> [[gnu::always_inline]] constexpr label_model(const char (&s)[N]) : key(code(s, make_index_sequence<N - 1>())), literal(1) {}
  template <size_t N, size_t... I> [[gnu::always_inline]] static constexpr long code(const char (&s)[N], index_sequence<I...>) { return (0 + ... + (s[I] * static_cast<long>((I + 3) * (I + 3) * (I + 3)))); }
  constexpr bool operator==(const label_model &o) const { return literal == o.literal && key == o.key; } constexpr bool operator!=(const label_model &o) const { return !(*this == o); } constexpr bool operator<(const label_model &o) const { return literal < o.literal || (literal == o.literal && key < o.key); }
};
template <> struct hash<label_model> { size_t operator()(const label_model &l) const { return l.key; } };
template <class K, class V, class...> struct table_model {
  using value_type = pair<K, V>; using key_type = K; using mapped_type = V; using iterator = value_type *; using const_iterator = const value_type *; using size_type = size_t;
  value_type item[28]{}; long n{0};
  constexpr table_model() = default;
  table_model(initializer_list<value_type> l) { for (const auto &x : l) item[n++] = x; }
  iterator begin() { return item; } iterator end() { return item + n; } const_iterator begin() const { return item; } const_iterator end() const { return item + n; } const_iterator cbegin() const { return item; } const_iterator cend() const { return item + n; }
  size_t size() const { return n; } bool empty() const { return n == 0; } void reserve(size_t) {} void clear() { n = 0; }
  iterator find(const K &k) { for (long i = 0; i < n; ++i) if (item[i].first == k) return item + i; return end(); }
  const_iterator find(const K &k) const { for (long i = 0; i < n; ++i) if (item[i].first == k) return item + i; return end(); }
  size_t count(const K &k) const { return find(k) != end(); } bool contains(const K &k) const { return find(k) != end(); }
  const V &at(const K &k) const { auto it = find(k); if (it == end()) throw out_of_range(""); return it->second; }
  V &at(const K &k) { auto it = find(k); if (it == end()) throw out_of_range(""); return it->second; }
  template <class... A> pair<iterator, bool> try_emplace(const K &k, A &&...a) { auto it = find(k); if (it != end()) return {it, false}; item[n].first = k; item[n].second = V(std::forward<A>(a)...); ++n; return {item + n - 1, true}; }
  template <class A> pair<iterator, bool> emplace(const K &k, A &&a) { return try_emplace(k, std::forward<A>(a)); }
  pair<iterator, bool> insert(const value_type &x) { return try_emplace(x.first, x.second); }
  template <class A> pair<iterator, bool> insert_or_assign(const K &k, A &&a) { auto r = try_emplace(k, a); if (!r.second) r.first->second = a; return r; }
  V &operator[](const K &k) { return try_emplace(k).first->second; }
  size_t erase(const K &k) { auto it = find(k); if (it == end()) return 0; for (; it + 1 != end(); ++it) *it = it[1]; --n; return 1; }
};
struct mutex_model { void lock() {} void unlock() {} bool try_lock() { return true; } void lock_shared() {} void unlock_shared() {} bool try_lock_shared() { return true; } };
template <class M = mutex_model> struct lock_model { lock_model() {} template <class... A> explicit lock_model(A &&...) {} void lock() {} void unlock() {} bool owns_lock() const { return true; } void release() {} };
template <class M> lock_model(M &) -> lock_model<M>;
}
#define string label_model
#define unordered_map table_model
#define map table_model
#define shared_mutex mutex_model
#define mutex mutex_model
#define shared_lock lock_model
#define unique_lock lock_model
#define scoped_lock lock_model
#define lock_guard lock_model
#include "scipp/common/index.h"
#include "scipp/units/dim.h"
#undef mutex
#include "units/dim.cpp"
namespace wit {
using scipp::units::Dim;
#define W [[gnu::used]] static void
template <class T, long N> struct Arr { T v[N]; };
inline Dim mk(long k) { return Dim(std::label_model(k, 0)); }
struct P_fresh_labels { // the same label gives the same dimension, different labels different ones, and each dimension knows its label
  W impl(Arr<long, 8> *o, const long *x, const long *y, const long *z) {
    const auto a = mk(*x), b = mk(*y), c = mk(*z), d = mk(*x);
    const long r[8] = {a == b, b == c, a == c, a == d, a.name().key, b.name().key, c.name().key, to_string(d).key}; for (int i = 0; i < 8; ++i) o->v[i] = r[i]; }
  W ref(Arr<long, 8> *o, const long *x, const long *y, const long *z) { const long r[8] = {*x == *y, *y == *z, *x == *z, 1, *x, *y, *z, *x}; for (int i = 0; i < 8; ++i) o->v[i] = r[i]; }
};
struct P_fresh_again { // a name once given stays
  W impl(Arr<long, 4> *o, const long *x, const long *y) { const auto a = mk(*x); const long n = a.name().key; const auto b = mk(*y), c = mk(*x), d = mk(*y); o->v[0] = n; o->v[1] = a.name().key; o->v[2] = c == a; o->v[3] = b == d; }
  W ref(Arr<long, 4> *o, const long *x, const long *) { o->v[0] = *x; o->v[1] = *x; o->v[2] = 1; o->v[3] = 1; }
};
#define BUILTIN(F) F(Energy, "energy") F(Event, "event") F(Group, "group") F(Position, "position") F(Row, "row") F(Temperature, "temperature") F(Time, "time") F(Wavelength, "wavelength") F(X, "x") F(Y, "y") F(Z, "z")
#define ONE(N, S) template <Dim::Id> struct P_fresh_builtin_##N { \
  W impl(Arr<long, 5> *o, const long *x) { const auto a = mk(*x); const Dim d(Dim::N); o->v[0] = Dim(std::label_model(S)) == d; const auto n = d.name(); o->v[1] = n.key; o->v[2] = n.literal; o->v[3] = a == d; o->v[4] = a.name().key; } \
  W ref(Arr<long, 5> *o, const long *x) { o->v[0] = 1; o->v[1] = std::label_model(S).key; o->v[2] = 1; o->v[3] = 0; o->v[4] = *x; } }; template struct P_fresh_builtin_##N<Dim::N>;
BUILTIN(ONE)
}
