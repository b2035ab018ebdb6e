// Analysis stand-in for the LLNL units library: a unit is an opaque number, multiplication is the
// (commutative, associative) product of a ring and everything else is uninterpreted.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
extern "C" {
std::int64_t pure_unit_div(std::int64_t, std::int64_t);
std::int64_t pure_unit_pow(std::int64_t, int);
std::int64_t pure_unit_sqrt(std::int64_t);
bool pure_unit_is_error(std::int64_t);
bool pure_unit_same_base(std::int64_t, std::int64_t);
bool pure_unit_mul_overflows(std::int64_t, std::int64_t);
bool pure_unit_div_overflows(std::int64_t, std::int64_t);
bool pure_unit_pow_overflows(std::int64_t, int);
bool pure_unit_exactly(std::int64_t, std::int64_t);
int pure_unit_base(std::int64_t, int);
}
namespace llnl::units {
namespace detail {
struct unit_data {
  std::int64_t id = 0;
#define MOCK_BASE(NAME, I) int NAME() const { return pure_unit_base(id, I); }
  MOCK_BASE(meter, 0) MOCK_BASE(kg, 1) MOCK_BASE(second, 2) MOCK_BASE(ampere, 3) MOCK_BASE(kelvin, 4) MOCK_BASE(mole, 5) MOCK_BASE(candela, 6)
  MOCK_BASE(currency, 7) MOCK_BASE(count, 8) MOCK_BASE(radian, 9)
#undef MOCK_BASE
  bool is_per_unit() const { return pure_unit_base(id, 10); }
  bool has_i_flag() const { return pure_unit_base(id, 11); }
  bool has_e_flag() const { return pure_unit_base(id, 12); }
  bool is_equation() const { return pure_unit_base(id, 13); }
};
} // namespace detail
struct precise_unit {
  std::int64_t id = 1;
  constexpr precise_unit() = default;
  constexpr precise_unit(const precise_unit &) = default;
  constexpr precise_unit &operator=(const precise_unit &) = default;
  constexpr explicit precise_unit(std::int64_t i, char) : id(i) {}
  constexpr precise_unit(const precise_unit &u, double) : id(u.id * 1000003) {}
  constexpr precise_unit(double, const precise_unit &u) : id(u.id * 1000033) {}
  detail::unit_data base_units() const { return {id}; }
  bool has_same_base(const precise_unit &o) const { return pure_unit_same_base(id, o.id); }
  bool is_exactly_the_same(const precise_unit &o) const { return pure_unit_exactly(id, o.id); }
  constexpr precise_unit operator*(const precise_unit &o) const { return precise_unit(std::int64_t(std::uint64_t(id) * std::uint64_t(o.id)), 'x'); }
  constexpr precise_unit operator/(const precise_unit &o) const { if (__builtin_is_constant_evaluated()) return precise_unit(id * 7919 + o.id, 'x'); return precise_unit(pure_unit_div(id, o.id), 'x'); }
  precise_unit pow(int n) const { return precise_unit(pure_unit_pow(id, n), 'x'); }
  bool operator==(const precise_unit &o) const { return id == o.id; }
  bool operator!=(const precise_unit &o) const { return id != o.id; }
  std::uint64_t commodity() const { return static_cast<unsigned>(pure_unit_base(id, 20)); }
};
inline bool is_error(const precise_unit &u) { return pure_unit_is_error(u.id); }
inline bool is_valid(const precise_unit &u) { return !pure_unit_is_error(u.id); }
inline bool times_overflows(const precise_unit &a, const precise_unit &b) { return pure_unit_mul_overflows(a.id, b.id); }
inline bool divides_overflows(const precise_unit &a, const precise_unit &b) { return pure_unit_div_overflows(a.id, b.id); }
inline bool pow_overflows(const precise_unit &a, int p) { return pure_unit_pow_overflows(a.id, p); }
inline precise_unit sqrt(const precise_unit &u) { return precise_unit(pure_unit_sqrt(u.id), 'x'); }
namespace precise {
#define MOCK_U(NAME, I) inline constexpr precise_unit NAME{std::int64_t(I), 'x'};
MOCK_U(one, 1) MOCK_U(meter, 2) MOCK_U(m, 2) MOCK_U(second, 3) MOCK_U(s, 3) MOCK_U(kg, 5) MOCK_U(K, 7) MOCK_U(Kelvin, 7) MOCK_U(ampere, 11) MOCK_U(A, 11) MOCK_U(mol, 13) MOCK_U(cd, 17)
MOCK_U(currency, 19) MOCK_U(count, 23) MOCK_U(rad, 29) MOCK_U(radian, 29) MOCK_U(deg, 1046) MOCK_U(degree, 1046) MOCK_U(micro, 37) MOCK_U(milli, 41) MOCK_U(nano, 43) MOCK_U(ns, 129) MOCK_U(mm, 82) MOCK_U(ms, 123)
MOCK_U(min, 180) MOCK_U(hr, 10800) MOCK_U(day, 259200) MOCK_U(us, 111) MOCK_U(percent, 47) MOCK_U(pi, 53) MOCK_U(hertz, 59) MOCK_U(Hz, 59)
namespace distance { MOCK_U(angstrom, 61) }
namespace energy { MOCK_U(eV, 67) }
namespace time { MOCK_U(year, 71) MOCK_U(yr, 71) MOCK_U(ag, 71) MOCK_U(mog, 73) MOCK_U(day, 259200) MOCK_U(week, 1814400) }
namespace custom {
inline bool is_custom_unit(const detail::unit_data &d) { return pure_unit_base(d.id, 30); }
inline bool is_custom_count_unit(const detail::unit_data &d) { return pure_unit_base(d.id, 31); }
inline int custom_count_unit_number(const detail::unit_data &d) { return pure_unit_base(d.id, 32); }
} // namespace custom
} // namespace precise
} // namespace llnl::units
template <> struct std::hash<llnl::units::precise_unit> { std::size_t operator()(const llnl::units::precise_unit &u) const { return static_cast<std::size_t>(pure_unit_base(u.id, 40)); } };
