// Minimal stand-in for the LLNL-Units headers (the real library is not
// available offline).  It exists so that clang can type-check every scipp
// translation unit that includes scipp/units/unit.h.  Only the interface that
// scipp uses is declared; it is complete enough to be executed by the
// demonstrations, but it is never part of the verdict of a check.
#pragma once
#include <cmath>
#include <cstdint>
#include <functional>
#include <string>

namespace llnl::units {
namespace detail {
class unit_data {
public:
  constexpr unit_data() = default;
  constexpr unit_data(int m, int kg, int s, int A, int K, int mol, int cd,
                      int cur, int cnt, int rad, unsigned per = 0,
                      unsigned i = 0, unsigned e = 0, unsigned eq = 0)
      : meter_(m), second_(s), kg_(kg), A_(A), K_(K), mol_(mol), cd_(cd),
        cur_(cur), cnt_(cnt), rad_(rad), per_(per), i_(i), e_(e), eq_(eq) {}
  constexpr int meter() const { return meter_; }
  constexpr int kg() const { return kg_; }
  constexpr int second() const { return second_; }
  constexpr int ampere() const { return A_; }
  constexpr int kelvin() const { return K_; }
  constexpr int mole() const { return mol_; }
  constexpr int candela() const { return cd_; }
  constexpr int currency() const { return cur_; }
  constexpr int count() const { return cnt_; }
  constexpr int radian() const { return rad_; }
  constexpr bool is_per_unit() const { return per_ != 0; }
  constexpr bool has_i_flag() const { return i_ != 0; }
  constexpr bool has_e_flag() const { return e_ != 0; }
  constexpr bool is_equation() const { return eq_ != 0; }
  constexpr bool operator==(const unit_data &o) const {
    return has_same_base(o) && per_ == o.per_ && i_ == o.i_ && e_ == o.e_ &&
           eq_ == o.eq_;
  }
  constexpr bool operator!=(const unit_data &o) const { return !(*this == o); }
  constexpr bool has_same_base(const unit_data &o) const {
    return meter_ == o.meter_ && second_ == o.second_ && kg_ == o.kg_ &&
           A_ == o.A_ && K_ == o.K_ && mol_ == o.mol_ && cd_ == o.cd_ &&
           cur_ == o.cur_ && cnt_ == o.cnt_ && rad_ == o.rad_;
  }
  constexpr unit_data mul(const unit_data &o, int f) const {
    return {meter_ + f * o.meter_, kg_ + f * o.kg_,   second_ + f * o.second_,
            A_ + f * o.A_,         K_ + f * o.K_,     mol_ + f * o.mol_,
            cd_ + f * o.cd_,       cur_ + f * o.cur_, cnt_ + f * o.cnt_,
            rad_ + f * o.rad_};
  }
  constexpr unit_data scale(int n, int d) const {
    return {meter_ * n / d, kg_ * n / d,  second_ * n / d, A_ * n / d,
            K_ * n / d,     mol_ * n / d, cd_ * n / d,     cur_ * n / d,
            cnt_ * n / d,   rad_ * n / d};
  }
  constexpr bool has_odd() const {
    return ((meter_ | kg_ | second_ | A_ | K_ | mol_ | cd_ | cur_ | cnt_ |
             rad_) &
            1) != 0;
  }

private:
  int meter_{0}, second_{0}, kg_{0}, A_{0}, K_{0}, mol_{0}, cd_{0}, cur_{0},
      cnt_{0}, rad_{0};
  unsigned per_{0}, i_{0}, e_{0}, eq_{0};
};
} // namespace detail

class precise_unit {
public:
  constexpr precise_unit() = default;
  constexpr precise_unit(const detail::unit_data &b, double m = 1.0)
      : mult_(m), base_(b) {}
  constexpr precise_unit(const detail::unit_data &b, std::uint32_t c, double m)
      : mult_(m), base_(b), commodity_(c) {}
  constexpr precise_unit(const precise_unit &u, double m)
      : mult_(m * u.mult_), base_(u.base_), commodity_(u.commodity_) {}
  constexpr explicit precise_unit(double m) : mult_(m) {}
  constexpr precise_unit(double m, const precise_unit &u)
      : mult_(m * u.mult_), base_(u.base_), commodity_(u.commodity_) {}
  constexpr double multiplier() const { return mult_; }
  constexpr detail::unit_data base_units() const { return base_; }
  constexpr std::uint32_t commodity() const { return commodity_; }
  constexpr bool has_same_base(const precise_unit &o) const {
    return base_.has_same_base(o.base_);
  }
  constexpr bool is_exactly_the_same(const precise_unit &o) const {
    return mult_ == o.mult_ && base_ == o.base_;
  }
  constexpr precise_unit operator*(const precise_unit &o) const {
    return {base_.mul(o.base_, 1), mult_ * o.mult_};
  }
  constexpr precise_unit operator/(const precise_unit &o) const {
    return {base_.mul(o.base_, -1), mult_ / o.mult_};
  }
  bool operator==(const precise_unit &o) const {
    return base_ == o.base_ &&
           std::abs(mult_ - o.mult_) <= 1e-10 * std::abs(mult_);
  }
  bool operator!=(const precise_unit &o) const { return !(*this == o); }
  precise_unit pow(int n) const {
    return {base_.scale(n, 1), std::pow(mult_, n)};
  }

private:
  double mult_{1.0};
  detail::unit_data base_;
  std::uint32_t commodity_{0};
};

namespace precise {
inline constexpr precise_unit one{};
inline constexpr precise_unit meter{
    detail::unit_data(1, 0, 0, 0, 0, 0, 0, 0, 0, 0)};
inline constexpr precise_unit m = meter;
inline constexpr precise_unit kg{
    detail::unit_data(0, 1, 0, 0, 0, 0, 0, 0, 0, 0)};
inline constexpr precise_unit second{
    detail::unit_data(0, 0, 1, 0, 0, 0, 0, 0, 0, 0)};
inline constexpr precise_unit s = second;
inline constexpr precise_unit K{
    detail::unit_data(0, 0, 0, 0, 1, 0, 0, 0, 0, 0)};
inline constexpr precise_unit count{
    detail::unit_data(0, 0, 0, 0, 0, 0, 0, 0, 1, 0)};
inline constexpr precise_unit rad{
    detail::unit_data(0, 0, 0, 0, 0, 0, 0, 0, 0, 1)};
inline constexpr precise_unit deg{0.017453292519943295, rad};
inline constexpr precise_unit micro{1e-6};
inline constexpr precise_unit milli{1e-3};
inline constexpr precise_unit ns{1e-9, second};
inline constexpr precise_unit ms{1e-3, second};
inline constexpr precise_unit min{60.0, second};
inline constexpr precise_unit hr{3600.0, second};
inline constexpr precise_unit day{86400.0, second};
inline constexpr precise_unit mm{1e-3, meter};
namespace distance {
inline constexpr precise_unit angstrom{1e-10, meter};
}
namespace energy {
inline constexpr precise_unit eV{
    1.602176634e-19,
    precise_unit{detail::unit_data(2, 1, -2, 0, 0, 0, 0, 0, 0, 0)}};
}
namespace custom {
constexpr bool is_custom_unit(const detail::unit_data &) { return false; }
constexpr bool is_custom_count_unit(const detail::unit_data &) {
  return false;
}
constexpr int custom_count_unit_number(const detail::unit_data &) { return 0; }
} // namespace custom
} // namespace precise

class precise_measurement {
public:
  constexpr precise_measurement(double v, const precise_unit &u)
      : v_(v), u_(u) {}
  constexpr double value() const { return v_; }
  constexpr precise_unit units() const { return u_; }

private:
  double v_;
  precise_unit u_;
};
inline precise_measurement operator*(double v, const precise_unit &u) {
  return {v, u};
}
} // namespace llnl::units

namespace std {
template <> struct hash<llnl::units::precise_unit> {
  size_t operator()(const llnl::units::precise_unit &u) const noexcept {
    return hash<double>()(u.multiplier());
  }
};
} // namespace std
