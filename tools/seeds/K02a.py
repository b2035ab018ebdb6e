ID="K02-le-nan"; PROP="K02"
NEEDS="less_equal or greater_equal between data with variances and a plain operand where one of them is NaN"
BREAKS="x <= NaN becomes true when x carries variances while it is false without variances"
EDITS=[("lib/core/include/scipp/core/value_and_variance.h", """constexpr auto operator<=(const ValueAndVariance<A> a, const B b) noexcept {
  return a.value <= b;""", """constexpr auto operator<=(const ValueAndVariance<A> a, const B b) noexcept {
  return !(a > b);"""),("lib/core/include/scipp/core/value_and_variance.h", """constexpr auto operator>=(const ValueAndVariance<A> a, const B b) noexcept {
  return a.value >= b;""", """constexpr auto operator>=(const ValueAndVariance<A> a, const B b) noexcept {
  return !(a < b);""")]
DEMO=r'''
#include <cmath>
#include <cstdio>
#include "scipp/core/value_and_variance.h"
using namespace scipp::core;
int main() {
  int bad = 0;
  const double v[] = {-1.0, 0.0, 2.0, INFINITY, NAN};
  for (double a : v) for (double b : v) {
    if ((ValueAndVariance<double>(a, 1.0) <= b) != (a <= b)) { std::printf("%g <= %g\n", a, b); ++bad; }
    if ((ValueAndVariance<double>(a, 1.0) >= b) != (a >= b)) { std::printf("%g >= %g\n", a, b); ++bad; }
  }
  return bad != 0;
}
'''
