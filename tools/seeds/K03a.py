ID="K03-mixed-compare"; PROP="K03"
NEEDS="comparison of a float and an integer operand above 2^24"
BREAKS="greater is the negation of less-or-equal: true for NaN operands"
EDITS=[("lib/core/include/scipp/core/element/comparison.h", "    [](const auto &x, const auto &y) { return x > y; },", "    [](const auto &x, const auto &y) { return !(x <= y); },")]
NEEDS="greater with a NaN operand"
OWN=("units_impl.cpp",); SRCS=("lib/units/unit.cpp", "lib/units/except.cpp", "lib/units/string.cpp", "lib/units/dim.cpp")
DEMO=r'''
#include <cmath>
#include <cstdio>
#include "scipp/core/element/comparison.h"
int main() {
  int bad = 0;
  const double v[] = {-1.0, 0.0, 2.0, INFINITY, NAN};
  for (double a : v) for (double b : v)
    if (scipp::core::element::greater(a, b) != (a > b)) { std::printf("%g > %g\n", a, b); ++bad; }
  return bad != 0;
}
'''
