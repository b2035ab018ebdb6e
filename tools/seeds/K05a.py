ID="K05-neginf-nan"; PROP="K05"
NEEDS="NaN with the sign bit set (the usual result of 0/0 or inf-inf on x86)"
BREAKS="isneginf is true for a negative NaN"
EDITS=[("lib/core/include/scipp/core/element/special_values.h", "  return numeric::isinf(x) && numeric::signbit(x);", "  return !numeric::isfinite(x) && numeric::signbit(x);")]
OWN=("units_impl.cpp",); SRCS=("lib/units/unit.cpp", "lib/units/except.cpp", "lib/units/string.cpp", "lib/units/dim.cpp")
DEMO=r'''
#include <cmath>
#include <cstdio>
#include "scipp/core/element/special_values.h"
int main() {
  int bad = 0;
  for (double a : {-1.0, 0.0, 2.0, double(INFINITY), -double(INFINITY), double(NAN), std::copysign(double(NAN), -1.0)})
    if (scipp::core::element::isneginf(a) != (a == -INFINITY)) { std::printf("%g\n", a); ++bad; }
  return bad != 0;
}
'''
