ID="K04-floordiv"; PROP="K04"
NEEDS="floating-point floor_divide where the quotient is negative and not whole"
BREAKS="floor_divide of floats truncates toward zero instead of rounding down for negative quotients (and remainder takes the wrong sign with it)"
EDITS=[("lib/common/include/scipp/common/numeric.h", """    return floor(a / b);""", """    const auto quotient = a / b;
    return quotient < 0 ? -floor(-quotient) : floor(quotient);""")]
DEMO=r'''
#include <cmath>
#include <cstdio>
#include "scipp/common/numeric.h"
int main() {
  int bad = 0;
  for (double a : {-7.0, -6.0, 7.0}) for (double b : {2.0, -2.0, 3.0})
    if (scipp::numeric::floor_divide(a, b) != std::floor(a / b)) { std::printf("%g // %g = %g\n", a, b, scipp::numeric::floor_divide(a, b)); ++bad; }
  return bad != 0;
}
'''
