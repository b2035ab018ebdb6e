ID="H03-sorted-nan"; PROP="H03"
NEEDS="an order test of a sequence that contains NaN"
BREAKS="a sequence containing NaN is reported as sorted, so binary searches are run on it"
EDITS=[("lib/core/include/scipp/core/element/util.h", "      out = out && (left <= right);", "      out = out && !(left > right);")]
OWN=("units_impl.cpp",); SRCS=("lib/units/unit.cpp", "lib/units/except.cpp", "lib/units/string.cpp", "lib/units/dim.cpp")
DEMO=r'''
#include <cmath>
#include <cstdio>
#include "scipp/core/element/util.h"
int main() {
  int bad = 0;
  for (double a : {1.0, 2.0, double(NAN)}) for (double b : {1.0, 2.0, double(NAN)}) for (bool p : {false, true}) {
    bool o = p;
    scipp::core::element::issorted_nondescending(o, a, b);
    if (o != (p && a <= b)) { std::printf("%g %g\n", a, b); ++bad; }
  }
  return bad != 0;
}
'''
