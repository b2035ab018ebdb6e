ID="K01-stale-variance"; PROP="K01"
NEEDS="replacement of +inf with an out argument (e.g. in place or into a reused buffer) on data with variances that contains +inf"
BREAKS="where +inf is replaced only the value of the replacement is written, the variance keeps whatever the output buffer held before"
EDITS=[("lib/core/include/scipp/core/element/special_values.h", """        x = isinf(y) && y.value > 0 ? repl : y;
      else""", """        if (isinf(y) && y.value > 0)
          x.value = repl.value;
        else
          x = y;
      else""")]
DEMO=r'''
#include <cmath>
#include <cstdio>
#include "scipp/core/element/special_values.h"
using namespace scipp::core;
int main() {
  int bad = 0;
  using VV = ValueAndVariance<double>;
  for (double v : {1.0, double(INFINITY), -double(INFINITY)}) {
    VV out(99.0, 98.0);
    const VV in(v, 3.0), repl(5.0, 7.0);
    element::positive_inf_to_num_out_arg(out, in, repl);
    const VV want = v == INFINITY ? repl : in;
    if (out.value != want.value || out.variance != want.variance) { std::printf("%g: %g +- %g\n", v, out.value, out.variance); ++bad; }
  }
  return bad != 0;
}
'''
