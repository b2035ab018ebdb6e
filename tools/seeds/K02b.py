ID="K02-isfinite-variance"; PROP="K02"
NEEDS="isfinite of a finite value with an infinite or NaN variance"
BREAKS="isfinite looks at the variance: a finite value whose variance overflowed is classified as not finite, unlike without variances"
EDITS=[("lib/core/include/scipp/core/value_and_variance.h", """  using numeric::isfinite;
  return isfinite(a.value);""", """  using numeric::isfinite;
  return isfinite(a.value) && isfinite(a.variance);""")]
DEMO=r'''
#include <cmath>
#include <cstdio>
#include "scipp/core/value_and_variance.h"
using namespace scipp::core;
int main() {
  int bad = 0;
  for (double v : {0.0, 1.5, double(INFINITY), double(NAN)}) for (double e : {0.0, 2.0, double(INFINITY), double(NAN)})
    if (isfinite(ValueAndVariance<double>(v, e)) != std::isfinite(v)) { std::printf("isfinite(%g +- %g)\n", v, e); ++bad; }
  return bad != 0;
}
'''
