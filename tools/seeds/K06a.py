ID="K06-nanmax-acc"; PROP="K06"
NEEDS="nanmax reduction whose accumulator is NaN (the first element visited is NaN) and a later element is a number"
BREAKS="nanmax keeps NaN instead of taking the number when the accumulated value so far is NaN"
EDITS=[("lib/core/include/scipp/core/element/comparison.h", """constexpr auto nanmax_equals =
    overloaded{arg_list<double, float, int64_t, int32_t, bool, time_point>,
               transform_flags::expect_in_variance_if_out_variance,
               [](auto &&a, const auto &b) {
                 using numeric::isnan;
                 using std::max;
                 if (isnan(a))
                   a = b;
                 if (!isnan(b))""", """constexpr auto nanmax_equals =
    overloaded{arg_list<double, float, int64_t, int32_t, bool, time_point>,
               transform_flags::expect_in_variance_if_out_variance,
               [](auto &&a, const auto &b) {
                 using numeric::isnan;
                 using std::max;
                 if (!isnan(b))""")]
DEMO=r'''
#include <cmath>
#include <cstdio>
#include "scipp/core/element/comparison.h"
using namespace scipp::core;
int main() {
  int bad = 0;
  const double v[] = {-1.0, 0.0, 2.0, NAN};
  for (double a : v) for (double b : v) {
    double x = a; element::nanmax_equals(x, b);
    const double w = std::fmax(a, b);
    if (!(x == w || (std::isnan(x) && std::isnan(w)))) { std::printf("nanmax(%g, %g) = %g\n", a, b, x); ++bad; }
  }
  return bad != 0;
}
'''
