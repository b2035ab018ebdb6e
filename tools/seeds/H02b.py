ID="H02-rebin-descending"; PROP="H02"
NEEDS="rebin along descending edges with a partial overlap"
BREAKS="for descending edges the overlap is measured with the default ordering, so partially overlapping bins get a wrong share"
EDITS=[("lib/core/include/scipp/core/element/rebin.h", "std::abs(min(xn_high, xo_high, less) - max(xn_low, xo_low, less));", "std::abs(min(xn_high, xo_high, less) - max(xn_low, xo_low));")]
OWN=("units_impl.cpp",); SRCS=("lib/units/unit.cpp", "lib/units/except.cpp", "lib/units/string.cpp", "lib/units/dim.cpp", "lib/core/except.cpp", "lib/core/string.cpp", "lib/core/sizes.cpp", "lib/core/dimensions.cpp", "lib/core/slice.cpp")
DEMO=r'''
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <functional>
#include <vector>
#include "scipp/common/span.h"
#include "scipp/core/element/rebin.h"
using scipp::span;
int main() {
  int bad = 0;
  struct Greater { constexpr bool operator()(double a, double b) const noexcept { return a > b; } };
  const std::vector<std::vector<double>> edges{{4, 2, 0}, {4, 3, 1, 0}, {5, 2.5, -1}, {3.5, 1.5, 0.5}};
  for (const auto &o : edges) for (const auto &n : edges) {
    std::vector<double> d(o.size() - 1), r(n.size() - 1), w(n.size() - 1, 0.0);
    for (size_t i = 0; i < d.size(); ++i) d[i] = i + 1;
    const span<double> out(r.data(), r.size());
    scipp::core::element::rebin<Greater>(out, span<const double>(n.data(), n.size()), span<const double>(d.data(), d.size()), span<const double>(o.data(), o.size()));
    for (size_t j = 0; j < w.size(); ++j) for (size_t i = 0; i < d.size(); ++i) {
      const double ov = std::min(o[i], n[j]) - std::max(o[i + 1], n[j + 1]);
      if (ov > 0) w[j] += d[i] * ov / (o[i] - o[i + 1]);
    }
    for (size_t j = 0; j < w.size(); ++j) if (std::abs(w[j] - r[j]) > 1e-12) { std::printf("%g not %g\n", r[j], w[j]); ++bad; }
  }
  return bad != 0;
}
'''
