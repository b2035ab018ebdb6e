ID="H01-linspace-upper"; PROP="H01"
NEEDS="evenly spaced edges and an event exactly on an inner edge whose estimated bin index is rounded down (e.g. edges 0, 0.1, ..., or a non-representable scale)"
BREAKS="on the fast path an event exactly on an edge can be left in the bin below, so the two paths disagree and bins are not half-open"
EDITS=[("lib/core/include/scipp/core/histogram.h", "} else if (x >= edges[bin + 1]) {", "} else if (x > edges[bin + 1]) {")]
DEMO=r'''
#include <algorithm>
#include <cstdio>
#include <cmath>
#include <vector>
#include "scipp/common/span.h"
#include "scipp/core/histogram.h"
#include "scipp/core/time_point.h"
int main() {
  int bad = 0;
  for (int n = 2; n < 200; ++n) for (double lo : {0.0, 0.1, -1.7}) for (double hi : {1.0, 3.3, 17.9}) {
    std::vector<double> e(n + 1);
    for (int i = 0; i <= n; ++i) e[i] = lo + (hi - lo) * i / n;
    scipp::span<const double> s(e.data(), e.size());
    const auto p = scipp::core::linear_edge_params(s);
    for (int i = 0; i < n; ++i) {
      const long b = scipp::core::get_bin<long>(e[i], s, p);
      const long want = std::upper_bound(e.begin(), e.end(), e[i]) - e.begin() - 1;
      if (b != want) { if (!bad) std::printf("edge %d of %d: bin %ld\n", i, n, b); ++bad; }
    }
  }
  return bad != 0;
}
'''
