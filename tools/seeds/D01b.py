ID="D01-view-transposed"; PROP="D01"
NEEDS="a view of a view with the same labels and number of elements in another order, of distinct extents"
BREAKS="a view with other dimensions keeps the strides of the original by position when all its labels are known, so a transposed view visits the wrong elements"
EDITS=[("lib/core/element_array_view.cpp", "  m_strides.resize(iterDims.ndim());\n", """  if (iterDims.ndim() == other.m_iterDims.ndim() &&
      other.m_iterDims.includes(iterDims)) {
    m_strides = other.m_strides;
    return;
  }
  m_strides.resize(iterDims.ndim());
""")]
OWN=("units_impl.cpp",); SRCS=("lib/core/sizes.cpp", "lib/core/dimensions.cpp", "lib/core/slice.cpp", "lib/core/strides.cpp", "lib/core/except.cpp", "lib/core/multi_index.cpp", "lib/core/view_index.cpp", "lib/core/element_array_view.cpp", "lib/core/string.cpp", "lib/units/dim.cpp", "lib/units/except.cpp", "lib/units/string.cpp", "lib/units/unit.cpp")
DEMO=r'''
#include <algorithm>
#include <cstdio>
#include <vector>
#include "scipp/core/element_array_view.h"
using namespace scipp; using namespace scipp::core;
int main() {
  int bad = 0;
  std::vector<double> b(24); for (int i = 0; i < 24; ++i) b[i] = i;
  for (int n = 1; n < 5; ++n) for (int m = 1; m < 5; ++m) {
    Dimensions d; d.addInner(Dim::X, n); d.addInner(Dim::Y, m);
    Dimensions e; e.addInner(Dim::Y, m); e.addInner(Dim::X, n);
    ElementArrayView<const double> v(b.data(), 1, d, Strides{m, 1}); ElementArrayView<const double> w(v, e);
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) if (w[j * n + i] != b[1 + i * m + j]) ++bad;
  }
  std::printf("%d\n", bad); return bad != 0;
}
'''
