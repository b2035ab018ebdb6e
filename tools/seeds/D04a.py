ID="D04-add-resize"; PROP="D04"
NEEDS="+= of a row that starts inside and ends beyond the own range by exactly the amount it is offset"
BREAKS="the length after += ignores the offset between the rows, so entries of the second row are written past the end"
EDITS=[("lib/core/subbin_sizes.cpp", """  for (; j < scipp::size(other.sizes()) && i < scipp::size(sizes()); ++j, ++i) {""", """  const auto n = std::min(scipp::size(other.sizes()), scipp::size(sizes()));
  for (; j < n && i < scipp::size(sizes()); ++j, ++i) {""")]
NEEDS="addition restricted to the own range where the other row starts earlier and is longer than the own range"
BREAKS="entries of the other row beyond the own length are ignored although they fall into the own range, so counts are lost"
OWN=("units_impl.cpp",); SRCS=("lib/core/subbin_sizes.cpp", "lib/units/unit.cpp", "lib/units/except.cpp", "lib/units/string.cpp", "lib/units/dim.cpp", "lib/core/except.cpp", "lib/core/string.cpp", "lib/core/sizes.cpp", "lib/core/dimensions.cpp", "lib/core/slice.cpp")
DEMO=r'''
#include <cstdio>
#include "scipp/core/subbin_sizes.h"
using scipp::core::SubbinSizes;
int main() {
  int bad = 0;
  for (int da = 0; da < 5; ++da) for (int db = 0; db < 5; ++db) for (int n = 0; n < 4; ++n) for (int m = 0; m < 4; ++m) {
    SubbinSizes::container_type a, b;
    for (int i = 0; i < n; ++i) a.push_back(10 + i);
    for (int i = 0; i < m; ++i) b.push_back(100 * (i + 1));
    SubbinSizes x(da, SubbinSizes::container_type(a)), y(db, SubbinSizes::container_type(b));
    x.add_intersection(y);
    for (int i = 0; i < n; ++i) {
      const int g = da + i; const long want = a[i] + (g >= db && g < db + m ? b[g - db] : 0);
      if (x.sizes()[i] != want) { std::printf("%d+%d / %d+%d at %d: %ld not %ld\n", da, n, db, m, i, (long)x.sizes()[i], want); ++bad; }
    }
  }
  return bad != 0;
}
'''
