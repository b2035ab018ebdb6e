ID="D02-edges-2d"; PROP="D02"
NEEDS="a two-dimensional coordinate that is compared with data in which one of its other dimensions has a different extent"
BREAKS="a coordinate that does not fit the data in another dimension is accepted as bin edges along the given dimension"
EDITS=[("lib/core/sizes.cpp", """      if (d != dim && !(sizes.contains(d) && sizes[d] == dataSizes[d]))
        return false;""", """      if (d != dim && !sizes.contains(d))
        return false;""")]
OWN=("units_impl.cpp",); SRCS=("lib/core/sizes.cpp", "lib/core/dimensions.cpp", "lib/core/slice.cpp", "lib/core/strides.cpp", "lib/core/except.cpp", "lib/core/multi_index.cpp", "lib/core/view_index.cpp", "lib/core/string.cpp", "lib/units/dim.cpp", "lib/units/except.cpp", "lib/units/string.cpp", "lib/units/unit.cpp")
DEMO=r'''
#include <cstdio>
#include "scipp/core/sizes.h"
#include "scipp/core/dimensions.h"
using namespace scipp; using namespace scipp::core;
int main() {
  int bad = 0;
  for (long x = 1; x < 4; ++x) for (long y = 1; y < 4; ++y) for (long X = 1; X < 4; ++X) for (long Y = 1; Y < 5; ++Y) {
    const Dimensions s({Dim::X, Dim::Y}, {x, y}); const Dimensions d({Dim::X, Dim::Y}, {X, Y});
    const bool want = X == x && Y == y + 1;
    if (is_edges(s, d, Dim::Y) != want) { std::printf("sizes %ld %ld, coord %ld %ld\n", x, y, X, Y); ++bad; }
  }
  return bad != 0;
}
'''
