ID="D06-resize-keeps"; PROP="D06"
NEEDS="a non-empty buffer with content resized to its present size"
BREAKS="resize to the size the buffer already has keeps the old elements instead of giving default values"
EDITS=[("lib/core/include/scipp/core/element_array.h", "  void resize(const scipp::index new_size) { *this = element_array(new_size); }", """  void resize(const scipp::index new_size) {
    if (new_size == 0 || new_size != size())
      *this = element_array(new_size);
  }""")]
OWN=("units_impl.cpp",); SRCS=("lib/core/sizes.cpp", "lib/core/dimensions.cpp", "lib/core/slice.cpp", "lib/core/strides.cpp", "lib/core/except.cpp", "lib/core/multi_index.cpp", "lib/core/view_index.cpp", "lib/core/element_array_view.cpp", "lib/core/string.cpp", "lib/units/dim.cpp", "lib/units/except.cpp", "lib/units/string.cpp", "lib/units/unit.cpp")
FLAGS="-Wl,--no-as-needed -ltbb"
DEMO=r'''
#include <algorithm>
#include <cstdio>
#include "scipp/core/element_array.h"
using namespace scipp; using namespace scipp::core;
int main() {
  int bad = 0;
  for (int n = 0; n < 4; ++n) for (int m = 0; m < 4; ++m) {
    element_array<double> a(n, 3.5); a.resize(m);
    if (a.size() != m) ++bad;
    for (const auto &x : a) if (x != 0.0) ++bad;
  }
  std::printf("%d\n", bad); return bad != 0;
}
'''
