ID="D05-stride-remainder"; PROP="D05"
NEEDS="a strided slice with at least two elements left over after the last full step"
BREAKS="the number of selected elements counts the left-over elements instead of at most one: too long for strides above two"
EDITS=[("lib/core/sizes.cpp", """        (params.end() - params.begin()) % params.stride() != 0;""", """        (params.end() - params.begin()) % params.stride();""")]
OWN=("units_impl.cpp",); SRCS=("lib/core/sizes.cpp", "lib/core/dimensions.cpp", "lib/core/slice.cpp", "lib/core/strides.cpp", "lib/core/except.cpp", "lib/core/multi_index.cpp", "lib/core/view_index.cpp", "lib/core/string.cpp", "lib/units/dim.cpp", "lib/units/except.cpp", "lib/units/string.cpp", "lib/units/unit.cpp")
DEMO=r'''
#include <cstdio>
#include "scipp/core/sizes.h"
#include "scipp/core/dimensions.h"
#include "scipp/core/slice.h"
using namespace scipp; using namespace scipp::core;
int main() {
  int bad = 0;
  for (long b = 0; b <= 12; ++b) for (long e = b; e <= 12; ++e) for (long s = 1; s < 7; ++s) {
    const Sizes d(Dimensions({Dim::X, Dim::Y}, {12, 3}));
    long want = 0; for (long i = b; i < e; i += s) ++want;
    const auto r = d.slice(Slice(Dim::X, b, e, s));
    if (r[Dim::X] != want || r[Dim::Y] != 3) { std::printf("[%ld:%ld:%ld] has %ld not %ld\n", b, e, s, (long)r[Dim::X], want); ++bad; }
  }
  return bad != 0;
}
'''
