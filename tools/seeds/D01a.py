ID="D01-flatten-stride"; PROP="D01"
NEEDS="random access (set_index) into a view of at least two dimensions that are contiguous with each other, followed by nothing but stepping"
BREAKS="flattening a contiguous dimension records the outer stride for the merged dimension: stepping is right, jumping to an element is not"
EDITS=[("lib/core/view_index.cpp", "      m_shape[dim_write - 1] *= size;\n", "      m_shape[dim_write - 1] *= size;\n      m_strides[dim_write - 1] = stride;\n")]
OWN=("units_impl.cpp",); SRCS=("lib/core/sizes.cpp", "lib/core/dimensions.cpp", "lib/core/slice.cpp", "lib/core/strides.cpp", "lib/core/except.cpp", "lib/core/multi_index.cpp", "lib/core/view_index.cpp", "lib/core/string.cpp", "lib/units/dim.cpp", "lib/units/except.cpp", "lib/units/string.cpp", "lib/units/unit.cpp")
DEMO=r'''
#include <cstdio>
#include "scipp/core/dimensions.h"
#include "scipp/core/strides.h"
#include "scipp/core/view_index.h"
using namespace scipp; using namespace scipp::core;
int main() {
  int bad = 0;
  for (long a : {2, 3}) for (long b : {1, 2, 3}) for (long s : {0, 1, 2, 3, 4, 5, 6}) for (long t : {0, 1, 2}) {
    const Dimensions dims({Dim::X, Dim::Y}, {a, b}); const Strides st{s, t};
    ViewIndex step(dims, st);
    for (long i = 0; i < a * b; ++i) {
      ViewIndex jump(dims, st); jump.set_index(i);
      const long want = (i / b) * s + (i % b) * t;
      if (step.get() != want || jump.get() != want) { std::printf("shape %ld,%ld strides %ld,%ld element %ld: step %ld jump %ld want %ld\n", a, b, s, t, i, step.get(), jump.get(), want); ++bad; }
      step.increment();
    }
  }
  return bad != 0;
}
'''
