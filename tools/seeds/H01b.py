ID="H01-group-offset"; PROP="H01"
NEEDS="grouping by contiguous integer labels with an event whose label is exactly one past the last group, after a previous binning step"
BREAKS="a label one past the last group is not dropped but assigned to the first group of the next outer bin"
EDITS=[("lib/core/include/scipp/core/element/bin.h", "index = group < 0 || group >= ngroup ? -1 : (index + group);", "index = group < 0 || group > ngroup ? -1 : (index + group);")]
OWN=("units_impl.cpp",); SRCS=("lib/units/unit.cpp", "lib/units/except.cpp", "lib/units/string.cpp", "lib/units/dim.cpp", "lib/core/subbin_sizes.cpp", "lib/core/except.cpp", "lib/core/string.cpp", "lib/core/sizes.cpp", "lib/core/dimensions.cpp", "lib/core/slice.cpp")
DEMO=r'''
#include <cstdio>
#include <cstdint>
#include "scipp/core/element/bin.h"
int main() {
  int bad = 0;
  for (int64_t start : {-1, 0, 1, 5}) for (int64_t x = -3; x < 10; ++x) for (scipp::index n : {1, 3}) for (int64_t off : {0, 2}) {
    int64_t i = start;
    scipp::core::element::update_indices_by_grouping_contiguous(i, x, n, off);
    const int64_t want = (start == -1 || x < off || x >= off + n) ? -1 : start * n + (x - off);
    if (i != want) { std::printf("start %ld label %ld groups %ld from %ld: %ld, not %ld\n", (long)start, (long)x, (long)n, (long)off, (long)i, (long)want); ++bad; }
  }
  return bad != 0;
}
'''
