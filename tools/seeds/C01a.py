ID="C01-arange-wrap"; PROP="C01"
NEEDS="an integer sequence with constant steps other than one, long enough that the first step is one"
BREAKS="a sequence is called a range of consecutive integers when only its ends are consistent: wrong for repeated and skipped values in between"
EDITS=[("lib/common/include/scipp/common/numeric.h", """  if (range.back() <= range.front())
    return false;
  return std::adjacent_find(range.begin(), range.end(),
                            [](const auto &a, const auto &b) {
                              return b - a != 1;
                            }) == range.end();""", """  if (range.back() - range.front() != scipp::size(range) - 1)
    return false;
  return std::adjacent_find(range.begin(), range.end(),
                            [](const auto &a, const auto &b) {
                              return b < a;
                            }) == range.end();""")]
NEEDS="an integer sequence without descents whose ends differ by its length minus one but which repeats one value and skips another"
DEMO=r'''
#include <cstdio>
#include <cstdint>
#include <vector>
#include "scipp/common/index.h"
#include "scipp/common/numeric.h"
int main() {
  int bad = 0;
  for (int64_t a = 0; a < 4; ++a) for (int64_t b = 0; b < 4; ++b) for (int64_t c = 0; c < 4; ++c) for (int64_t d = 0; d < 4; ++d) {
    const std::vector<int64_t> v{a, b, c, d};
    const bool want = b == a + 1 && c == b + 1 && d == c + 1;
    if (scipp::numeric::isarange(v) != want) { std::printf("%ld %ld %ld %ld\n", (long)a, (long)b, (long)c, (long)d); ++bad; }
  }
  return bad != 0;
}
'''
