ID="D02-merge-order"; PROP="D02"
NEEDS="merging dimensions that share a label where the second has two or more further labels before the shared one, one of which is also in the first at a later position"
BREAKS="a label of the second operand that appears before a shared label is skipped when it follows another shared label: the merged dimensions miss it"
EDITS=[("lib/core/dimensions.cpp", """      while (it != end && *it != dim) {
        if (!a.contains(*it))
          out.addInner(*it, b[*it]);
        ++it;
      }""", """      while (it != end && *it != dim) {
        if (a.contains(*it)) {
          it += 2;
          break;
        }
        out.addInner(*it, b[*it]);
        ++it;
      }""")]
OWN=("units_impl.cpp",); SRCS=("lib/core/sizes.cpp", "lib/core/dimensions.cpp", "lib/core/slice.cpp", "lib/core/strides.cpp", "lib/core/except.cpp", "lib/core/multi_index.cpp", "lib/core/view_index.cpp", "lib/core/string.cpp", "lib/units/dim.cpp", "lib/units/except.cpp", "lib/units/string.cpp", "lib/units/unit.cpp")
DEMO=r'''
#include <algorithm>
#include <cstdio>
#include <vector>
#include "scipp/core/dimensions.h"
using namespace scipp; using namespace scipp::core;
int main() {
  int bad = 0;
  std::vector<int> p{0, 1, 2, 3}, q{0, 1, 2, 3};
  const Dim L[] = {Dim::X, Dim::Y, Dim::Z, Dim::Time};
  do { std::sort(q.begin(), q.end()); do for (int n = 0; n < 4; ++n) for (int m = 0; m < 4; ++m) {
    Dimensions a, b;
    for (int i = 0; i < n; ++i) a.addInner(L[p[i]], p[i] + 2);
    for (int i = 0; i < m; ++i) b.addInner(L[q[i]], q[i] + 2);
    const auto r = merge(a, b);
    for (int i = 0; i < 4; ++i) {
      const bool want = a.contains(L[i]) || b.contains(L[i]);
      if (r.contains(L[i]) != want || (want && r[L[i]] != i + 2)) ++bad;
    }
  } while (std::next_permutation(q.begin(), q.end())); } while (std::next_permutation(p.begin(), p.end()));
  std::printf("%d wrong\n", bad);
  return bad != 0;
}
'''
