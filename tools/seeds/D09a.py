ID = "D09-sizes-layout"; PROP = "D09"
NEEDS = "Two binned operands whose tables of bins are laid out differently (one is transposed) and whose bins differ in size."
BREAKS = "bin sizes are compared at the position of the first operand in both tables: matching operands are refused and mismatching ones accepted, pairing events with those of another bin or beyond the buffer"
EDITS = [("lib/core/multi_index.cpp", "auto index = MultiIndex(iterDims, param0.strides(), param1.strides());", "auto index = MultiIndex(iterDims, param0.strides(), param0.strides());")]
CORE = ["lib/core/%s.cpp" % n for n in ("sizes", "dimensions", "slice", "strides", "except", "multi_index", "view_index", "element_array_view", "string")]
SRCS = CORE + ["lib/units/%s.cpp" % n for n in ("dim", "except", "string", "unit")]
OWN = ["units_impl.cpp"]
DEMO = r'''
#include "scipp/core/multi_index.h"
#include "scipp/core/element_array_view.h"
#include "scipp/core/except.h"
#include <cstdio>
using namespace scipp; using namespace scipp::core;
int main() {
  using R = std::pair<scipp::index, scipp::index>;
  const Dim x("x"), y("y"), ev("event");
  Dimensions outer; outer.addInner(x, 2); outer.addInner(y, 2);
  const Dimensions inner(ev, 100);
  const R a[] = {{0, 1}, {1, 3}, {3, 6}, {6, 10}};          // stored by x, then y
  const R b[] = {{10, 11}, {20, 23}, {30, 32}, {40, 44}};   // stored by y, then x: the same sizes
  const R c[] = {{10, 11}, {20, 22}, {30, 33}, {40, 44}};   // other sizes
  const auto params = [&](const R *r, const Strides &s) { return ElementArrayViewParams(0, outer, s, BucketParams{ev, inner, Strides{1}, r}); };
  const Strides rows{2, 1}, cols{1, 2};
  try {
    MultiIndex<2> m(params(a, rows), params(b, cols));
    int n = 0;
    for (auto it = m.begin(); it != m.end(); it.increment(), ++n) {
      const auto [i, j] = it.get();
      const scipp::index expected[] = {10, 30, 31, 20, 21, 22, 40, 41, 42, 43};
      if (i != n || j != expected[n]) { printf("event %d pairs with %ld\n", n, (long)j); return 1; }
    }
    if (n != 10) return 1;
  } catch (const std::exception &e) { puts("matching bins refused"); return 1; }
  try { MultiIndex<2> m(params(a, rows), params(c, cols)); puts("mismatching bins accepted"); return 1; } catch (const except::BinnedDataError &) {}
  return 0;
}
'''
