ID = "K11-map-weights"; PROP = "K11"
NEEDS = "Binning by a coordinate of the existing bins that has variances."
BREAKS = "the coordinates of existing bins are no longer refused when they have variances: bins are selected by the value alone, the uncertainty of the bin bound is dropped without notice"
EDITS = [("lib/core/include/scipp/core/element/bin_detail.h", "    transform_flags::expect_no_variance_arg<2>};", "    transform_flags::expect_no_variance_arg<1>};")]
DEMO = r'''
#include "scipp/core/element/bin_detail.h"
#include "scipp/core/transform_common.h"
#include <cstdio>
using namespace scipp::core;
// what transform does with an operand: refuse variances if the operation is flagged so for that position
template <int N, class Op> bool refused(const Op &) { return std::is_base_of_v<transform_flags::expect_no_variance_arg_t<N>, Op>; }
int main() {
  if (!refused<2>(element::begin_edge) || !refused<2>(element::end_edge)) { puts("coords with variances are accepted"); return 1; }
  return 0;
}
'''
