ID = "K12-inplace-bool"; PROP = "K12"
NEEDS = "In-place addition or subtraction of a bool to an int64: only this pair of types is affected."
BREAKS = "adding bool to int64 in place is refused, although it is exact and supported (as for float64), e.g. counting with a mask"
EDITS = [("lib/core/include/scipp/core/element/arithmetic.h", "             std::tuple<double, bool>, std::tuple<int64_t, bool>, Extra...>;", "             std::tuple<double, bool>, std::tuple<float, bool>, Extra...>;")]
DEMO = r'''
#include "scipp/core/element/arithmetic.h"
#include <cstdio>
#include <tuple>
using namespace scipp::core;
template <class T, class L> struct has; template <class T, class... Ts> struct has<T, std::tuple<Ts...>> { static constexpr bool value = (std::is_same_v<T, Ts> || ...); };
template <class T, class Op> bool supported(const Op &) { return has<T, typename Op::types>::value; }
int main() {
  using P = std::tuple<int64_t, bool>;
  if (!supported<P>(element::add_equals) || !supported<P>(element::subtract_equals) || !supported<P>(element::nan_add_equals)) { puts("int64 += bool is not supported"); return 1; }
  return 0;
}
'''
