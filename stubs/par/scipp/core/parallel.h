// Model of the threading wrappers: the range is split into chunks that are disjoint, cover it and run in no particular order.
#pragma once
#include <algorithm>
#include "scipp/common/index.h"
namespace scipp::core::parallel {
class blocked_range {
public:
  constexpr blocked_range(const scipp::index begin, const scipp::index end, const scipp::index = 1) noexcept : b(begin), e(end) {}
  constexpr scipp::index begin() const noexcept { return b; }
  constexpr scipp::index end() const noexcept { return e; }
  constexpr bool empty() const noexcept { return !(b < e); }
  constexpr scipp::index size() const noexcept { return e - b; }
private:
  scipp::index b, e;
};
template <class Op> void parallel_for(const blocked_range &range, Op &&op) {
  if (range.size() > 1) { op(blocked_range(range.begin() + 1, range.end())); op(blocked_range(range.begin(), range.begin() + 1)); }
  else if (range.size() == 1) op(range);
}
template <class... Args> void parallel_sort(Args &&...args) { std::sort(std::forward<Args>(args)...); }
} // namespace scipp::core::parallel
