ID="K07-mod-zero"; PROP="K07"
NEEDS="in-place modulo by zero (integer or floating point)"
BREAKS="a %= 0 leaves a unchanged for integers and differs for floats, whereas a % 0 gives 0 and NaN respectively"
EDITS=[("lib/core/include/scipp/core/element/arithmetic.h", """    [](auto &&a, const auto &b) { a = mod(a, b); }};""", """    [](auto &&a, const auto &b) { a -= numeric::floor_divide(a, b) * b; }};""")]
DEMO=r'''
#include <cmath>
#include <cstdio>
#include <cstdint>
#include "scipp/core/element/arithmetic.h"
using namespace scipp::core;
int main() {
  int bad = 0;
  for (int64_t a : {-7ll, 7ll, 0ll}) for (int64_t b : {3ll, -3ll, 0ll}) {
    int64_t x = a; element::mod_equals(x, b);
    const int64_t w = element::mod(a, b);
    if (x != w) { std::printf("%lld %%= %lld: %lld != %lld\n", (long long)a, (long long)b, (long long)x, (long long)w); ++bad; }
  }
  return bad != 0;
}
'''
