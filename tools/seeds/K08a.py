ID="K08-isclose-tol"; PROP="K08"
NEEDS="isclose with an absolute tolerance whose unit differs from the unit of the compared data"
BREAKS="the unit of the tolerance is no longer checked, so metres are silently compared within a tolerance given in seconds or millimetres"
EDITS=[("lib/core/include/scipp/core/element/comparison.h", """  expect::equals(x, y);
  expect::equals(x, t);
  return units::none;""", """  expect::equals(x, y);
  if (!t.has_value())
    expect::equals(x, t);
  return units::none;""")]
OWN=("units_impl.cpp",); SRCS=("lib/units/unit.cpp", "lib/units/except.cpp", "lib/units/string.cpp", "lib/units/dim.cpp")
DEMO=r'''
#include <cstdio>
#include "scipp/core/element/comparison.h"
using namespace scipp;
int main() {
  int bad = 0;
  const units::Unit u[] = {units::m, units::mm, units::s, units::one, units::none};
  for (const auto &x : u) for (const auto &t : u) {
    bool threw = false;
    try { if (core::element::isclose(x, x, t) != units::none) ++bad; } catch (const except::UnitError &) { threw = true; }
    if (threw != (x != t)) { std::printf("isclose(%s, %s, tol %s): threw %d\n", x.name().c_str(), x.name().c_str(), t.name().c_str(), threw); ++bad; }
  }
  return bad != 0;
}
'''
