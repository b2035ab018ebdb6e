ID="C02-id-wrap"; PROP="C02"
NEEDS="creation of more than 64536 different labels in one process"
BREAKS="identifiers wrap around to the built-in values: labels collide instead of an error being raised"
EDITS=[("lib/units/dim.cpp", "  if (id > std::numeric_limits<std::underlying_type<Id>::type>::max())", "  if (id > std::numeric_limits<std::underlying_type<Id>::type>::max() &&\n      custom_ids().size() > std::numeric_limits<uint16_t>::max())")]
SRCS=("lib/units/dim.cpp",)
DEMO=r'''
#include <cstdio>
#include <set>
#include <stdexcept>
#include <string>
#include "scipp/units/dim.h"
using scipp::units::Dim;
int main() {
  std::set<long> ids;
  try {
    for (int i = 0; i < 66000; ++i) {
      const Dim d("label" + std::to_string(i));
      if (static_cast<long>(d.id()) < 1000 || !ids.insert(static_cast<long>(d.id())).second) { std::printf("label %d has id %ld\n", i, static_cast<long>(d.id())); return 1; }
    }
  } catch (const std::runtime_error &) { return 0; }
  std::printf("no error\n");
  return 1;
}
'''
