ID="D03-erase-unnoticed"; PROP="D03"
NEEDS="an iterator kept while the dictionary is shrunk in place (erase), or while it is cleared"
BREAKS="an iterator used after entries were erased does not raise: the buffer is the same and the size is only checked for growth"
EDITS=[("lib/core/include/scipp/core/dict.h", "        m_container.get().size() != m_size) {", "        m_container.get().size() > m_size) {")]
OWN=("units_impl.cpp",); SRCS=("lib/core/sizes.cpp", "lib/core/dimensions.cpp", "lib/core/slice.cpp", "lib/core/strides.cpp", "lib/core/except.cpp", "lib/core/multi_index.cpp", "lib/core/view_index.cpp", "lib/core/element_array_view.cpp", "lib/core/string.cpp", "lib/units/dim.cpp", "lib/units/except.cpp", "lib/units/string.cpp", "lib/units/unit.cpp")
DEMO=r'''
#include <algorithm>
#include <cstdio>
#include "scipp/core/dict.h"
#include "scipp/core/sizes.h"
using namespace scipp; using namespace scipp::core;
namespace scipp::core {
template <class It> std::string dict_keys_to_string(It, It, const std::string_view &) { return ""; }
}
int main() {
  int bad = 0;
  for (int n = 1; n < 5; ++n) for (int e = 0; e < n; ++e) for (int op = 0; op < 3; ++op) {
    Dict<int, double> d; for (int i = 0; i < n; ++i) d.insert_or_assign(i, 1.5 * i);
    auto it = d.begin(); auto vt = d.values_begin(); d.erase(e);
    bool raised = false;
    try { if (op == 0) ++it; else if (op == 1) (void)(it == it); else ++vt; } catch (const std::runtime_error &) { raised = true; }
    if (!raised) ++bad;
  }
  std::printf("%d\n", bad); return bad != 0;
}
'''
