ID="C02-unlocked-name"; PROP="C02"
NEEDS="one thread printing a label while another creates a new one, with the table rehashing at that instant"
BREAKS="Dim::name reads the label table after the read lock was released: data race with the creation of labels"
EDITS=[("lib/units/dim.cpp", """  const std::shared_lock read_lock(mutex);
  for (const auto &item : custom_ids())""", """  const auto &ids = [] {
    const std::shared_lock read_lock(mutex);
    return std::cref(custom_ids());
  }().get();
  for (const auto &item : ids)"""), ("lib/units/dim.cpp", "#include <limits>", "#include <functional>\n#include <limits>")]
SRCS=("lib/units/dim.cpp",); FLAGS="-g -fsanitize=thread -pthread"
DEMO=r'''
#include <atomic>
#include <cstdio>
#include <string>
#include <thread>
#include <vector>
#include "scipp/units/dim.h"
using scipp::units::Dim;
int main() {
  std::vector<std::thread> t;
  std::atomic<int> bad{0};
  const Dim first("first");
  for (int k = 0; k < 3; ++k)
    t.emplace_back([&, k] {
      for (int i = 0; i < 1500; ++i) {
        const std::string n = "t" + std::to_string(k) + "_" + std::to_string(i);
        if (Dim(n).name() != n || first.name() != "first") ++bad;
      }
    });
  for (auto &x : t) x.join();
  return bad != 0;
}
'''
