import glob, os
ID = "D07-slice-aligned"; PROP = "D07"
NEEDS = "A point slice of data with a coord of more than one dimension (or with bin edges) along the slice."
BREAKS = "after a point slice, whether a coord is unaligned is judged by what the coord is after the slice instead of before: a coord of the sliced dimension may stay aligned and then prevents operations with other slices"
EDITS = [("lib/dataset/sized_dict.cpp", "    if (unaligned_by_dim_slice(*this, key, var, params))", "    if (unaligned_by_dim_slice(coords, key, coords.at(key), params))")]
SRCS = ["lib/units/%s.cpp" % n for n in ("dim", "except", "string", "unit")] + ["lib/core/string.cpp"]
OWN = ["units_impl.cpp"]; FLAGS = '-I"$here/model" -I"$PWD/lib"'
FILES = {("model/" + os.path.relpath(f, "/verif/stubs/mockvar")): open(f).read() for f in glob.glob("/verif/stubs/mockvar/**/*.h", recursive=True)}
MODEL = r'''
// The dictionary of coords, with a stand-in for variables: labels, flags and which part of which content they are.
#include <boost/container/small_vector.hpp>
#include "core/sizes.cpp"
#include "core/dimensions.cpp"
#include "core/strides.cpp"
#include "core/slice.cpp"
#include "core/except.cpp"
#include "scipp/dataset/data_array.h"
#include "dataset/except.cpp"
#define expect_writable expect_writable_dict
#include "dataset/sized_dict.cpp"
#undef expect_writable
#include <cstdio>
using namespace scipp; using scipp::variable::Variable; using scipp::dataset::Coords;
namespace scipp::variable { std::string to_string(const Variable &) { return "variable"; } }
namespace scipp::dataset { std::string to_string(const Coords &) { return "coords"; } std::string to_string(const Masks &) { return "masks"; } std::string to_string(const DataArray &) { return "array"; } std::string to_string(const Dataset &) { return "dataset"; }
std::string dict_keys_to_string(const Coords &) { return "keys"; } std::string dict_keys_to_string(const Masks &) { return "keys"; } std::string dict_keys_to_string(const Dataset &) { return "keys"; }
bool Dataset::contains(const std::string &) const noexcept { return false; } }
namespace scipp::core { template <class It> std::string dict_keys_to_string(It, It, const std::string_view &) { return "keys"; }
void use(Dict<Dim, Variable> &a, Dict<std::string, Variable> &b) { dict_keys_to_string(a.keys_begin(), a.keys_end(), ""); dict_keys_to_string(b.keys_begin(), b.keys_end(), ""); } }
'''
DEMO = MODEL + r'''
int main() {
  const Dim x("x"), y("y");
  Sizes sizes; sizes.set(x, 3); sizes.set(y, 2);
  Coords coords(sizes, {});
  Dimensions xy; xy.addInner(x, 3); xy.addInner(y, 2);
  Dimensions edges; edges.addInner(x, 4);
  coords.set(x, Variable(edges, 1)); coords.set(y, Variable(Dimensions(y, 2), 2)); coords.set(Dim("z"), Variable(Dimensions(x, 3), 3)); coords.set(Dim("w"), Variable(xy, 4));
  const auto s = coords.slice_coords(Slice(x, 1));
  int bad = 0;
  const auto expect = [&](const Dim d, const bool aligned) { if (s[d].is_aligned() != aligned) { ++bad; printf("%s aligned: %d\n", d.name().c_str(), (int)s[d].is_aligned()); } };
  expect(x, false); expect(y, true); expect(Dim("z"), false); expect(Dim("w"), true);
  return bad;
}
'''
