exec(open("/verif/tools/seeds/D07a.py").read())
ID = "D08-setslice-order"; PROP = "D08"
NEEDS = "A slice assignment of an array with a mask, where the mask fits but the data is refused (read-only, or of a different shape)."
BREAKS = "the masks are overwritten before the data is checked: an assignment that raises leaves the masks of the target changed"
EDITS = [("lib/dataset/data_array.cpp", "  data().validateSlice(s, array.data());\n  // Apply changes\n  masks().setSlice(s, array.masks());\n  return", "  // Apply changes\n  masks().setSlice(s, array.masks());\n  data().validateSlice(s, array.data());\n  return")]
DEMO = MODEL + '''
#include "dataset/data_array.cpp"
''' + r'''
using namespace scipp::dataset;
int main() {
  const Dim x("x");
  const auto masks = [&](long n, long id) { Masks::holder_type m; m.insert_or_assign(std::string("m"), Variable(Dimensions(x, n), id)); return m; };
  Variable fixed(Dimensions(x, 3), 1); fixed.readonly = true;
  DataArray a(fixed, {}, masks(3, 2)), b(Variable(Dimensions(x, 2), 3), {}, masks(2, 4));
  bool raised = false;
  try { a.setSlice(Slice(x, 0, 2), b); } catch (const std::exception &) { raised = true; }
  const auto &c = a; printf("raised %d, mask overwritten with %ld\n", (int)raised, c.masks().at("m").written);
  return raised && c.masks().at("m").written == 0 ? 0 : 1;
}
'''
