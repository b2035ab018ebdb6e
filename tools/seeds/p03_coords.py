exec(open("/verif/tools/seeds/common.txt").read())
ID, PROP = "p03_reduced_coords", "P03"
NEEDS = "a reduction over two or more dims at once of a data array with a coord (or attribute) that depends on only one of them"
BREAKS = "the result keeps a coord of a dim that no longer exists"
EDITS = [("src/scipp/core/concepts.py", "if ref_dims.isdisjoint(var.dims)}", "if not ref_dims.issubset(var.dims)}")]
FILES = files('''
from scipp.core import concepts
class V:
    def __init__(s, *dims): s.dims = dims
    def copy(s): return s
class DA:
    dims = ("x", "y", "z"); coords = {"a": V("x"), "b": V("x", "y"), "c": V("z"), "d": V("y", "z"), "e": V()}
assert set(concepts.reduced_coords(DA, "x")) == {"c", "d", "e"}
assert set(concepts.reduced_coords(DA, ("x", "y"))) == {"c", "e"}, set(concepts.reduced_coords(DA, ("x", "y")))
''')
