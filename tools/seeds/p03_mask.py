exec(open("/verif/tools/seeds/common.txt").read())
ID, PROP = "p03_mask_transposed", "P03"
NEEDS = "a data array with exactly one irreducible mask whose dims are in another order than those of the data"
BREAKS = "reductions through numpy apply the mask to the wrong elements, since the mask is not brought into the order of the data"
EDITS = [("src/scipp/core/concepts.py", "return _transposed_like_data(irreducible[0]).copy()", "return irreducible[0].copy()")]
FILES = files('''
from scipp.core import concepts
class V:
    def __init__(s, *dims): s.dims = dims
    def copy(s): return V(*s.dims)
    def transpose(s, dims): return V(*dims)
class DA:
    dims = ("x", "y", "z"); masks = {"m": V("z", "x"), "n": V("y")}
r = concepts.irreducible_mask(DA, "z")
assert tuple(r.dims) == ("x", "z"), r.dims
''')
