exec(open("/verif/tools/seeds/common.txt").read())
ID, PROP = "p05_replaced_dims", "P05"
NEEDS = "binning or histogramming by two coords of which one is multi-dimensional and depends on the dim of the other"
BREAKS = "a dim that a coord replaces is kept, since only the inner dim of a multi-dimensional coord counts as replaced"
EDITS = [("src/scipp/core/binning.py", "replaced.update(x.coords[name].dims)", "replaced.update(x.coords[name].dims[-1:])")]
FILES = files('''
from scipp.core import binning
class V:
    def __init__(s, *dims): s.dims = dims
class DA:
    dims = ("x", "y", "z"); coords = {"a": V("x", "y"), "z": V("z"), "w": V("z")}
f = binning._find_replaced_dims
assert f(DA, dims=["z"], dim=None) == []
assert f(DA, dims=["w"], dim=None) == ["z"]
assert f(DA, dims=["a"], dim=None) == ["x", "y"], f(DA, dims=["a"], dim=None)
''')
