exec(open("/verif/tools/seeds/common.txt").read())
ID, PROP = "p02_sizes_edges", "P02"
NEEDS = "a group whose items disagree on the size of a dim in which the first item has the largest extent (e.g. bin edges first)"
BREAKS = "dims with inconsistent sizes report a size instead of None, so operations needing a definite size go on with a wrong one"
EDITS = [("src/scipp/core/data_group.py", "return {d: next(iter(s)) if len(s) == 1 else None for d, s in all_sizes.items()}", "return {\n            d: next(iter(s)) if max(s, default=0) - min(s, default=0) <= 1 else None\n            for d, s in all_sizes.items()\n        }")]
FILES = files('''
import scipp
class A:
    def __init__(s, **sizes): s.sizes = sizes; s.dims = tuple(sizes)
g = scipp.DataGroup(a=A(x=4), b=A(x=3, y=2), c=5)
assert g.sizes == {"x": None, "y": 2}, g.sizes
assert scipp.DataGroup(a=A(x=4), b=A(x=4)).sizes == {"x": 4}
''')
