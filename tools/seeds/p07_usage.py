exec(open("/verif/tools/seeds/common.txt").read())
ID, PROP = "p07_usages_per_rule", "P07"
NEEDS = "keep_inputs=False and a graph in which two rules use the same input coord, the second one after the first has consumed it"
BREAKS = "a coord is counted as used once however many rules depend on it, so later rules find it gone"
EDITS = [("src/scipp/coords/coord_table.py", "            usages[name] += 1", "            usages[name] = 1")]
FILES = files('''
from scipp.coords import coord_table as ct
from scipp.coords.coord import Coord
class R:
    def __init__(s, *d): s.dependencies = d; s.out_names = ("o%d" % id(s),)
class O: keep_inputs = keep_intermediate = keep_aliases = False
t = ct.CoordTable([R("a", "b"), R("a")], {"z"}, O)
for n in "ab": t.add(n, Coord(dense=n, event=None, aligned=True))
assert t.consume("a").dense == "a" and t.consume("b").dense == "b"
assert t.consume("a").dense == "a", "input is gone for the second rule"
assert not dict(t.items())["a"].has_dense
''')
