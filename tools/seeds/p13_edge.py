exec(open("/verif/tools/seeds/common.txt").read())
ID, PROP = "p13_edge", "P13"
NEEDS = "a coord of length 2 along a dim that is not a dim of the data (edges of a slice)"
BREAKS = "the bin edges of a slice are no longer marked as such"
EDITS = [("src/scipp/visualization/formatting_html.py", "dim for dim, length in var.sizes.items() if ds.sizes.get(dim, 1) + 1 == length", "dim for dim, length in var.sizes.items() if ds.sizes.get(dim, 0) + 1 == length")]
FILES = files('''
from scipp.visualization import formatting_html as f
class O:
    def __init__(s, **sizes): s.sizes = sizes
for n in range(4):
    for m in range(5):
        assert f._find_bin_edges(O(x=m), O(x=n)) == (["x"] if m == n + 1 else [])
        assert f._find_bin_edges(O(x=m, y=m), O(y=n)) == (["x"] if m == 2 else []) + (["y"] if m == n + 1 else []), (n, m)
''')
