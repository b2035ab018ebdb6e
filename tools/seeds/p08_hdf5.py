exec(open("/verif/tools/seeds/common.txt").read())
ID, PROP = "p08_hdf5_sorted", "P08"
NEEDS = "an object with names that are equal after conversion to ASCII, or an item that is skipped before another one"
BREAKS = "items are stored under their position among the names sorted alphabetically, so the order of items changes when the file is read"
EDITS = [("src/scipp/io/hdf5.py", "    for i, name in enumerate(mapping):", "    for i, name in enumerate(sorted(mapping)):")]
FILES = files('''
from scipp.io import hdf5 as h
class G(dict):
    def __init__(s): s.attrs = {}
    def create_group(s, n): s[n] = G(); return s[n]
class IO:
    @staticmethod
    def write(group, data): group.attrs["data"] = data; return group
    @staticmethod
    def read(g): return g.attrs["data"]
h._HDF5IO = IO
m = {"b": 1, "a": 2, "ä": 3, "c/d": 4}
g = G(); h._write_mapping(g, m)
back = h._read_mapping(dict(sorted(g.items())) and type("S", (), {"values": lambda s: [g[k] for k in sorted(g)]})())
assert back == m, back
assert list(back) == list(m), list(back)
''')
