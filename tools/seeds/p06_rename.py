exec(open("/verif/tools/seeds/common.txt").read())
ID, PROP = "p06_rename_attr", "P06"
NEEDS = "rename to a name for which the data array has no coord but an attribute"
BREAKS = "the existing attribute is overwritten instead of raising CoordError"
EDITS = [("src/scipp/core/dimensions.py", "        if new in out.deprecated_meta:", "        if new in out.coords:")]
FILES = files('''
from scipp.core import dimensions as d
class DA:
    bins = None
    def __init__(s, coords, attrs): s.coords, s.deprecated_attrs = dict(coords), dict(attrs)
    deprecated_meta = property(lambda s: {**s.coords, **s.deprecated_attrs})
    def rename_dims(s, m): return DA(s.coords, s.deprecated_attrs)
assert d._rename_data_array(DA({"x": 1}, {"z": 2}), x="a").coords == {"a": 1}
for da in (DA({"x": 1, "y": 2}, {}), DA({"x": 1}, {"y": 2}), DA({}, {"x": 1, "y": 2})):
    try: r = d._rename_data_array(da, {"x": "y"})
    except d.CoordError: pass
    else: raise AssertionError("overwrote y: %s %s" % (r.coords, r.deprecated_attrs))
''')
