exec(open("/verif/tools/seeds/common.txt").read())
ID, PROP = "p04_arange_step", "P04"
NEEDS = "arange with integer start and stop and a non-integer step"
BREAKS = "the dtype is deduced from start and stop only, so the steps are truncated to integers"
EDITS = [("src/scipp/core/variable.py", "        for x in (start, stop, step)\n        if x is not None", "        for x in (start, stop, step)[: 3 if stop is None else 2]\n        if x is not None")]
FILES = files('''
from scipp.core import variable
got = {}
variable.array = lambda **kw: got.update(kw)
variable.arange("x", 0, 2, 0.5)
assert list(got["values"]) == [0.0, 0.5, 1.0, 1.5], got
variable.arange("x", 3)
assert list(got["values"]) == [0, 1, 2] and got["values"].dtype.kind == "i", got
''')
