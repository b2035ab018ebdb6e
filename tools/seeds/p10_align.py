exec(open("/verif/tools/seeds/common.txt").read())
ID, PROP = "p10_keys_subset", "P10"
NEEDS = "a second argument with a coord, mask or item that the first one lacks"
BREAKS = "assert_identical(a, b) passes if b has more entries than a"
EDITS = [("src/scipp/testing/assertions.py", "        assert a.keys() == b.keys()", "        assert a.keys() <= b.keys()")]
FILES = files('''
from scipp.testing import assert_identical
import scipp
g = scipp.DataGroup
assert_identical(g(a=1), g(a=1))
for x, y in ((g(a=1, b=2), g(a=1)), (g(a=1), g(a=2)), (g(a=1), g(a=1, b=2))):
    try: assert_identical(x, y)
    except AssertionError: continue
    raise SystemExit("differing groups pass")
''')
