exec(open("/verif/tools/seeds/common.txt").read())
ID, PROP = "p11_odd_length", "P11"
NEEDS = "a format spec with selection of both edges and an odd length, and more elements than that"
BREAKS = "one element less than asked for is shown"
EDITS = [("src/scipp/format/formatter.py", "slice(-spec.length // 2, None)", "slice(-(spec.length // 2), None)")]
FILES = files('''
from scipp.format import formatter as f
from scipp.format._parse import parse
for n in range(1, 9):
    for sel in ("", "^", "<", ">"):
        out = f._format_array_flat_regular(list(range(20)), dtype=None, spec=parse("%s#%d" % (sel, n), int))
        nums = [x for x in out.strip("[]").split(", ") if x != "..."]
        assert len(nums) == n and "..." in out, (n, sel, out)
''')
