exec(open("/verif/tools/seeds/common.txt").read())
ID, PROP = "p05_concat_order", "P05"
NEEDS = "concatenating bins over a dim that is not the innermost one of the binned data"
BREAKS = "the events are copied in the old order while the sizes are those of the new bins, so events end up in bins of other rows"
EDITS = [("src/scipp/core/bin_remapping.py", "    out = var.transpose(unchanged_dims + changed_dims).copy()", "    out = var.transpose(changed_dims + unchanged_dims).copy()")]
FILES = files('''
from scipp.core import bin_remapping as b
# binned data as nested dict (position) -> events, dims in memory order
class V:
    def __init__(s, dims, data): s.dims, s.data = tuple(dims), data
    def transpose(s, dims): p = [s.dims.index(d) for d in dims]; return V(dims, {tuple(k[i] for i in p): v for k, v in s.data.items()})
    def copy(s): return V(s.dims, dict(sorted(s.data.items())))
    @property
    def bins(s): return s
    def size(s): return V(s.dims, {k: len(v) for k, v in s.data.items()})
    def sum(s, dims):
        keep = [i for i, d in enumerate(s.dims) if d not in dims]; out = {}
        for k, v in s.data.items(): out[tuple(k[i] for i in keep)] = out.get(tuple(k[i] for i in keep), 0) + v
        return V([s.dims[i] for i in keep], out)
def with_sizes(var, sizes):
    buf = [e for k in sorted(var.data) for e in var.data[k]]; out = {}; i = 0
    for k in sorted(sizes.data): out[k] = sorted(buf[i:i + sizes.data[k]]); i += sizes.data[k]
    return out
b._with_bin_sizes = with_sizes; b.concrete_dims = lambda v, d: (d,)
v = V(("x", "y"), {(0, 0): "a", (0, 1): "bc", (1, 0): "d", (1, 1): "efg"})
assert b._concat_bins(v, "y") == {(0,): list("abc"), (1,): list("defg")}
assert b._concat_bins(v, "x") == {(0,): list("ad"), (1,): list("bcefg")}, b._concat_bins(v, "x")
''')
