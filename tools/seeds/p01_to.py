exec(open("/verif/tools/seeds/common.txt").read())
ID, PROP = "p01_to_order", "P01"
NEEDS = "to() with both a unit and dtype int32 on an int64 variable whose values only fit into 32 bits after the change of unit"
BREAKS = "the dtype is narrowed before the unit is converted, so large int64 values overflow although the result would fit"
EDITS = [("src/scipp/core/operations.py", "    elif var.dtype == _cpp.DType.int64 and dtype == _cpp.DType.int32:\n        convert_dtype_first = False", "    elif var.dtype == _cpp.DType.int32 or dtype == _cpp.DType.int32:\n        convert_dtype_first = True")]
FILES = files('''
from scipp.core import operations
class V:
    def __init__(s, dtype, value, unit): s.dtype, s.value, s.unit = dtype, value, unit
    def astype(s, dtype, copy=True):
        v = s.value
        if dtype is core.DType.int32: v = (v + 2**31) % 2**32 - 2**31
        return V(dtype, v, s.unit)
scale = {"mm": 1, "m": 1000}
operations.to_unit = lambda var, unit, copy=True: V(var.dtype, var.value * scale[var.unit] // scale[unit], unit)
D = core.DType
r = operations.to(V(D.int64, 5_000_000_000, "mm"), unit="m", dtype=D.int32)
assert (r.dtype, r.unit, r.value) == (D.int32, "m", 5_000_000), r.value
r = operations.to(V(D.int32, 5_000_000, "m"), unit="mm", dtype=D.int64)
assert r.value == 5_000_000_000, r.value
''')
