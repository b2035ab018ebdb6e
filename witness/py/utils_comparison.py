TARGET = "scipp.utils.comparison"
from scipp.core import CoordError, DataArray, DType, Variable, all, isclose
def isnear(x, y, rtol=None, atol=None, include_attrs=True, include_data=True, equal_nan=True):
    same_data = all(isclose(x.data, y.data, rtol=rtol, atol=atol, equal_nan=equal_nan)).value if include_data else True
    same_len = len(x.deprecated_meta) == len(y.deprecated_meta) if include_attrs else len(x.coords) == len(y.coords)
    if not same_len:
        return False
    for key, val in x.deprecated_meta.items() if include_attrs else x.coords.items():
        a = x.deprecated_meta[key] if include_attrs else x.coords[key]
        b = y.deprecated_meta[key] if include_attrs else y.coords[key]
        if a.shape != b.shape:
            raise CoordError(f'Coord (or attr) with key {key} have different shapes. For x, shape is {a.shape}. For y, shape = {b.shape}')
        if val.dtype in [DType.float64, DType.float32]:
            if not all(isclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)).value:
                return False
    return same_data
