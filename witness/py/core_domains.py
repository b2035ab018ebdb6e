TARGET = "scipp.core.domains"
from scipp._scipp.core import DataArray, DimensionError
from scipp.core.shape import concat
from scipp.core.variable import empty
def merge_equal_adjacent(da):
    try:
        dim = da.dim
    except DimensionError as e:
        raise DimensionError('Cannot merge equal adjacent bins non-1-D data array') from e
    tmp = DataArray(da.data, coords={dim: da.coords[dim][dim, 1:]})
    condition = empty(dims=da.dims, shape=da.shape, dtype='bool')
    condition[dim, -1] = True
    condition[dim, :-1] = da.data[dim, 1:] != da.data[dim, :-1]
    out = tmp[condition]
    out.coords[dim] = concat([da.coords[dim][dim, 0:1], out.coords[dim]], dim)
    return out
