TARGET = "scipp.core.concepts"
from functools import reduce
from typing import TypeVar
from scipp.core.cpp_classes import DataArray, DimensionError, Variable
from scipp.core.logical import logical_or
def _copied(obj):
    return {name: var.copy() for name, var in obj.items()}
def _reduced(obj, dims):
    ref_dims = set(dims)
    return {name: var for name, var in obj.items() if ref_dims.isdisjoint(var.dims)}
def rewrap_output_data(prototype, data):
    if isinstance(prototype, DataArray):
        return DataArray(data=data, coords=prototype.coords, attrs=prototype.deprecated_attrs, masks=_copied(prototype.masks))
    else:
        return data
def rewrap_reduced_data(prototype, data, dim):
    return DataArray(data, coords=reduced_coords(prototype, dim), masks=reduced_masks(prototype, dim), attrs=reduced_attrs(prototype, dim))
def transform_data(obj, func):
    if isinstance(obj, Variable):
        return func(obj)
    if isinstance(obj, DataArray):
        return rewrap_output_data(obj, func(obj.data))
    else:
        raise TypeError(f'{func} only supports Variable and DataArray as inputs.')
def concrete_dims(obj, dim):
    if dim is None:
        if None in obj.dims:
            raise DimensionError(f'Got data group with unequal dimension lengths: dim={obj.dims}')
        return obj.dims
    return (dim,) if isinstance(dim, str) else tuple(dim)
def reduced_coords(da, dim):
    return _reduced(da.coords, concrete_dims(da, dim))
def reduced_attrs(da, dim):
    return _reduced(da.deprecated_attrs, concrete_dims(da, dim))
def reduced_masks(da, dim):
    return _copied(_reduced(da.masks, concrete_dims(da, dim)))
def irreducible_mask(da, dim):
    dims = set(concrete_dims(da, dim))
    irreducible = [mask for mask in da.masks.values() if not dims.isdisjoint(mask.dims)]
    if len(irreducible) == 0:
        return None

    def _transposed_like_data(x):
        return x.transpose([d for d in da.dims if d in x.dims])
    if len(irreducible) == 1:
        return _transposed_like_data(irreducible[0]).copy()
    return _transposed_like_data(reduce(logical_or, irreducible))
