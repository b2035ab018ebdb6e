TARGET = "scipp.compat.wrapping"
from functools import wraps
from typing import Any, TypeVar
from scipp.core import BinEdgeError, DataArray, DimensionError, Variable, VariancesError
def _validated_masks(da, dim):
    masks = {}
    for name, mask in da.masks.items():
        if dim in mask.dims:
            raise DimensionError(f"Cannot apply function along '{dim}' since mask '{name}' depends on this dimension.")
        masks[name] = mask.copy()
    return masks
def wrap1d(is_partial=False, accept_masks=False, keep_coords=False):

    def decorator(func):

        @wraps(func)
        def function(da, dim, **kwargs):
            if 'axis' in kwargs:
                raise ValueError("Use the 'dim' keyword argument instead of 'axis'.")
            if da.variances is not None:
                raise VariancesError("Cannot apply function to data with uncertainties. If uncertainties should be ignored, use 'sc.values(da)' to extract only values.")
            if da.sizes[dim] != da.coords[dim].sizes[dim]:
                raise BinEdgeError('Cannot apply function to data array with bin edges.')
            kwargs['axis'] = da.dims.index(dim)
            result = func(da, dim, **kwargs)
            return _postprocess(input_da=da, output_da=result, dim=dim, is_partial=is_partial, accept_masks=accept_masks, keep_coords=keep_coords)
        return function
    return decorator
def _postprocess(*, input_da, output_da, dim, is_partial, accept_masks, keep_coords):
    if accept_masks:
        masks = _remove_columns_in_dim(input_da.masks, dim)
    else:
        masks = _validated_masks(input_da, dim)
    if keep_coords:
        coords = input_da.coords
        attrs = input_da.deprecated_attrs
    else:
        coords = _remove_columns_in_dim(input_da.coords, dim)
        attrs = _remove_columns_in_dim(input_da.deprecated_attrs, dim)

    def add_observing_metadata(da):
        da.coords.update(coords)
        da.masks.update(((key, mask.copy()) for key, mask in masks.items()))
        da.deprecated_attrs.update(attrs)
        return da
    if is_partial:

        def postprocessing(func):

            @wraps(func)
            def function(*args, **kwargs):
                return add_observing_metadata(func(*args, **kwargs))
            return function
        return postprocessing(output_da)
    else:
        return add_observing_metadata(output_da)
def _remove_columns_in_dim(mapping, dim):
    return {key: var for key, var in mapping.items() if dim not in var.dims}
