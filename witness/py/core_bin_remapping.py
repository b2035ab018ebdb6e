TARGET = "scipp.core.bin_remapping"
import itertools
import uuid
from math import prod
from typing import TYPE_CHECKING, TypeVar
from scipp._scipp import core as _cpp
from scipp.core.concepts import concrete_dims, irreducible_mask, rewrap_reduced_data
from scipp.core.cpp_classes import DataArray, Variable
from scipp.core.cumulative import cumsum
from scipp.core.operations import where
from scipp.core.variable import index
def hide_masked(da, dim):
    if da.bins is None:
        raise ValueError('Input must be binned')
    if (mask := irreducible_mask(da, dim)) is not None:
        comps = da.bins.constituents
        if mask.ndim == 1:
            select = ~mask
            comps['begin'] = comps['begin'][select]
            comps['end'] = comps['end'][select]
        else:
            comps['end'] = where(mask, comps['begin'], comps['end'])
        return _cpp._bins_no_validate(**comps)
    else:
        return da.data
def _with_bin_sizes(var, sizes):
    end = cumsum(sizes)
    begin = end - sizes
    data = var if var.bins is None else var.bins.constituents['data']
    dim = var.dim if var.bins is None else var.bins.constituents['dim']
    return _cpp._bins_no_validate(data=data, dim=dim, begin=begin, end=end)
def _concat_bins(var, dim):
    changed_dims = list(concrete_dims(var, dim))
    unchanged_dims = [d for d in var.dims if d not in changed_dims]
    out = var.transpose(unchanged_dims + changed_dims).copy()
    out_bins = out.bins
    sizes = out_bins.size().sum(changed_dims)
    return _with_bin_sizes(out, sizes)
def _combine_bins(var, coords, edges, groups, dim):
    from scipp.core.binning import make_binned
    concrete_dims_ = concrete_dims(var, dim)
    changed_dims = [d for d in var.dims if d in concrete_dims_]
    unchanged_dims = [d for d in var.dims if d not in changed_dims]
    changed_shape = [var.sizes[d] for d in changed_dims]
    unchanged_shape = [var.sizes[d] for d in unchanged_dims]
    changed_volume = prod(changed_shape)
    var = var.transpose(unchanged_dims + changed_dims)
    var_bins = var.bins
    params = DataArray(var_bins.size(), coords=coords)
    params.coords['begin'] = var_bins.constituents['begin'].copy()
    params.coords['end'] = var_bins.constituents['end'].copy()
    sub_sizes = index(changed_volume).broadcast(dims=unchanged_dims, shape=unchanged_shape)
    params = params.flatten(to=uuid.uuid4().hex)
    params_data = _with_bin_sizes(params, sub_sizes)
    params = make_binned(params_data, edges=edges, groups=groups)
    source = _cpp._bins_no_validate(data=var_bins.constituents['data'], dim=var_bins.constituents['dim'], begin=params.bins.constituents['data'].coords['begin'], end=params.bins.constituents['data'].coords['end'])
    return _with_bin_sizes(source.copy(), sizes=params.data.bins.sum())
def combine_bins(da, edges, groups, dim):
    if da.bins is None:
        raise ValueError('Input must be binned')
    masked = hide_masked(da, dim)
    if len(edges) == 0 and len(groups) == 0:
        data = _concat_bins(masked, dim=dim)
    else:
        names = [coord.dim for coord in itertools.chain(edges, groups)]
        coords = {name: da.coords[name] for name in names}
        data = _combine_bins(masked, coords=coords, edges=edges, groups=groups, dim=dim)
    out = rewrap_reduced_data(da, data, dim=dim)
    for coord in itertools.chain(edges, groups):
        out.coords[coord.dim] = coord
    return out
def concat_bins(obj, dim=None):
    da = obj if isinstance(obj, DataArray) else DataArray(obj)
    out = combine_bins(da, edges=[], groups=[], dim=dim)
    return out if isinstance(obj, DataArray) else out.data
