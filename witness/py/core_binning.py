TARGET = "scipp.core.binning"
OPAQUE = ["_make_edges", "_find_replaced_dims", "make_histogrammed", "make_binned", "_drop_coords_for_hist"]
import itertools
import uuid
from typing import Any, SupportsIndex, TypeVar, overload
from scipp._scipp import core as _cpp
from scipp.core.bin_remapping import combine_bins
from scipp.core.bins import Bins
from scipp.core.cpp_classes import BinEdgeError, CoordError, DataArray, Dataset, DType, Variable
from scipp.core.data_group import DataGroup, data_group_overload
from scipp.core.math import round as round_
from scipp.core.shape import concat
from scipp.core.variable import arange, array, epoch, linspace, scalar
def make_histogrammed(x, *, edges, erase=()):
    if isinstance(x, Variable):
        data = scalar(1.0, unit='counts').broadcast(sizes=x.sizes)
        x = DataArray(data, coords={edges.dim: x})
    elif isinstance(x, DataArray) and x.bins is not None:
        dim = edges.dims[-1]
        if dim not in x.bins.coords:
            if x.coords.is_edges(dim, dim):
                raise BinEdgeError('Cannot histogram data with existing bin edges unless event data coordinate for histogramming is available.')
            return make_histogrammed(x.bins.sum(), edges=edges, erase=erase)
    _check_erase_dimension_clash(erase, edges)
    hist_dim = edges.dims[-1]
    to_flatten = [dim for dim in x.dims if dim in erase]
    if hist_dim in x.dims:
        to_flatten.append(hist_dim)
    if to_flatten:
        x = _drop_coords_for_hist(x, to_flatten, keep=(hist_dim,))
        x = _transpose_and_flatten_for_hist(x, to_flatten, to=hist_dim)
    return _cpp.histogram(x, edges)
def _drop_coords_for_hist(x, dims, keep):
    data = x if x.bins is None else x.bins
    to_drop = []
    for name, coord in data.coords.items():
        if name not in keep and set(coord.dims) & set(dims):
            to_drop.append(name)
    return data.drop_coords(to_drop)
def _transpose_and_flatten_for_hist(x, dims, to):
    new_order = [*(dim for dim in x.dims if dim not in dims), *dims]
    transposed = x.transpose(new_order)
    return transposed.flatten(dims=dims, to=to)
def make_binned(x, *, edges=None, groups=None, erase=()):
    if groups is None:
        groups = []
    if edges is None:
        edges = []
    _check_erase_dimension_clash(erase, *edges, *groups)
    if isinstance(x, Variable) and x.bins is not None:
        x = DataArray(x)
    elif isinstance(x, Variable):
        coords = [*edges, *groups]
        if len(coords) != 1:
            raise ValueError('Edges for exactly one dimension must be specified when binning or histogramming a variable.')
        data = scalar(1.0, unit='counts').broadcast(sizes=x.sizes).copy()
        x = DataArray(data, coords={coords[0].dim: x})
    if _can_operate_on_bins(x, edges, groups, erase):
        return combine_bins(x, edges=edges, groups=groups, dim=erase)
    if erase and x.bins is not None:
        dense_edges = [var for var in edges if var.dims[-1] not in x.bins.coords]
        dense_groups = [var for var in groups if var.dims[-1] not in x.bins.coords]
        if len(dense_edges) + len(dense_groups) == 0:
            x = x.bins.concat(erase)
            erase = ()
        elif len(dense_edges) + len(dense_groups) < len(edges) + len(groups):
            x = make_binned(x, edges=dense_edges, groups=dense_groups, erase=erase)
            b = x.bins
            edges = [var for var in edges if var.dims[-1] in b.coords]
            groups = [var for var in groups if var.dims[-1] in b.coords]
            erase = ()
        if x.ndim == 0:
            return _cpp.bin(x.value, edges, groups, erase).assign_coords(x.coords).assign_masks(x.masks)
    x = _prepare_multi_dim_dense(x, *edges, *groups)
    return _cpp.bin(x, edges, groups, erase)
def _prepare_multi_dim_dense(x, *edges_or_groups):
    if x.bins is not None or x.ndim == 1:
        return x
    if any((var.ndim != 1 for var in edges_or_groups)):
        raise ValueError('Cannot bin multi-dimensional dense data with ragged edges.')
    op_dims = _get_op_dims(x, *edges_or_groups)
    if len(op_dims) != 1:
        raise ValueError('Cannot bin multi-dimensional dense data along multiple dims.')
    extra = {dim for dim in x.dims if dim != next(iter(op_dims))}
    original_coords = {name: coord for name, coord in x.coords.items() if set(coord.dims).issubset(extra)}
    helper_coords = {dim: arange(dim, x.sizes[dim]) for dim in extra}
    return x.assign_coords(helper_coords).flatten(to=str(uuid.uuid4())).group(*helper_coords.values()).drop_coords(tuple(extra)).assign_coords(original_coords)
def _check_erase_dimension_clash(erase, *edges_or_groups):
    new_dims = set()
    for var in edges_or_groups:
        new_dims.update(var.dims)
    if set(erase) & new_dims:
        raise ValueError(f'Clash of dimension(s) to reduce {erase} with dimensions defined by edges or groups: {new_dims}.')
def _can_operate_on_bins(x, edges, groups, erase):
    if x.bins is None:
        return False
    dims = set()
    for coord in itertools.chain(edges, groups):
        if coord.ndim != 1:
            return False
        if coord.dim in x.bins.coords:
            return False
        if coord.dim not in x.coords:
            return False
        dims.update(x.coords[coord.dim].dims)
    return dims <= set(erase)
def _require_coord(name, coord):
    if coord is None:
        raise CoordError(f"Coordinate '{name}' not found.")
def _get_coord(x, name):
    if isinstance(x, Variable):
        return x
    if isinstance(x, Dataset):
        if not x.values():
            raise ValueError('Dataset is empty')
        cmin = None
        cmax = None
        for da in x.values():
            c = _get_coord(da, name)
            cmin = c.min() if cmin is None else min(cmin, c.min())
            cmax = c.max() if cmax is None else max(cmax, c.max())
        coord = concat([cmin, cmax], dim='dummy')
    else:
        event_coord = x.bins.deprecated_meta.get(name) if x.bins is not None else None
        coord = x.deprecated_meta.get(name, event_coord)
    _require_coord(name, coord)
    return coord
def _upper_bound(x):
    import numpy as np
    bound = x.nanmax()
    if bound.dtype in ('int32', 'int64', 'datetime64'):
        bound.value += 1
    else:
        bound.value = np.nextafter(bound.value, (bound + scalar(1, unit=bound.unit, dtype=bound.dtype)).value)
    return bound
def _parse_coords_arg(x, name, arg):
    if isinstance(arg, Variable) and name in arg.dims:
        return arg
    coord = _get_coord(x, name)
    start = coord.nanmin()
    if not isinstance(x, Variable) and name in x.coords and x.coords.is_edges(name, name):
        stop = coord.nanmax()
    else:
        stop = _upper_bound(coord)
    if start > stop:
        raise ValueError('Empty data range, cannot automatically determine bounds. Must provide concrete bin edges.')
    if not isinstance(arg, Variable):
        if start.dtype == DType.datetime64:
            base = epoch(unit=start.unit)
            return base + round_(linspace(name, start - base, stop - base, num=arg.__index__() + 1)).to(dtype='int64')
        return linspace(name, start, stop, num=arg.__index__() + 1).to(dtype=start.dtype, copy=False)
    step = arg.to(dtype=start.dtype, unit=start.unit)
    if step.value == 0:
        raise ValueError('Step size cannot be 0.')
    return arange(name, start, stop + step, step=step)
def _make_edges(x, arg_dict, kwargs):
    if arg_dict is not None:
        kwargs = dict(**arg_dict, **kwargs)
    return {name: _parse_coords_arg(x, name, arg) for name, arg in kwargs.items()}
def _find_replaced_dims(x, *, dims, dim):
    if isinstance(x, Variable):
        replaced = set(x.dims)
    elif dim is None:
        replaced = set()
        for name in dims:
            if name in x.coords:
                replaced.update(x.coords[name].dims)
    else:
        replaced = {dim} if isinstance(dim, str) else set(dim)
    return [d for d in x.dims if d in replaced - set(dims)]
@data_group_overload
def hist(x, arg_dict=None, /, *, dim=None, **kwargs):
    if isinstance(x, DataGroup):
        raise TypeError('Internal error: input should not be a DataGroup')
    edges = _make_edges(x, arg_dict, kwargs)
    erase = _find_replaced_dims(x, dims=edges, dim=dim)
    if isinstance(x, Variable) and len(edges) != 1:
        raise ValueError('Edges for exactly one dimension must be specified when binning or histogramming a variable.')
    if len(edges) == 0:
        if x.bins is None:
            raise TypeError('Data is not binned so bin edges must be provided.')
        return x.bins.sum()
    if len(edges) == 1:
        out = make_histogrammed(x, edges=next(iter(edges.values())), erase=erase)
    else:
        if isinstance(x, DataArray):
            x = _drop_coords_for_hist(x, dims=erase, keep=edges)
        elif isinstance(x, Dataset):
            x = Dataset({k: _drop_coords_for_hist(v, dims=erase, keep=edges) for k, v in x.items()})
        edge_values = list(edges.values())
        remaining_erase = set(erase)
        if isinstance(x, DataArray) and x.bins is not None:
            hist_dim = edge_values[-1].dims[-1]
            if hist_dim not in x.bins.coords:
                erase = [e for e in erase if e not in x.coords[hist_dim].dims]
        remaining_erase -= set(erase)
        out = make_histogrammed(make_binned(x, edges=edge_values[:-1], erase=erase), edges=edge_values[-1], erase=remaining_erase)
    return out
def _get_op_dims(x, *edges_or_groups):
    edge_dims = {edge.dims[-1] for edge in edges_or_groups}
    coords = [x.coords[dim] for dim in edge_dims if dim in x.coords]
    return {coord.dims[-1] for coord in coords if coord.ndim > 0}
@data_group_overload
def nanhist(x, arg_dict=None, /, *, dim=None, **kwargs):
    if isinstance(x, DataGroup):
        raise TypeError('Internal error: input should not be a DataGroup')
    edges = _make_edges(x, arg_dict, kwargs)
    if len(edges) > 0:
        x = x.bin(edges, dim=dim)
    if x.bins is None:
        raise TypeError('Data is not binned so bin edges must be provided.')
    return x.bins.nansum()
@data_group_overload
def bin(x, arg_dict=None, /, *, dim=None, **kwargs):
    if isinstance(x, DataGroup):
        raise TypeError('Internal error: input should not be a DataGroup')
    edges = _make_edges(x, arg_dict, kwargs)
    erase = _find_replaced_dims(x, dims=edges, dim=dim)
    return make_binned(x, edges=list(edges.values()), erase=erase)
@data_group_overload
def rebin(x, arg_dict=None, /, **kwargs):
    if isinstance(x, DataGroup):
        raise TypeError('Internal error: input should not be a DataGroup')
    edges = _make_edges(x, arg_dict, kwargs)
    out = x
    for dim, edge in edges.items():
        out = _cpp.rebin(out, dim, edge)
    return out
def _make_groups(x, arg):
    import numpy as np
    if isinstance(arg, Variable):
        return arg
    coord = x.bins.coords.get(arg) if x.bins is not None else None
    if coord is None:
        coord = x.coords.get(arg)
    _require_coord(arg, coord)
    if coord.bins is not None:
        coord = coord.copy().bins.constituents['data']
    if 0 in coord.shape:
        unique = coord.values[0:0]
    elif coord.dtype in (DType.int32, DType.int64):
        min_ = coord.min().value
        max_ = coord.max().value
        values = coord.values
        unique = values[0:0]
        for pivot in [1000, 100, 10, 1]:
            if len(unique) == max_ - min_ + 1:
                break
            unique = np.unique(values[:len(values) // pivot])
    else:
        unique = np.unique(coord.values)
    return array(dims=[arg], values=unique, unit=coord.unit)
@data_group_overload
def group(x, /, *args, dim=None):
    if isinstance(x, DataGroup):
        raise TypeError('Internal error: input should not be a DataGroup')
    groups = [_make_groups(x, name) for name in args]
    erase = _find_replaced_dims(x, dims=[g.dim for g in groups], dim=dim)
    return make_binned(x, groups=groups, erase=erase)
