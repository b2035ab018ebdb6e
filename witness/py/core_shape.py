TARGET = "scipp.core.shape"
from typing import overload
import numpy as np
from scipp._scipp import core as _cpp
from scipp.core import data_group
from scipp.core._cpp_wrapper_util import call_func as _call_cpp_func
from scipp.core._sizes import _parse_dims_shape_sizes
from scipp.core.concepts import transform_data
from scipp.core.cpp_classes import Variable
def broadcast(x, *, dims=None, shape=None, sizes=None):
    dims_and_shape = _parse_dims_shape_sizes(dims=dims, shape=shape, sizes=sizes)
    dims = dims_and_shape['dims']
    shape = dims_and_shape['shape']

    def _broadcast(data):
        return _call_cpp_func(_cpp.broadcast, data, dims, shape)
    return transform_data(x, _broadcast)
def concat(x, dim):
    if x and isinstance(x[0], data_group.DataGroup):
        return data_group.apply_to_items(concat, x, dim)
    return _call_cpp_func(_cpp.concat, x, dim)
def fold(x, dim, *, dims=None, shape=None, sizes=None):
    dims_and_shape = _parse_dims_shape_sizes(dims=dims, shape=shape, sizes=sizes)
    dims = dims_and_shape['dims']
    new_shape = list(dims_and_shape['shape'])
    minus_one_count = new_shape.count(-1)
    if minus_one_count > 1:
        raise _cpp.DimensionError('Can only have a single -1 in the new requested shape.')
    if minus_one_count == 1:
        if (size := x.sizes[dim]) is None:
            raise ValueError(f'Dim {dim} has inconsistent size, cannot compute final shape.')
        ind = new_shape.index(-1)
        new_shape[ind] = 1
        new_volume = np.prod(new_shape)
        dim_size = int(size // new_volume)
        if size % new_volume != 0:
            raise ValueError(f'-1 in new shape was computed to be {dim_size}, but the original shape {size} cannot be divided by {dim_size}.')
        new_shape[ind] = dim_size
    return _call_cpp_func(_cpp.fold, x, dim, dims, new_shape)
def flatten(x, dims=None, to=None):
    if to is None:
        raise ValueError('The final flattened dimension is required.')
    return _call_cpp_func(_cpp.flatten, x, dims, to)
def transpose(x, dims=None):
    return _call_cpp_func(_cpp.transpose, x, dims if dims is not None else [])
def squeeze(x, dim=None):
    return _call_cpp_func(_cpp.squeeze, x, (dim,) if isinstance(dim, str) else dim)
