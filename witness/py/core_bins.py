TARGET = "scipp.core.bins"
from typing import Generic, Literal, Sequence, TypedDict, TypeVar
from scipp._scipp import core as _cpp
from scipp.core._cpp_wrapper_util import call_func as _call_cpp_func
from scipp.core.bin_remapping import concat_bins
from scipp.core.cpp_classes import DataArray, Dataset, DType, Unit, Variable
from scipp.core.data_group import DataGroup
from scipp.core.deprecation import _warn_attr_removal
from scipp.core.domains import merge_equal_adjacent
from scipp.core.math import midpoints
from scipp.core.operations import islinspace
from scipp.core.shape import concat
from scipp.core.variable import scalar
class Lookup:

    def __init__(self, op, func, dim, fill_value=None):
        if not func.masks and func.ndim == 1 and (len(func) > 0) and (func.dtype in [DType.bool, DType.int32, DType.int64]):
            if op == _cpp.buckets.map:
                if not islinspace(func.coords[dim], dim).value:
                    func = merge_equal_adjacent(func)
            else:
                transition = func.data[:-1] != func.data[1:]
                func = concat([func[0], func[1:][transition]], dim)
        self.op = op
        self.func = func
        self.dim = dim
        self.fill_value = fill_value
        self.__transform_coords_input_keys__ = (dim,)

    def __call__(self, var):
        return self.op(self.func, var, self.dim, self.fill_value)

    def __getitem__(self, var):
        return self(var)
def lookup(func, dim=None, *, mode=None, fill_value=None):
    if dim is None:
        dim = func.dim
    func = DataArray(func.data, coords={dim: func.coords[dim]}, masks=func.masks)
    if func.dims[-1] != dim:
        dims = (*[d for d in func.dims if d != dim], dim)
        func.data = func.data.transpose(dims).copy()
        func.coords[dim] = func.coords[dim].transpose(dims).copy()
        for key, mask in func.masks.items():
            func.masks[key] = mask.transpose([d for d in dims if d in mask.dims] or None).copy()
    if func.coords.is_edges(dim, dim):
        if mode is not None:
            raise ValueError("Input is a histogram, 'mode' must not be set.")
        return Lookup(_cpp.buckets.map, func, dim, fill_value)
    if mode is None:
        mode = 'nearest'
    elif mode not in ['previous', 'nearest']:
        raise ValueError(f"Mode must be one of ['previous', 'nearest'], got '{mode}'")
    if mode == 'nearest' and func.sizes[dim] != 0:
        coord = func.coords[dim]
        lowest = coord[dim, 0:0].max()
        parts = [lowest] if coord.sizes[dim] < 2 else [lowest, midpoints(coord, dim)]
        func.coords[dim] = concat(parts, dim)
    return Lookup(_cpp.lookup_previous, func, dim, fill_value)
class Constituents:
    """Data content."""
    'Begin indices for each bin.'
    'End indices for each bin.'
    "Dimension in 'data' that the binning applies to."
class Bins:

    def __init__(self, obj):
        self._obj = obj

    def _data(self):
        if isinstance(self._obj, DataArray | Dataset):
            return self._obj.data
        else:
            return self._obj

    def __mul__(self, lut):
        if isinstance(self._obj, Dataset):
            raise NotImplementedError('Multiplication of events in a dataset is not implemented')
        target_dtype = (scalar(1, dtype=self.dtype) * scalar(1, dtype=lut.func.dtype)).dtype
        copy = self._obj.to(dtype=target_dtype)
        _cpp.buckets.scale(copy, lut.func, lut.dim)
        return copy

    def __truediv__(self, lut):
        if isinstance(self._obj, Dataset):
            raise NotImplementedError('Division of events in a dataset is not implemented')
        target_dtype = (scalar(1, dtype=self.dtype) / scalar(1, dtype=lut.func.dtype)).dtype
        copy = self._obj.to(dtype=target_dtype)
        _cpp.buckets.scale(copy, _cpp.reciprocal(lut.func), lut.dim)
        return copy

    def __imul__(self, lut):
        _cpp.buckets.scale(self._obj, lut.func, lut.dim)
        return self

    def __itruediv__(self, lut):
        _cpp.buckets.scale(self._obj, _cpp.reciprocal(lut.func), lut.dim)
        return self

    def __getitem__(self, key):
        if isinstance(self._obj, Dataset):
            raise NotImplementedError('Extracting events from Datasets is not implemented.')
        dim, index = key
        if isinstance(index, Variable):
            if index.ndim == 0:
                if not isinstance(self._obj, DataArray):
                    raise NotImplementedError('Getting events by label is only implemented for DataArrays.')
                return self._obj.group(index.flatten(to=dim)).squeeze(dim)
        elif isinstance(index, slice):
            from scipp.core.binning import _upper_bound
            if index.step is not None:
                raise ValueError(f"Label-based indexing with step (stride) is not supported. Got '{key}'")
            start = index.start
            stop = index.stop
            if start is None:
                start = self.coords[dim].min()
            if stop is None:
                stop = _upper_bound(self.coords[dim].max())
            if not (isinstance(start, Variable) and isinstance(stop, Variable)):
                raise ValueError(f"Bins can only by sliced using label-based indexing. Expected start and stop to be scipp.Variable, got '{start}' and '{stop}'.")
            if start > stop:
                if index.start is None:
                    start = stop
                elif index.stop is None:
                    stop = start
            return self._obj.bin({dim: concat([start, stop], dim)}).squeeze(dim)
        raise ValueError(f"Unsupported key '{key}'. Expected a dimension label and a 0-D variable or a dimension label and a slice object with start and stop given by a 0-D variable.")

    @property
    def coords(self):
        return _cpp._bins_view(self._data()).coords

    def drop_coords(self, coords):
        if isinstance(self._obj, Dataset):
            raise NotImplementedError('bins.drop_coords does not support datasets')
        content = self.constituents
        content['data'] = content['data'].drop_coords(coords)
        data = _cpp._bins_no_validate(**content)
        if isinstance(self._obj, DataArray):
            out = self._obj.copy(deep=False)
            out.data = data
            return out
        return data

    @property
    def meta(self):
        _warn_attr_removal()
        return self.deprecated_meta

    @property
    def attrs(self):
        _warn_attr_removal()
        return self.deprecated_attrs

    @property
    def deprecated_meta(self):
        return _cpp._bins_view(self._data()).deprecated_meta

    @property
    def deprecated_attrs(self):
        return _cpp._bins_view(self._data()).deprecated_attrs

    @property
    def masks(self):
        return _cpp._bins_view(self._data()).masks

    def drop_masks(self, masks):
        if isinstance(self._obj, Dataset):
            raise NotImplementedError('bins.drop_masks does not support datasets')
        content = self.constituents
        content['data'] = content['data'].drop_masks(masks)
        data = _cpp._bins_no_validate(**content)
        if isinstance(self._obj, DataArray):
            out = self._obj.copy(deep=False)
            out.data = data
            return out
        return data

    @property
    def data(self):
        return _cpp._bins_view(self._data()).data

    @data.setter
    def data(self, data):
        _cpp._bins_view(self._data()).data = data

    @property
    def unit(self):
        return self.constituents['data'].unit

    @unit.setter
    def unit(self, unit):
        self.constituents['data'].unit = unit

    @property
    def dtype(self):
        return self.constituents['data'].dtype

    @property
    def aligned(self):
        return self.constituents['data'].aligned

    @property
    def constituents(self):
        return _call_cpp_func(_cpp.bins_constituents, self._data())

    def sum(self):
        return _call_cpp_func(_cpp.bins_sum, self._obj)

    def nansum(self):
        return _call_cpp_func(_cpp.bins_nansum, self._obj)

    def mean(self):
        return _call_cpp_func(_cpp.bins_mean, self._obj)

    def nanmean(self):
        return _call_cpp_func(_cpp.bins_nanmean, self._obj)

    def max(self):
        return _call_cpp_func(_cpp.bins_max, self._obj)

    def nanmax(self):
        return _call_cpp_func(_cpp.bins_nanmax, self._obj)

    def min(self):
        return _call_cpp_func(_cpp.bins_min, self._obj)

    def nanmin(self):
        return _call_cpp_func(_cpp.bins_nanmin, self._obj)

    def all(self):
        return _call_cpp_func(_cpp.bins_all, self._obj)

    def any(self):
        return _call_cpp_func(_cpp.bins_any, self._obj)

    def size(self):
        return _call_cpp_func(_cpp.bin_sizes, self._obj)

    def concat(self, dim=None):
        if isinstance(self._obj, Dataset):
            raise NotImplementedError('Concatenating bins is not implemented for datasets')
        return concat_bins(self._obj, dim)

    def concatenate(self, other, *, out=None):
        if out is None:
            return _call_cpp_func(_cpp.buckets.concatenate, self._obj, other)
        else:
            if self._obj is out:
                _call_cpp_func(_cpp.buckets.append, self._obj, other)
            else:
                out = _call_cpp_func(_cpp.buckets.concatenate, self._obj, other)
            return out
def _bins(obj):
    if _cpp.is_bins(obj):
        return Bins(obj)
    else:
        return None
def _set_bins(obj, bins):
    if obj is not bins._obj:
        raise ValueError('Cannot set bins with a new object')
def bins(*, data, dim, begin=None, end=None):
    if any((isinstance(x, DataGroup) for x in [begin, end, data])):
        raise ValueError('`scipp.bins` does not support DataGroup arguments.')
    return _call_cpp_func(_cpp.bins, begin, end, dim, data)
def bins_like(x, fill_value):
    if isinstance(x, DataGroup) or isinstance(fill_value, DataGroup):
        raise ValueError('`scipp.bins_like` does not support DataGroup arguments.')
    if isinstance(x, Dataset) or isinstance(fill_value, Dataset):
        raise ValueError('`scipp.bins_like` does not support Dataset arguments.')
    var = x.data if isinstance(x, DataArray) else x
    return _call_cpp_func(_cpp.bins_like, var, fill_value)
