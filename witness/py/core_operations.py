TARGET = "scipp.core.operations"
from typing import Any, Literal, TypeVar, overload
from scipp._scipp import core as _cpp
from scipp.core._cpp_wrapper_util import call_func as _call_cpp_func
from scipp.core.comparison import identical
from scipp.core.cpp_classes import DataArray, Dataset, DatasetError, Variable
from scipp.core.data_group import DataGroup
from scipp.core.unary import to_unit
def islinspace(x, dim=None):
    if dim is None:
        return _call_cpp_func(_cpp.islinspace, x)
    else:
        return _call_cpp_func(_cpp.islinspace, x, dim)
def issorted(x, dim, order='ascending'):
    return _call_cpp_func(_cpp.issorted, x, dim, order)
def allsorted(x, dim, order='ascending'):
    return _call_cpp_func(_cpp.allsorted, x, dim, order)
def sort(x, key, order='ascending'):
    return _call_cpp_func(_cpp.sort, x, key, order)
def values(x):
    return _call_cpp_func(_cpp.values, x)
def variances(x):
    return _call_cpp_func(_cpp.variances, x)
def stddevs(x):
    return _call_cpp_func(_cpp.stddevs, x)
def where(condition, x, y):
    return _call_cpp_func(_cpp.where, condition, x, y)
def to(var, *, unit=None, dtype=None, copy=True):
    if unit is None and dtype is None:
        raise ValueError('Must provide dtype or unit or both')
    if dtype is None:
        return to_unit(var, unit, copy=copy)
    if unit is None:
        return var.astype(dtype, copy=copy)
    if dtype == _cpp.DType.float64:
        convert_dtype_first = True
    elif var.dtype == _cpp.DType.float64:
        convert_dtype_first = False
    elif dtype == _cpp.DType.float32:
        convert_dtype_first = True
    elif var.dtype == _cpp.DType.float32:
        convert_dtype_first = False
    elif var.dtype == _cpp.DType.int64 and dtype == _cpp.DType.int32:
        convert_dtype_first = False
    elif var.dtype == _cpp.DType.int32 and dtype == _cpp.DType.int64:
        convert_dtype_first = True
    else:
        convert_dtype_first = True
    if convert_dtype_first:
        return to_unit(var.astype(dtype, copy=copy), unit=unit, copy=False)
    else:
        return to_unit(var, unit=unit, copy=copy).astype(dtype, copy=False)
def merge(lhs, rhs):
    if isinstance(lhs, Dataset) or isinstance(rhs, Dataset):
        return _call_cpp_func(_cpp.merge, lhs, rhs)
    return _merge_data_group(lhs, rhs)
def _generic_identical(a, b):
    try:
        return identical(a, b)
    except TypeError:
        from numpy import array_equal
        try:
            return array_equal(a, b)
        except TypeError:
            return a == b
def _merge_data_group(lhs, rhs):
    res = DataGroup(dict(lhs))
    for k, v in rhs.items():
        if k in res and (not _generic_identical(res[k], v)):
            raise DatasetError(f'Cannot merge data groups. Mismatch in item {k}')
        res[k] = v
    return res
def _raw_positional_index(sizes, coord, index):
    dim, *inds = _call_cpp_func(_cpp.label_based_index_to_positional_index, list(sizes.keys()), list(sizes.values()), coord, index)
    return (dim, inds)
def label_based_index_to_positional_index(sizes, coord, index):
    dim, inds = _raw_positional_index(sizes, coord, index)
    if len(inds) == 1:
        if inds[0] < 0 or sizes[dim] <= inds[0]:
            raise IndexError(f'Value {index} is not contained in the bin-edge coord {coord}')
        return (dim, inds[0])
    return (dim, slice(*inds))
def as_const(x):
    return _call_cpp_func(_cpp.as_const, x)
