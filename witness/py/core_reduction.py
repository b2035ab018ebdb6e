TARGET = "scipp.core.reduction"
from typing import Any, NoReturn, cast
import numpy as np
import numpy.typing as npt
from scipp._scipp import core as _cpp
from scipp.core import concepts
from scipp.core._cpp_wrapper_util import call_func as _call_cpp_func
from scipp.core.cpp_classes import DataArray, Dataset, DimensionError, DTypeError, Unit, Variable, VariancesError
from scipp.core.data_group import DataGroup, data_group_nary
from scipp.core.variable import array
def mean(x, dim=None):
    if dim is None:
        return _call_cpp_func(_cpp.mean, x)
    else:
        return _call_cpp_func(_cpp.mean, x, dim=dim)
def nanmean(x, dim=None):
    if dim is None:
        return _call_cpp_func(_cpp.nanmean, x)
    else:
        return _call_cpp_func(_cpp.nanmean, x, dim=dim)
def median(x, dim=None):
    r = _reduce_with_numpy(x, dim=dim, sc_func=cast(Callable[..., VariableLike], median), np_func=np.median, np_ma_func=np.ma.median, unit_func=lambda u: u, kwargs={})
    return r
def nanmedian(x, dim=None):

    def _catch_masked(*args, **kwargs):
        raise ValueError('nanmedian does not support masked data arrays. Consider masking NaN values and calling scipp.median')
    return _reduce_with_numpy(x, dim=dim, sc_func=cast(Callable[..., VariableLike], nanmedian), np_func=np.nanmedian, np_ma_func=_catch_masked, unit_func=lambda u: u, kwargs={})
def var(x, dim=None, *, ddof):
    return _reduce_with_numpy(x, dim=dim, sc_func=cast(Callable[..., VariableLike], var), np_func=np.var, np_ma_func=np.ma.var, unit_func=lambda u: u ** 2, kwargs={'ddof': ddof})
def nanvar(x, dim=None, *, ddof):

    def _catch_masked(*args, **kwargs):
        raise ValueError('nanvar does not support masked data arrays. Consider masking NaN values and calling scipp.var')
    return _reduce_with_numpy(x, dim=dim, sc_func=cast(Callable[..., VariableLike], nanvar), np_func=np.nanvar, np_ma_func=_catch_masked, unit_func=lambda u: u ** 2, kwargs={'ddof': ddof})
def std(x, dim=None, *, ddof):
    return _reduce_with_numpy(x, dim=dim, sc_func=cast(Callable[..., VariableLike], std), np_func=np.std, np_ma_func=np.ma.std, unit_func=lambda u: u, kwargs={'ddof': ddof})
def nanstd(x, dim=None, *, ddof):

    def _catch_masked(*args, **kwargs):
        raise ValueError('nanstd does not support masked data arrays. Consider masking NaN values and calling scipp.std')
    return _reduce_with_numpy(x, dim=dim, sc_func=cast(Callable[..., VariableLike], nanstd), np_func=np.nanstd, np_ma_func=_catch_masked, unit_func=lambda u: u, kwargs={'ddof': ddof})
def sum(x, dim=None):
    if dim is None:
        return _call_cpp_func(_cpp.sum, x)
    elif isinstance(dim, str):
        return _call_cpp_func(_cpp.sum, x, dim=dim)
    for d in dim:
        x = _call_cpp_func(_cpp.sum, x, d)
    return x
def nansum(x, dim=None):
    if dim is None:
        return _call_cpp_func(_cpp.nansum, x)
    else:
        return _call_cpp_func(_cpp.nansum, x, dim=dim)
def min(x, dim=None):
    if dim is None:
        return _call_cpp_func(_cpp.min, x)
    else:
        return _call_cpp_func(_cpp.min, x, dim=dim)
def max(x, dim=None):
    if dim is None:
        return _call_cpp_func(_cpp.max, x)
    else:
        return _call_cpp_func(_cpp.max, x, dim=dim)
def nanmin(x, dim=None):
    if dim is None:
        return _call_cpp_func(_cpp.nanmin, x)
    else:
        return _call_cpp_func(_cpp.nanmin, x, dim=dim)
def nanmax(x, dim=None):
    if dim is None:
        return _call_cpp_func(_cpp.nanmax, x)
    else:
        return _call_cpp_func(_cpp.nanmax, x, dim=dim)
def all(x, dim=None):
    if dim is None:
        return _call_cpp_func(_cpp.all, x)
    else:
        return _call_cpp_func(_cpp.all, x, dim=dim)
def any(x, dim=None):
    if dim is None:
        return _call_cpp_func(_cpp.any, x)
    else:
        return _call_cpp_func(_cpp.any, x, dim=dim)
def _reduce_with_numpy(x, *, dim=None, sc_func, np_func, np_ma_func, unit_func, kwargs):
    if isinstance(x, Dataset):
        return Dataset({k: sc_func(v, dim=dim, **kwargs) for k, v in x.items()})
    if isinstance(x, DataGroup):
        return data_group_nary(sc_func, x, dim=dim, **kwargs)
    _expect_no_variance(x, sc_func.__name__)
    _expect_not_binned(x, sc_func.__name__)
    reduced_dims, out_dims, axis = _split_dims(x, dim)
    if isinstance(x, Variable):
        return array(dims=out_dims, values=np_func(x.values, axis=axis, **kwargs), unit=unit_func(x.unit) if x.unit is not None else None)
    if isinstance(x, DataArray):
        if (mask := concepts.irreducible_mask(x, dim)) is not None:
            masked = np.ma.masked_where(mask.broadcast(dims=x.dims, shape=x.shape).values, x.values)
            res = np_ma_func(masked, axis=axis, **kwargs)
        else:
            res = np_func(x.values, axis=axis, **kwargs)
        return concepts.rewrap_reduced_data(x, array(dims=out_dims, values=res, unit=unit_func(x.unit) if x.unit is not None else None), dim)
    raise TypeError(f'invalid argument of type {type(x)} to {sc_func}')
def _dims_to_axis(x, dim):
    return tuple((_dim_index(x.dims, d) for d in dim))
def _dim_index(dims, dim):
    try:
        return dims.index(dim)
    except ValueError:
        raise DimensionError(f'Expected dimension to be in {dims}, got {dim}') from None
def _split_dims(x, dim):
    reduced_dims = concepts.concrete_dims(x, dim)
    out_dims = tuple((d for d in x.dims if d not in reduced_dims))
    axis = _dims_to_axis(x, reduced_dims)
    return (reduced_dims, out_dims, axis)
def _expect_no_variance(x, op):
    if getattr(x, 'variances', None) is not None:
        raise VariancesError(f"'{op}' does not support variances")
def _expect_not_binned(x, op):
    if getattr(x, 'bins', None) is not None:
        raise DTypeError(f"'{op}' does not support binned data")
