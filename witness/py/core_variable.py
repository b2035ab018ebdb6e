TARGET = "scipp.core.variable"
import warnings
from contextlib import contextmanager
from typing import Any, Generator, SupportsIndex, TypeVar
import numpy as _np
from scipp._scipp import core as _cpp
from scipp.units import DefaultUnit, default_unit
from scipp.core._sizes import _parse_dims_shape_sizes
from scipp.core.cpp_classes import DType, Unit, Variable
def scalar(value, *, variance=None, unit=default_unit, dtype=None):
    return _cpp.Variable(dims=(), values=value, variances=variance, unit=unit, dtype=dtype)
def index(value, *, dtype=None):
    return scalar(value=value, dtype=dtype, unit=None)
def zeros(*, dims=None, shape=None, sizes=None, unit=default_unit, dtype=DType.float64, with_variances=False):
    return _cpp.zeros(**_parse_dims_shape_sizes(dims, shape, sizes), unit=unit, dtype=dtype, with_variances=with_variances)
def ones(*, dims=None, shape=None, sizes=None, unit=default_unit, dtype=DType.float64, with_variances=False):
    return _cpp.ones(**_parse_dims_shape_sizes(dims, shape, sizes), unit=unit, dtype=dtype, with_variances=with_variances)
def empty(*, dims=None, shape=None, sizes=None, unit=default_unit, dtype=DType.float64, with_variances=False, aligned=True):
    return _cpp.empty(**_parse_dims_shape_sizes(dims, shape, sizes), unit=unit, dtype=dtype, with_variances=with_variances, aligned=aligned)
def full(*, value, variance=None, dims=None, shape=None, sizes=None, unit=default_unit, dtype=None):
    return scalar(value=value, variance=variance, unit=unit, dtype=dtype).broadcast(**_parse_dims_shape_sizes(dims, shape, sizes)).copy()
def vector(value, *, unit=default_unit):
    return vectors(dims=(), values=value, unit=unit)
def vectors(*, dims, values, unit=default_unit):
    return _cpp.Variable(dims=dims, values=values, unit=unit, dtype=DType.vector3)
def array(*, dims, values, variances=None, unit=default_unit, dtype=None):
    return _cpp.Variable(dims=dims, values=values, variances=variances, unit=unit, dtype=dtype)
def _expect_no_variances(args):
    has_variances = [key for key, val in args.items() if val is not None and val.variances is not None]
    if has_variances:
        raise _cpp.VariancesError(f'Arguments cannot have variances. Passed variances in {has_variances}')
def _ensure_same_unit(*, unit, args):
    if unit == default_unit:
        units = {key: val.unit for key, val in args.items() if val is not None}
        if len(set(units.values())) != 1:
            raise _cpp.UnitError(f'All units of the following arguments must be equal: {units}. You can specify a unit explicitly with the `unit` argument.')
        unit = next(iter(units.values()))
    return ({key: _cpp.to_unit(val, unit, copy=False).value if val is not None else None for key, val in args.items()}, unit)
def _normalize_range_args(*, unit, **kwargs):
    is_var = {key: isinstance(val, _cpp.Variable) for key, val in kwargs.items() if val is not None}
    if any(is_var.values()):
        if not all(is_var.values()):
            arg_types = {key: type(val) for key, val in kwargs.items()}
            raise TypeError(f'Either all of the following arguments or none have to be variables: {arg_types}')
        _expect_no_variances(kwargs)
        return _ensure_same_unit(unit=unit, args=kwargs)
    return (kwargs, unit)
def linspace(dim, start, stop, num, *, endpoint=True, unit=default_unit, dtype=None):
    range_args, unit = _normalize_range_args(unit=unit, start=start, stop=stop)
    return array(dims=[dim], values=_np.linspace(**range_args, num=num, endpoint=endpoint), unit=unit, dtype=dtype)
def geomspace(dim, start, stop, num, *, endpoint=True, unit=default_unit, dtype=None):
    range_args, unit = _normalize_range_args(unit=unit, start=start, stop=stop)
    return array(dims=[dim], values=_np.geomspace(**range_args, num=num, endpoint=endpoint), unit=unit, dtype=dtype)
def logspace(dim, start, stop, num, *, endpoint=True, base=10.0, unit=default_unit, dtype=None):
    range_args, _ = _normalize_range_args(unit='one', start=start, stop=stop)
    return array(dims=[dim], values=_np.logspace(**range_args, num=num, base=base, endpoint=endpoint), unit=unit, dtype=dtype)
def arange(dim, start, stop=None, step=None, *, unit=default_unit, dtype=None):
    if dtype == 'datetime64' and isinstance(start, str):
        start = datetime(start)
        if not isinstance(stop, str) and stop is not None:
            raise TypeError('Argument `stop` must be a string or `None` if `start` is a string.')
        stop = stop if stop is None else datetime(stop)
    range_args, unit = _normalize_range_args(unit=unit, start=start, stop=stop, step=step)
    types = [x.values.dtype if isinstance(x, _cpp.Variable) else _np.asarray(x).dtype for x in (start, stop, step) if x is not None]
    if dtype is None:
        candidates = set(types)
        if len(candidates) == 1:
            dtype = next(iter(candidates))
    if dtype is not None and dtype != 'datetime64':
        numpy_dtype = str(dtype) if isinstance(dtype, DType) else dtype
    else:
        numpy_dtype = None
    return array(dims=[dim], values=_np.arange(**range_args, dtype=numpy_dtype), unit=unit, dtype=dtype)
@contextmanager
def _timezone_warning_as_error():
    with warnings.catch_warnings():
        warnings.filterwarnings('error', category=DeprecationWarning, message='parsing timezone')
        try:
            yield
        except DeprecationWarning:
            raise ValueError('Parsing timezone aware datetimes is not supported') from None
def datetime(value, *, unit=default_unit):
    if isinstance(value, str):
        with _timezone_warning_as_error():
            return scalar(_np.datetime64(value), unit=unit)
    return scalar(value, unit=unit, dtype=_cpp.DType.datetime64)
def datetimes(*, dims, values, unit=default_unit):
    np_unit_str = f'[{u}]' if (u := _cpp.to_numpy_time_string(unit)) else ''
    with _timezone_warning_as_error():
        return array(dims=dims, values=_np.asarray(values, dtype=f'datetime64{np_unit_str}'))
def epoch(*, unit):
    return scalar(0, unit=unit, dtype=_cpp.DType.datetime64)
