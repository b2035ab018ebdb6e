TARGET = "scipp.core.comparison"
from typing import Any
import numpy as np
from scipp._scipp import core as _cpp
from scipp.core import data_group
from scipp.core._cpp_wrapper_util import call_func as _call_cpp_func
from scipp.core.cpp_classes import DataArray, Dataset, Variable
from scipp.core.variable import scalar
def less(x, y):
    return _call_cpp_func(_cpp.less, x, y)
def greater(x, y):
    return _call_cpp_func(_cpp.greater, x, y)
def less_equal(x, y):
    return _call_cpp_func(_cpp.less_equal, x, y)
def greater_equal(x, y):
    return _call_cpp_func(_cpp.greater_equal, x, y)
def equal(x, y):
    return _call_cpp_func(_cpp.equal, x, y)
def not_equal(x, y):
    return _call_cpp_func(_cpp.not_equal, x, y)
def _identical_data_groups(x, y, *, equal_nan):

    def compare(a, b):
        if not isinstance(a, type(b)):
            return False
        if isinstance(a, Variable | DataArray | Dataset | data_group.DataGroup):
            return identical(a, b, equal_nan=equal_nan)
        if isinstance(a, np.ndarray):
            return np.array_equal(a, b, equal_nan=equal_nan)
        return bool(a == b)
    if x.keys() != y.keys():
        return False
    return all((compare(x[k], y[k]) for k in x.keys()))
def identical(x, y, *, equal_nan=False):
    if isinstance(x, data_group.DataGroup):
        if not isinstance(y, data_group.DataGroup):
            raise TypeError('Both or neither of the arguments must be a DataGroup')
        return _identical_data_groups(x, y, equal_nan=equal_nan)
    return _call_cpp_func(_cpp.identical, x, y, equal_nan=equal_nan)
def isclose(x, y, *, rtol=None, atol=None, equal_nan=False):
    if atol is None:
        atol = scalar(1e-08, unit=y.unit)
    if rtol is None:
        rtol = scalar(1e-05, unit=None if atol.unit is None else _cpp.units.one)
    return _call_cpp_func(_cpp.isclose, x, y, rtol, atol, equal_nan)
def allclose(x, y, rtol=None, atol=None, equal_nan=False):
    return _call_cpp_func(_cpp.all, isclose(x, y, rtol=rtol, atol=atol, equal_nan=equal_nan)).value
