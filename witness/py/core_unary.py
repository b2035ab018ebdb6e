TARGET = "scipp.core.unary"
from scipp._scipp import core as _cpp
from scipp.core._cpp_wrapper_util import call_func as _call_cpp_func
def isnan(x):
    return _call_cpp_func(_cpp.isnan, x)
def isinf(x):
    return _call_cpp_func(_cpp.isinf, x)
def isfinite(x):
    return _call_cpp_func(_cpp.isfinite, x)
def isposinf(x):
    return _call_cpp_func(_cpp.isposinf, x)
def isneginf(x):
    return _call_cpp_func(_cpp.isneginf, x)
def to_unit(x, unit, *, copy=True):
    return _call_cpp_func(_cpp.to_unit, x=x, unit=unit, copy=copy)
