TARGET = "scipp.core.math"
from numbers import Real
from scipp._scipp import core as _cpp
from scipp.core._cpp_wrapper_util import call_func as _call_cpp_func
from scipp.core.variable import scalar
def abs(x, *, out=None):
    return _call_cpp_func(_cpp.abs, x, out=out)
def cross(x, y):
    return _call_cpp_func(_cpp.cross, x, y)
def dot(x, y):
    return _call_cpp_func(_cpp.dot, x, y)
def nan_to_num(x, *, nan=None, posinf=None, neginf=None, out=None):
    return _call_cpp_func(_cpp.nan_to_num, x, nan=nan, posinf=posinf, neginf=neginf, out=out)
def norm(x):
    return _call_cpp_func(_cpp.norm, x, out=None)
def reciprocal(x, *, out=None):
    return _call_cpp_func(_cpp.reciprocal, x, out=out)
def pow(base, exponent):
    if not isinstance(base, _cpp.Unit) and isinstance(exponent, Real):
        exponent = scalar(exponent)
    return _call_cpp_func(_cpp.pow, base, exponent)
def sqrt(x, *, out=None):
    return _call_cpp_func(_cpp.sqrt, x, out=out)
def exp(x, *, out=None):
    return _call_cpp_func(_cpp.exp, x, out=out)
def log(x, *, out=None):
    return _call_cpp_func(_cpp.log, x, out=out)
def log10(x, *, out=None):
    return _call_cpp_func(_cpp.log10, x, out=out)
def round(x, *, out=None):
    return _call_cpp_func(_cpp.rint, x, out=out)
def floor(x, *, out=None):
    return _call_cpp_func(_cpp.floor, x, out=out)
def ceil(x, *, out=None):
    return _call_cpp_func(_cpp.ceil, x, out=out)
def erf(x):
    return _call_cpp_func(_cpp.erf, x)
def erfc(x):
    return _call_cpp_func(_cpp.erfc, x)
def midpoints(x, dim=None):
    return _cpp.midpoints(x, dim)
