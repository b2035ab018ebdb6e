TARGET = "scipp.core.hyperbolic"
from scipp._scipp import core as _cpp
from scipp.core._cpp_wrapper_util import call_func as _call_cpp_func
def sinh(x, *, out=None):
    return _call_cpp_func(_cpp.sinh, x, out=out)
def cosh(x, *, out=None):
    return _call_cpp_func(_cpp.cosh, x, out=out)
def tanh(x, *, out=None):
    return _call_cpp_func(_cpp.tanh, x, out=out)
def asinh(x, *, out=None):
    return _call_cpp_func(_cpp.asinh, x, out=out)
def acosh(x, *, out=None):
    return _call_cpp_func(_cpp.acosh, x, out=out)
def atanh(x, *, out=None):
    return _call_cpp_func(_cpp.atanh, x, out=out)
