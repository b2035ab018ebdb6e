TARGET = "scipp.core.trigonometry"
from scipp._scipp import core as _cpp
from scipp.core._cpp_wrapper_util import call_func as _call_cpp_func
from scipp.core.cpp_classes import Variable
def sin(x, *, out=None):
    return _call_cpp_func(_cpp.sin, x, out=out)
def cos(x, *, out=None):
    return _call_cpp_func(_cpp.cos, x, out=out)
def tan(x, *, out=None):
    return _call_cpp_func(_cpp.tan, x, out=out)
def asin(x, *, out=None):
    return _call_cpp_func(_cpp.asin, x, out=out)
def acos(x, *, out=None):
    return _call_cpp_func(_cpp.acos, x, out=out)
def atan(x, *, out=None):
    return _call_cpp_func(_cpp.atan, x, out=out)
def atan2(*, y, x, out=None):
    return _call_cpp_func(_cpp.atan2, y=y, x=x, out=out)
