TARGET = "scipp.core.logical"
from scipp._scipp import core as _cpp
from scipp.core._cpp_wrapper_util import call_func as _call_cpp_func
def logical_not(x):
    return _call_cpp_func(_cpp.logical_not, x)
def logical_and(a, b):
    return _call_cpp_func(_cpp.logical_and, a, b)
def logical_or(a, b):
    return _call_cpp_func(_cpp.logical_or, a, b)
def logical_xor(a, b):
    return _call_cpp_func(_cpp.logical_xor, a, b)
