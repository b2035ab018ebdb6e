TARGET = "scipp.core.arithmetic"
from scipp._scipp import core as _cpp
from scipp.core._cpp_wrapper_util import call_func as _call_cpp_func
def add(a, b):
    return _call_cpp_func(_cpp.add, a, b)
def divide(dividend, divisor):
    return _call_cpp_func(_cpp.divide, dividend, divisor)
def floor_divide(dividend, divisor):
    return _call_cpp_func(_cpp.floor_divide, dividend, divisor)
def mod(dividend, divisor):
    return _call_cpp_func(_cpp.mod, dividend, divisor)
def multiply(left, right):
    return _call_cpp_func(_cpp.multiply, left, right)
def negative(a):
    return _call_cpp_func(_cpp.negative, a)
def subtract(minuend, subtrahend):
    return _call_cpp_func(_cpp.subtract, minuend, subtrahend)
