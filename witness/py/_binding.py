TARGET = 'scipp._binding'
import inspect
import types
from typing import Any, TypeVar
from scipp._scipp import core
from scipp.core.cpp_classes import DataArray, Variable
_dict_likes = [(core.Dataset, core.DataArray), (core.Coords, core.Variable), (core.Masks, core.Variable), (core._BinsMeta, core.Variable), (core._BinsCoords, core.Variable), (core._BinsMasks, core.Variable), (core._BinsAttrs, core.Variable)]

def _get(self, key, default=None):
    try:
        return self[key]
    except KeyError:
        return default

def bind_get():
    for cls, value_type in _dict_likes:
        method = _convert_to_method(name='get', func=_get, abbreviate_doc=False)
        cls.get = method

def _expect_dimensionless_or_unitless(x):
    if x.unit is not None and x.unit != core.units.dimensionless:
        raise core.UnitError(f'Expected unit dimensionless or no unit, got {x.unit}.')

def _expect_no_variance(x):
    if x.variance is not None:
        raise core.VariancesError('Expected input without variances.')

def _int_dunder(self):
    _expect_dimensionless_or_unitless(self)
    _expect_no_variance(self)
    return int(self.value)

def _float_dunder(self):
    _expect_dimensionless_or_unitless(self)
    _expect_no_variance(self)
    return float(self.value)

def bind_conversion_to_builtin(cls):
    cls.__int__ = _convert_to_method(name='__int__', func=_int_dunder)
    cls.__float__ = _convert_to_method(name='__float__', func=_float_dunder)

class _NoDefaultType:

    def __repr__(self):
        return 'NotSpecified'
_NoDefault = _NoDefaultType()

def _pop(self, key, default=_NoDefault):
    if key not in self and default is not _NoDefault:
        return default
    return self._pop(key)

def bind_pop():
    for cls, value_type in _dict_likes:
        method = _convert_to_method(name='pop', func=_pop, abbreviate_doc=False)
        cls.pop = method

def bind_functions_as_methods(cls, namespace, func_names):
    for func_name, func in ((n, namespace[n]) for n in func_names):
        bind_function_as_method(cls=cls, name=func_name, func=func)

def bind_function_as_method(*, cls, name, func, abbreviate_doc=True):
    setattr(cls, name, _convert_to_method(name=name, func=func, abbreviate_doc=abbreviate_doc))

def _convert_to_method(*, name, func, abbreviate_doc=True):
    method = types.FunctionType(func.__code__, func.__globals__, name, func.__defaults__, func.__closure__)
    method.__kwdefaults__ = func.__kwdefaults__
    method.__annotations__ = func.__annotations__
    if hasattr(func, '__wrapped__'):
        method.__wrapped__ = func.__wrapped__
    return method
