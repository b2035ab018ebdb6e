TARGET = "scipp.core.structured"
from typing import Any
from scipp._scipp.core import _element_keys, _get_elements, _set_elements
from scipp.core.cpp_classes import DataArray, Dataset, DType, DTypeError, Variable
def _prop(key):

    def getter(self):
        return _get_elements(self._var, key)

    def setter(self, x):
        _set_elements(self._var, key, x)
    return property(getter, setter)
def is_structured(obj):
    if obj.bins is not None:
        data = obj.bins.constituents['data']
        if isinstance(data, Dataset):
            raise DTypeError('Datasets cannot have a structured dtype, got a variable with Datasets in bins.')
        return is_structured(data)
    return obj.dtype in [DType.vector3, DType.linear_transform3]
class Fields:

    def __init__(self, keys, var):
        self._var = var
        self._keys = keys

    def __contains__(self, key):
        return key in self._keys

    def __iter__(self):
        return self._keys.__iter__()

    def __getitem__(self, key):
        return _get_elements(self._var, key)

    def __setitem__(self, key, x):
        _set_elements(self._var, key, x)

    def keys(self):
        yield from self._keys

    def values(self):
        yield from (self[key] for key in self)

    def items(self):
        yield from ((key, self[key]) for key in self)
def _fields(obj):
    fields = type('Fields', Fields.__bases__, dict(Fields.__dict__))
    if is_structured(obj):
        keys = _element_keys(obj)
        for key in keys:
            setattr(fields, key, _prop(key))
        return fields(keys=keys, var=obj)
    return None
