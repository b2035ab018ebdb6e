TARGET = "scipp.core.argument_handlers"
from typing import TypeVar
from scipp.core.cpp_classes import Variable
def combine_dict_args(arg, kwargs):
    pos_dict = {} if arg is None else arg
    overlapped = set(pos_dict).intersection(kwargs)
    if overlapped:
        raise ValueError(f'The names passed in the dict and as keyword arguments must be distinct. Following names are used in both arguments: {overlapped}')
    return {**pos_dict, **kwargs}
