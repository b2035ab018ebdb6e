TARGET = "scipp.core._cpp_wrapper_util"
import itertools
from typing import Any, ParamSpec, TypeVar
from scipp.core.data_group import DataGroup, data_group_nary
_P = ParamSpec('_P')
def call_func(func, *args, **kwargs):
    out = kwargs.pop('out', None)
    if any((isinstance(x, DataGroup) for x in itertools.chain(args, kwargs.values()))):
        if out is not None:
            raise ValueError('`out` argument is not supported for DataGroup operations.')
        return data_group_nary(func, *args, **kwargs)
    if out is None:
        return func(*args, **kwargs)
    else:
        return func(*args, **kwargs, out=out)
