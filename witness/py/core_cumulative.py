TARGET = "scipp.core.cumulative"
from typing import Literal
from scipp._scipp import core as _cpp
from scipp.core._cpp_wrapper_util import call_func as _call_cpp_func
from scipp.core.concepts import transform_data
from scipp.core.cpp_classes import Variable
def cumsum(a, dim=None, mode='inclusive'):

    def _cumsum(data):
        if dim is None:
            return _call_cpp_func(_cpp.cumsum, data, mode=mode)
        else:
            return _call_cpp_func(_cpp.cumsum, data, dim, mode=mode)
    return transform_data(a, _cumsum)
