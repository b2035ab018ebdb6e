TARGET = "scipp.core.dataset"
from scipp._scipp import core as _cpp
from scipp.core._cpp_wrapper_util import call_func as _call_cpp_func
def irreducible_mask(masks, dim):
    return _call_cpp_func(_cpp.irreducible_mask, masks, dim)
