TARGET = "scipp.core.counts"
from scipp._scipp import core as _cpp
from scipp.core._cpp_wrapper_util import call_func as _call_cpp_func
def counts_to_density(x, dim):
    return _call_cpp_func(_cpp.counts_to_density, x, dim)
def density_to_counts(x, dim):
    return _call_cpp_func(_cpp.density_to_counts, x, dim)
