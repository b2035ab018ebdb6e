TARGET = "scipp.operations"
import functools
from inspect import signature
from scipp._scipp.core import transform as cpp_transform
from scipp.core import Variable
def _as_numba_cfunc(function, unit_func=None):
    import numba
    dtype = 'double'
    narg = len(signature(function).parameters)
    cfunc = numba.cfunc(dtype + '(' + ','.join([dtype] * narg) + ')')(function)
    cfunc.unit_func = function if unit_func is None else unit_func
    cfunc.name = function.__name__
    return cfunc
def elemwise_func(func=None, *, unit_func=None, dtype='float64', auto_convert_dtypes=False):

    def decorator(f):
        cfunc = _as_numba_cfunc(f, unit_func=unit_func)

        @functools.wraps(f)
        def transform_custom(*args):
            if auto_convert_dtypes:
                args = [arg.to(dtype='float64', copy=False) for arg in args]
            return cpp_transform(cfunc, *args)
        return transform_custom
    if func is None:
        return decorator
    return decorator(func)
