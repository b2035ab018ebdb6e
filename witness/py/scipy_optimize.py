TARGET = "scipp.scipy.optimize"
from inspect import getfullargspec
from numbers import Real
from typing import Any
import numpy as np
import numpy.typing as npt
from scipp.core import BinEdgeError, DataArray, DefaultUnit, Unit, Variable, scalar, stddevs
from scipp.units import default_unit, dimensionless
from scipp.scipy.interpolate import _drop_masked
def _as_scalar(obj, unit):
    if unit == default_unit:
        return obj
    return scalar(value=obj, unit=unit)
def _wrap_func(f, p_names, p_units):

    def func(x, *args):
        p = {k: _as_scalar(v, u) for k, v, u in zip(p_names, args, p_units, strict=True)}
        return f(x, **p).values
    return func
def _get_sigma(da):
    if da.variances is None:
        return None
    sigma = stddevs(da).values
    if not sigma.all():
        raise ValueError('There is a 0 in the input variances. This would break the optimizer. Mask the offending elements, remove them, or assign a meaningful variance if possible before calling curve_fit.')
    return sigma
def _covariance_with_units(p_names, pcov_values, units):
    pcov = {}
    for i, row in enumerate(pcov_values):
        pcov[p_names[i]] = {}
        for j, elem in enumerate(row):
            ui = units[i]
            uj = units[j]
            u = ui
            if u == default_unit:
                u = uj
            elif uj != default_unit:
                u = ui * uj
            pcov[p_names[i]][p_names[j]] = _as_scalar(elem, u)
    return pcov
def _make_defaults(f, p0):
    spec = getfullargspec(f)
    if len(spec.args) != 1 or spec.varargs is not None:
        raise ValueError('Fit function must take exactly one positional argument')
    defaults = {} if spec.kwonlydefaults is None else spec.kwonlydefaults
    kwargs = {arg: 1.0 for arg in spec.kwonlyargs if arg not in defaults}
    if p0 is not None:
        kwargs.update(p0)
    return kwargs
def _get_specific_bounds(bounds, name, unit):
    if name not in bounds:
        return (-np.inf, np.inf)
    b = bounds[name]
    if len(b) != 2:
        raise ValueError(f"Parameter bounds must be given as a tuple of length 2. Got a collection of length {len(b)} as bounds for '{name}'.")
    if isinstance(b[0], Variable):
        return (b[0].to(unit=unit, dtype=float).value, b[1].to(unit=unit, dtype=float).value)
    return b
def _parse_bounds(bounds, params):
    if bounds is None:
        return (-np.inf, np.inf)
    bounds_tuples = [_get_specific_bounds(bounds, name, param.unit if isinstance(param, Variable) else dimensionless) for name, param in params.items()]
    bounds_array = np.array(bounds_tuples).T
    return (bounds_array[0], bounds_array[1])
def curve_fit(f, da, *, p0=None, bounds=None, **kwargs):
    if 'jac' in kwargs:
        raise NotImplementedError("The 'jac' argument is not yet supported. See https://github.com/scipp/scipp/issues/2544")
    for arg in ['xdata', 'ydata', 'sigma']:
        if arg in kwargs:
            raise TypeError(f"Invalid argument '{arg}', already defined by the input data array.")
    if da.sizes[da.dim] != da.coords[da.dim].sizes[da.dim]:
        raise BinEdgeError('Cannot fit data array with bin-edge coordinate.')
    import scipy.optimize as opt
    da = _drop_masked(da, da.dim)
    params = _make_defaults(f, p0)
    p_units = [p.unit if isinstance(p, Variable) else default_unit for p in params.values()]
    p0_values = [p.value if isinstance(p, Variable) else p for p in params.values()]
    popt, pcov = opt.curve_fit(f=_wrap_func(f, params.keys(), p_units), xdata=da.coords[da.dim], ydata=da.values, sigma=_get_sigma(da), p0=p0_values, bounds=_parse_bounds(bounds, params), **kwargs)
    popt = {name: scalar(value=val, variance=var, unit=u) for name, val, var, u in zip(params.keys(), popt, np.diag(pcov), p_units, strict=True)}
    pcov = _covariance_with_units(list(params.keys()), pcov, p_units)
    return (popt, pcov)
__all__ = ['curve_fit']
