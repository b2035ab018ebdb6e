TARGET = "scipp.curve_fit"
OPAQUE = ["_curve_fit", "_datagroup_outputs", "_get_sigma", "_prepare_numpy_outputs", "_make_defaults", "_get_specific_bounds", "_parse_bounds", "_reshape_bounds", "_wrap_scipp_func", "_wrap_numpy_func"]
from functools import partial
from inspect import getfullargspec, isfunction
from numbers import Real
import numpy as np
from scipp.core import BinEdgeError, DataArray, DataGroup, DimensionError, Variable, array, scalar, stddevs, zeros
def _wrap_scipp_func(f, p0):
    p = {k: scalar(0.0, unit=v.unit) for k, v in p0.items()}

    def func(x, *args):
        for k, v in zip(p, args, strict=True):
            p[k].value = v
        return f(**x, **p).values
    return func
def _wrap_numpy_func(f, param_names, coord_names):

    def func(x, *args):
        if len(x.shape) == 1:
            x = x.reshape(1, -1)
        c = dict(zip(coord_names, x, strict=True))
        p = dict(zip(param_names, args, strict=True))
        return f(**c, **p)
    return func
def _get_sigma(da):
    if da.variances is None:
        return None
    sigma = stddevs(da).values
    if not sigma.all():
        raise ValueError('There is a 0 in the input variances. This would break the optimizer. Mask the offending elements, remove them, or assign a meaningful variance if possible before calling curve_fit.')
    return sigma
def _datagroup_outputs(da, p0, map_over, pdata, covdata):
    variances = np.diagonal(covdata, axis1=-2, axis2=-1)
    dg = DataGroup({p: DataArray(data=array(dims=map_over, values=pdata[..., i] if pdata.ndim > 1 else pdata[i], variances=variances[..., i] if variances.ndim > 1 else variances[i], unit=v0.unit)) for i, (p, v0) in enumerate(p0.items())})
    dgcov = DataGroup({p: DataGroup({q: DataArray(data=array(dims=map_over, values=covdata[..., i, j] if covdata.ndim > 2 else covdata[i, j], unit=v0.unit * u0.unit)) for j, (q, u0) in enumerate(p0.items())}) for i, (p, v0) in enumerate(p0.items())})
    for c in da.coords:
        if set(map_over).intersection(da.coords[c].dims):
            for p in dg:
                dg[p].coords[c] = da.coords[c]
                for q in dgcov[p]:
                    dgcov[p][q].coords[c] = da.coords[c]
    for m in da.masks:
        if set(da.masks[m].dims).issubset(set(dg.dims)):
            for p in dg:
                dg[p].masks[m] = da.masks[m]
                for q in dgcov[p]:
                    dgcov[p][q].masks[m] = da.masks[m]
    return (dg, dgcov)
def _prepare_numpy_outputs(da, p0, map_over):
    shape = [da.sizes[d] for d in map_over]
    dg = np.empty([*shape, len(p0)])
    dgcov = np.empty(shape + 2 * [len(p0)])
    return (dg, dgcov)
def _make_defaults(f, coords, p0):
    spec = getfullargspec(f)
    non_default_args = spec.args[:-len(spec.defaults)] if spec.defaults is not None else spec.args
    if not isfunction(f) and (not isinstance(f, partial)):
        non_default_args = non_default_args[1:]
    args = {*non_default_args, *spec.kwonlyargs} - set(spec.kwonlydefaults or ())
    if not set(coords).issubset(args):
        raise ValueError('Function must take the provided coords as arguments')
    return {**{a: scalar(1.0) for a in args - set(coords)}, **{k: v if isinstance(v, Variable) else scalar(v) for k, v in (p0 or {}).items()}}
def _get_specific_bounds(bounds, name, unit):
    if name not in bounds:
        return (-scalar(np.inf, unit=unit), scalar(np.inf, unit=unit))
    b = bounds[name]
    if len(b) != 2:
        raise ValueError(f"Parameter bounds must be given as a tuple of length 2. Got a collection of length {len(b)} as bounds for '{name}'.")
    if b[0] is not None and b[1] is not None and isinstance(b[0], Variable) ^ isinstance(b[1], Variable):
        raise ValueError(f'Bounds cannot mix Scipp variables and other number types, got {type(b[0])} and {type(b[1])}')
    le = -scalar(np.inf, unit=unit) if b[0] is None else b[0]
    ri = scalar(np.inf, unit=unit) if b[1] is None else b[1]
    le, ri = (v.to(unit=unit) if isinstance(v, Variable) else scalar(v).to(unit=unit) for v in (le, ri))
    return (le, ri)
def _parse_bounds(bounds, p0):
    return {k: _get_specific_bounds(bounds or {}, k, v.unit) for k, v in p0.items()}
def _reshape_bounds(bounds):
    left, right = zip(*bounds.values(), strict=True)
    left, right = ([le.value for le in left], [ri.value for ri in right])
    if all((le == -np.inf and ri == np.inf for le, ri in zip(left, right, strict=True))):
        return (-np.inf, np.inf)
    return (left, right)
def _curve_fit(f, da, p0, bounds, map_over, unsafe_numpy_f, out, **kwargs):
    dg, dgcov = out
    if len(map_over) > 0:
        dim = map_over[0]
        for i in range(da.sizes[dim]):
            _curve_fit(f, da[dim, i], {k: v[dim, i] if dim in v.dims else v for k, v in p0.items()}, {k: (le[dim, i] if dim in le.dims else le, ri[dim, i] if dim in ri.dims else ri) for k, (le, ri) in bounds.items()}, map_over[1:], unsafe_numpy_f, (dg[i], dgcov[i]), **kwargs)
        return
    for k, v in p0.items():
        if v.shape != ():
            raise DimensionError(f'Parameter {k} has unexpected dimensions {v.dims}')
    for k, (le, ri) in bounds.items():
        if le.shape != ():
            raise DimensionError(f'Left bound of parameter {k} has unexpected dimensions {le.dims}')
        if ri.shape != ():
            raise DimensionError(f'Right bound of parameter {k} has unexpected dimensions {ri.dims}')
    fda = da.flatten(to='row')
    if len(fda.masks) > 0:
        _mask = zeros(dims=fda.dims, shape=fda.shape, dtype='bool')
        for mask in fda.masks.values():
            _mask |= mask
        fda = fda[~_mask]
    if not unsafe_numpy_f:
        X = dict(fda.coords)
    else:
        X = np.vstack([c.values for c in fda.coords.values()], dtype='float')
    import scipy.optimize as opt
    if len(fda) < len(dg):
        dg[:] = np.nan
        dgcov[:] = np.nan
        return
    try:
        popt, pcov = opt.curve_fit(f, X, fda.data.values, [v.value for v in p0.values()], sigma=_get_sigma(fda), bounds=_reshape_bounds(bounds), **kwargs)
    except RuntimeError as err:
        if hasattr(err, 'message') and 'Optimal parameters not found:' in err.message:
            popt = np.array([np.nan for p in p0])
            pcov = np.array([[np.nan for q in p0] for p in p0])
        else:
            raise err
    dg[:] = popt
    dgcov[:] = pcov
def curve_fit(coords, f, da, *, p0=None, bounds=None, reduce_dims=(), unsafe_numpy_f=False, **kwargs):
    if 'jac' in kwargs:
        raise NotImplementedError("The 'jac' argument is not yet supported. See https://github.com/scipp/scipp/issues/2544")
    for arg in ['xdata', 'ydata', 'sigma']:
        if arg in kwargs:
            raise TypeError(f"Invalid argument '{arg}', already defined by the input data array.")
    for c in coords:
        if c in da.coords and da.coords.is_edges(c):
            raise BinEdgeError('Cannot fit data array with bin-edge coordinate.')
    if not isinstance(coords, dict):
        if not all((isinstance(c, str) for c in coords)):
            raise TypeError('Expected sequence of coords to only contain values of type `str`.')
        coords = {c: c for c in coords}
    coords = {arg: da.coords[coord] if isinstance(coord, str) else coord for arg, coord in coords.items()}
    p0 = _make_defaults(f, coords.keys(), p0)
    f = _wrap_scipp_func(f, p0) if not unsafe_numpy_f else _wrap_numpy_func(f, p0, coords.keys())
    map_over = tuple((d for d in da.dims if d not in reduce_dims and (not any((d in c.dims for c in coords.values())))))
    _da = DataArray(da.data, coords=coords, masks=da.masks)
    out = _prepare_numpy_outputs(da, p0, map_over)
    _curve_fit(f, _da, p0, _parse_bounds(bounds, p0), map_over, unsafe_numpy_f, out, **kwargs)
    return _datagroup_outputs(da, p0, map_over, *out)
__all__ = ['curve_fit']
