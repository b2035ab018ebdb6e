TARGET = "scipp.scipy.interpolate"
from typing import Any, Literal, Protocol, TypeVar
import numpy as np
import numpy.typing as npt
from scipp.compat.wrapping import wrap1d
from scipp.core import DataArray, DimensionError, DType, UnitError, Variable, empty, epoch, irreducible_mask
def _as_interpolation_type(x):
    if isinstance(x, np.ndarray):
        if x.dtype.kind == 'M':
            return x.astype('int64', copy=False)
    elif x.dtype == DType.datetime64:
        return x - epoch(unit=x.unit)
    return x
def _midpoints(var, dim):
    a = var[dim, :-1]
    b = var[dim, 1:]
    return _as_interpolation_type(a) + 0.5 * (b - a)
def _drop_masked(da, dim):
    if (mask := irreducible_mask(da.masks, dim)) is not None:
        return da[~mask]
    return da
@wrap1d(is_partial=True, accept_masks=True)
def interp1d(da, dim, *, kind='linear', fill_value=np.nan, **kwargs):
    import scipy.interpolate as inter
    da = _drop_masked(da, dim)

    def func(xnew, *, midpoints=False):
        if xnew.unit != da.coords[dim].unit:
            raise UnitError(f"Unit of interpolation points '{xnew.unit}' does not match unit '{da.coords[dim].unit}' of points defining the interpolation function along dimension '{{dim}}'.")
        if xnew.dim != dim:
            raise DimensionError(f"Dimension of interpolation points '{xnew.dim}' does not match interpolation dimension '{dim}'")
        f = inter.interp1d(x=_as_interpolation_type(da.coords[dim].values), y=da.values, kind=kind, fill_value=fill_value, **kwargs)
        x_ = _as_interpolation_type(_midpoints(xnew, dim) if midpoints else xnew)
        sizes = da.sizes
        sizes[dim] = x_.sizes[dim]
        ynew = empty(sizes=sizes, unit=da.unit, dtype=da.dtype)
        ynew.values = f(x_.values)
        return DataArray(data=ynew, coords={dim: xnew})
    return func
class _Interp1dImpl:

    def __call__(self, xnew, *, midpoints=False):
        pass
__all__ = ['interp1d']
