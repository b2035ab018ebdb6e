TARGET = "scipp.scipy.integrate"
from typing import Any
import numpy.typing as npt
from scipp.compat.wrapping import wrap1d
from scipp.core import DataArray, array
def _integrate(func, da, dim, **kwargs):
    if 'dx' in kwargs:
        raise ValueError(f"Invalid argument 'dx': Spacing of integration points is given by the '{dim}' coord.")
    integral = func(x=da.coords[dim].values, y=da.values, **kwargs)
    dims = [d for d in da.dims if d != dim]
    unit = da.unit * da.coords[dim].unit
    return DataArray(data=array(dims=dims, values=integral, unit=unit))
@wrap1d()
def trapezoid(da, dim, **kwargs):
    import scipy.integrate as integ
    return _integrate(integ.trapezoid, da, dim, **kwargs)
@wrap1d()
def simpson(da, dim, **kwargs):
    import scipy.integrate as integ
    return _integrate(integ.simpson, da, dim, **kwargs)
__all__ = ['simpson', 'trapezoid']
