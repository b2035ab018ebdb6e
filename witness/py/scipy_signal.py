TARGET = "scipp.scipy.signal"
from dataclasses import dataclass
from typing import Any
import numpy.typing as npt
from scipp.compat.wrapping import wrap1d
from scipp.core import CoordError, DataArray, UnitError, Variable, array, identical, islinspace, to_unit
from scipp.units import one
@dataclass
class SOS:

    def filtfilt(self, obj, dim, **kwargs):
        return sosfiltfilt(obj, dim=dim, sos=self, **kwargs)
def _frequency(coord):
    if not islinspace(coord).value:
        raise CoordError('Data is not regularly sampled, cannot compute frequency.')
    return (len(coord) - 1) / (coord[-1] - coord[0])
def butter(coord, *, N, Wn, **kwargs):
    fs = _frequency(coord).value
    try:
        Wn = to_unit(Wn, one / coord.unit)
    except UnitError:
        raise UnitError(f"Critical frequency unit '{Wn.unit}' incompatible with sampling unit '{one / coord.unit}'") from None
    import scipy.signal
    return SOS(coord=coord.copy(), sos=scipy.signal.butter(N=N, Wn=Wn.values, fs=fs, output='sos', **kwargs))
@wrap1d(keep_coords=True)
def _sosfiltfilt(da, dim, *, sos, **kwargs):
    if not identical(da.coords[dim], sos.coord):
        raise CoordError(f"Coord\n{da.coords[dim]}\nof filter dimension '{dim}' does not match coord\n{sos.coord}\nused for creating the second-order sections representation by scipp.scipy.signal.butter.")
    import scipy.signal
    data = array(dims=da.dims, unit=da.unit, values=scipy.signal.sosfiltfilt(sos.sos, da.values, **kwargs))
    return DataArray(data=data)
def sosfiltfilt(obj, dim, *, sos, **kwargs):
    da = obj if isinstance(obj, DataArray) else DataArray(data=obj, coords={dim: sos.coord})
    return _sosfiltfilt(da, dim=dim, sos=sos, **kwargs)
__all__ = ['butter', 'sosfiltfilt']
