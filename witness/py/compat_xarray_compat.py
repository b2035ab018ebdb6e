TARGET = "scipp.compat.xarray_compat"
from typing import TYPE_CHECKING
from warnings import warn
from scipp.core import DataArray, Dataset, Unit, Variable
from scipp.units import default_unit
def from_xarray(obj):
    import xarray as xr
    if isinstance(obj, xr.Variable):
        return _from_xarray_variable(obj)
    elif isinstance(obj, xr.DataArray):
        return _from_xarray_dataarray(obj)
    elif isinstance(obj, xr.Dataset):
        return _from_xarray_dataset(obj)
    else:
        raise ValueError(f"from_xarray: cannot convert type '{type(obj)}'")
def to_xarray(obj):
    if isinstance(obj, Variable):
        return _to_xarray_variable(obj)
    elif isinstance(obj, DataArray):
        return _to_xarray_dataarray(obj)
    elif isinstance(obj, Dataset):
        return _to_xarray_dataset(obj)
    else:
        raise ValueError(f"to_xarray: cannot convert type '{type(obj)}'")
def _from_xarray_variable(xr_obj):
    unit = xr_obj.attrs.get('units', None)
    return Variable(dims=xr_obj.dims, values=xr_obj.values, unit=Unit(unit) if unit is not None else default_unit)
def _to_xarray_variable(var):
    import xarray as xr
    if var.bins is not None:
        raise ValueError('Xarray does not support binned data.')
    if var.variances is not None:
        warn('Variances of variable were stripped when converting to Xarray.', stacklevel=3)
    attrs = {'units': str(var.unit)} if var.unit is not None else None
    return xr.Variable(dims=var.dims, data=var.values, attrs=attrs)
def _from_xarray_dataarray(da):
    if da.attrs and set(da.attrs) != {'units'}:
        warn('Input data contains some attributes which have been dropped during the conversion.', stacklevel=3)
    coords = {f'{name}': _from_xarray_variable(coord) for name, coord in da.coords.items()}
    scipp_da = DataArray(data=_from_xarray_variable(da), coords=coords, name=getattr(da, 'name', None) or '')
    for name in da.coords:
        if name not in da.indexes:
            scipp_da.coords.set_aligned(f'{name}', False)
    return scipp_da
def _to_xarray_dataarray(da):
    import xarray as xr
    if da.masks:
        warn('Some masks were found in the DataArray. These have been removed when converting to Xarray.', stacklevel=3)
    out = xr.DataArray(_to_xarray_variable(da.data))
    for key, coord in da.coords.items():
        for dim in coord.dims:
            if da.meta.is_edges(key, dim=dim):
                raise ValueError('Xarray does not support coordinates with bin edges.')
        out.coords[key] = _to_xarray_variable(coord)
    out = out.drop_indexes((key for key, coord in da.coords.items() if not coord.aligned))
    return out
def _from_xarray_dataset(ds):
    if ds.attrs:
        warn('Input data contains some attributes which have been dropped during the conversion.', stacklevel=3)
    sc_data = {k: _from_xarray_dataarray(v) for k, v in ds.items()}
    coords_in_data_arrays = []
    for item in ds.values():
        coords_in_data_arrays += list(item.coords.keys())
    return Dataset(data=sc_data, coords={key: _from_xarray_variable(ds.coords[key]) for key in set(ds.coords.keys()) - set(coords_in_data_arrays)})
def _to_xarray_dataset(ds):
    import xarray as xr
    return xr.Dataset(data_vars={k: _to_xarray_variable(v.data) for k, v in ds.items()}, coords={c: _to_xarray_variable(coord) for c, coord in ds.coords.items()})
