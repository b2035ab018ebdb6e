TARGET = "scipp.core.dimensions"
from typing import TypeVar
from scipp._scipp.core import CoordError, DataArray, Dataset, Variable
from scipp.core.argument_handlers import combine_dict_args
from scipp.core.bins import bins
from scipp.core.variable import scalar
def _rename_dims(self, dims_dict=None, /, **names):
    return self._rename_dims(combine_dict_args(dims_dict, names))
def _rename_variable(var, dims_dict=None, /, **names):
    return var.rename_dims(combine_dict_args(dims_dict, names))
def _rename_data_array(da, dims_dict=None, /, **names):
    renaming_dict = combine_dict_args(dims_dict, names)
    out = da.rename_dims(renaming_dict)
    if out.bins is not None:
        out.data = bins(**out.bins.constituents)
    for old, new in renaming_dict.items():
        if new in out.deprecated_meta:
            raise CoordError(f"Cannot rename '{old}' to '{new}', since a coord or attr named {new} already exists.")
        for meta in (out.coords, out.deprecated_attrs):
            if old in meta:
                meta[new] = meta.pop(old)
        if out.bins is not None:
            for meta in (out.bins.coords, out.bins.deprecated_attrs):
                if old in meta:
                    meta[new] = meta.pop(old)
    return out
def _rename_dataset(ds, dims_dict=None, /, **names):
    dims_dict = combine_dict_args(dims_dict, names)
    if len(ds) != 0:
        return Dataset({key: _rename_data_array(value, dims_dict) for key, value in ds.items()})
    dummy = DataArray(scalar(0).broadcast(dims=ds.dims, shape=ds.shape), coords=ds.coords)
    return Dataset(coords=_rename_data_array(dummy, dims_dict).coords)
