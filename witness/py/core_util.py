TARGET = "scipp.core.util"
from typing import TypeVar
from scipp.core.cpp_classes import DataArray, Dataset, Variable
from scipp.core.like import empty_like
def _copy_dict_for_overwrite(mapping):
    return {name: copy_for_overwrite(var) for name, var in mapping.items()}
def copy_for_overwrite(obj):
    if isinstance(obj, Variable):
        return empty_like(obj)
    if isinstance(obj, DataArray):
        return DataArray(copy_for_overwrite(obj.data), coords=_copy_dict_for_overwrite(obj.coords), masks=_copy_dict_for_overwrite(obj.masks), attrs=_copy_dict_for_overwrite(obj.attrs))
    ds = Dataset(coords=_copy_dict_for_overwrite(obj.coords))
    for name, da in obj.items():
        ds[name] = DataArray(copy_for_overwrite(da.data), masks=_copy_dict_for_overwrite(da.masks), attrs=_copy_dict_for_overwrite(da.attrs))
    return ds
class VisibleDeprecationWarning:
    pass
VisibleDeprecationWarning.__module__ = 'scipp'
