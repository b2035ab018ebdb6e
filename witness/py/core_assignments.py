TARGET = "scipp.core.assignments"
from typing import Literal, TypeVar
from scipp.core.argument_handlers import combine_dict_args
from scipp.core.cpp_classes import DataArray, Dataset, Variable
def _assign(obj, name, obj_attrs=None, /, **kw_obj_attrs):
    out = obj.copy(deep=False)
    collected = combine_dict_args(obj_attrs, kw_obj_attrs)
    for key, value in collected.items():
        getattr(out, name)[key] = value
    return out
def assign_coords(self, coords=None, /, **coords_kwargs):
    return _assign(self, 'coords', coords, **coords_kwargs)
def assign_masks(self, masks=None, /, **masks_kwargs):
    return _assign(self, 'masks', masks, **masks_kwargs)
def assign_attrs(self, attrs=None, /, **attrs_kwargs):
    return _assign(self, 'attrs', attrs, **attrs_kwargs)
