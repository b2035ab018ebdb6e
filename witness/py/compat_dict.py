TARGET = "scipp.compat.dict"
from collections import defaultdict
import numpy as np
from scipp.core import DataArray, Dataset, DType, Variable, vector, vectors
from scipp.spatial import linear_transform, linear_transforms
def to_dict(scipp_obj):
    if isinstance(scipp_obj, Variable):
        return _variable_to_dict(scipp_obj)
    elif isinstance(scipp_obj, DataArray):
        return _data_array_to_dict(scipp_obj)
    elif isinstance(scipp_obj, Dataset):
        out = {}
        for name, item in scipp_obj.items():
            out[name] = _data_array_to_dict(item)
        return out
def _vec_parser(x, shp):
    return np.array(x)
def _variable_to_dict(v):
    out = {'dims': _dims_to_strings(v.dims), 'shape': v.shape, 'unit': v.unit, 'dtype': v.dtype}
    if not v.aligned:
        out['aligned'] = False
    dtype_parser = defaultdict(lambda: lambda x, y: x)
    dtype_parser.update({str(DType.vector3): _vec_parser, str(DType.linear_transform3): _vec_parser, str(DType.string): _vec_parser})
    str_dtype = str(v.dtype)
    suffix = 's' if len(out['dims']) > 0 else ''
    out['values'] = dtype_parser[str_dtype](getattr(v, 'value' + suffix), v.shape)
    var = getattr(v, 'variance' + suffix)
    out['variances'] = dtype_parser[str_dtype](var, v.shape) if var is not None else None
    return out
def _data_array_to_dict(da):
    out = {'coords': {}, 'masks': {}, 'attrs': {}}
    for key in out.keys():
        for name, item in getattr(da, key).items():
            out[key][str(name)] = _variable_to_dict(item)
    out['coords'] = out.pop('coords')
    out['data'] = _variable_to_dict(da.data)
    out['name'] = da.name
    return out
def _dims_to_strings(dims):
    return tuple((str(dim) for dim in dims))
def from_dict(dict_obj):
    keys_as_set = set(dict_obj.keys())
    if {'coords', 'data'}.issubset(keys_as_set):
        return _dict_to_data_array(dict_obj)
    elif keys_as_set.issubset({'dims', 'values', 'variances', 'unit', 'dtype', 'shape', 'aligned'}):
        return _dict_to_variable(dict_obj)
    else:
        out = Dataset({key: _dict_to_data_array(item) for key, item in dict_obj.items()})
        return out
def _dict_to_variable(d):
    d = dict(d)
    keylist = set(d.keys())
    if 'values' in keylist and 'shape' in keylist:
        keylist.remove('shape')
    out = {}
    for key in keylist:
        if key == 'dtype' and isinstance(d[key], str):
            out[key] = getattr(DType, d[key])
        else:
            out[key] = d[key]
    if out['dims']:
        init = {'vector3': vectors, 'linear_transform3': linear_transforms}
    else:
        init = {'vector3': vector, 'linear_transform3': linear_transform}
    make_var = init.get(str(out.get('dtype', None)), Variable)
    if not out.get('aligned', True):
        make_var = Variable
    if make_var != Variable:
        if not out['dims']:
            out['value'] = out['values']
            del out['values']
            del out['dims']
        for key in ['dtype', 'variance', 'variances']:
            if key in out:
                del out[key]
    var = make_var(**out)
    return var
def _dict_to_data_array(d):
    d = dict(d)
    if 'data' not in d:
        raise KeyError(f"To create a DataArray, the supplied dict must contain 'data'. Got {d.keys()}.")
    out = {'coords': {}, 'masks': {}, 'attrs': {}}
    for key in out.keys():
        if key in d:
            for name, item in d[key].items():
                out[key][name] = _dict_to_variable(item)
    out['data'] = _dict_to_variable(d['data'])
    if 'name' in d:
        out['name'] = d['name']
    return DataArray(**out)
