TARGET = "scipp.utils.collapse_and_slices"
import numpy as np
OPAQUE = ["_to_slices"]
def collapse(scipp_obj, keep):
    slice_dims = []
    volume = 1
    slice_shape = {}
    for d, size in zip(scipp_obj.dims, scipp_obj.shape, strict=True):
        if d != keep:
            slice_dims.append(d)
            slice_shape[d] = size
            volume *= size
    return _to_slices(scipp_obj, slice_dims, slice_shape, volume)
def slices(scipp_obj, dim):
    n = scipp_obj.shape[scipp_obj.dims.index(dim)]
    return _to_slices(scipp_obj, [dim], {dim: n}, n)
def _to_slices(scipp_obj, slice_dims, slice_shape, volume):
    ranges = [np.arange(slice_shape[dim], dtype=np.int32) for dim in slice_dims]
    res = np.reshape(np.meshgrid(*list(ranges)), (len(slice_dims), volume))
    pairs = []
    for i, dim in enumerate(slice_dims):
        pairs.append([dim] * volume)
        pairs.append(res[i])
    pairs = np.reshape(np.transpose(np.array(pairs, dtype=np.dtype('O'))), (volume, len(slice_dims), 2))
    out = {}
    for line in pairs:
        part = scipp_obj
        key = ''
        for s in line:
            part = part[s[0], s[1]]
            key += f'{s[0]}:{s[1]}-'
        out[key[:-1]] = part
    return out
