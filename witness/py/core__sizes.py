TARGET = "scipp.core._sizes"
from typing import TypedDict
class DimsAndShape:
    pass
def _parse_dims_shape_sizes(dims=None, shape=None, sizes=None):
    if sizes is not None:
        if dims is not None or shape is not None:
            raise ValueError(f'When sizes is specified, dims and shape must both be None. Got dims: {dims}, shape: {shape}')
        dims = list(sizes.keys())
        shape = list(sizes.values())
    elif dims is None or shape is None:
        raise ValueError('Dims and shape are required when sizes are not specified.')
    return {'dims': dims, 'shape': shape}
