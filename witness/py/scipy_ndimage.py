TARGET = "scipp.scipy.ndimage"
from functools import wraps
from collections.abc import Callable, Mapping
from typing import Any, Protocol, TypeVar
import scipy.ndimage
from scipp.core import CoordError, DataArray, DimensionError, Variable, VariancesError, empty_like, islinspace, ones
def _ndfilter(func):

    @wraps(func)
    def function(x, **kwargs):
        if 'output' in kwargs:
            raise TypeError("The 'output' argument is not supported")
        if x.variances is not None:
            raise VariancesError('Filter cannot be applied to input array with variances.')
        if getattr(x, 'masks', None):
            raise ValueError('Filter cannot be applied to input array with masks.')
        return func(x, **kwargs)
    return function
def _delta_to_positional(x, dim, index, dtype):
    if not isinstance(index, Variable):
        return index
    coord = x.coords[dim]
    if not islinspace(coord, dim).value:
        raise CoordError(f'Data points not regularly spaced along {dim}. To ignore this, provide a plain value (convertible to {dtype.__name__}) instead of a scalar variable. Note that this will correspond to plain positional indices/offsets.')
    pos = (len(coord) - 1) * (index.to(unit=coord.unit) / (coord[-1] - coord[0])).value
    return dtype(pos)
def _require_matching_dims(index, x, name):
    if set(index) != set(x.dims):
        raise KeyError(f"Data has dims={x.dims} but input argument '{name}' provides values for {tuple(index)}")
def _positional_index(x, index, name=None, dtype=int):
    if not isinstance(index, Mapping):
        return [_delta_to_positional(x, dim, index, dtype=dtype) for dim in x.dims]
    _require_matching_dims(index, x, name)
    return [_delta_to_positional(x, dim, index[dim], dtype=dtype) for dim in x.dims]
@_ndfilter
def gaussian_filter(x, /, *, sigma, order=0, **kwargs):
    sigma_values = _positional_index(x, sigma, name='sigma', dtype=float)
    if isinstance(order, Mapping):
        _require_matching_dims(order, x, 'order')
        order = [order[dim] for dim in x.dims]
    out = empty_like(x)
    scipy.ndimage.gaussian_filter(x.values, sigma=sigma_values, order=order, output=out.values, **kwargs)
    return out
def _make_footprint(x, size, footprint):
    if footprint is None:
        if size is None:
            raise ValueError("Provide either 'footprint' or 'size'.")
        footprint = ones(dims=x.dims, shape=_positional_index(x, size, name='size'), dtype='bool')
    else:
        if size is not None:
            raise ValueError("Provide either 'size' or 'footprint', not both.")
        if set(footprint.dims) != set(x.dims):
            raise DimensionError(f'Dimensions {footprint.dims} must match data dimensions {x.dim}')
    return footprint
class _FootprintFilter:

    def __call__(self, x, /, *, size=None, footprint=None, origin=0, **kwargs):
        pass
def _make_footprint_filter(name, example=True, extra_args=''):

    def footprint_filter(x, /, *, size=None, footprint=None, origin=0, **kwargs):
        footprint = _make_footprint(x, size=size, footprint=footprint)
        out = empty_like(x)
        scipy_filter = getattr(scipy.ndimage, name)
        scipy_filter(x.values, footprint=footprint.values, origin=_positional_index(x, origin, name='origin'), output=out.values, **kwargs)
        return out
    footprint_filter.__name__ = name
    if extra_args:
        extra_args = f', {extra_args}'
    doc = f"""\n    Calculate a multidimensional {name.replace('_', ' ')}.\n\n    This is a wrapper around :py:func:`scipy.ndimage.{name}`. See there for full\n    argument description. There are two key differences:\n\n    - This wrapper uses explicit dimension labels in the ``size``, ``footprint``, and\n      ``origin`` arguments. For example, instead of ``size=[4, 6]`` use\n      ``size={{'time':4, 'space':6}}`` (with appropriate dimension labels for the data).\n    - Coordinate values can be used (and should be preferred) for ``size`` and\n      ``origin``. For example, instead of ``size=[4, 6]`` use\n      ``size={{'time':sc.scalar(5.0, unit='ms'), 'space':sc.scalar(1.2, unit='mm')}}``.\n      In this case it is required that the corresponding coordinates exist and form a\n      "linspace", i.e., are evenly spaced.\n\n    Warning\n    -------\n    When ``size`` is an integer or a mapping to integers or when ``footprint`` is\n    given, coordinate values are ignored. That is, the filter is applied even if the\n    data points are not evenly spaced. The resulting filtered data may thus have no\n    meaningful interpretation.\n\n    Parameters\n    ----------\n    x: scipp.typing.VariableLike\n        Input variable or data array.\n    size:\n        Integer or scalar variable or mapping from dimension labels to integers or\n        scalar variables. Defines the footprint (see below).\n    footprint:\n        Variable with same dimension labels (but different shape) as the input data.\n        The boolean values specify (implicitly) a shape, but also which of the elements\n        within this shape will get passed to the filter function.\n    origin:\n        Integer or scalar variable or mapping from dimension labels to integers or\n        scalar variables. Controls the placement of the filter on the input array.\n\n    Returns\n    -------\n    : scipp.typing.VariableLike\n        Filtered variable or data array\n    """
    if example:
        doc += f"\n    Examples\n    --------\n\n    .. plot:: :context: close-figs\n\n      >>> from scipp.scipy.ndimage import {name}\n      >>> da = sc.data.data_xy()\n      >>> da.plot()\n\n    With size as integer:\n\n    .. plot:: :context: close-figs\n\n      >>> filtered = {name}(da, size=4{extra_args})\n      >>> filtered.plot()\n\n    With size based on input coordinate values:\n\n    .. plot:: :context: close-figs\n\n      >>> filtered = {name}(da, size=sc.scalar(0.2, unit='mm'){extra_args})\n      >>> filtered.plot()\n\n    With different size for different dimensions:\n\n    .. plot:: :context: close-figs\n\n      >>> filtered = {name}(da, size={{'x':sc.scalar(0.2, unit='mm'),\n      ...                       {' ' * len(name)}'y':sc.scalar(1.1, unit='mm')}}{extra_args})\n      >>> filtered.plot()\n    "
    footprint_filter.__doc__ = doc
    return _ndfilter(footprint_filter)
generic_filter = _make_footprint_filter('generic_filter', example=False)
maximum_filter = _make_footprint_filter('maximum_filter')
median_filter = _make_footprint_filter('median_filter')
minimum_filter = _make_footprint_filter('minimum_filter')
percentile_filter = _make_footprint_filter('percentile_filter', extra_args='percentile=80')
rank_filter = _make_footprint_filter('rank_filter', extra_args='rank=3')
__all__ = ['gaussian_filter', 'generic_filter', 'maximum_filter', 'median_filter', 'minimum_filter', 'percentile_filter', 'rank_filter']
