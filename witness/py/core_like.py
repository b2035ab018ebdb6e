TARGET = "scipp.core.like"
from typing import Any, TypeVar
from scipp.core.concepts import rewrap_output_data
from scipp.core.cpp_classes import DataArray, Variable
from scipp.core.variable import empty, full, ones, zeros
def zeros_like(obj, /):
    new_values = zeros(dims=obj.dims, shape=obj.shape, unit=obj.unit, dtype=obj.dtype, with_variances=obj.variances is not None)
    return rewrap_output_data(obj, new_values)
def ones_like(obj, /):
    new_values = ones(dims=obj.dims, shape=obj.shape, unit=obj.unit, dtype=obj.dtype, with_variances=obj.variances is not None)
    return rewrap_output_data(obj, new_values)
def empty_like(obj, /):
    new_values = empty(dims=obj.dims, shape=obj.shape, unit=obj.unit, dtype=obj.dtype, with_variances=obj.variances is not None)
    return rewrap_output_data(obj, new_values)
def full_like(obj, /, value, *, variance=None):
    new_values = full(dims=obj.dims, shape=obj.shape, unit=obj.unit, dtype=obj.dtype, value=value, variance=variance)
    return rewrap_output_data(obj, new_values)
