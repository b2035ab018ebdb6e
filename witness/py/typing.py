TARGET = "scipp.typing"
from scipp._scipp import core as sc
def is_scalar(obj):
    return obj.ndim == 0
def has_vector_type(obj):
    return obj.dtype == sc.DType.vector3
def has_string_type(obj):
    return obj.dtype == sc.DType.string
def has_datetime_type(obj):
    return obj.dtype == sc.DType.datetime64
def has_numeric_type(obj):
    return obj.dtype != sc.DType.vector3 and obj.dtype != sc.DType.string
