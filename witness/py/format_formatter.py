TARGET = "scipp.format.formatter"
import numpy as np
from scipp.core.cpp_classes import DType, Unit
from scipp.core.data_group import DataGroup
from scipp.format._parse import Selection, parse, FormatType
from scipp.core.cpp_classes import Variable
def format_variable(self, format_spec):
    spec = parse(format_spec, Variable)
    return _VARIABLE_FORMATTERS[spec.format_type](self, spec)
def _format_sizes(data):
    return f"({', '.join([f'{dim}: {size}' for dim, size in data.sizes.items()])})"
def _format_unit(data):
    return '<no unit>' if data.unit is None else f'[{data.unit}]'
def _format_element(elem, *, dtype, spec):
    if spec:
        return f'{elem:{spec}}'
    if dtype == DType.float64 or dtype == DType.float32:
        return f'{elem:g}'
    return f'"{elem}"' if dtype == DType.string else f'{elem}'
def _format_scalar(data, *, dtype, spec):
    return '...' if spec.length == 0 else _format_element(data, dtype=dtype, spec=spec.nested)
def _as_flat_array(data):
    if isinstance(data, np.ndarray):
        return data.flat
    return data if 'ElementArray' in repr(type(data)) else np.array([data])
def _format_array_flat(data, *, dtype, spec):
    if dtype in (DType.Variable, DType.DataArray, DType.Dataset, DType.VariableView, DType.DataArrayView, DType.DatasetView):
        return str(data)
    if dtype == DType.PyObject:
        if 'ElementArray' in repr(type(data)):
            return str(data)
        if isinstance(data, DataGroup):
            return f'[{data}]'
    return _format_array_flat_regular(_as_flat_array(data), dtype=dtype, spec=spec)
def _format_array_flat_scipp_objects(data):
    return str(data)
def _format_data_group_element(data):
    return f'[{data}]'
def _element_ranges(spec):
    if spec.selection == Selection.edges:
        return slice(None, spec.length // 2), slice(-spec.length // 2, None)
    if spec.selection == Selection.begin:
        return slice(None, spec.length), slice(0, 0)
    if spec.selection == Selection.end:
        return slice(0, 0), slice(-spec.length, None)
def _format_array_flat_regular(data, *, dtype, spec):
    if len(data) <= spec.length:
        elements = [_format_element(e, dtype=dtype, spec=spec.nested) for e in data]
    elif spec.length == 0:
        elements = ['...']
    else:
        left, right = _element_ranges(spec)
        elements = []
        if left != slice(0, 0):
            elements.extend([_format_element(e, dtype=dtype, spec=spec.nested) for e in data[left]])
        elements.append('...')
        if right != slice(0, 0):
            elements.extend([_format_element(e, dtype=dtype, spec=spec.nested) for e in data[right]])
    return f"[{', '.join(elements)}]"
def _format_variable_default(var, spec):
    dims = _format_sizes(var)
    dtype = str(var.dtype)
    unit = _format_unit(var)
    if var.ndim == 0:
        values = _format_scalar(var.value, dtype=var.dtype, spec=spec)
        variances = '' if var.variance is None else _format_scalar(var.variance, dtype=var.dtype, spec=spec)
    else:
        values = _format_array_flat(var.values, dtype=var.dtype, spec=spec)
        variances = '' if var.variances is None else _format_array_flat(var.variances, dtype=var.dtype, spec=spec)
    return f'<scipp.Variable> {dims}  {dtype:>9}  {unit:>15}  {values}' + ('  ' + variances if variances else '')
def _format_variable_compact(var, spec):
    if spec.has_nested or spec.has_length or spec.has_selection:
        raise ValueError(f"Invalid format spec for compact formatter: '{spec}'")
    if not _is_numeric(var.dtype):
        raise ValueError(f'Compact formatting is not supported for dtype {var.dtype}')
    values = var.values if var.shape else np.array((var.value,))
    variances = var.variances if var.shape else np.array((var.variance,))
    unt = '' if var.unit == Unit('dimensionless') else f' {var.unit}'
    if variances is None:
        formatted = [_format_element_compact(v) for v in values]
    else:
        formatted = [_format_element_compact(*_round(v, e)) for v, e in zip(values, variances, strict=True)]
    return f"{', '.join(formatted)}{unt}"
def _is_numeric(dtype):
    return any(x in str(dtype) for x in ('float', 'int'))
def _round(value, variance):
    if variance is None or variance == 0:
        return value, None, None
    error = np.sqrt(variance)
    precision = np.floor(np.log10(error))
    if np.round(error * np.power(10.0, -precision)) == 1:
        precision -= 1
    up, down = np.power(10.0, -precision), np.power(10.0, precision)
    error = int(np.round(error * up))
    value = np.round(value * up) * down
    if precision > -1:
        error *= int(down)
    return value, error, precision
def _format_element_compact(value, error=None, precision=None):
    form = '' if precision is None else f'0.{max(0, int(-precision)):d}f'
    text = '{v:{s}}'.format(v=value, s=form)
    return text if error is None else f'{text}({error})'
_VARIABLE_FORMATTERS = {FormatType.default: _format_variable_default, FormatType.compact: _format_variable_compact}
