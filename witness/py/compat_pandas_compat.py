TARGET = "scipp.compat.pandas_compat"
from typing import TYPE_CHECKING, Literal
from scipp.core import DataArray, Dataset, Unit, UnitError, array
from scipp.units import default_unit
def _index_is_trivial(index, n_rows):
    from pandas import RangeIndex
    return isinstance(index, RangeIndex) and index.start == 0 and (index.stop == n_rows) and (index.step == 1)
def from_pandas_series(se, *, include_trivial_index=False, header_parser=None):
    row_index = se.axes[0]
    row_index_name = 'row' if row_index.name is None else str(row_index.name)
    name, unit = _parse_header('' if se.name is None else str(se.name), header_parser)
    coords = {row_index_name: array(dims=[row_index_name], values=row_index)} if include_trivial_index or not _index_is_trivial(row_index, len(se)) else {}
    if se.dtype == 'string':
        values = se.to_numpy(dtype=str)
    else:
        values = se.to_numpy()
    return DataArray(data=array(values=values, dims=[row_index_name], unit=unit), coords=coords, name=name)
def from_pandas_dataframe(df, *, data_columns=None, include_trivial_index=False, header_parser=None):
    import pandas as pd
    columns = (from_pandas_series(pd.Series(df[column_name]), include_trivial_index=include_trivial_index, header_parser=header_parser) for column_name in df.axes[1])
    coords = {da.name: da for da in columns}
    if data_columns is None:
        data = coords
        coords = {}
    else:
        if isinstance(data_columns, str):
            data_columns = (data_columns,)
        data = {name: coords.pop(name) for name in data_columns}
        coords = {name: coord.data for name, coord in coords.items()}
    return Dataset(data, coords=coords)
def from_pandas(pd_obj, *, data_columns=None, include_trivial_index=False, header_parser=None):
    import pandas as pd
    if isinstance(pd_obj, pd.DataFrame):
        return from_pandas_dataframe(pd_obj, data_columns=data_columns, include_trivial_index=include_trivial_index, header_parser=header_parser)
    elif isinstance(pd_obj, pd.Series):
        return from_pandas_series(pd_obj, include_trivial_index=include_trivial_index, header_parser=header_parser)
    else:
        raise ValueError(f"from_pandas: cannot convert type '{type(pd_obj)}'")
HeaderParser = Callable[[str], tuple[str, Unit | None]]
HeaderParserArg = Literal['bracket'] | HeaderParser | None
def parse_bracket_header(head):
    import re
    m = re.match('^([^[]*)(?:\\[([^[]*)])?$', head)
    if m is None:
        return (head, None)
    if m.lastindex != 2:
        return (m[1], None)
    name = m[1].rstrip()
    if m[2].strip():
        try:
            return (name, Unit(m[2]))
        except UnitError:
            return (head, None)
    return (name, default_unit)
_HEADER_PARSERS = {'bracket': parse_bracket_header}
def _parse_header(header, parser):
    if parser is None:
        return (header, default_unit)
    if callable(parser):
        return parser(header)
    if (parser := _HEADER_PARSERS.get(parser)) is not None:
        return parser(header)
    else:
        raise ValueError(f"Unknown header parser '{parser}', supported builtin parsers: {list(_HEADER_PARSERS.keys())}.")
