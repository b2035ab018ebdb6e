TARGET = "scipp.io.csv"
from io import BytesIO, StringIO
from os import PathLike
from typing import Any
from scipp.compat.pandas_compat import HeaderParserArg, from_pandas_dataframe
from scipp.core import Dataset
def _load_dataframe(filepath_or_buffer, sep):
    try:
        import pandas as pd
    except ImportError:
        raise ImportError('Pandas is required to load CSV files but not install. Install it with `pip install pandas` or `conda install -c conda-forge pandas`.') from None
    return pd.read_csv(filepath_or_buffer, sep=sep)
def load_csv(filename, *, sep=',', data_columns=None, header_parser=None):
    df = _load_dataframe(filename, sep=sep)
    return from_pandas_dataframe(df, data_columns=data_columns, include_trivial_index=False, header_parser=header_parser)
