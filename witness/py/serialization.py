TARGET = "scipp.serialization"
from typing import Any
from scipp.core import DataArray, DataGroup, Dataset, Variable
def serialize(var):
    from io import BytesIO
    from scipp.io.hdf5 import save_hdf5
    header = {}
    buf = BytesIO()
    save_hdf5(var, buf)
    frames = [buf.getvalue()]
    return (header, frames)
def deserialize(header, frames):
    from io import BytesIO
    from scipp.io.hdf5 import load_hdf5
    return load_hdf5(BytesIO(frames[0]))
try:
    from distributed.protocol import register_serialization
    register_serialization(Variable, serialize, deserialize)
    register_serialization(DataArray, serialize, deserialize)
    register_serialization(Dataset, serialize, deserialize)
except ImportError:
    pass
__all__ = ['serialize', 'deserialize']
