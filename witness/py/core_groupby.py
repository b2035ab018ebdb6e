TARGET = "scipp.core.groupby"
from scipp._scipp import core as _cpp
def groupby(data, /, group, *, bins=None):
    if bins is None:
        return _cpp.groupby(data, group)
    else:
        return _cpp.groupby(data, group, bins)
