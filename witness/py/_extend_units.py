TARGET = "scipp._extend_units"
from scipp._scipp.core import Unit as _Unit
from scipp.core import scalar
def __rmul(self, value):
    return scalar(value, unit=self)
def __rtruediv(self, value):
    return scalar(value, unit=self ** (-1))
