TARGET = "scipp.reduction"
import uuid
from scipp.core import concat, reduction
class BinsReducer:

    def __init__(self, obj, dim):
        self._obj = obj
        self._dim = dim

    def concat(self):
        return self._obj.bins.concat(self._dim)
class Reducer:

    def __init__(self, x):
        self._dim = uuid.uuid4().hex
        self._obj = concat(x, dim=self._dim)

    @property
    def bins(self):
        return BinsReducer(self._obj, self._dim)

    def all(self):
        return reduction.all(self._obj, self._dim)

    def any(self):
        return reduction.any(self._obj, self._dim)

    def max(self):
        return reduction.max(self._obj, self._dim)

    def min(self):
        return reduction.min(self._obj, self._dim)

    def sum(self):
        return reduction.sum(self._obj, self._dim)

    def mean(self):
        return reduction.mean(self._obj, self._dim)

    def nanmax(self):
        return reduction.nanmax(self._obj, self._dim)

    def nanmin(self):
        return reduction.nanmin(self._obj, self._dim)

    def nansum(self):
        return reduction.nansum(self._obj, self._dim)

    def nanmean(self):
        return reduction.nanmean(self._obj, self._dim)
def reduce(x):
    return Reducer(list(x))
