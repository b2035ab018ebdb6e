TARGET = "scipp.coords.coord"
import dataclasses
from scipp.core import Variable
@dataclasses.dataclass
class Coord:
    usages = -1

    @property
    def has_dense(self):
        return self.dense is not None

    @property
    def has_event(self):
        return self.event is not None

    def use(self):
        if self.usages > 0:
            self.usages -= 1

    @property
    def used_up(self):
        return self.usages == 0

    def has_dim(self, dim):
        return dim in (self.dense.dims if self.has_dense else self.event.dims)
