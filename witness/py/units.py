TARGET = "scipp.units"
from contextlib import contextmanager
from scipp._scipp.core import add_unit_alias as _add_unit_alias
from scipp._scipp.core import clear_unit_aliases as _clear_unit_aliases
from scipp._scipp.core.units import K, angstrom, counts, default_unit, deg, dimensionless, kg, m, meV, mm, ns, one, rad, s, us
from scipp.core.cpp_classes import DefaultUnit, Unit, UnitError, Variable, VariancesError
class UnitAliases:

    def __init__(self):
        if any((isinstance(x, UnitAliases) for x in globals().values())):
            raise RuntimeError('There can be only one instance of _Aliases')
        self._aliases = {}

    def __setitem__(self, alias, unit):
        unit = _build_unit(unit)
        if self._aliases.get(alias) == unit:
            return
        if unit in self.values():
            raise ValueError(f"There already is an alias for unit '{unit!r}'")
        _add_unit_alias(name=alias, unit=unit)
        self._aliases[alias] = unit

    def __delitem__(self, alias):
        self._del_aliases(alias)

    def _del_aliases(self, *names):
        old_aliases = dict(self._aliases)
        for name in names:
            del old_aliases[name]
        self.clear()
        for name, unit in old_aliases.items():
            self[name] = unit

    def clear(self):
        self._aliases.clear()
        _clear_unit_aliases()

    @contextmanager
    def scoped(self, **kwargs):
        overridden = {name: unit for name, unit in self._aliases.items() if name in kwargs}
        for name, unit in kwargs.items():
            self[name] = unit
        yield
        self._del_aliases(*kwargs)
        for name, unit in overridden.items():
            self[name] = unit

    def __iter__(self):
        yield from self.keys()

    def keys(self):
        yield from self._aliases.keys()

    def values(self):
        yield from self._aliases.values()

    def items(self):
        yield from self._aliases.items()

    def __copy__(self):
        raise TypeError('UnitAliases is a singleton and must not be copied')

    def __deepcopy__(self):
        raise TypeError('UnitAliases is a singleton and must not be copied')
def _build_unit(x):
    if isinstance(x, Unit):
        return x
    if isinstance(x, str):
        return Unit(x)
    if x.variance is not None:
        raise VariancesError('Cannot define a unit with a variance')
    if x.unit is None:
        raise UnitError('Cannot define a unit based on a variable without units')
    return Unit(str(float(x.value))) * x.unit
aliases = UnitAliases()
__all__ = ['DefaultUnit', 'angstrom', 'counts', 'default_unit', 'deg', 'dimensionless', 'kg', 'K', 'meV', 'm', 'one', 'rad', 's', 'us', 'ns', 'mm']
