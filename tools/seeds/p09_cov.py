exec(open("/verif/tools/seeds/common.txt").read())
ID, PROP = "p09_covariance_unit", "P09"
NEEDS = "curve_fit with one parameter given without unit (default unit) before one with a unit"
BREAKS = "the covariance of the two gets the default unit instead of the unit of the other parameter"
EDITS = [("src/scipp/scipy/optimize/__init__.py", "            if u == default_unit:\n                u = uj\n            elif uj != default_unit:", "            if u != default_unit and uj != default_unit:")]
FILES = files('''
from scipp.scipy import optimize as o
from scipp.units import default_unit
o._as_scalar = lambda v, u: (v, u)
m = fake.Unit("m")
r = o._covariance_with_units(["a", "b"], [[1, 2], [3, 4]], [default_unit, m])
assert r["b"]["a"] == (3, m) and r["b"]["b"] == (4, fake.Unit("m*m")) and r["a"]["a"] == (1, default_unit)
assert r["a"]["b"] == (2, m), r["a"]["b"]
''')
