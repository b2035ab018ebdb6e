TARGET = "scipp.constants"
import math as _math
from scipp.core import Variable, as_const, scalar
def physical_constants(key, with_variance=False):
    from scipy.constants import physical_constants as table
    value, unit, sigma = table[key]
    if with_variance:
        return as_const(scalar(value=value, unit=unit.replace(" ", "*"), variance=sigma * sigma))
    return as_const(scalar(value=value, unit=unit.replace(" ", "*")))
pi = scalar(_math.pi)
golden = golden_ratio = scalar((1 + _math.sqrt(5)) / 2)

# physical constants
c = speed_of_light = physical_constants('speed of light in vacuum')
mu_0 = physical_constants('vacuum mag. permeability')
epsilon_0 = physical_constants('vacuum electric permittivity')
h = Planck = physical_constants('Planck constant')
hbar = h / (2 * pi)
G = gravitational_constant = physical_constants('Newtonian constant of gravitation')
g = physical_constants('standard acceleration of gravity')
e = elementary_charge = physical_constants('elementary charge')
R = gas_constant = physical_constants('molar gas constant')
alpha = fine_structure = physical_constants('fine-structure constant')
N_A = Avogadro = physical_constants('Avogadro constant')
k = Boltzmann = physical_constants('Boltzmann constant')
sigma = Stefan_Boltzmann = physical_constants('Stefan-Boltzmann constant')
Wien = physical_constants('Wien wavelength displacement law constant')
Rydberg = physical_constants('Rydberg constant')

m_e = electron_mass = physical_constants('electron mass')
m_p = proton_mass = physical_constants('proton mass')
m_n = neutron_mass = physical_constants('neutron mass')
m_u = u = atomic_mass = physical_constants('atomic mass constant')
