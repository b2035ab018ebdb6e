TARGET = "scipp.spatial"
from typing import Any, TypeVar
import numpy as np
import numpy.typing as npt
from scipp import units
from scipp._scipp import core as _core_cpp
from scipp.core import DType, Unit, UnitError, Variable, vectors
from scipp.core._cpp_wrapper_util import call_func as _call_cpp_func
def _to_eigen_layout(a):
    return np.moveaxis(a, -1, -2)
def as_vectors(x, y, z):
    return _call_cpp_func(_core_cpp.geometry.as_vectors, *(c.to(dtype='float64', copy=False) for c in (x, y, z)))
def translation(*, unit=units.dimensionless, value):
    return translations(dims=(), unit=unit, values=value)
def translations(*, dims, unit=units.dimensionless, values):
    return Variable(dims=dims, unit=unit, values=values, dtype=DType.translation3)
def scaling_from_vector(*, value):
    return linear_transforms(dims=[], values=np.diag(value))
def scalings_from_vectors(*, dims, values):
    identity = linear_transform(value=np.identity(3))
    matrices = identity.broadcast(dims=dims, shape=(len(values),)).copy()
    for field_name, index in (('xx', 0), ('yy', 1), ('zz', 2)):
        matrices.fields[field_name] = Variable(dims=dims, values=np.asarray(values)[:, index], dtype='float64')
    return matrices
def rotation(*, value):
    return rotations(dims=(), values=value)
def rotations(*, dims, values):
    values = np.asarray(values)
    if values.shape[-1] != 4:
        raise ValueError('Inputs must be Quaternions to create a rotation, i.e., have 4 components. If you want to pass a rotation matrix, use sc.linear_transforms instead.')
    return Variable(dims=dims, values=values, dtype=DType.rotation3)
def rotations_from_rotvecs(rotation_vectors):
    from scipy.spatial.transform import Rotation as R
    supported = [units.deg, units.rad]
    unit = rotation_vectors.unit
    if unit not in supported:
        raise UnitError(f'Rotation vector unit must be one of {supported}.')
    r = R.from_rotvec(rotation_vectors.values, degrees=unit == units.deg)
    return rotations(dims=rotation_vectors.dims, values=r.as_quat())
def rotation_as_rotvec(rotation, *, unit='rad'):
    unit = Unit(unit) if not isinstance(unit, Unit) else unit
    supported = [units.deg, units.rad]
    if unit not in supported:
        raise UnitError(f'Rotation vector unit must be one of {supported}.')
    from scipy.spatial.transform import Rotation as R
    r = R.from_matrix(rotation.values)
    if rotation.unit not in [units.one, units.dimensionless]:
        raise UnitError(f'Rotation matrix must be dimensionless, got {rotation.unit}.')
    return vectors(dims=rotation.dims, values=r.as_rotvec(degrees=unit == units.deg), unit=unit)
def affine_transform(*, unit=units.dimensionless, value):
    return affine_transforms(dims=[], unit=unit, values=value)
def affine_transforms(*, dims, unit=units.dimensionless, values):
    return Variable(dims=dims, unit=unit, values=_to_eigen_layout(values), dtype=DType.affine_transform3)
def linear_transform(*, unit=units.dimensionless, value):
    return linear_transforms(dims=(), unit=unit, values=value)
def linear_transforms(*, dims, unit=units.dimensionless, values):
    return Variable(dims=dims, unit=unit, values=_to_eigen_layout(values), dtype=DType.linear_transform3)
def inv(var):
    return _call_cpp_func(_core_cpp.inv, var)
__all__ = ['rotation', 'rotations', 'rotations_from_rotvecs', 'rotation_as_rotvec', 'scaling_from_vector', 'scalings_from_vectors', 'translation', 'translations', 'affine_transform', 'affine_transforms', 'linear_transform', 'linear_transforms', 'inv']
