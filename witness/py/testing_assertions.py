TARGET = "scipp.testing.assertions"
from contextlib import contextmanager
from typing import Any, TypeVar
import numpy as np
from scipp.core import DataArray, DataGroup, Dataset, Variable
def assert_allclose(a, b, rtol=None, atol=None, **kwargs):
    return _assert_similar(_assert_allclose_impl, a, b, rtol=rtol, atol=atol, **kwargs)
def assert_identical(a, b):
    return _assert_similar(_assert_identical_impl, a, b)
def _assert_similar(impl, *args, **kwargs):
    try:
        impl(*args, **kwargs)
    except AssertionError as exc:
        if hasattr(exc, '__notes__'):
            notes = []
            rest = -1
            for i, note in enumerate(exc.__notes__):
                if 'PREPOSITION' in note:
                    notes.append(note.replace('PREPOSITION', 'in'))
                    rest = i
                    break
            notes.extend((note.replace('PREPOSITION', 'of') for note in exc.__notes__[rest + 1:]))
            exc.__notes__ = notes
        raise
def _assert_identical_impl(a, b):
    _assert_identical_structure(a, b)
    _assert_identical_data(a, b)
def _assert_allclose_impl(a, b, **kwargs):
    _assert_identical_structure(a, b)
    _assert_allclose_data(a, b, **kwargs)
def _assert_identical_structure(a, b):
    assert type(a) is type(b)
    if isinstance(a, Variable):
        _assert_identical_variable_structure(a, b)
    elif isinstance(a, DataArray):
        _assert_identical_data_array_structure(a, b)
def _assert_identical_variable_structure(a, b):
    assert a.sizes == b.sizes
    assert a.dims == b.dims
    assert a.unit == b.unit
    assert a.dtype == b.dtype
    assert (a.bins is None) == (b.bins is None)
    if a.bins is not None:
        assert b.bins is not None
        assert a.bins.unit == b.bins.unit
    elif a.variances is not None:
        assert b.variances is not None, 'a has variances but b does not'
    else:
        assert b.variances is None, 'a has no variances but b does'
def _assert_identical_data_array_structure(a, b):
    _assert_identical_variable_structure(a.data, b.data)
    _assert_mapping_eq(a.coords, b.coords, 'coord')
    _assert_mapping_eq(a.deprecated_attrs, b.deprecated_attrs, 'attr')
    _assert_mapping_eq(a.masks, b.masks, 'mask')
def _assert_identical_dataset(a, b):
    _assert_mapping_eq(a, b, 'dataset item')
def _assert_identical_datagroup(a, b):
    _assert_mapping_eq(a, b, 'data group item')
def _assert_identical_alignment(a, b):
    if isinstance(a, Variable) and isinstance(b, Variable):
        assert a.aligned == b.aligned
def _assert_mapping_eq(a, b, map_name):
    with _add_note(map_name + 's'):
        assert a.keys() == b.keys()
    for name, val_a in a.items():
        with _add_note("{} '{}'", map_name, name):
            val_b = b[name]
            _assert_identical_impl(val_a, val_b)
            _assert_identical_alignment(val_a, val_b)
def _assert_identical_data(a, b):
    if isinstance(a, Variable):
        _assert_identical_variable_data(a, b)
    elif isinstance(a, DataArray):
        _assert_identical_variable_data(a.data, b.data)
    elif isinstance(a, Dataset):
        _assert_identical_dataset(a, b)
    elif isinstance(a, DataGroup):
        _assert_identical_datagroup(a, b)
    else:
        assert a == b
def _assert_identical_variable_data(a, b):
    if a.bins is None:
        _assert_identical_dense_variable_data(a, b)
    else:
        _assert_identical_binned_variable_data(a, b)
def _assert_identical_dense_variable_data(a, b):
    with _add_note('values'):
        np.testing.assert_array_equal(a.values, b.values, err_msg='when comparing values')
        if a.variances is not None:
            with _add_note('variances'):
                np.testing.assert_array_equal(a.variances, b.variances, err_msg='when comparing variances')
def _assert_identical_binned_variable_data(a, b):
    assert a.bins is not None
    assert b.bins is not None
    _assert_identical_impl(a.bins.size(), b.bins.size())
    _assert_identical_impl(a.bins.concat().value, b.bins.concat().value)
def _assert_allclose_data(a, b, **kwargs):
    if isinstance(a, Variable):
        _assert_allclose_variable_data(a, b, **kwargs)
    elif isinstance(a, DataArray):
        _assert_allclose_variable_data(a.data, b.data, **kwargs)
    else:
        raise NotImplementedError
def _assert_allclose_variable_data(a, b, **kwargs):
    if a.bins is None:
        _assert_allclose_dense_variable_data(a, b, **kwargs)
    else:
        _assert_allclose_binned_variable_data(a, b, **kwargs)
def _assert_allclose_dense_variable_data(a, b, rtol=None, atol=None, **kwargs):
    if rtol is not None:
        kwargs['rtol'] = rtol.to(unit='dimensionless').value
    if atol is not None:
        if hasattr(a, 'unit'):
            atol = atol.to(unit=a.unit)
        else:
            atol = atol.to(unit='dimensionless')
        kwargs['atol'] = atol.value
    with _add_note('values'):
        np.testing.assert_allclose(a.values, b.values, err_msg='when comparing values', **kwargs)
        if a.variances is not None:
            with _add_note('variances'):
                np.testing.assert_allclose(a.variances, b.variances, err_msg='when comparing variances', **kwargs)
def _assert_allclose_binned_variable_data(a, b, **kwargs):
    assert a.bins is not None
    assert b.bins is not None
    _assert_identical_impl(a.bins.size(), b.bins.size())
    _assert_allclose_impl(a.bins.concat().value, b.bins.concat().value, **kwargs)
@contextmanager
def _add_note(loc, *args):
    try:
        yield
    except AssertionError as exc:
        if hasattr(exc, 'add_note'):
            exc.add_note(f'PREPOSITION {loc.format(*args)}')
        raise
__all__ = ['assert_identical', 'assert_allclose']
