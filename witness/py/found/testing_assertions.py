"""As found in the repository: known findings (known-findings.txt)"""
def _assert_identical_variable_structure(a, b):
    assert a.sizes == b.sizes
    assert a.unit == b.unit
    assert a.dtype == b.dtype
    assert (a.bins is None) == (b.bins is None)
    if a.bins is not None:
        assert b.bins is not None
        assert a.bins.unit == b.bins.unit
    elif a.variances is not None:
        assert b.variances is not None, 'a has variances but b does not'
    else:
        assert b.variances is None, 'a has no variances but b does'
def _assert_identical_data_array_structure(a, b):
    _assert_mapping_eq(a.coords, b.coords, 'coord')
    _assert_mapping_eq(a.deprecated_attrs, b.deprecated_attrs, 'attr')
    _assert_mapping_eq(a.masks, b.masks, 'mask')
def _assert_identical_binned_variable_data(a, b):
    assert a.bins is not None
    assert b.bins is not None
    _assert_identical_impl(a.bins.concat().value, b.bins.concat().value)
def _assert_allclose_binned_variable_data(a, b, **kwargs):
    assert a.bins is not None
    assert b.bins is not None
    _assert_allclose_impl(a.bins.concat().value, b.bins.concat().value, **kwargs)
