TARGET = "scipp.core.deprecation"
from scipp.core.deprecation import _warn_attr_removal
def _deprecated_attrs(cls):
    _warn_attr_removal()
    return cls.deprecated_attrs
def _deprecated_meta(cls):
    _warn_attr_removal()
    return cls.deprecated_meta
def _deprecated_drop_attrs(cls, *args):
    _warn_attr_removal()
    return cls.deprecated_drop_attrs(*args)
