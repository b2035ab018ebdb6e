TARGET = 'scipp.core.data_group'
import copy
import functools
import itertools
import numbers
import operator
from functools import wraps
from typing import TYPE_CHECKING, Any, Concatenate, NoReturn, ParamSpec, TypeVar, cast, overload
import numpy as np
from scipp import _binding
from scipp.core.cpp_classes import DataArray, Dataset, DimensionError, GroupByDataArray, GroupByDataset, Unit, Variable
_P = ParamSpec('_P')

def _item_dims(item):
    return getattr(item, 'dims', ())

def _is_binned(item):
    from scipp.core.bins import Bins
    if isinstance(item, Bins):
        return True
    return getattr(item, 'bins', None) is not None

def _summarize(item):
    if isinstance(item, DataGroup):
        return f'{type(item).__name__}({len(item)}, {item.sizes})'
    if hasattr(item, 'sizes'):
        return f'{type(item).__name__}({item.sizes})'
    return str(item)

def _is_positional_index(key):

    def is_int(x):
        return isinstance(x, numbers.Integral)
    if is_int(key):
        return True
    if isinstance(key, slice):
        if is_int(key.start) or is_int(key.stop) or is_int(key.step):
            return True
        if key.start is None and key.stop is None and (key.step is None):
            return True
    return False

def _is_list_index(key):
    return isinstance(key, list | np.ndarray)

class DataGroup:

    def __init__(self, /, *args, **kwargs):
        self._items = dict(*args, **kwargs)
        if not all((isinstance(k, str) for k in self._items.keys())):
            raise ValueError('DataGroup keys must be strings.')

    def __copy__(self):
        return DataGroup(copy.copy(self._items))

    def __len__(self):
        return len(self._items)

    def __iter__(self):
        return iter(self._items)

    def keys(self):
        return self._items.keys()

    def values(self):
        return self._items.values()

    def items(self):
        return self._items.items()

    def __getitem__(self, name):
        from scipp.core.bins import Bins
        if isinstance(name, str):
            return self._items[name]
        if isinstance(name, tuple) and name == ():
            return cast(DataGroup[Any], self).apply(operator.itemgetter(name))
        if isinstance(name, Variable):
            return cast(DataGroup[Any], self).apply(operator.itemgetter(name))
        if _is_positional_index(name) or _is_list_index(name):
            if self.ndim != 1:
                raise DimensionError(f"Slicing with implicit dimension label is only possible for 1-D objects. Got {self.sizes} with ndim={self.ndim}. Provide an explicit dimension label, e.g., var['x', 0] instead of var[0].")
            dim = self.dims[0]
            index = name
        else:
            dim, index = name
        return DataGroup({key: var[dim, index] if isinstance(var, Bins) or dim in _item_dims(var) else var for key, var in self.items()})

    def __setitem__(self, name, value):
        if isinstance(name, str):
            self._items[name] = value
        else:
            raise TypeError('Keys must be strings')

    def __delitem__(self, name):
        del self._items[name]

    def __sizeof__(self):
        return self.underlying_size()

    def underlying_size(self):
        total_size = super.__sizeof__(self)
        for item in self.values():
            if isinstance(item, DataArray | Dataset | Variable | DataGroup):
                total_size += item.underlying_size()
            elif hasattr(item, 'nbytes'):
                total_size += item.nbytes
            else:
                total_size += item.__sizeof__()
        return total_size

    @property
    def dims(self):
        return tuple(self.sizes)

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def shape(self):
        return tuple(self.sizes.values())

    @property
    def sizes(self):
        all_sizes = {}
        for x in self.values():
            for dim, size in getattr(x, 'sizes', {}).items():
                all_sizes.setdefault(dim, set()).add(size)
        return {d: next(iter(s)) if len(s) == 1 else None for d, s in all_sizes.items()}

    def __repr__(self):
        r = f'DataGroup(sizes={self.sizes}, keys=[\n'
        for name, var in self.items():
            r += f'    {name}: {_summarize(var)},\n'
        r += '])'
        return r

    def __str__(self):
        return f'DataGroup(sizes={self.sizes}, keys={list(self.keys())})'

    @property
    def bins(self):
        return self.apply(operator.attrgetter('bins'))

    def apply(self, func, *args, **kwargs):
        return DataGroup({key: func(v, *args, **kwargs) for key, v in self.items()})

    def _transform_dim(self, func, *, dim, **kwargs):
        dims = (dim,) if isinstance(dim, str) else dim

        def intersects(item):
            item_dims = _item_dims(item)
            if dims is None:
                return item_dims != ()
            return set(dims).intersection(item_dims) != set()
        return DataGroup({key: v if not intersects(v) else operator.methodcaller(func, dim, **kwargs)(v) for key, v in self.items()})

    def _reduce(self, method, dim=None, **kwargs):
        reduce_all = operator.methodcaller(method, **kwargs)

        def _reduce_child(v):
            if isinstance(v, GroupByDataArray | GroupByDataset):
                child_dims = (dim,)
            else:
                child_dims = _item_dims(v)
            binned = _is_binned(v)
            if child_dims == () and (not binned):
                return v
            if dim is None:
                return reduce_all(v)
            if isinstance(dim, str):
                dims_to_reduce = dim if dim in child_dims else ()
            else:
                dims_to_reduce = tuple((d for d in dim if d in child_dims))
            if dims_to_reduce == () and binned:
                return reduce_all(v)
            return v if dims_to_reduce == () else operator.methodcaller(method, dims_to_reduce, **kwargs)(v)
        return DataGroup({key: _reduce_child(v) for key, v in self.items()})

    def copy(self, deep=True):
        return copy.deepcopy(self) if deep else copy.copy(self)

    def all(self, dim=None):
        return self._reduce('all', dim)

    def any(self, dim=None):
        return self._reduce('any', dim)

    def astype(self, type, *, copy=True):
        return self.apply(operator.methodcaller('astype', type, copy=copy))

    def bin(self, arg_dict=None, /, **kwargs):
        return self.apply(operator.methodcaller('bin', arg_dict, **kwargs))

    def broadcast(self, *, dims=None, shape=None, sizes=None):
        return self.apply(operator.methodcaller('broadcast', dims=dims, shape=shape, sizes=sizes))

    def ceil(self):
        return self.apply(operator.methodcaller('ceil'))

    def flatten(self, dims=None, to=None):
        return self._transform_dim('flatten', dim=dims, to=to)

    def floor(self):
        return self.apply(operator.methodcaller('floor'))

    def fold(self, dim, *, dims=None, shape=None, sizes=None):
        return self._transform_dim('fold', dim=dim, dims=dims, shape=shape, sizes=sizes)

    def group(self, /, *args):
        return self.apply(operator.methodcaller('group', *args))

    def groupby(self, /, group, *, bins=None):
        return self.apply(operator.methodcaller('groupby', group, bins=bins))

    def hist(self, arg_dict=None, /, **kwargs):
        return self.apply(operator.methodcaller('hist', arg_dict, **kwargs))

    def max(self, dim=None):
        return self._reduce('max', dim)

    def mean(self, dim=None):
        return self._reduce('mean', dim)

    def median(self, dim=None):
        return self._reduce('median', dim)

    def min(self, dim=None):
        return self._reduce('min', dim)

    def nanhist(self, arg_dict=None, /, **kwargs):
        return self.apply(operator.methodcaller('nanhist', arg_dict, **kwargs))

    def nanmax(self, dim=None):
        return self._reduce('nanmax', dim)

    def nanmean(self, dim=None):
        return self._reduce('nanmean', dim)

    def nanmedian(self, dim=None):
        return self._reduce('nanmedian', dim)

    def nanmin(self, dim=None):
        return self._reduce('nanmin', dim)

    def nansum(self, dim=None):
        return self._reduce('nansum', dim)

    def nanstd(self, dim=None, *, ddof):
        return self._reduce('nanstd', dim, ddof=ddof)

    def nanvar(self, dim=None, *, ddof):
        return self._reduce('nanvar', dim, ddof=ddof)

    def rebin(self, arg_dict=None, /, **kwargs):
        return self.apply(operator.methodcaller('rebin', arg_dict, **kwargs))

    def rename(self, dims_dict=None, /, **names):
        return self.apply(operator.methodcaller('rename', dims_dict, **names))

    def rename_dims(self, dims_dict=None, /, **names):
        return self.apply(operator.methodcaller('rename_dims', dims_dict, **names))

    def round(self):
        return self.apply(operator.methodcaller('round'))

    def squeeze(self, dim=None):
        return self._reduce('squeeze', dim)

    def std(self, dim=None, *, ddof):
        return self._reduce('std', dim, ddof=ddof)

    def sum(self, dim=None):
        return self._reduce('sum', dim)

    def to(self, *, unit=None, dtype=None, copy=True):
        return self.apply(operator.methodcaller('to', unit=unit, dtype=dtype, copy=copy))

    def transform_coords(self, targets=None, /, graph=None, *, rename_dims=True, keep_aliases=True, keep_intermediate=True, keep_inputs=True, quiet=False, **kwargs):
        return self.apply(operator.methodcaller('transform_coords', targets, graph=graph, rename_dims=rename_dims, keep_aliases=keep_aliases, keep_intermediate=keep_intermediate, keep_inputs=keep_inputs, quiet=quiet, **kwargs))

    def transpose(self, dims=None):
        return self._transform_dim('transpose', dim=dims)

    def var(self, dim=None, *, ddof):
        return self._reduce('var', dim, ddof=ddof)

    def plot(self, *args, **kwargs):
        import plopp
        return plopp.plot(self, *args, **kwargs)

    def __eq__(self, other):
        return data_group_nary(operator.eq, self, other)

    def __ne__(self, other):
        return data_group_nary(operator.ne, self, other)

    def __gt__(self, other):
        return data_group_nary(operator.gt, self, other)

    def __ge__(self, other):
        return data_group_nary(operator.ge, self, other)

    def __lt__(self, other):
        return data_group_nary(operator.lt, self, other)

    def __le__(self, other):
        return data_group_nary(operator.le, self, other)

    def __add__(self, other):
        return data_group_nary(operator.add, self, other)

    def __sub__(self, other):
        return data_group_nary(operator.sub, self, other)

    def __mul__(self, other):
        return data_group_nary(operator.mul, self, other)

    def __truediv__(self, other):
        return data_group_nary(operator.truediv, self, other)

    def __floordiv__(self, other):
        return data_group_nary(operator.floordiv, self, other)

    def __mod__(self, other):
        return data_group_nary(operator.mod, self, other)

    def __pow__(self, other):
        return data_group_nary(operator.pow, self, other)

    def __radd__(self, other):
        return data_group_nary(operator.add, other, self)

    def __rsub__(self, other):
        return data_group_nary(operator.sub, other, self)

    def __rmul__(self, other):
        return data_group_nary(operator.mul, other, self)

    def __rtruediv__(self, other):
        return data_group_nary(operator.truediv, other, self)

    def __rfloordiv__(self, other):
        return data_group_nary(operator.floordiv, other, self)

    def __rmod__(self, other):
        return data_group_nary(operator.mod, other, self)

    def __rpow__(self, other):
        return data_group_nary(operator.pow, other, self)

    def __and__(self, other):
        return data_group_nary(operator.and_, self, other)

    def __or__(self, other):
        return data_group_nary(operator.or_, self, other)

    def __xor__(self, other):
        return data_group_nary(operator.xor, self, other)

    def __invert__(self):
        return self.apply(operator.invert)

def data_group_nary(func, *args, **kwargs):
    dgs = filter(lambda x: isinstance(x, DataGroup), itertools.chain(args, kwargs.values()))
    keys = functools.reduce(operator.and_, [dg.keys() for dg in dgs])

    def elem(x, key):
        return x[key] if isinstance(x, DataGroup) else x
    return DataGroup({key: func(*[elem(x, key) for x in args], **{name: elem(x, key) for name, x in kwargs.items()}) for key in keys})

def apply_to_items(func, dgs, *args, **kwargs):
    keys = functools.reduce(operator.and_, [dg.keys() for dg in dgs])
    return DataGroup({key: func([dg[key] for dg in dgs], *args, **kwargs) for key in keys})

def data_group_overload(func):

    @wraps(func, assigned=('__module__', '__name__', '__qualname__', '__doc__'))
    def impl(data, *args, **kwargs):
        if isinstance(data, DataGroup):
            return data.apply(impl, *args, **kwargs)
        return func(data, *args, **kwargs)
    return impl

def _make_inplace_binary_op(name):

    def impl(self, other):
        raise TypeError(f'In-place operation i{name} is not supported by DataGroup.')
    return impl
for _name in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow'):
    full_name = f'__i{_name}__'
    _binding.bind_function_as_method(cls=DataGroup, name=full_name, func=_make_inplace_binary_op(full_name))
del _name, full_name
