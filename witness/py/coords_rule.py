TARGET = "scipp.coords.rule"
import inspect
from abc import ABC, abstractmethod
from copy import copy
from functools import partial
from typing import TYPE_CHECKING, Any
from scipp.core import Variable
from scipp.coords.coord import Coord
Kernel = Callable[..., Variable]
class Rule:

    def __init__(self, out_names):
        self.out_names = out_names

    @abstractmethod
    def __call__(self, coords):
        pass

    @property
    @abstractmethod
    def dependencies(self):
        pass

    def _format_out_names(self):
        return f'({', '.join(self.out_names)})'
class FetchRule:

    def __init__(self, out_names, dense_sources, event_sources):
        super().__init__(out_names)
        self._dense_sources = dense_sources
        self._event_sources = event_sources

    def __call__(self, coords):
        return {out_name: Coord(dense=self._dense_sources.get(out_name, None), event=self._event_sources.get(out_name, None), aligned=True) for out_name in self.out_names}

    @property
    def dependencies(self):
        return ()

    def __str__(self):
        return f'Input   {self._format_out_names()}'
class RenameRule:

    def __init__(self, out_names, in_name):
        super().__init__(out_names)
        self._in_name = in_name

    def __call__(self, coords):
        return {out_name: copy(coords.consume(self._in_name)) for out_name in self.out_names}

    @property
    def dependencies(self):
        return (self._in_name,)

    def __str__(self):
        return f'Rename  {self._format_out_names()} <- {self._in_name}'
class ComputeRule:

    def __init__(self, out_names, func):
        super().__init__(out_names)
        self._func = func
        self._arg_names = _arg_names(func)

    def __call__(self, coords):
        inputs = {name: coords.consume(coord) for coord, name in self._arg_names.items()}
        outputs = None
        if any((coord.has_event for coord in inputs.values())):
            outputs = self._compute_with_events(inputs)
        if all((coord.has_dense for coord in inputs.values())):
            dense_outputs = self._compute_pure_dense(inputs)
            if outputs is None:
                outputs = dense_outputs
            else:
                for name, coord in dense_outputs.items():
                    outputs[name].dense = coord.dense
        return self._without_unrequested(outputs)

    def _compute_pure_dense(self, inputs):
        outputs = self._func(**{name: coord.dense for name, coord in inputs.items()})
        outputs = self._to_dict(outputs)
        return {name: Coord(dense=var, event=None, aligned=True) for name, var in outputs.items()}

    def _compute_with_events(self, inputs):
        args = {name: coord.event if coord.has_event else coord.dense for name, coord in inputs.items()}
        outputs = self._to_dict(self._func(**args))
        outputs = {name: Coord(dense=var if var.bins is None else None, event=var if var.bins is not None else None, aligned=True) for name, var in outputs.items()}
        return outputs

    def _without_unrequested(self, d):
        missing_outputs = [key for key in self.out_names if key not in d]
        if missing_outputs:
            raise TypeError(f'transform_coords was expected to compute {missing_outputs} using `{self._func.__name__}` but the function returned {list(d.keys())} instead.')
        return {key: d[key] for key in self.out_names}

    def _to_dict(self, output):
        if not isinstance(output, dict):
            if len(self.out_names) != 1:
                raise TypeError(f'Function returned a single output but {len(self.out_names)} were expected.')
            return {self.out_names[0]: output}
        return output

    @property
    def dependencies(self):
        return tuple(self._arg_names)

    @property
    def func_name(self):
        return self._func.__name__

    def __str__(self):
        name = getattr(self._func, '__name__', repr(self._func))
        return f'Compute {self._format_out_names()} = {name}({', '.join(self.dependencies)})'
def rules_of_type(rules, rule_type):
    yield from filter(lambda rule: isinstance(rule, rule_type), rules)
def rule_output_names(rules, rule_type):
    for rule in rules_of_type(rules, rule_type):
        yield from rule.out_names
def _arg_names(func):
    spec = inspect.getfullargspec(func)
    if spec.varargs is not None or spec.varkw is not None:
        raise ValueError(f'Function with variable arguments not allowed in conversion graph: `{func.__name__}`.')
    if inspect.isfunction(func) or func.__class__ == partial:
        args = spec.args
    else:
        args = spec.args[1:]
    names = tuple(args + spec.kwonlyargs)
    coords = getattr(func, '__transform_coords_input_keys__', names)
    return dict(zip(coords, names, strict=True))
