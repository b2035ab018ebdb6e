TARGET = "scipp.coords.graph"
import collections
from graphlib import TopologicalSorter
from scipp.core import DataArray
from scipp.utils.graph import make_graphviz_digraph
from scipp.coords.rule import ComputeRule, FetchRule, Kernel, RenameRule, Rule
GraphDict = dict[str | tuple[str, ...], str | Kernel]
class Graph:

    def __init__(self, graph):
        if not isinstance(graph, collections.abc.Mapping):
            raise TypeError("'graph' must be a dict")
        if not graph:
            self._rules = {}
        elif isinstance(next(iter(graph.values())), Rule):
            self._rules = graph
        else:
            self._rules = _convert_to_rule_graph(graph)

    def __getitem__(self, name):
        return self._rules[name]

    def items(self):
        yield from self._rules.items()

    def parents_of(self, node):
        try:
            yield from self._rules[node].dependencies
        except KeyError:
            return

    def children_of(self, node):
        for candidate, rule in self.items():
            if node in rule.dependencies:
                yield candidate

    def nodes(self):
        yield from self._rules.keys()

    def nodes_topologically(self):
        yield from TopologicalSorter({out: rule.dependencies for out, rule in self._rules.items()}).static_order()

    def graph_for(self, da, targets):
        subgraph = {}
        depth_first_stack = list(targets)
        while depth_first_stack:
            out_name = depth_first_stack.pop()
            if out_name in subgraph:
                continue
            rule = self._rule_for(out_name, da)
            for name in rule.out_names:
                subgraph[name] = rule
            depth_first_stack.extend(rule.dependencies)
        return Graph(subgraph)

    def _rule_for(self, out_name, da):
        if _is_in_coords(out_name, da):
            return FetchRule((out_name,), da.coords, da.bins.coords if da.bins else {})
        try:
            return self._rules[out_name]
        except KeyError:
            raise KeyError(f"Coordinate '{out_name}' does not exist in the input data and no rule has been provided to compute it.") from None

    def show(self, size=None, simplified=False):
        dot = make_graphviz_digraph(strict=True)
        dot.attr('node', shape='box', height='0.1')
        dot.attr(size=size)
        for output, rule in self._rules.items():
            if isinstance(rule, RenameRule):
                dot.edge(rule.dependencies[0], output, style='dashed')
            elif isinstance(rule, ComputeRule):
                if not simplified:
                    name = str(rule)
                    label = f'{rule.func_name}(...)'
                    dot.node(name, label=label, shape='plain', style='filled', color='lightgrey')
                    dot.edge(name, output)
                else:
                    name = output
                for arg in rule.dependencies:
                    dot.edge(arg, name)
        return dot
def rule_sequence(rules):
    already_used = set()
    result = []
    for rule in (r for n in rules.nodes_topologically() if (r := rules[n]) not in already_used):
        already_used.add(rule)
        result.append(rule)
    return result
def _make_rule(products, producer):
    if isinstance(producer, str):
        return RenameRule(products, producer)
    return ComputeRule(products, producer)
def _convert_to_rule_graph(graph):
    rule_graph = {}
    for products, producer in graph.items():
        products = (products,) if isinstance(products, str) else tuple(products)
        rule = _make_rule(products, producer)
        for product in products:
            if product in rule_graph:
                raise ValueError(f'Duplicate output name defined in conversion graph: {product}')
            rule_graph[product] = rule
    return rule_graph
def _is_in_coords(name, da):
    return name in da.coords or (da.bins is not None and name in da.bins.coords)
