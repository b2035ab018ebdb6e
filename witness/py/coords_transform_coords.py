TARGET = "scipp.coords.transform_coords"
from dataclasses import fields
from fractions import Fraction
from scipp.core import DataArray, Dataset, DimensionError, VariableError, bins, empty
from scipp.logging import get_logger
from scipp.coords.coord_table import Coord, CoordTable
from scipp.coords.graph import Graph, GraphDict, rule_sequence
from scipp.coords.options import Options
from scipp.coords.rule import ComputeRule, FetchRule, Kernel, RenameRule, Rule, rule_output_names
def transform_coords(x, targets=None, /, graph=None, *, rename_dims=True, keep_aliases=True, keep_intermediate=True, keep_inputs=True, quiet=False, **kwargs):
    options = Options(rename_dims=rename_dims, keep_aliases=keep_aliases, keep_intermediate=keep_intermediate, keep_inputs=keep_inputs, quiet=quiet)
    for field in fields(options):
        if not isinstance(getattr(options, field.name), bool):
            raise TypeError(f"'{field.name}' is a reserved for keyword argument. Use explicit targets and graph arguments to create an output coordinate of this name.")
    if kwargs:
        if targets is not None or graph is not None:
            raise ValueError(f'Explicit targets or graph not allowed since keyword arguments {kwargs} define targets and graph.')
    if targets is None:
        targets = set(kwargs)
        graph = kwargs
    else:
        targets = {targets} if isinstance(targets, str) else set(targets)
    _transform = _transform_dataset if isinstance(x, Dataset) else _transform_data_array
    return _transform(x, targets=targets, graph=Graph(graph), options=options)
def show_graph(graph, size=None, simplified=False):
    return Graph(graph).show(size=size, simplified=simplified)
def _transform_data_array(original, targets, graph, options):
    graph = graph.graph_for(original, targets)
    rules = rule_sequence(graph)
    working_coords = CoordTable(rules, targets, options)
    dim_coords = set()
    for rule in rules:
        for name, coord in rule(working_coords).items():
            working_coords.add(name, coord)
            if name in original.dims and coord.has_dim(name):
                dim_coords.add(name)
    dim_name_changes = _dim_name_changes(graph, dim_coords) if options.rename_dims else {}
    if not options.quiet:
        _log_transform(rules, targets, dim_name_changes, working_coords)
    res = _store_results(original, working_coords, targets)
    return res.rename_dims(dim_name_changes)
def _transform_dataset(original, targets, graph, *, options):
    if len(original) > 0:
        return Dataset(data={name: _transform_data_array(original[name], targets=targets, graph=graph, options=options) for name in original})
    dummy = DataArray(empty(sizes=original.sizes), coords=original.coords)
    transformed = _transform_data_array(dummy, targets=targets, graph=graph, options=options)
    return Dataset(coords=transformed.coords)
def _log_transform(rules, targets, dim_name_changes, coords):
    inputs = set(rule_output_names(rules, FetchRule))
    byproducts = {name for name in (set(rule_output_names(rules, RenameRule)) | set(rule_output_names(rules, ComputeRule))) - targets if coords.total_usages(name) < 0}
    preexisting = {target for target in targets if target in inputs}
    steps = [rule for rule in rules if not isinstance(rule, FetchRule)]
    message = f'Transformed coords ({', '.join(sorted(inputs))}) -> ({', '.join(sorted(targets))})'
    if byproducts:
        message += f'\n  Byproducts:\n    {', '.join(sorted(byproducts))}'
    if dim_name_changes:
        dim_rename_steps = '\n'.join((f'    {t} <- {f}' for f, t in dim_name_changes.items()))
        message += '\n  Renamed dimensions:\n' + dim_rename_steps
    if preexisting:
        message += f'\n  Outputs already present in input:\n    {', '.join(sorted(preexisting))}'
    message += '\n  Steps:\n' + ('\n'.join((f'    {rule}' for rule in steps)) if steps else '    None')
    get_logger().info(message)
def _store_coord(da, name, coord):

    def try_del():
        da.coords.pop(name, None)
        if da.bins is not None:
            da.bins.coords.pop(name, None)

    def store(x, c):
        x.coords[name] = c
        x.coords.set_aligned(name, coord.aligned)
    if coord.usages == 0:
        try_del()
    else:
        if coord.has_dense:
            store(da, coord.dense)
        if coord.has_event:
            try:
                store(da.bins, coord.event)
            except (DimensionError, VariableError):
                da.data = da.data.copy()
                store(da.bins, coord.event)
def _store_results(da, coords, targets):
    da = da.copy(deep=False)
    if da.bins is not None:
        da.data = bins(**da.bins.constituents)
    for name, coord in coords.items():
        if name in targets:
            coord.aligned = True
        _store_coord(da, name, coord)
    return da
def _color_dims(graph, dim_coords):
    colors = {coord: {dim: Fraction(0, 1) for dim in dim_coords} for coord in graph.nodes()}
    for dim in dim_coords:
        colors[dim][dim] = Fraction(1, 1)
        for coord in graph.nodes_topologically():
            children = tuple(graph.children_of(coord))
            for child in children:
                if child not in dim_coords:
                    colors[child][dim] += colors[coord][dim] * Fraction(1, len(children))
    return colors
def _has_full_color_of_dim(colors, dim):
    return all((fraction == 1 if d == dim else fraction != 1 for d, fraction in colors.items()))
def _dim_name_changes(rule_graph, dim_coords):
    colors = _color_dims(rule_graph, dim_coords)
    nodes = list(rule_graph.nodes_topologically())[::-1]
    name_changes = {}
    for dim in dim_coords:
        for node in nodes:
            if _has_full_color_of_dim(colors[node], dim):
                name_changes[dim] = node
                break
    return name_changes
