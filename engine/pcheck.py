"""Functions of the Python layer: gated value numbering of each function versus its definition in witness/py."""
import pycheck
TRUST = ["Python's own parser", "engine/pyvn.py (value numbering of Python, with its model of builtins and containers)", "witness/py/*.py (definitions)"]
RULE = " Rule: on all inputs, outcome (value or kind of exception), sequence of effects on arguments and calls into the native module equal those of the definition; differences only in the form of a loop, or in reads moved across an effect, are reported as undecided."
def check(rep, files, what, nfun):
    pycheck.functions(rep, "functions", files)
    rep.assume += ["attributes, items and calls of unknown objects are uninterpreted; truth of an object is stable between effects on it", "the native module behaves as its documentation says (its kernels are the subject of the other checks)"]
    return rep.finish("proof", what + RULE, min_obl=nfun, trusted=TRUST, expect={"functions": nfun})
FILES = {
 "P01": ["core_arithmetic", "core_comparison", "core_logical", "core_math", "core_trigonometry", "core_hyperbolic", "core_unary", "core_shape", "core_cumulative", "core_counts", "core_operations", "spatial", "core__cpp_wrapper_util", "_binding", "operations", "core_structured", "core_deprecation", "typing"],
 "P02": ["core_data_group"],
 "P03": ["reduction", "core_reduction", "core_concepts"],
 "P04": ["core_variable", "core_like", "units", "core__sizes", "constants", "_extend_units"],
 "P05": ["core_bins", "core_binning", "core_bin_remapping", "core_groupby", "core_domains"],
 "P06": ["core_dimensions", "core_assignments", "core_argument_handlers", "core_dataset", "core_util"],
 "P07": ["coords_coord", "coords_coord_table", "coords_graph", "coords_rule", "coords_transform_coords"],
 "P08": ["compat_dict", "compat_pandas_compat", "compat_xarray_compat", "io_hdf5", "io_csv", "serialization"],
 "P09": ["scipy_integrate", "scipy_interpolate", "scipy_ndimage", "scipy_optimize", "scipy_signal", "compat_wrapping", "curve_fit"],
 "P10": ["testing_assertions", "utils_comparison"],
 "P13": ["visualization_formatting_html", "visualization_formatting_datagroup_html", "visualization_table", "visualization_html"],
 "P11": ["format_formatter", "format__parse", "utils_collapse_and_slices", "utils_to_string"],
}
WHAT = {
 "P01": "every free function and operator of the Python layer (arithmetic, comparison, logic, mathematics, shape, spatial, conversions, binding of methods) passes each operand and option to the operation of its name, in order, and returns that result",
 "P02": "every operation of DataGroup (access, slicing, arithmetic, reductions, shape, construction) acts on each item, with the operands in the written order",
 "P03": "every reduction (sum, mean, min, max, all, any, their nan variants, var, std, median, for variables, data arrays, datasets, bins and groups) reduces exactly the requested dimensions with the requested operation, masks and degrees of freedom",
 "P04": "creation functions and default units give values, variances, unit, dtype, dims as documented, and reject contradictory arguments",
 "P05": "binning, grouping, histogramming, lookup and the bins accessor pass on edges, groups, dims, erase lists and fill values as documented, with automatic bounds that enclose all data",
 "P06": "renaming dims, assigning coords, masks and attributes, and joining arguments keep every entry not named, and leave the input unchanged",
 "P07": "transform_coords computes each requested coordinate from its inputs along the graph exactly once, keeps, aligns or drops inputs and intermediates as documented, renames dims only where unambiguous, and rejects cycles and missing inputs",
 "P08": "writing to and reading from dicts, HDF5, CSV, pandas, xarray and serialised bytes carries every part (dims, values, variances, unit, dtype, coords, masks, alignment, names) to its counterpart",
 "P09": "wrappers of scipy check units, masks, variances and dims as documented, and pass options and arguments on unchanged",
 "P13": "the HTML view and the table list every dim, coord, mask, attribute and item once with its dims, dtype, unit and values, in order, and mark what is left out",
 "P11": "the text form of a variable names its dims, sizes, dtype and unit and shows the selected elements, marking what is left out; compact form rounds to the uncertainty; collapse and slices yield every slice under its own name",
 "P10": "comparison helpers and assertions compare every part of their operands and report any difference",
}
def make(p):
    def f(rep):
        refs = pycheck.Refs([pycheck.os.path.join(pycheck.VERIF, "witness/py", x + ".py") for x in FILES[p]])
        return check(rep, FILES[p], WHAT[p], len(refs.order))
    f.__name__ = p
    return f
CHECKS = {p: make(p) for p in FILES}
def P12(rep):
    import taint
    t = taint.Taint(taint.ROOTS)
    try: t.analyse()
    except (RecursionError, AttributeError, KeyError, TypeError, ValueError, IndexError, SyntaxError) as e:
        rep.undecided("analysis", "analysis", "%s: %s" % (type(e).__name__, e))
    badsites = set()
    for (mod, fn, expr), text in sorted(t.bad.items(), key=repr):
        if text is None: rep.undecided("roots", "%s.%s" % (mod, fn), "entry point not found")
        else: rep.bad("markup", "%s.%s %s" % (mod, fn, expr), text); badsites.add((mod, int(text.split(":")[1])))
    for mod, line in sorted(t.sites):
        if (mod, line) not in badsites: rep.good("markup", "%s:%d joins only markup, numbers and escaped text" % (mod, line))
    rep.extra["functions_analysed"] = ["%s.%s" % f for f in sorted(t.followed)]
    rep.extra["escaping_calls"] = ["%s:%d" % e for e in sorted(t.escapes)]
    rep.assume += ["objects whose type is annotated as number, shapes, sizes and lengths print as numbers", "html.escape escapes", "the templates and style sheets of scipp.visualization.resources are markup"]
    return rep.finish("other", "abstract interpretation of the modules that produce HTML and SVG, from every entry point, calls followed with the abstract values of their arguments: text that may come from the displayed object (names, dims, units, dtypes, values, reprs) is joined to markup, substituted into a template or returned as markup only after html.escape, escaped once, and not cut afterwards",
                      min_obl=1, trusted=["Python's own parser", "engine/taint.py"], expect={"markup": 30})
CHECKS["P12"] = P12
