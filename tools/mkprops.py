#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append(d)

EL = "lib/core/include/scipp/core/element/"
prop("K01", "Uncertainties propagate by the first-order rule",
 "Wherever an element-wise operation accepts operands with variances and produces a variance, the variance of the result equals the sum, over the operands, of the squared partial derivative of the value formula times that operand's variance (operands taken as uncorrelated). This holds for single and double precision, for every mix of operands with and without variances, and for the in-place forms; selections (min, max, where, special-value replacement) carry the variance of the selected operand.",
 ["inputs"], "all operand values and variances, all supported type pairs and variance mixes",
 "Tests compare a handful of numbers; a formula that is wrong for one sign, one operand order or one precision agrees on the samples. The element operations are not even compiled by the tests that build here.",
 ["lib/core/include/scipp/core/value_and_variance.h", EL+"arithmetic.h", EL+"math.h", EL+"trigonometry.h"],
 [("ValueAndVariance operators and functions", "lib/core/include/scipp/core/value_and_variance.h")])
prop("K02", "Attaching variances never changes the values",
 "The values computed by an element-wise operation are the same whether or not its operands carry variances. Comparisons and special-value tests look at values only.",
 ["inputs"], "all operand values (including NaN, infinities and ties) and variances, all supported type pairs and variance mixes",
 "Variance-carrying and plain data take different overloads; tests check each on separate samples, rarely on NaN, ties or mixed precision.",
 ["lib/core/include/scipp/core/value_and_variance.h", EL],
 [("overload set on ValueAndVariance versus plain arithmetic types", "lib/core/include/scipp/core/value_and_variance.h")])
prop("K03", "Comparisons, logic and selection mean what they are named",
 "For every pair of supported operands less, less_equal, greater, greater_equal, equal and not_equal agree with the IEEE/integer ordering of the values (NaN unordered), logical operations follow their truth tables, and where(c, x, y) is x exactly where c is true. Vectors and transformations are equal exactly if all their components are; time points compare as their counts.",
 ["inputs"], "all operand values including NaN, all supported type pairs including mixed integer/float and time points",
 "A sample of ordered pairs does not distinguish < from <= on ties or the treatment of NaN in each of the dozens of type instantiations.",
 [EL+"comparison.h", EL+"logical.h", EL+"util.h", "lib/core/include/scipp/core/time_point.h"],
 [("comparison and logical kernels", EL+"comparison.h")])
prop("K04", "Element-wise arithmetic computes the named function",
 "Add, subtract, multiply, true-divide, negate, abs, reciprocal, sqrt, exponentials, logarithms, trigonometric and hyperbolic functions, rounding, dot, cross and norm return the mathematical function they are named after, evaluated in the promoted type of the operands. Floor division and modulo satisfy Python's convention: the quotient is the floor of the true quotient and the remainder takes the sign of the divisor. Converting to another unit multiplies by the factor; integers and time points become the nearest integer, saturating at the limits of the type.",
 ["inputs"], "all operand values, all supported type pairs",
 "Dozens of type instantiations share one generic kernel or have their own overload; tests probe a few values of a few of them.",
 [EL+"arithmetic.h", EL+"math.h", EL+"trigonometry.h", EL+"hyperbolic.h", "lib/common/include/scipp/common/numeric.h"],
 [("element kernels", EL), ("numeric helpers", "lib/common/include/scipp/common/numeric.h")])
prop("K05", "NaN and infinity handling of classification and replacement is exact",
 "isnan, isinf, isfinite, isposinf and isneginf are true exactly on the values they name, and nan_to_num, positive_inf_to_num and negative_inf_to_num replace exactly those values and pass every other value through unchanged. Integers are never NaN or infinite. A vector is finite if all its components are and NaN if any is.",
 ["inputs"], "all operand values of all supported types, plain and with variances, returning and out-argument forms",
 "The property quantifies over the whole value range including both infinities and NaN for each type and each form.",
 [EL+"special_values.h", "lib/common/include/scipp/common/numeric.h"],
 [("special value kernels", EL+"special_values.h")])
prop("K06", "Accumulating minimum, maximum and sum treat NaN as documented",
 "The accumulation steps behind min, max and sum propagate NaN, while their nan-variants ignore NaN whenever any operand is a number; otherwise min and max deliver the smaller and larger operand.",
 ["inputs"], "all pairs of accumulator and element values, including NaN on either side and ties",
 "The result must be right for every ordering of accumulator and element, and reductions visit elements in an order that depends on layout and threads.",
 [EL+"comparison.h", EL+"arithmetic.h", EL+"logical.h"],
 [("min_equals, nanmin_equals, max_equals, nanmax_equals, add_equals, nan_add_equals", EL+"comparison.h")])
prop("K07", "In-place operations give the same result as out-of-place ones",
 "For every pair of operand types supported by both, an in-place element-wise operation leaves in its target the value and variance the out-of-place operation returns, converted to the target's type.",
 ["inputs"], "all operand values and variances, all operations and type pairs which have both forms",
 "The two forms have separate kernels, separate type lists and separate overloads for data with variances; tests compare few points of each.",
 [EL+"arithmetic.h", EL+"math.h", EL+"special_values.h", "lib/core/include/scipp/core/value_and_variance.h"],
 [("compound assignment kernels and ValueAndVariance compound operators", "lib/core/include/scipp/core/value_and_variance.h")])
prop("K08", "The unit of a result follows from the units of the operands",
 "For each element-wise operation the result unit is the one dimensional analysis prescribes (sum, difference, min/max: common unit; product, quotient, power, root: the corresponding unit; comparisons: no unit; trigonometry: angle to dimensionless), and operands whose units do not satisfy the operation's requirement are rejected with a unit error, never silently combined.",
 ["inputs"], "all pairs of units including none, all element-wise operations",
 "Unit space is unbounded; tests use two or three units per operation, and the unit library is not available to the tests that build here.",
 [EL, "lib/units/unit.cpp", "lib/core/include/scipp/core/transform_common.h"],
 [("unit overloads of the element kernels", EL), ("Unit arithmetic", "lib/units/unit.cpp")])
prop("K09", "Composed spatial transformations act like their successive application",
 "Applying the product of two spatial transformations (rotation, translation, linear map, affine map, in any order and combination) to a vector equals applying the second and then the first; accumulation of transformations in place composes in the same order. Inverses and conversions preserve the action on vectors. Components are read and written by their index; a default rotation or translation is the identity.",
 ["inputs"], "all real parameters of both transformations and all vectors",
 "It is an identity between polynomials in about 20 real variables for every ordered pair of transformation kinds; tests pick a few rotations.",
 ["lib/core/include/scipp/core/spatial_transforms.h", "lib/core/include/scipp/core/eigen.h"],
 [("mixed operator* of Quaternion, Translation, Affine3d, Matrix3d", "lib/core/include/scipp/core/spatial_transforms.h")])
prop("K10", "Integer results are computed exactly",
 "An element-wise or reduction operation whose operands and result are integers (or time points) is computed in integer arithmetic at least as wide as the result; it never passes through floating point or a narrower integer.",
 ["inputs"], "all 64-bit operand values, in particular those above 2^53",
 "Rounding through double only shows for magnitudes above 2^53, which no test uses.",
 ["lib/common/include/scipp/common/numeric.h", EL+"arithmetic.h", "lib/core/include/scipp/core/time_point.h"],
 [("floor_divide, remainder, pow, midpoint", "lib/common/include/scipp/common/numeric.h")])
prop("K11", "Uncertainties are propagated or refused, never dropped",
 "An operation either propagates the uncertainties of an operand or refuses an operand that has them: bin edges, coordinates, exponents, tolerances, scale factors, group labels and the operands of functions without a propagation rule (trigonometric and hyperbolic functions, erf, rounding, floor division, remainder, midpoint, running sums, order tests) must not have variances; functions that read variances require them. Only operations whose result has no uncertainties, or is a copy, may repeat an operand with uncertainties along new dimensions.",
 ["inputs"], "all operations and operands, and all element types that can carry variances",
 "A forgotten refusal silently yields too small error bars and raises nothing; a test must think of passing variances where they make no sense, for every operand of every operation.",
 [EL+f for f in ("bin.h", "math.h", "trigonometry.h", "hyperbolic.h", "event_operations.h", "histogram.h", "comparison.h", "cumulative.h", "to_unit.h", "util.h", "arithmetic.h")],
 [("flags in the overload set of each operation", "lib/core/include/scipp/core/transform_common.h")])
prop("K12", "Every supported element type stays supported and gives the promoted type",
 "Each element-wise operation accepts every combination of element types it supports (for example all pairs of 32 and 64 bit integers and floats in arithmetic and comparison, all four kinds of coordinate against edges in binning and lookup), and its result has the type of the promotion rules: an integer pair the wider integer, true division of integers double, float with any integer float, float with double double, comparisons bool, time point differences integer, a product of spatial transformations the narrowest type that holds it.",
 ["inputs"], "all operations and all supported combinations of element types",
 "There are about 1000 combinations; tests instantiate the kernel for a few and a missing one only shows as an error at run time for users of that combination, a wrong result type as lost digits.",
 [EL+f for f in ("arithmetic.h", "comparison.h", "math.h", "bin.h", "event_operations.h", "special_values.h", "util.h", "to_unit.h", "logical.h")],
 [("arg_list of each operation", EL+"arg_list.h"), ("tuples of supported types", "lib/core/include/scipp/core/transform_common.h")])
CO = "lib/core/"
prop("D01", "Strided indexing addresses exactly the right element",
 "For every shape and every set of strides, element i of a view is the one at the row-major coordinate of i: the offset in memory is the sum over the dimensions of coordinate times stride, for single views and for several operands iterated together, also when dimensions are flattened or broadcast, when jumping to a flat index and when stepping (one by one or in strides) including carries; default strides, transposed strides and the memory range of a view agree with this; a view under other dimensions takes each dimension's stride by label (zero if it is new), and views that share an element are recognised as overlapping. For binned operands a bin starts at its begin index. A view of more dimensions than the index has room for is refused rather than read from elsewhere.",
 ["inputs"], "all shapes, strides (zero and negative included), positions and flat indices",
 "A wrong offset only shows for particular combinations of rank, broadcasting and memory layout; tests enumerate a few layouts, and the space of layouts is unbounded.",
 [CO+"include/scipp/core/multi_index.h", CO+"multi_index.cpp", CO+"view_index.cpp", CO+"include/scipp/core/view_index.h", CO+"strides.cpp", CO+"element_array_view.cpp", CO+"include/scipp/core/element_array_view.h", "lib/common/include/scipp/common/index_composition.h"],
 [("MultiIndex and flatten_dims", CO+"multi_index.cpp"), ("ViewIndex", CO+"view_index.cpp"), ("flat_index_from_strides, extract_indices, memory_bounds", "lib/common/include/scipp/common/index_composition.h"), ("Strides, transpose", CO+"strides.cpp")])
prop("D02", "Dimensions are combined by label, never by position",
 "Operations on dimensions and sizes (merge, intersection, concat, fold, transpose, rename, lookup, comparison, inclusion, edge detection) match entries by label: the result contains exactly the labels and extents the operation is defined to produce, in the defined order, duplicates never arise, and mismatching extents, duplicate or unknown labels raise instead of being combined.",
 ["inputs"], "all label combinations (overlapping, disjoint, permuted) and all extents including 0 and 1",
 "The number of overlap patterns of two label sets explodes with the rank; tests check a few, rarely with zero extents or with partial overlap in a different order.",
 [CO+"sizes.cpp", CO+"dimensions.cpp", CO+"include/scipp/core/sizes.h"],
 [("small_stable_map, Sizes, concat, merge, is_edges", CO+"sizes.cpp"), ("Dimensions, merge, intersection, transpose, fold", CO+"dimensions.cpp")])
prop("D03", "Dictionaries keep entries by key, in order of insertion",
 "A dictionary of coords, masks or items holds each key once: inserting a new key appends it, assigning to an existing key replaces the value in place, erasing or extracting removes exactly that key and keeps the order of the others, and lookup gives the value of the key or raises. Iteration over keys, values or items (transformed or not) visits the entries in order of insertion; an iterator used after the dictionary has changed size raises. A copy is independent of its original.",
 ["inputs", "histories"], "all keys, values and sequences of operations",
 "The order of the remaining entries, the pairing of keys and values and stale iterators depend on which entries were inserted and removed before; tests run through a few histories.",
 [CO+"include/scipp/core/dict.h"],
 [("Dict", CO+"include/scipp/core/dict.h"), ("dict_detail::Iterator, TransformIterator", CO+"include/scipp/core/dict.h")])
prop("D05", "Slices are accepted exactly when in range and give the right extents",
 "A slice with negative begin, end before begin, or non-positive stride is rejected on construction; slicing rejects unknown dimensions and out-of-range bounds; an accepted range slice changes only the sliced extent, to the number of selected elements, and a point slice removes the dimension. Two slices are equal exactly if dimension, bounds and stride are.",
 ["inputs"], "all begin, end, stride, extents and labels",
 "Off-by-one errors at the ends of the range and in strided lengths show only for particular remainders.",
 [CO+"slice.cpp", CO+"sizes.cpp", CO+"include/scipp/core/slice.h"],
 [("Slice", CO+"slice.cpp"), ("Sizes::slice, expect::validSlice", CO+"sizes.cpp")])
prop("D06", "Buffers of elements have value semantics",
 "A buffer of elements is made with exactly the given content and size; a copy or a copy-assigned buffer has equal content (and is null exactly if the original is) and shares nothing with it; moving transfers the content and leaves the source null; resize gives the requested size with default values, reset gives a null buffer, and a negative size raises. This holds however initialisation is split among threads.",
 ["inputs", "histories", "schedules"], "all contents, sizes, previous states of the target, and partitions of the work",
 "Which state the target had before, self-assignment, null and empty buffers and the partition into chunks combine; tests sample a few of them.",
 [CO+"include/scipp/core/element_array.h"],
 [("element_array", CO+"include/scipp/core/element_array.h")])
DS = "lib/dataset/"
prop("D07", "Coords and masks always fit their data, and follow it when it is sliced",
 "A coord or mask is accepted exactly if it is not binned and each of its dimensions is one of the data's with the same size, except for at most one, which may have one more entry (bin edges) or, if it is not a dimension of the data, two. Slicing slices every item that has the dimension, edges keep both edges of the selected bins (and refuse strides), a coord of the dimension becomes unaligned at a point, items without the dimension become read-only and the result refuses further items. Renaming, merging, union (aligned wins, mismatching aligned coords raise), intersection, comparison (including alignment) and assignment to a slice follow the same item-wise rules; a read-only dictionary refuses every change and a copy is writable and independent.",
 ["inputs", "histories"], "all labels, sizes (0 and 1 included), alignment and read-only flags of the items, and all slices",
 "Whether an item is an edge, belongs to a dimension or must be kept follows from its labels and sizes against those of the data; tests use a handful of shapes and one slice each.",
 [DS+"sized_dict.cpp", DS+"include/scipp/dataset/sized_dict.h", DS+"except.cpp"],
 [("SizedDict", DS+"sized_dict.cpp"), ("slice_map", DS+"include/scipp/dataset/sized_dict.h"), ("coords_are_superset, matching_coord", DS+"except.cpp")])
prop("D08", "Data arrays keep data, coords, masks and attrs consistent",
 "A data array can only be made of coords, masks and attrs that fit its data, and its dictionaries have exactly the sizes of the data; replacing the data demands the same labelled sizes. A copy (or assigned data array) is writable and what is done to it does not show in the original, whereas a view shares everything; a slice and a const view refuse other data and other coords; an item seen through a dataset has exactly the coords that depend on none but its dimensions, read-only. Comparison covers data, variances, coords, masks and attrs; assigning to a slice demands coords that exist and match where aligned, masks that exist and either are assigned to the part of the mask or, where a mask lacks the dimension or is read-only, equal it, and data of the shape of the part: if coords or data are refused, nothing has been written. Renaming renames data, coords and masks alike; copies, views, slices and renamed arrays keep the name. The irreducible mask of a dimension is the union of exactly the masks that have it, and never one of them itself. Masks can be dropped and erased only by name and only where the object may be changed.",
 ["inputs", "histories"], "all labels, sizes, contents and flags, and sequences of copying, slicing and changing",
 "Sharing and flags depend on the history of an object (copied, sliced, viewed) and on its coords; tests check single steps with one shape.",
 [DS+"data_array.cpp", DS+"include/scipp/dataset/data_array.h"],
 [("DataArray", DS+"data_array.cpp")])
prop("D09", "Iterating binned operands pairs every event with the right element",
 "When an operation iterates over binned operands, every event of every bin is visited exactly once, bin by bin in the order of the outer dimensions, and each event is paired with the element of a dense operand that belongs to the same bin (broadcast where the operand lacks a dimension) and with the event of the same rank in the corresponding bin of another binned operand. This holds for empty bins anywhere (first, last, all), for bins anywhere in the buffer, transposed or sliced tables of bins, buffers of more than one dimension, scalar bins, and when the iteration starts at any bin, stops before any bin or proceeds in contiguous runs, as parallel execution does. Binned operands whose corresponding bins differ in size are refused.",
 ["inputs"], "all positions of bins in the buffer, strides and patterns of empty bins",
 "Which events are paired depends on the pattern of empty bins and the layout of every operand, and on where a parallel run happens to be split; tests cover some patterns of one or two bins.",
 [CO+"include/scipp/core/multi_index.h", CO+"multi_index.cpp", CO+"include/scipp/core/element_array_view.h"],
 [("MultiIndex (bins), validate_bin_indices, flatten_dims", CO+"multi_index.cpp"), ("seek_bin, load_bin_params, set_bins_index", CO+"include/scipp/core/multi_index.h")])
prop("C01", "Even spacing and consecutiveness are recognised exactly",
 "A sequence counts as linspace exactly if it has at least two values, ascends, all values are finite and every step equals the mean step within rounding (exactly, for integers and time points); it counts as arange exactly if every step is one. Fast paths of binning, histogramming and lookup rest on this.",
 ["inputs"], "all lengths and contents, including NaN, infinities, descending and constant sequences",
 "Accepting a sequence by mistake silently routes later events to wrong bins; tests try a few ordinary sequences and no special values.",
 ["lib/common/include/scipp/common/numeric.h", EL+"util.h"],
 [("islinspace, isarange", "lib/common/include/scipp/common/numeric.h"), ("element::islinspace, element::isarange", EL+"util.h")])
prop("C02", "A dimension label has one identity, whatever the threads do",
 "Equal names always give equal dimension labels and different names different ones; every label prints the name it was made from. This holds for built-in labels, for labels created at run time up to the capacity, and for labels created concurrently by any number of threads; the shared label table is never accessed without its mutex, identifiers never repeat or wrap, and exceeding the capacity raises.",
 ["schedules", "inputs"], "all interleavings of threads creating and printing labels, all names",
 "A race between lookup and insertion needs two threads creating the same new name at the same instant; label exhaustion needs tens of thousands of labels.",
 ["lib/units/dim.cpp", "lib/units/include/scipp/units/dim.h"],
 [("Dim::Dim(std::string)", "lib/units/dim.cpp"), ("Dim::name", "lib/units/dim.cpp")],
 [("builtin_ids, custom_ids, mutex", "process-wide table of labels", "lib/units/dim.cpp")])
prop("H01", "Every event lands in the bin whose edges enclose it, and in no other",
 "Binning, grouping, histogramming and lookup agree on the half-open rule: an event with coordinate x belongs to bin b exactly if edge[b] <= x < edge[b+1]; events below the first edge, at or above the last edge, or NaN belong to no bin. This holds alike on the fast path for evenly spaced edges and the general path, for all coordinate types. Grouping assigns by equality of the label. An index over several dimensions combines the per-dimension indices in row-major order and a dropped event stays dropped. Events are counted, copied in order and weighted (with their variances) exactly once, in the bin they belong to.",
 ["inputs"], "all edges, all event coordinates (including those exactly on an edge, at the ends, and NaN), all weights; edge counts up to 9 and event counts up to 3 per analysed instance",
 "Events on an edge and rounding of the estimated bin index on the fast path decide whether events are lost or counted twice; tests use a few dozen events. The two paths and the different operations are separate code.",
 [EL+"bin.h", EL+"bin_detail.h", "lib/core/include/scipp/core/histogram.h", EL+"histogram.h", EL+"event_operations.h", EL+"map_to_bins.h"],
 [("get_bin, linear_edge_params", "lib/core/include/scipp/core/histogram.h"), ("update_indices_by_binning_*, update_indices_by_grouping*, update_indices_from_existing, begin_edge, end_edge, count_indices", EL+"bin.h"), ("histogram", EL+"histogram.h"), ("map_linspace, map_sorted_edges, lookup_previous, map_and_mul_*", EL+"event_operations.h"), ("map_to_bins_direct", EL+"map_to_bins.h")])
prop("H02", "Rebinning shares counts out in proportion to overlap",
 "Rebinning to new edges gives each new bin the sum over the old bins of the old count times the fraction of the old bin that overlaps the new one, for ascending and descending, floating-point and datetime edges; variances are shared out with the same fractions. Counts inside the range of the new edges are conserved.",
 ["inputs"], "all strictly ordered old and new edges and all counts; up to two bins on either side",
 "Overlap patterns (partial, enclosed, touching, disjoint) multiply with direction and type; tests check a few patterns on round numbers.",
 [EL+"rebin.h"], [("rebin", EL+"rebin.h")])
prop("H03", "Running sums, order tests and sorting treat every element once",
 "One step of a cumulative sum adds exactly the current element and reports the sum before (exclusive) or after (inclusive) it; a sequence counts as sorted exactly if every pair of neighbours is in (non-strict) order; sorting a bin or array permutes its elements into order and keeps each variance with its value.",
 ["inputs"], "all element values, accumulator states and variances, all supported types",
 "The exclusive sum was once derived from the inclusive one by subtraction, which is only visible with cancellation or special values.",
 [EL+"cumulative.h", EL+"sort.h", EL+"util.h"], [("exclusive_scan, inclusive_scan", EL+"cumulative.h"), ("issorted_nondescending, issorted_nonascending", EL+"util.h"), ("sort_nondescending, sort_nonascending", EL+"sort.h")])
prop("D04", "Sparse sub-bin sizes behave like the sequences they abbreviate",
 "A SubbinSizes object with offset o and sizes s stands for the sequence that is s from position o on and zero elsewhere. Sum, difference, in-place forms, addition restricted to the own range, running sums over several rows, comparison, total and assignment equal the operation on those sequences, whatever the relative position of the ranges (overlapping, nested, adjacent, disjoint); a negative offset is rejected.",
 ["inputs"], "all offsets and sizes, every relative position of rows of up to two entries",
 "Relative position of the two ranges decides which of several loops runs; tests cover a few positions. A wrong size sends events to memory of another bin.",
 [CO+"subbin_sizes.cpp", CO+"include/scipp/core/subbin_sizes.h"], [("SubbinSizes", CO+"subbin_sizes.cpp")])
PY = "src/scipp/"
WHY = "The Python test suite needs the native module and samples a few calls per function; "
prop("P01", "Python operations pass every operand and option on, in order",
 "A free function, method or operator of the Python layer performs the operation it is named after: arithmetic, comparison, logic, mathematics, rounding, shape manipulation, sorting, conversion and spatial functions give each argument (including dim, unit, dtype, order, out, copy and keyword defaults) to the parameter it is meant for, operands keep their written order, the result is the one of the operation, documented argument checks raise the documented exception, and functions that accept a DataGroup apply to each of its items.",
 ["inputs"], "all arguments of every public function of these modules, given by position or by keyword",
 WHY + "swapped operands or a dropped keyword show only for non-commutative operations or non-default options.",
 [PY+"core/arithmetic.py", PY+"core/comparison.py", PY+"core/logical.py", PY+"core/math.py", PY+"core/trigonometry.py", PY+"core/hyperbolic.py", PY+"core/unary.py", PY+"core/shape.py", PY+"core/cumulative.py", PY+"core/counts.py", PY+"core/operations.py", PY+"core/structured.py", PY+"core/_cpp_wrapper_util.py", PY+"_binding.py", PY+"operations.py", PY+"spatial/__init__.py"],
 [("call_func", PY+"core/_cpp_wrapper_util.py"), ("bind_get, bind_pop, bind_functions_as_methods", PY+"_binding.py"), ("where, to, merge, sort", PY+"core/operations.py"), ("concat, fold, flatten", PY+"core/shape.py")])
prop("P02", "A DataGroup operation is the operation on each item",
 "Every operation of DataGroup acts on its items one by one: access and slicing by dim and position or label slice exactly the items that have the dim (edges at the sliced dim keep n+1 for n), binary operators combine items of equal key with left and right operand as written, reductions and shape operations apply to each item that has the dim, dims and sizes report the union over items with None for inconsistent sizes, constructors and copies keep keys and order, and scipp functions given groups map over common keys.",
 ["inputs"], "all groups (nested, mixed with non-scipp items, with differing dims) and all operations",
 WHY + "operand order, items lacking the dim, nested groups and edges each need their own combination.",
 [PY+"core/data_group.py"], [("DataGroup.__getitem__, _data_group_binary, apply_to_items", PY+"core/data_group.py")])
prop("P03", "Reductions reduce the requested dims with the requested operation",
 "sum, nansum, mean, nanmean, median, nanmedian, var, nanvar, std, nanstd, min, max, nanmin, nanmax, all and any, as functions, as methods of a reduction object and over bins, reduce exactly the given dim or dims (all dims if none), apply the operation of their name with the given degrees of freedom, skip what masks hide and NaN where named nan-, give the unit the operation implies, act on each item of a dataset or group, keep the coords, masks and name that do not depend on the reduced dims, and reject variances and binned data where documented.",
 ["inputs"], "all inputs, dims given singly, as sequence or not at all, all ddof, masks with and without the reduced dim",
 WHY + "masks along only some of the dims, several dims at once and the unit of squared quantities are rarely sampled.",
 [PY+"reduction.py", PY+"core/reduction.py", PY+"core/concepts.py"],
 [("median, var, std and nan forms; _Reducer", PY+"core/reduction.py"), ("irreducible_mask, rewrap_reduced_data, transform_data", PY+"core/concepts.py"), ("Reduce methods", PY+"reduction.py")])
prop("P04", "Created variables have exactly the documented content and unit",
 "scalar, index, zeros, ones, empty, full, vector(s), array, linspace, geomspace, logspace, arange, datetime(s), epoch, the -like functions and variables built from units give the documented values, variances, dims, unit and dtype; the default unit rules hold for every dtype, start, stop and step with units are converted before use and rejected when incompatible, and contradictory arguments (dims with sizes, variances with wrong dtype) raise. Unit aliases apply while defined, and never to another unit. A value times or divided by a unit is a scalar of that value in that unit or its inverse; each physical constant is the tabulated value of its name, in its unit, with the squared uncertainty as variance on request.",
 ["inputs", "histories"], "all arguments and sequences of alias definitions",
 WHY + "combinations of optional arguments (unit with dtype with variances, like with changed parts) are sampled sparsely.",
 [PY+"core/variable.py", PY+"core/like.py", PY+"core/_sizes.py", PY+"units/__init__.py", PY+"constants/__init__.py", PY+"_extend_units.py"],
 [("arange, linspace, scalar, array, _ensure_same_unit", PY+"core/variable.py"), ("full_like, empty_like", PY+"core/like.py"), ("UnitAliases", PY+"units/__init__.py")])
prop("P05", "Binning arguments mean the same for every input and way of passing them",
 "bin, hist, nanhist, group, rebin, lookup, groupby, the bins accessor and merging of adjacent bins use the edges given; edges from a number or step enclose all data of every item (largest value included); a dim is erased exactly when its coord is replaced; coords, masks, attributes, begin, end and fill values are passed on to the operation unchanged; arguments given as mapping and as keywords have the same effect; documented invalid arguments raise. Operations on bins leave their input unchanged.",
 ["inputs"], "all inputs, edges, groups, dims, erase lists and ways of passing arguments",
 WHY + "an edge computed from the data is only wrong for the last event or for the second item of a dataset.",
 [PY+"core/binning.py", PY+"core/bins.py", PY+"core/bin_remapping.py", PY+"core/groupby.py", PY+"core/domains.py"],
 [("make_binned, make_histogrammed, _require_coord, get_coord, _prepare_multi_dim_dense, _find_replaced_dims", PY+"core/binning.py"), ("Bins, Lookup, bins, lookup", PY+"core/bins.py"), ("combine_bins, concat_bins", PY+"core/bin_remapping.py"), ("merge_equal_adjacent", PY+"core/domains.py")])
prop("P06", "Renaming and assigning touch exactly the named parts, on a copy",
 "rename_dims, rename, assign_coords, assign_masks and assign_attrs return an object that differs from the input exactly in the named entries: rename renames dims in data, coords and masks together with the coords and attributes of that name (also those of events) and raises if the new name is taken, entries given as mapping and as keywords are both applied, a name given both ways raises, names not given stay as they are, and the input object keeps its content. copy_for_overwrite copies structure without sharing values.",
 ["inputs"], "all data arrays, datasets and groups and all mappings",
 WHY + "a rename that swaps two names, or an entry given twice, is rarely sampled.",
 [PY+"core/dimensions.py", PY+"core/assignments.py", PY+"core/argument_handlers.py", PY+"core/dataset.py", PY+"core/util.py"],
 [("_rename_variable, _rename_data_array, _rename_dataset", PY+"core/dimensions.py"), ("_assign", PY+"core/assignments.py"), ("combine_dict_args", PY+"core/argument_handlers.py")])
prop("P07", "transform_coords follows the graph, once, without touching its input",
 "transform_coords computes each requested coordinate from inputs reached through the graph: an available coord is used as is, a kernel runs once with the coords of its argument names, dense and event coords are handled together, missing inputs and cycles raise. Options decide: inputs consumed are dropped or kept unaligned (keep_inputs, keep_intermediate, keep_aliases), a dim is renamed only if the single coord that depends on it has one dimension-coord as ancestor (rename_dims), quiet suppresses the message. The input object and the given graph remain unchanged.",
 ["inputs", "histories"], "all graphs, targets, options and inputs (dense, binned, datasets with several items)",
 WHY + "shared ancestors, diamonds in the graph and kernels with several outputs multiply; tests use small trees.",
 [PY+"coords/transform_coords.py", PY+"coords/coord_table.py", PY+"coords/coord.py", PY+"coords/graph.py", PY+"coords/rule.py"],
 [("_transform_data_array, _store_results, _dim_name_changes, _color_dims", PY+"coords/transform_coords.py"), ("CoordTable.consume, total_usages", PY+"coords/coord_table.py"), ("Graph, rule_sequence", PY+"coords/graph.py"), ("ComputeRule, FetchRule, RenameRule", PY+"coords/rule.py")],
 [("CoordTable", "uses left of each coord during one call", PY+"coords/coord_table.py")])
prop("P08", "What is written can be read back, part for part",
 "Conversion to and from dictionaries, HDF5 files, CSV files, pandas, xarray and serialised bytes maps every part to its counterpart: dims, shape, values, variances, unit, dtype, coords, masks, attributes, alignment, names, bin indices, and nested items keep their name and content; unsupported input raises or is skipped as documented; reading inverts writing.",
 ["inputs", "histories"], "all supported objects",
 WHY + "each part needs its own object with that part present (variances of binned data, unaligned coords, strings, nested groups).",
 [PY+"compat/dict.py", PY+"compat/pandas_compat.py", PY+"compat/xarray_compat.py", PY+"io/hdf5.py", PY+"io/csv.py", PY+"serialization.py"],
 [("to_dict, from_dict", PY+"compat/dict.py"), ("VariableIO, DataArrayIO, DatasetIO, DataGroupIO", PY+"io/hdf5.py"), ("from_pandas", PY+"compat/pandas_compat.py"), ("from_xarray, to_xarray", PY+"compat/xarray_compat.py")])
prop("P09", "Scipy wrappers hand data to scipy with consistent units and shapes",
 "integrate, interpolate, filter, optimize and curve_fit wrappers reject masks, variances and non-linspaced coords where documented, convert sizes and parameters given with units to the units of the coord, pass axis, arguments and options to the scipy function of the same name, keep coords that do not depend on the changed dim, and attach the unit the operation implies to values, variances and covariances of the result.",
 ["inputs"], "all data arrays and options",
 WHY + "unit conversions of options only show when the option's unit differs from the coord's.",
 [PY+"scipy/integrate/__init__.py", PY+"scipy/interpolate/__init__.py", PY+"scipy/ndimage/__init__.py", PY+"scipy/optimize/__init__.py", PY+"scipy/signal/__init__.py", PY+"compat/wrapping.py", PY+"curve_fit.py"],
 [("wrap1d", PY+"compat/wrapping.py"), ("_delegate_along_axes, _positional_index", PY+"scipy/ndimage/__init__.py"), ("curve_fit, _make_defaults, _get_sigma", PY+"curve_fit.py")])
prop("P10", "Assertions and comparison helpers report any difference",
 "assert_identical, assert_allclose, isnear and the matchers compare every part of two objects (type, dims, shape, unit, dtype, values, variances, coords, masks, attributes, alignment, names, keys, nested items): they pass if all parts agree (in the sense asked for) and raise otherwise, in both directions, also for NaN as requested and for binned data.",
 ["inputs"], "all pairs of objects",
 WHY + "an assertion that forgets one part passes everywhere until a regression in that part goes unseen.",
 [PY+"testing/assertions.py", PY+"utils/comparison.py"],
 [("assert_identical, assert_allclose", PY+"testing/assertions.py"), ("isnear", PY+"utils/comparison.py")])
prop("P11", "A variable formatted as text shows dims, dtype, unit and values as asked",
 "format(var, spec) parses the spec [selection][#length][type][:nested] exactly and rejects any other. The default form shows dims with sizes, dtype, unit (or <no unit>), the values and, if there are any, the variances: all elements if there are no more than length (4 by default), else as many as length says from the ends ('^'), the start ('<') or the end ('>'), with an ellipsis for what is left out; the nested spec applies to each element. The compact form ('c') rounds value and uncertainty to one significant digit of the uncertainty, two if the first is 1, keeps their scale, treats an uncertainty of zero as none, appends the unit, and raises for other dtypes and options. collapse and slices return every slice exactly once under a name made of its own dims and indices. Values in previews are shortened to the precision or length asked for, never otherwise.",
 ["inputs"], "all specs, dtypes, shapes, units and lengths",
 WHY + "elision depends on length and selection at once and rounding on the magnitude of the uncertainty.",
 [PY+"format/formatter.py", PY+"format/_parse.py", PY+"utils/collapse_and_slices.py", PY+"utils/to_string.py"],
 [("format_variable, _format_array_flat, _format_variable_compact", PY+"format/formatter.py"), ("parse", PY+"format/_parse.py"), ("collapse, slices", PY+"utils/collapse_and_slices.py")])
prop("P12", "HTML and SVG output shows text of the data as text, never as markup",
 "Every string that comes from a displayed object (names of coords, masks, attributes, items and dims, units, dtypes, string values, reprs and str() of arbitrary objects in data groups) reaches the HTML representation, the table, the SVG drawing and the log widget (there also the text of records) only in escaped form: whatever it contains, it appears as itself and neither opens a tag nor an attribute, nor breaks the surrounding document; text is escaped once, and shortened before, not after.",
 ["inputs"], "all objects with any text in any name, dim, unit, dtype or value, and all places of the output",
 WHY + "one place out of some eighty where an escape is missing shows only for a name with '<' or '&' in exactly that place.",
 [PY+"visualization/"],
 [("variable_repr, data_array_dataset_repr", PY+"visualization/formatting_html.py"), ("datagroup_repr", PY+"visualization/formatting_datagroup_html.py"), ("table", PY+"visualization/table.py"), ("make_svg", PY+"visualization/show.py"), ("WidgetHandler.format, LogWidget._format_row", PY+"logging.py")])
prop("P13", "HTML view and table list every part once, in order, and mark what is left out",
 "The HTML representation of a variable, data array or dataset has one row per coord, data entry and, for variables and data arrays, mask and attribute, in the order of dims and then names, with its dims (bin edges marked), dtype, unit, first values and, if there are any, variances, each in the section it belongs to, with the right count; dims are listed with their sizes, and the size of the memory is the size shown or, for slices, also that of the underlying buffer. The representation of a data group has one row per item, nested groups with theirs below at their depth. The table shows every coord, mask and value of each row, at most max_rows rows taken from both ends, with the last edge of bin edges in a row of its own, headings aligned with the columns. Wherever elements or rows are left out, an ellipsis says so.",
 ["inputs"], "all objects, with any shapes, names, numbers of parts and nesting",
 WHY + "what is elided depends on lengths, and which columns exist on the combination of coords, masks, attributes and edges of all items.",
 [PY+"visualization/"],
 [("variable_repr, data_array_dataset_repr, _format_array, _find_bin_edges, _to_string", PY+"visualization/formatting_html.py"), ("datagroup_repr, _collapsible_summary, _datagroup_detail", PY+"visualization/formatting_datagroup_html.py"), ("table, _make_variable_column", PY+"visualization/table.py"), ("make_html", PY+"visualization/html.py")])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
