"""Index and dimension properties: P_ pairs of the d_*.cpp witnesses (implementation versus definition, symbolic sizes, labels and strides)."""
import re
import kcheck, vn, wbuild
PAR = ("stubs/par",)      # model of the threading wrappers
MOCKVAR = ("stubs/mockvar",) # variables reduced to labels, flags and a record of their content
STUBS = ("stubs/smallvec", "stubs/mockunits", "stubs/exp")
TRUST = ["clang 18 front end and -O2 mid-level optimiser", "engine/vn.py (value numbering, complete unrolling of loops with constant bounds)",
         "witness/d_*.cpp (definitions)", "stubs/smallvec (boost small_vector as an inline array)"]
ASSUME = ["index arithmetic does not overflow 64 bits", "allocation does not fail"]
META = ("witness/d_meta.cpp", "witness/d_array.cpp")
def pairs_of(rep, units, select=lambda cls: True):
    vn.NOWRAP[0] = True
    for src, required in units:
        try: mod, _ = kcheck.module(src, (), PAR + STUBS if "store" in src else MOCKVAR + STUBS if src in META else STUBS)
        except wbuild.BuildError as e:
            if required: raise
            # a witness that constructs internal states by hand: without it the other obligations still stand
            print("NOT ANALYSED %s: does not compile against the current sources" % src)
            rep.extra.setdefault("not_analysed", []).append(src); rep.skipped = True
            continue
        for n, p in sorted(kcheck.pairs(mod).items()):
            cls = re.sub("<.*", "", n)
            if select(cls): kcheck.check_pair(rep, mod, n, p, "real", cls, throws=True)
    rep.assume += [a for a in ASSUME if a not in rep.assume]
DENSE = lambda c: c.startswith(("P_walk_cube", "P_multi_many"))
def D01(rep):
    pairs_of(rep, [("witness/d_index.cpp", True), ("witness/d_multi.cpp", False), ("witness/d_view.cpp", False)])
    pairs_of(rep, [("witness/d_walk.cpp", False)], DENSE)
    return rep.finish("proof", "for every rank up to 3 (4 for the helpers), all shapes, strides, positions and flat indices: the memory offset computed by the index classes equals the sum over dimensions of coordinate times stride, one step moves to the row-major successor, and reported memory bounds are exactly the range of offsets",
                      min_obl=40, trusted=TRUST, expect={"P_view_redim": 9, "P_view_index_set": 4, "P_multi_index2_set": 4, "P_memory_bounds": 5})
def D09(rep):
    pairs_of(rep, [("witness/d_walk.cpp", False)], lambda c: not DENSE(c))
    return rep.finish("proof", "for bins of zero to three events in one, two or no outer dimension (also transposed), buffers of one or two dimensions and one to three other operands: iteration visits every event of every bin once and in order together with the matching element of the other operands, from any bin and in runs, for all positions of the bins in the buffer and all strides; operands whose bins differ in size are refused",
                      min_obl=70, trusted=TRUST, expect={"P_walk_binned": 8, "P_walk_plane": 10, "P_walk_from": 10, "P_bins_match": 3})
SLICE = lambda c: c.startswith("P_slice")
def D02(rep):
    pairs_of(rep, [("witness/d_dims.cpp", True)], lambda c: not SLICE(c))
    return rep.finish("proof", "for every rank up to 3, all labels and all sizes: each operation on Dimensions and Sizes yields the labelled sizes of its definition and raises exactly when the definition does",
                      min_obl=130, trusted=TRUST, expect={"P_merge": 9, "P_includes": 11, "P_concat": 6, "P_transpose": 8, "P_fold": 4})
def D05(rep):
    pairs_of(rep, [("witness/d_dims.cpp", True)], SLICE)
    return rep.finish("proof", "for every rank up to 3, all labels, sizes and slice parameters: a slice is accepted exactly if it is well-formed and in range, and yields the sizes of its definition",
                      min_obl=14, trusted=TRUST, expect={"P_slice_range_of": 4, "P_slice_point_of": 4})
DICT = lambda c: c.startswith("P_dict")
def D03(rep):
    pairs_of(rep, [("witness/d_store.cpp", True)], DICT)
    return rep.finish("proof", "for all keys and values, up to 3 entries: every operation of the ordered dictionary yields the sequence of entries of its definition, raises exactly when the key is missing or given twice, and iterators raise once the size has changed",
                      min_obl=110, trusted=TRUST + ["stubs/par (chunks of a parallel loop: disjoint, covering, in any order)"], expect={"P_dict_insert": 4, "P_dict_erase": 4, "P_dict_stale": 16})
def D06(rep):
    pairs_of(rep, [("witness/d_store.cpp", True)], lambda c: not DICT(c))
    return rep.finish("proof", "for all values and sizes up to 3: construction, copy, move, assignment, reset and resize of element buffers give the content, size and null state of their definition, and a copy shares nothing with its original",
                      min_obl=70, trusted=TRUST + ["stubs/par (chunks of a parallel loop: disjoint, covering, in any order)"], expect={"P_buffer_copy": 6, "P_buffer_assign": 12, "P_buffer_move": 6})
MODEL = TRUST + ["stubs/mockvar (model of Variable: labels, flags, and which part of which content)", "witness/shared_model.h (shared ownership without the count)"]
def D07(rep):
    pairs_of(rep, [(META[0], True)])
    return rep.finish("proof", "for all labels, sizes, contents and flags, items of rank up to 2 and dictionaries of rank up to 2: coords and masks are accepted exactly if they fit the data, each is sliced, renamed, merged and compared as its definition says, and read-only dictionaries refuse every change",
                      min_obl=100, trusted=MODEL, expect={"P_meta_set": 6, "P_meta_slice": 30, "P_meta_slice_coords": 14, "P_meta_readonly": 4})
def D08(rep):
    pairs_of(rep, [(META[1], True)])
    return rep.finish("proof", "for all labels, sizes, contents and flags, data of rank up to 2 with one or two coords or a mask: construction, copying, views, slicing, assignment, comparison and renaming of a data array keep data, coords, masks and attrs consistent as their definitions say; an error of an assignment is raised before anything is written",
                      min_obl=80, trusted=MODEL, expect={"P_array_make": 4, "P_fresh_array_set_slice": 6, "P_array_slice": 6, "P_array_set_slice": 8, "P_array_copy": 5})
