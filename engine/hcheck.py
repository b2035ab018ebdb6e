"""Events, bins and counts: kernels versus their definitions at fixed numbers of edges and events (P_ pairs of the h_*.cpp witnesses)."""
import dcheck, vn
TRUST = ["clang 18 front end and -O2 mid-level optimiser", "engine/vn.py (value numbering, complete unrolling of loops with constant bounds, real arithmetic)", "witness/h_*.cpp (definitions)"]
def pairs_of(rep, src, select):
    vn.FINITE[0] = True
    dcheck.pairs_of(rep, [(src, src in (BINS, REBIN))], select)
    rep.assume += ["real arithmetic (rounding is not modelled); edges and differences of edges are finite; an event coordinate may be NaN"]
BINS, REBIN = "witness/h_bins.cpp", "witness/h_rebin.cpp"
def H01(rep):
    pairs_of(rep, BINS, lambda c: True)
    pairs_of(rep, "witness/h_scatter.cpp", lambda c: True)
    return rep.finish("proof", "for all edges (up to 5, ascending where the kernel requires it), all events (up to 3, NaN included) and all payloads: the kernels behind bin, group, histogram and lookup assign an event to bin b exactly if edge[b] <= x < edge[b+1] (or its group label matches), drop it otherwise, combine it with the index so far in row-major order, and count, copy or weight it accordingly, directly or in chunks, however many bins there are (both layouts at up to 262145 bins)",
                      min_obl=110, trusted=TRUST)
def H02(rep):
    pairs_of(rep, REBIN, lambda c: c.startswith("P_rebin"))
    return rep.finish("proof", "for all strictly ordered old and new edges (up to 2 bins each, ascending and descending, floating-point and datetime) and all counts and variances: each new bin holds the sum over old bins of count times overlap divided by old width",
                      min_obl=14, trusted=TRUST)
def H03(rep):
    pairs_of(rep, REBIN, lambda c: not c.startswith(("P_rebin", "P_subbin")))
    return rep.finish("proof", "for all inputs: one step of a running sum adds the element and reports the sum before or after it; one step of an order test combines the verdict with the comparison of the neighbours; sorting two elements orders them, keeps both and moves each variance with its value",
                      min_obl=24, trusted=TRUST)
def D04(rep):
    pairs_of(rep, REBIN, lambda c: c.startswith("P_subbin"))
    return rep.finish("proof", "for all offsets and sizes (rows of up to 2 entries in every relative position): the operations on SubbinSizes equal the operation on the zero-extended sequences they represent",
                      min_obl=50, trusted=TRUST)
