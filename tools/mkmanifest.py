#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property in CHECKS, everything else not applicable."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import mkprops
E1 = "gated value numbering of LLVM IR"
E1N = "Decides the equality for all operand values by normal forms over the compiled kernel instantiations. Trusts clang's front end and -O2 pipeline, engine/vn.py and the reference kernels in witness/."
E1D = "Decides equality of results and of raise conditions for all values at each rank up to 3. Trusts clang's front end and -O2 pipeline, engine/vn.py, the inline-array model of boost small_vector and the definitions in witness/. Higher ranks are not analysed; index arithmetic is taken not to overflow."
E1H = "Decides equality with the definition for all values at each analysed length. Trusts clang's front end and -O2 pipeline, engine/vn.py and the definitions in witness/. Reals: rounding is not modelled; computed differences are taken to be finite. Longer inputs run the same loops."
EP = "gated value numbering of Python functions against reference definitions"
EPN = "Decides equality of result, exception kind and effects for all inputs, per function, with calls into the native module and into other public functions uninterpreted. Loops are matched structurally, not unrolled; differences only in loop form are left undecided. Trusts Python's parser, engine/pyvn.py and the definitions in witness/py."
CHECKS = {
 "P01": (EP, "proof", EPN),
 "P02": (EP, "proof", EPN),
 "P03": (EP, "proof", EPN),
 "P04": (EP, "proof", EPN),
 "P05": (EP, "proof", EPN),
 "P06": (EP, "proof", EPN),
 "P07": (EP, "proof", EPN),
 "P08": (EP, "proof", EPN),
 "P09": (EP, "proof", EPN),
 "P10": (EP, "proof", EPN),
 "P11": (EP, "proof", EPN),
 "P13": (EP, "proof", EPN),
 "P12": ("interprocedural taint analysis by abstract interpretation of the Python syntax tree", "other", "Decides on all paths which text reaches markup. Trusts Python's parser, engine/taint.py (its model of builtins), html.escape, and that annotated numbers, sizes and shapes print as numbers."),
 "K01": (E1 + " against reference kernels (rational normal form)", "proof", E1N + " Reals: rounding and overflow are not modelled."),
 "K02": (E1 + ", variance-carrying versus plain instantiation", "proof", E1N),
 "K03": (E1 + " against reference kernels (exact IEEE case split)", "proof", E1N),
 "K04": (E1 + " against reference kernels (rational normal form)", "proof", E1N + " Reals: rounding and overflow are not modelled; libm functions are taken to be what they are named."),
 "K05": (E1 + " against reference kernels (exact IEEE case split)", "proof", E1N),
 "K06": (E1 + " against reference kernels (exact IEEE case split)", "proof", E1N),
 "K07": (E1 + ", in-place versus out-of-place instantiation", "proof", E1N),
 "K08": (E1 + " against reference unit rules, including raise conditions", "proof", E1N + " LLNL-Units itself is replaced by an opaque unit algebra."),
 "K09": (E1 + " against reference kernels (polynomials modulo |q|=1)", "proof", E1N + " Reals: rounding is not modelled."),
 "K10": (E1 + ", conversion-free integer results", "proof", E1N),
 "K11": ("type-level query: which refusal flags each operation's overload set derives from, evaluated by the compiler for the current sources and compared with a table", "proof", "Each operation of core::element by name; that transform.h acts on the flags is not analysed. New operations are not in the table."),
 "K12": ("type-level query: accepted element types and result types of each operation, evaluated by the compiler for the current sources and compared with a table", "proof", "Each operation of core::element by name; dispatch in transform.h is not analysed."),
 "D01": (E1 + " with complete unrolling, symbolic shapes and strides at constant rank", "proof", E1D),
 "D02": (E1 + " with complete unrolling, symbolic labels and extents at constant rank", "proof", E1D),
 "D03": (E1 + " with complete unrolling, symbolic keys and values at constant numbers of entries", "proof", E1D),
 "D07": (E1 + " with complete unrolling, symbolic labels, sizes, contents and flags at constant rank and number of items", "proof", E1D + " Variables are replaced by a model (labels, flags, and which part of which content)."),
 "D08": (E1 + " with complete unrolling, symbolic labels, sizes, contents and flags at constant rank and number of items", "proof", E1D + " Variables are replaced by a model (labels, flags, and which part of which content); shared ownership by a pointer without count."),
 "D09": (E1 + " with complete unrolling at constant extents and bin sizes, symbolic positions of bins and strides", "proof", E1D + " The reference enumerates bins, events and elements of the other operand by nested loops."),
 "D06": (E1 + " with complete unrolling, symbolic content at constant sizes", "proof", E1D),
 "D05": (E1 + " with complete unrolling, symbolic labels, extents and bounds at constant rank", "proof", E1D),
 "H01": (E1 + " with complete unrolling at constant numbers of edges and events", "proof", E1H),
 "H02": (E1 + " with complete unrolling at constant numbers of bins", "proof", E1H),
 "H03": (E1 + " of scan, order-test and two-element sort kernels", "proof", E1H + " Sorting is decided for two elements; std::sort itself is trusted beyond that."),
 "D04": (E1 + " with complete unrolling at constant lengths, symbolic offset and sizes", "proof", E1D),
 "C01": (E1 + " with complete unrolling at constant length", "proof", "Decides the verdict for all contents at each length up to 5; longer sequences run the same loop. Trusts clang's front end and -O2 pipeline, engine/vn.py and the definitions in witness/. Reals: rounding of the definition itself is not modelled."),
 "C02": ("lock-set and typestate analysis over the LLVM IR, table bijection and range check of identifiers", "other", "Decides lock discipline on all paths including exceptional ones, check-then-act atomicity, uniqueness of the built-in labels and absence of narrowing. Trusts the standard library's containers and mutexes."),
}
NA = {

}
def main():
    ids = [p["id"] for p in mkprops.P]
    checks = []
    for i in ids:
        if i not in CHECKS: continue
        t, l, n = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": t, "level": l, "level_note": n})
    na = [{"property": i, "reason": NA[i]} for i in ids if i not in CHECKS]
    m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo. See DESIGN.md."}
    json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not applicable")
main()
