import kcheck, dcheck, ccheck, hcheck, pcheck
CHECKS = {n: getattr(kcheck, n) for n in ("K01", "K02", "K03", "K04", "K05", "K06", "K07", "K08", "K09", "K10", "K11", "K12")}
CHECKS.update({n: getattr(dcheck, n) for n in ("D01", "D02", "D03", "D05", "D06", "D07", "D08", "D09")})
CHECKS.update({n: getattr(ccheck, n) for n in ("C01", "C02")})
CHECKS.update({n: getattr(hcheck, n) for n in ("H01", "H02", "H03", "D04")})
CHECKS.update(pcheck.CHECKS)
UNITS = [("witness/k_arith.cpp", ()), ("witness/k_logic.cpp", ()), ("witness/k_math.cpp", ()), ("witness/k_flags.cpp", ()), ("witness/k_value.cpp", ()), ("witness/k_conv.cpp", ()), ("witness/k_inplace.cpp", ()), ("witness/k_spatial.cpp", ()), ("witness/k_pow.cpp", kcheck.POWX), ("witness/k_units.cpp", (), kcheck.MOCK)]
UNITS += [("witness/d_%s.cpp" % n, (), dcheck.STUBS) for n in ("index", "multi", "dims", "view", "walk")]
UNITS += [("witness/d_store.cpp", (), dcheck.PAR + dcheck.STUBS)]
UNITS += [(w, (), dcheck.MOCKVAR + dcheck.STUBS) for w in dcheck.META]
UNITS += [("witness/c_dim.cpp", (), ("stubs/exp",))]
UNITS += [("witness/c_labels.cpp", ccheck.LABELX, ("stubs/exp",))]
UNITS += [("witness/c_numeric.cpp", (), dcheck.STUBS)]
UNITS += [("witness/h_%s.cpp" % n, (), dcheck.STUBS) for n in ("bins", "rebin", "scatter")]
