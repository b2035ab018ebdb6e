"""Kernel properties K01..K07, K10: comparison of value-numbered kernels with reference kernels."""
import os, re, sys, time, signal, resource
sys.path.insert(0, os.path.dirname(__file__))
import llir, vn, kern, wbuild

_mods = {}
def module(src, extra=(), stubs=("stubs", "stubs/exp")):
    k = (src, tuple(extra), stubs)
    if k not in _mods:
        m = llir.Module(open(wbuild.compile_ll(src, extra, stubs)).read())
        _mods[k] = (m, kern.collect(m))
    return _mods[k]

TRUST = ["clang 18 front end and -O2 mid-level optimiser (no vectorisation, no contraction)", "engine/vn.py (value numbering)",
         "witness/*.cpp (reference kernels written from the definition of each operation)"]

def args_of(v):
    ins = [("arg", "x%d" % k) for k in range(len(v.targs)-1)]
    return ("arg", "out"), ins

def val_impl(mod, v, N, fn="impl"):
    """output diagrams of the implementation, one per scalar field"""
    out, ins = args_of(v)
    of = kern.outfields(v.targs[0])
    if v.kind == "FnAlias": a = [out]; ins = []
    else: a = [out] + ins
    e, r = kern.evalf(mod, N, v.f[fn], a, v.targs)
    return kern.outputs(e, r, out, of), r
def val_ref(mod, v, N, fn, ty):
    out, ins = args_of(v)
    a = [("arg", "ref")] + ([out] if v.kind == "FnIn" else []) + ins
    t = [v.targs[0]] + ([v.targs[0]] if v.kind == "FnIn" else []) + v.targs[1:]
    e, r = kern.evalf(mod, N, v.f[fn], a, t)
    return kern.outputs(e, r, ("arg", "ref"), [(0, ty, "")])[0]

def explain(v, lab, c, where=""):
    f, a, b, _ = c.diff
    return "kernel %s: %s differs from the definition when %s: implementation yields %s, required %s%s" % (
        v.name, lab, vn.showfacts(f), vn.show(a), vn.show(b), where)

TIES = {"max_equals", "min_equals", "nanmax_equals", "nanmin_equals"}
def tie_hook(v, lab):
    """on equal values either operand's variance is the variance of the selected operand"""
    if v.tag not in TIES or lab != "variance": return None
    def hook(a, b, facts):
        tied = any(k == "ord" and o == 1 and not vn.isconst(x) and not vn.isconst(y) for k, x, y, o in facts)
        t = vn.single(a)
        return tied and t is not None and t[0] == "in" and t[2] > 0
    return hook

POWX = ("-mllvm", "-unroll-threshold=100000", "-mllvm", "-unroll-full-max-count=64")
def against_reference(rep, src, tags, fields, mode, cls=None):
    mod, V = module(src, POWX if "k_pow" in src else ())
    n = 0
    for key, v in V.items():
        if "impl" not in v.f or v.kind == "FnAlias" or (tags is not None and v.tag not in tags): continue
        of = kern.outfields(v.targs[0])
        if of is None: continue
        for i, (off, ty, lab) in enumerate(of):
            if lab not in fields: continue
            ident = "%s %s" % (v.name, lab)
            N = vn.VN(mode, narrow_opaque="double" in v.targs[0])
            try:
                with budget(rep):
                    a = val_impl(mod, v, N)[0][i]
                    b = val_ref(mod, v, N, "refvalue" if i == 0 else "refvar", ty)
                    c = vn.Cmp(N, tie_hook(v, lab)); ok = c.run((a, b))
            except (vn.Undecided, MemoryError) as ex:
                rep.undecided(cls or v.tag, ident, str(ex) or "out of memory"); continue
            n += 1
            if ok: rep.good(cls or v.tag, ident + " (%d case pairs)" % max(c.pairs, 1))
            else: rep.bad(cls or v.tag, ident, explain(v, lab, c))
    return n

PTRS = {"double": [("double", 8, 0)], "float": [("float", 4, 0)], "long": [("i64", 8, 0)], "int": [("i32", 4, 0)], "bool": [("i8", 1, 0)]}
def fields_of(t):
    """scalar layout of a pointee type named in a demangled signature"""
    t = t.replace("const", "").strip()
    T = llir.Ty
    sc = {"double": ("double", 8), "float": ("float", 4), "long": ("i64", 8), "int": ("i32", 4), "bool": ("i8", 1), "unsigned char": ("i8", 1), "scipp::core::time_point": ("i64", 8)}
    def mk(n): return T("int", n=int(n[1:])) if n[0] == "i" else T(n)
    if t in sc: return [(0, mk(sc[t][0]), "")]
    m = re.match(r"scipp::core::ValueAndVariance<(.*)>$", t)
    if m:
        n, w = sc[m.group(1)]; return [(0, mk(n), "value"), (w, mk(n), "variance")]
    m = re.match(r"Eigen::Matrix<(double|float), (\d), (\d), 0, \d, \d>$", t)
    if m:
        n, w = sc[m.group(1)]
        return [(w*i, mk(n), "[%d]" % i) for i in range(int(m.group(2))*int(m.group(3)))]
    m = re.match(r"wit::Arr<(\w+), (\d+)(?:u?l)?>$", t)
    if m:
        n, w = sc[m.group(1)]
        return [(w*i, mk(n), "[%d]" % i) for i in range(int(m.group(2)))]
    return None

def pairs(mod, prefix="P_"):
    """{struct name: {'impl': fn, 'ref': fn, 'types': [...]}}"""
    names = [n for n in mod.funcs if "P_" in n]
    dem = kern.demangle([n[1:].strip('"') for n in names])
    r = {}
    for n, d in zip(names, dem):
        m = re.match(r"(?:void |bool |long |int |double )?wit::(P_.*?)::(\w+)\((.*)\)$", d)
        if not m or m.group(2) not in ("impl", "ref", "ref2"): continue
        e = r.setdefault(m.group(1), {}); e[m.group(2)] = n; e["types"] = kern.split_targs(m.group(3))
    return r

PAIR_SECONDS, CHECK_SECONDS, CHECK_BYTES = 60, 600, 12 << 30
class budget:
    """bounds the analysis of one pair (changed code can make the case analysis explode): past the limit the pair is undecided"""
    def __init__(s, rep): s.rep = rep
    def __enter__(s):
        left = max(2, min(PAIR_SECONDS, CHECK_SECONDS - (time.time() - s.rep.t0)))
        def stop(*a): raise vn.Undecided("analysis budget of %d s exhausted" % left)
        s.old = signal.signal(signal.SIGALRM, stop); signal.setitimer(signal.ITIMER_REAL, left, 1)
        resource.setrlimit(resource.RLIMIT_AS, (CHECK_BYTES, resource.getrlimit(resource.RLIMIT_AS)[1]))
    def __exit__(s, t, *a):
        signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, s.old)
        return False

def check_pair(rep, mod, name, p, *a, **k):
    """runs one comparison within the budget"""
    cls = a[1] if len(a) > 1 else k["cls"]
    try:
        with budget(rep): check_pair_(rep, mod, name, p, *a, **k)
    except (vn.Undecided, MemoryError) as ex: rep.undecided(cls, name, str(ex) or "out of memory")
def check_pair_(rep, mod, name, p, mode, cls, names=None, keep_opaque=None, throws=False, purefn=None, narrow=True, eqleaf=None, what=None):
    if "impl" not in p or "ref" not in p: return
    ident = name
    N = vn.VN(mode, narrow_opaque=narrow)
    res = []
    ptrs = []
    nm = iter(names or ["out"] + ["x%d" % i for i in range(16)])
    for t in p["types"]:
        if t.endswith("*"):
            ptrs.append(("arg", next(nm)))
        else:
            ptrs.append(None)
    for f in ("impl", "ref"):
        fn = mod.funcs[p[f]]
        bb = [vn.I(b) for b, t in zip(ptrs, p["types"]) if b is not None and t.replace("const", "").replace("*", "").strip() == "bool"]
        e = kern.Machine(mod, N, bb)
        e.fresh = name.startswith("P_fresh")
        if keep_opaque: e.keep_opaque = keep_opaque
        for b, t in zip(ptrs, p["types"]):
            m = re.match(r"wit::Arr<(\w+), (\d+)", t.replace("const", "").strip())
            if b is not None and m and m.group(1) in ("int", "float"): e.words.add(vn.I(b))
            if b is not None and m: e.extents[vn.I(b)] = {"double": 8, "float": 4, "long": 8, "int": 4, "bool": 1}.get(m.group(1), 8)*int(m.group(2))
        a = []
        for (t, pn), b, ts in zip(fn.params, ptrs, p["types"]):
            a.append(b if b is not None else N.sym(t, vn.I(("in", ("arg", "p"+str(len(a))), 0))))
        r = e.run(p[f], a)
        outs = []
        for b, t in zip(ptrs, p["types"]):
            if b is None or "const" in t: continue
            fl = fields_of(t[:-1])
            if fl is None: raise vn.Undecided("layout of %s" % t)
            for off, ty, lab in fl: outs.append((b[1]+lab, e.look(r.mem, vn.I(b), off, e.m.size_align(ty)[0], ty)))
        if r.val is not None and not isinstance(r.val, tuple): outs.append(("return value", r.val))
        res.append((outs, r))
    if throws:
        c = vn.Cmp(N); ta, tb = res[0][1].throws, res[1][1].throws
        if not c.run((ta, tb)):
            f, x, y, _ = c.diff
            rep.bad(cls, ident + " throw", "%s: an error is %sraised when %s, but must %sbe" % (what or ident, "" if x[2] else "not ", vn.showfacts(f), "" if y[2] else "not ")); return
        ok_cond = N.NOT(ta)
    for (la, a), (lb, b) in zip(*[x[0] for x in res]):
        c = vn.Cmp(N, eqleaf)
        if throws:
            z = N.leaf(N.iconst(0, 8))
            a = N.ite(ok_cond, a, z); b = N.ite(ok_cond, b, z)
        if not c.run((a, b)):
            f, x, y, _ = c.diff
            rep.bad(cls, ident, "%s: %s is wrong when %s: implementation yields %s, required %s" % (what or ident, la, vn.showfacts(f), vn.show(x), vn.show(y))); return
    rep.good(cls, ident)

COMPARE = {"less", "greater", "less_equal", "greater_equal", "equal", "not_equal", "isclose", "isclose_equal_nan", "issorted_nondescending", "issorted_nonascending"}
LOGIC = {"logical_and", "logical_or", "logical_xor", "logical_not", "logical_and_equals", "logical_or_equals", "logical_xor_equals", "where"}
SPECIAL = {"isnan", "isinf", "isfinite", "isposinf", "isneginf", "nan_to_num", "nan_to_num_out_arg", "positive_inf_to_num", "positive_inf_to_num_out_arg", "negative_inf_to_num", "negative_inf_to_num_out_arg"}
ACCUM = {"max_equals", "min_equals", "nanmax_equals", "nanmin_equals", "nan_add_equals"}
REPLACE = {t for t in SPECIAL if "_to_num" in t}

def K01(rep):
    for s in ("witness/k_arith.cpp", "witness/k_logic.cpp", "witness/k_math.cpp"):
        against_reference(rep, s, None, ("variance",), "real")
    against_reference(rep, "witness/k_pow.cpp", {"pow"}, ("variance",), "real")
    mod, _ = module("witness/k_pow.cpp", POWX)
    for n, p in pairs(mod).items():
        if "P_powvar" in n: check_pair(rep, mod, n, p, "real", "pow, constant exponent", narrow=False)
    rep.assume += ["real arithmetic: rounding, overflow and underflow of intermediate results are not modelled", "operands are uncorrelated (as the property states)"]
    return rep.finish("proof", "for every kernel x type pair x variance mix: the variance field, as a gated rational expression over the operands, equals the first-order propagation formula on every feasible case",
                      min_obl=60, trusted=TRUST, expect={"multiply": 7, "divide": 7, "where": 4})
def K02(rep):
    for s in ("witness/k_arith.cpp", "witness/k_logic.cpp", "witness/k_math.cpp", "witness/k_pow.cpp"):
        mod, V = module(s, POWX if "k_pow" in s else ())
        for key, v in V.items():
            if "impl" not in v.f or v.kind == "FnAlias" or not v.anyvv: continue
            pv = V.get(v.plain())
            of = kern.outfields(v.targs[0])
            if of is None: continue
            ident = v.name
            if pv is None or "impl" not in pv.f:
                rep.undecided(v.tag, ident, "no plain counterpart"); continue
            try:
                N = vn.VN("strict", narrow_opaque="double" in v.targs[0])
                if kern.unvv(v.targs[0]) != kern.unvv(pv.targs[0]):
                    rep.bad(v.tag, ident, "kernel %s: element type of the result is %s with and %s without variances" % (v.name, kern.short(v.targs[0]), kern.short(pv.targs[0]))); continue
                a = val_impl(mod, v, N)[0][0]; b = val_impl(mod, pv, N)[0][0]
                c = vn.Cmp(N); ok = c.run((a, b))
            except vn.Undecided as ex:
                rep.undecided(v.tag, ident, str(ex)); continue
            if ok: rep.good(v.tag, ident)
            else:
                f, x, y, _ = c.diff
                rep.bad(v.tag, ident, "kernel %s: value with variances is %s but %s without, when %s" % (v.name, vn.show(x), vn.show(y), vn.showfacts(f)))
    return rep.finish("proof", "for every kernel instantiation with a variance-carrying operand: its value field and that of the instantiation without variances are the same IEEE expression (uninterpreted operations, exact branch conditions)",
                      min_obl=120, trusted=TRUST, expect={"equal": 3, "add": 6})
def value_pairs(rep, src, *prefix):
    mod, _ = module(src)
    for n, p in sorted(pairs(mod).items()):
        if n.startswith(prefix): check_pair(rep, mod, n, p, "strict", re.sub("<.*", "", n), throws=True)
def K03(rep):
    against_reference(rep, "witness/k_logic.cpp", COMPARE | LOGIC, ("value",), "strict")
    value_pairs(rep, "witness/k_value.cpp", "P_equal", "P_compare")
    return rep.finish("proof", "the boolean/selected value of every comparison, logic and selection kernel instantiation equals the definition for each outcome of (NaN, <, =, >) of its operands",
                      min_obl=150, trusted=TRUST, expect={t: 1 for t in COMPARE | LOGIC})
def tiny_hook(a, b, facts):
    """the leaves differ by c*x, |c| <= 1, where the facts bound |x| by the smallest normal numbers"""
    from fractions import Fraction
    if a[0] != "rat" or b[0] != "rat": return False
    d = vn.radd0(a, vn.rneg(b))
    if d[2] != vn.P1 or len(d[1]) != 1 or abs(d[1][0][1]) > 1: return False
    x = vn.rat(((d[1][0][0], 1),))
    if vn.single(x) is None: return False
    lim = Fraction(2)**-120
    lo = hi = False
    for k, p, q, o in facts:
        if k != "ord": continue
        for u, w, r in ((p, q, o), (q, p, 2-o)):     # u r w
            s = 1 if u == x else -1 if u == vn.rneg(x) else 0
            if not s or not (w[0] == "rat" and vn.isconst(w)): continue
            c = vn.cval(w)*s; r = r if s == 1 else 2-r
            if r == 1: lo = lo or c >= -lim; hi = hi or c <= lim
            elif r == 0: hi = hi or c <= lim
            else: lo = lo or c >= -lim
    return lo and hi
def K04(rep):
    against_reference(rep, "witness/k_arith.cpp", None, ("value",), "real")
    against_reference(rep, "witness/k_math.cpp", None, ("value",), "real")
    mod, _ = module("witness/k_math.cpp")
    for n, p in pairs(mod).items(): check_pair(rep, mod, n, p, "real", re.sub("<.*", "", n), narrow="scan" in n, eqleaf=tiny_hook if "midpoint" in n else None)
    against_reference(rep, "witness/k_pow.cpp", {"pow"}, ("value",), "real")
    mod, _ = module("witness/k_pow.cpp", POWX)
    for n, p in pairs(mod).items():
        if "P_pow<" in n: check_pair(rep, mod, n, p, "real", "pow, constant exponent", narrow=False)
    value_pairs(rep, "witness/k_conv.cpp", "P_to_unit")
    rep.assume += ["expressions are compared as functions of the reals; libm functions are taken to be what they are named"]
    return rep.finish("proof", "value field of every arithmetic/math kernel instantiation equals the named function of its operands (rational normal form over uninterpreted libm functions; integers modulo 2^n)",
                      min_obl=250, trusted=TRUST)
def K05(rep):
    against_reference(rep, "witness/k_logic.cpp", SPECIAL, ("value", "variance"), "strict")
    value_pairs(rep, "witness/k_value.cpp", "P_special")
    return rep.finish("proof", "classification and replacement kernels equal the definition for NaN, both infinities and all finite operands, each type, plain and with variances",
                      min_obl=60, trusted=TRUST, expect={t: 2 for t in SPECIAL})
def K06(rep):
    against_reference(rep, "witness/k_logic.cpp", ACCUM, ("value",), "strict")
    against_reference(rep, "witness/k_arith.cpp", {"add_equals", "nan_add_equals"}, ("value",), "strict")
    return rep.finish("proof", "accumulation kernels: for each of NaN-ness and ordering of accumulator and element the new accumulator is the documented one",
                      min_obl=25, trusted=TRUST, expect={t: 3 for t in ACCUM})

def pairs2(mod):
    """FnPair / FnSelf instantiations"""
    names = [n for n in mod.funcs if "FnPair" in n or "FnSelf" in n]
    dem = kern.demangle([n[1:].strip('"') for n in names])
    r = {}
    for n, d in zip(names, dem):
        m = re.match(r"(?:void )?wit::(FnPair|FnSelf)<(.*)>::(impl|ref)\((.*)\)", d)
        if m:
            ta = kern.split_targs(m.group(2))
            e = r.setdefault((m.group(1), ta[0].replace("wit::", "")) + tuple(ta[1:]), {})
            e[m.group(3)] = n; e["types"] = kern.split_targs(m.group(4))
    return r
def recursive_pow(n): return "integer_pow" in n
def K07(rep):
    mod, _ = module("witness/k_inplace.cpp")
    for key, p in pairs2(mod).items():
        kind, tag, ts = key[0], key[1], [kern.short(t) for t in key[2:]]
        nm = "%s: %s op= %s" % (tag, ts[0], ", ".join(ts[1:])) if kind == "FnPair" else "%s: %s op= itself" % (tag, ts[0])
        check_pair(rep, mod, nm, p, "strict", tag if kind == "FnPair" else "same object as operand", keep_opaque=recursive_pow,
                   what="in-place %s" % nm if kind == "FnPair" else "in-place %s (operand is the target itself)" % nm, narrow=True)
    return rep.finish("proof", "every in-place kernel instantiation leaves in its target the expression the out-of-place kernel computes, converted to the target type (value and variance, IEEE operations uninterpreted); also with the target as its own operand",
                      min_obl=90, trusted=TRUST, expect={"add": 8, "pow": 10, "nan_to_num": 4})

INTS = {"int", "long", "bool", "scipp::core::time_point"}
def diagram_atoms(v, node, seen=None, acc=None):
    """every term of a decision diagram: leaves and the terms its inner nodes compare"""
    if seen is None: seen = set(); acc = []
    st = [node]
    while st:
        n = st.pop()
        if n in seen: continue
        seen.add(n); t = v.tab[n]
        if t[0] == "L": acc.append((t[1], True))
        else:
            for x in v.atoms[t[1]][1:]:
                if isinstance(x, tuple): acc.append((x, False))
            st += t[2]
    return acc
def lossy(x, out):
    """terms which leave the integers, or narrow and widen again"""
    if not isinstance(x, tuple): return
    if x and x[0] in ("sitofp", "uitofp", "fptosi", "fptoui", "ff", "fn"): out.append("a value passes through floating point (%s)" % x[0])
    if x and x[0] in ("sext", "zext") and has(x, "trunc"): out.append("a value is narrowed before it is used in the wider result")
    for y in x: lossy(y, out)
def has(x, k):
    if not isinstance(x, tuple): return False
    return bool(x) and x[0] == k or any(has(y, k) for y in x)
def K10(rep):
    def one(cls, ident, v, node):
        bad = []
        for t, isleaf in diagram_atoms(v, node): lossy(t, bad)
        if bad: rep.bad(cls, ident, "kernel %s: %s" % (ident, bad[0]))
        else: rep.good(cls, ident)
    for s in ("witness/k_arith.cpp", "witness/k_logic.cpp", "witness/k_math.cpp", "witness/k_pow.cpp"):
        mod, V = module(s, POWX if "k_pow" in s else ())
        for key, v in V.items():
            if "impl" not in v.f or v.kind == "FnAlias" or not all(t in INTS for t in v.targs): continue
            of = kern.outfields(v.targs[0])
            if of is None: continue
            try:
                N = vn.VN("strict"); one(v.tag, v.name, N, val_impl(mod, v, N)[0][0])
            except vn.Undecided as ex: rep.undecided(v.tag, v.name, str(ex))
    mod, _ = module("witness/k_math.cpp")
    for n, p in pairs(mod).items():
        if all(t.replace("const", "").replace("*", "").strip() in INTS for t in p["types"]):
            cls = re.sub("<.*", "", n)
            try:
                N = vn.VN("strict")
                e = kern.Machine(mod, N, [vn.I(("arg", "x%d" % i)) for i, t in enumerate(p["types"]) if t.replace("const", "").replace("*", "").strip() == "bool"])
                r = e.run(p["impl"], [("arg", "x%d" % i) for i in range(len(p["types"]))])
                for i, t in enumerate(p["types"]):
                    if "const" in t: continue
                    off, ty, lab = fields_of(t[:-1])[0]
                    one(cls, "%s output %d" % (n, i), N, e.look(r.mem, vn.I(("arg", "x%d" % i)), off, e.m.size_align(ty)[0], ty))
            except vn.Undecided as ex: rep.undecided(cls, n, str(ex))
            check_pair(rep, mod, n, p, "strict", cls)
    return rep.finish("proof", "for every kernel instantiation on integers and time points the value-numbered result contains no integer<->floating conversion and no narrowing that is widened again; scans, midpoint and unit conversion by an integer factor equal the exact integer definition",
                      min_obl=60, trusted=TRUST, expect={"floor_divide": 3, "mod": 3, "pow": 2, "P_midpoint": 4, "P_to_unit": 2})

def quaternion_bases(p):
    return [i for i, t in enumerate(p["types"]) if "Quaternion" in t]
def reduce_unit(poly, ws):
    """rewrite w^2 -> 1 - x^2 - y^2 - z^2 for every unit quaternion (x, y, z, w) in ws"""
    from fractions import Fraction
    while True:
        hit = None
        for m, c in poly:
            for a, e in m:
                if e >= 2 and a in ws: hit = a; break
            if hit: break
        if not hit: return poly
        x = ws[hit]
        one = vn.padd(vn.P1, ((((x[0], 2),), Fraction(1)), (((x[1], 2),), Fraction(1)), (((x[2], 2),), Fraction(1))), -1)
        out = ()
        for m, c in poly:
            d = dict(m); e = d.get(hit, 0)
            if e < 2: out = vn.padd(out, ((m, c),)); continue
            d[hit] = e - 2
            rest = tuple(sorted(((k, v) for k, v in d.items() if v), key=lambda q: repr(q[0])))
            out = vn.padd(out, vn.pmul(((rest, c),), one))
        poly = out
def unit_hook(p, names):
    ws = {}
    for i in quaternion_bases(p):
        b = vn.I(("arg", names[i]))
        at = [vn.I(("in", b, 8*k)) for k in range(4)]
        ws[at[3]] = at[:3]
    def zero(r): return not reduce_unit(r[1], ws)
    def hook(a, b, facts):
        if a[0] == "rat" and b[0] == "rat" and not reduce_unit(vn.padd(vn.pmul(a[1], b[2]), vn.pmul(b[1], a[2]), -1), ws): return True
        for k, x, y, o in facts:      # facts that contradict |q| = 1
            if k == "nan" and o == 1 and x[0] == "rat" and ws:
                n, q = reduce_unit(x[1], ws), reduce_unit(x[2], ws)
                if len(n) == 1 and n[0][0] == () and len(q) == 1 and q[0][0] == (): return True
            if k == "ord" and x[0] == "rat" and y[0] == "rat":
                d = vn.radd0(x, y, -1)
                n, q = reduce_unit(d[1], ws), reduce_unit(d[2], ws)
                if (not n or n[0][0] == () and len(n) == 1) and len(q) == 1 and q[0][0] == ():
                    c = (n[0][1] if n else 0)/q[0][1]
                    if (0 if c < 0 else 1 if c == 0 else 2) != o: return True
        return False
    return hook
MOCK = ("stubs/mockunits", "stubs/exp")
def K08(rep):
    mod, _ = module("witness/k_units.cpp", (), MOCK)
    for n, p in sorted(pairs(mod).items()):
        nm = re.sub(r"P_\w+<wit::(.*)>$", r"\1", n)
        cls = "unit operator" if nm.startswith("unit_") or nm == "P_pow" else "kernel"
        names = [x for k in ["out"] + ["x%d" % i for i in range(8)] for x in (k, "has(%s)" % k)]
        if p["types"] and "const" in p["types"][0]: names = names[2:]
        if nm == "P_pow": names = ["out", "has(out)", "x0", "has(x0)", "exponent"]
        check_pair(rep, mod, nm, p, "strict", cls, names=names, throws=True, what="unit of %s" % nm)
    rep.assume += ["the unit library multiplies units commutatively and associatively and has an equality; its other operations are taken as named"]
    return rep.finish("proof", "for every kernel and every unit operator, as functions of arbitrary operand units including none: an error is raised under exactly the required condition, otherwise the result unit is the required one",
                      min_obl=110, trusted=TRUST + ["stubs/mockunits (opaque unit algebra)"], expect={"unit operator": 15, "kernel": 95})
def nonzero_hook(a, b, facts):
    """facts that say a sum of squares is not positive, or not a number"""
    for k, x, y, o in facts:
        if k == "nan" and o == 1: return True
        if k == "ord" and x[0] == "rat" and y[0] == "rat":
            d = vn.radd0(x, y, -1)
            if d[2] == vn.P1 and len(d[1]) == 4 and all(len(m) == 1 and m[0][1] == 2 and c > 0 for m, c in d[1]) and o != 2: return True
    return False
def K09(rep):
    mod, _ = module("witness/k_spatial.cpp")
    names = ["out"] + ["x%d" % i for i in range(16)]
    for n, p in sorted(pairs(mod).items()):
        check_pair(rep, mod, n, p, "real", re.sub("<.*", "", n), narrow=False, eqleaf=nonzero_hook if "any_norm" in n else unit_hook(p, names))
    value_pairs(rep, "witness/k_value.cpp", "P_component")
    rep.assume += ["rotations are unit quaternions", "the last row of an affine matrix is (0, 0, 0, 1)", "real arithmetic"]
    return rep.finish("proof", "for every supported ordered pair of transformation types the action of the product on a vector and the successive actions of the factors are the same polynomials in the stored components (modulo |q| = 1); likewise inverses, unit conversion and vector arithmetic",
                      min_obl=50, trusted=TRUST + ["Eigen 3 as installed (its templates are part of the analysed code)"], expect={"P_multiply": 18, "P_apply_transform": 6, "P_inverse": 4})
def operands(rep, prefixes, what):
    mod, _ = module("witness/k_flags.cpp")
    for n, p in sorted(pairs(mod).items()):
        k = re.sub("<.*", "", n)
        for pre in prefixes:
            if k.startswith(pre): check_pair(rep, mod, k, p, "strict", pre, what="%s: %s" % (k[len(pre):], what[pre]))
def K11(rep):
    operands(rep, ["P_operands_"], {"P_operands_": "operands 0..4 refused with variances (out[0..4]), required to have them (out[5..9]), rule for the result (out[10..14], see witness/k_flags.cpp)"})
    return rep.finish("proof", "for every operation of core::element: exactly the operands that can carry uncertainties but are not propagated refuse them, exactly the operands that need them require them, and only the operations whose result has no uncertainties (or a copy of them) may broadcast operands that have them",
                      min_obl=100, trusted=TRUST + ["witness/k_flags.cpp (table of refused operands)", "variable/transform.h acts on the flags (not analysed)"])
def K12(rep):
    operands(rep, ["P_types_", "P_result_"], {"P_types_": "out[k]: the k-th combination of element types in TYPES of witness/k_flags.cpp is accepted", "P_result_": "out[k]: the k-th combination of element types in RESULT of witness/k_flags.cpp gives the stated type"})
    return rep.finish("proof", "for every operation of core::element: every listed combination of element types (1007 of them) is accepted, and the result (424 combinations) has the element type the promotion rules give",
                      min_obl=140, trusted=TRUST + ["witness/k_flags.cpp (table of element types)"])
