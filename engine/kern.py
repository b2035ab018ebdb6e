"""Compiles the kernel witnesses and compares implementation against reference, variant by variant."""
import os, re, subprocess, sys, collections
sys.path.insert(0, os.path.dirname(__file__))
import llir, vn

SCAL = {"double": ("double", 8), "float": ("float", 4), "long": ("int", 8), "int": ("int", 4), "bool": ("bool", 1),
        "scipp::core::time_point": ("int", 8)}

def demangle(names):
    p = subprocess.run(["c++filt"], input="\n".join(names), text=True, capture_output=True)
    return p.stdout.split("\n")

def split_targs(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "<": d += 1
        if ch == ">": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

class Variant:
    """one instantiation: tag, in-place?, output type, argument types, and its functions"""
    def __init__(s, kind, tag, targs): s.kind, s.tag, s.targs, s.f = kind, tag, targs, {}
    @property
    def name(s): return "%s(%s)%s" % (s.tag, ", ".join(short(t) for t in s.targs[1:]), " in place on " + short(s.targs[0]) if s.kind != "Fn" else " -> " + short(s.targs[0]))
    @property
    def outvv(s): return s.targs[0].startswith("scipp::core::ValueAndVariance")
    @property
    def anyvv(s): return any(t.startswith("scipp::core::ValueAndVariance") for t in s.targs)
    def plain(s): return tuple([s.kind, s.tag] + [unvv(t) for t in s.targs])

def unvv(t):
    m = re.match(r"scipp::core::ValueAndVariance<(.*)>$", t)
    return m.group(1) if m else t
def short(t): return t.replace("scipp::core::", "").replace("ValueAndVariance", "VV").replace("std::__cxx11::", "").replace("long", "int64").replace("Eigen::Matrix<double, 3, 1, 0, 3, 1>", "Vector3d").replace("Eigen::Matrix<double, 3, 3, 0, 3, 3>", "Matrix3d").replace("int64", "int64")

def collect(mod):
    names = [n for n in mod.funcs if "wit" in n]
    dem = demangle([n[1:].strip('"') for n in names])
    var = {}
    for n, d in zip(names, dem):
        m = re.match(r"(?:void )?wit::(Fn|FnIn|FnAlias)<(.*)>::(\w+)\(", d)
        if not m: continue
        ta = split_targs(m.group(2))
        tag = ta[0].replace("wit::", "")
        key = (m.group(1), tag) + tuple(ta[1:])
        v = var.setdefault(key, Variant(m.group(1), tag, ta[1:]))
        v.f[m.group(3)] = n
    return var

def outfields(t):
    """scalar fields of an output type: (offset, llvm type, label)"""
    vv = t.startswith("scipp::core::ValueAndVariance")
    k = SCAL.get(unvv(t))
    if k is None: return None
    ty = llir.Ty("int", n=8*k[1]) if k[0] in ("int",) else llir.Ty("int", n=8) if k[0] == "bool" else llir.Ty(k[0])
    r = [(0, ty, "value")]
    if vv: r.append((k[1], ty, "variance"))
    return r

class Machine(vn.Eval):
    """witness evaluation: bool arguments are 0/1"""
    def __init__(s, mod, v, boolbases=()):
        super().__init__(mod, v); s.boolbases = set(boolbases)
    def initial(s, base, off, size, ty):
        if ty.k == "int" and ty.n == 8 and base in s.boolbases:
            b = s.v.boolatom(vn.I(("in", base, off)))
            return s.v.ite(b, s.v.leaf(s.v.iconst(1, 8)), s.v.leaf(s.v.iconst(0, 8)))
        return super().initial(base, off, size, ty)

def evalf(mod, v, fn, bases, types):
    bb = [vn.I(b) for b, t in zip(bases, types) if unvv(t) == "bool"]
    e = Machine(mod, v, bb)
    e.keep_opaque = lambda n: "integer_pow" in n
    r = e.run(fn, [tuple(b) for b in bases])
    return e, r

def outputs(e, r, base, fields):
    return [e.look(r.mem, vn.I(base), off, e.m.size_align(ty)[0], ty) for off, ty, _ in fields]
