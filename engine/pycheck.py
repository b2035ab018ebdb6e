"""Checks over the Python sources: pairs of a function of the repository and a reference with the same name."""
import ast, glob as G, json, multiprocessing, os, re, resource, signal, sys
import pyvn
from pyvn import *
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
SRC = os.path.join(REPO, "src")

def bindings():
    """names bound in lib/python: name -> list of tuples of argument names; from the source text of the bindings"""
    out = {}
    for p in sorted(G.glob(os.path.join(REPO, "lib/python/*.cpp")) + G.glob(os.path.join(REPO, "lib/python/*.h"))):
        t = open(p).read()
        for m in re.finditer(r'\bdef\w*\(\s*"(\w+)"', t):
            i = m.start() + t[m.start():].index("("); d = 0; j = i
            while j < len(t):
                if t[j] == '"':
                    j += 1
                    while t[j] != '"': j += 2 if t[j] == "\\" else 1
                d += t[j] in "([{"; d -= t[j] in ")]}"
                if d == 0: break
                j += 1
            body = t[i:j]
            out.setdefault(m.group(1), []).append((tuple(re.findall(r'py::arg\(\s*"(\w+)"', body)), p, body))
    return out
def signatures(b):
    sig = {}
    for n, l in b.items():
        s = {x[0] for x in l if x[0]}
        if not s: continue
        m = max(s, key=len)
        # positions on which all overloads agree
        k = 0
        while k < len(m) and all(len(x) <= k or x[k] == m[k] for x in s): k += 1
        sig["_scipp.core." + n] = m[:k]
    return sig

class Refs:
    def __init__(s, files, found=False):
        s.found = set()
        s.target = {}; s.over = {}; s.extra = {}; s.order = []; s.retarget = {}; s.opaque = set()
        for f in files:
            name = "ref_" + os.path.basename(f)[:-3]
            m = Module(name, f, False); tgt = next(n.value.value for n in m.tree.body if isinstance(n, ast.Assign) and n.targets[0].id == "TARGET")
            s.extra[name] = f; s.retarget[name] = tgt
            s.opaque |= {tgt + "." + x for n in m.tree.body if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "OPAQUE" for x in ast.literal_eval(n.value)}
            for n in m.tree.body:
                if isinstance(n, ast.FunctionDef) and not n.name.startswith("h_"): s.add(tgt + "." + n.name, n, m, name)
                if isinstance(n, ast.ClassDef):
                    for k in n.body:
                        if isinstance(k, ast.FunctionDef) and not k.name.startswith("h_"): s.add(tgt + "." + n.name + "." + ("=" if any(ast.unparse(d).endswith(".setter") for d in k.decorator_list) else "") + k.name, k, m, name, tgt + "." + n.name)
        if found:
            # functions with defects that are listed as known findings, as they were found
            for f in files:
                p = os.path.join(os.path.dirname(f), "found", os.path.basename(f))
                if not os.path.exists(p): continue
                tgt = s.retarget["ref_" + os.path.basename(f)[:-3]]
                for n in ast.parse(open(p).read()).body:
                    if not isinstance(n, ast.FunctionDef): continue
                    q = tgt + "." + n.name; s.found.add(q); m = s.over[q][1]; s.over[q] = (n, m); m.defs[n.name] = n
                    s.order = [(q, n, m, o[3], o[4]) if o[0] == q else o for o in s.order]
    def add(s, q, n, m, f, cls=None):
        s.over[q] = (n, m); s.order.append((q, n, m, cls, f))

def params(node, cls, ref=True):
    """symbolic arguments of a function by name"""
    pos, kw = [], {}
    a = node.args
    for i, x in enumerate(a.posonlyargs + a.args):
        c = cls if i == 0 and cls and x.arg in ("self",) else None
        pos.append(I(("par", x.arg, c)) if c else I(("par", x.arg)))
    if a.vararg: pos.append(I(("star", I(("par", a.vararg.arg)))))
    for x in a.kwonlyargs: kw[x.arg] = I(("par", x.arg))
    if a.kwarg: kw["**0"] = I(("par", a.kwarg.arg))
    return pos, kw
def sigof(node):
    a = node.args; names = a.posonlyargs + a.args
    d = dict(zip([x.arg for x in names][len(names)-len(a.defaults):], a.defaults)); d.update({x.arg: y for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None})
    return ([x.arg for x in a.posonlyargs], [x.arg for x in a.args], sorted(x.arg for x in a.kwonlyargs), bool(a.vararg), bool(a.kwarg)), {k: ast.dump(v) for k, v in d.items()}
def run(ev, q, nm, pos, kw):
    # decorators count: go through the ordinary call
    ev.top = {q}
    r = liftr(ev.canonfn, ev.callfn(I(("fn", q, None)), pos, kw, None))
    return r, ev.fx
def product(t, w):
    """products and quotients of constants: factors in one order"""
    if t[0] != "bin" or t[1] not in "*/": return t
    num, den = [], []
    def go(x, up):
        if x[0] == "bin" and x[1] == "*": go(x[2], up); go(x[3], up)
        elif x[0] == "bin" and x[1] == "/": go(x[2], up); go(x[3], not up)
        else:
            if x[0] == "gval" and w.mod(x[1]):     # several names of one value
                d = w.mod(x[1]).defs; x = I(("gval", x[1], next((k for k in d if d[k] is d.get(x[2])), x[2])))
            (num if up else den).append(x)
    go(t, True)
    for x in list(den):
        if any(x is y for y in num): num.remove(x); den.remove(x)
    return I(("ratio", tuple(sorted(num, key=H)), tuple(sorted(den, key=H))))
def constants(rep, cls_, wi, wr, refs, mods):
    """values of constants of modules and classes for which the reference has one of the same name"""
    n = 0
    for f in refs.extra:
        tgt = refs.retarget[f]
        if tgt not in mods: continue
        m = wi.mod(tgt); r = wr.mod(f)
        if m is None: continue
        todo = [(k, m.defs.get(k), v) for k, v in r.defs.items() if isinstance(v, ast.expr) and k not in ("TARGET", "OPAQUE") and not k.startswith("__") and not isinstance(v, ast.Subscript) and "ParamSpec" not in ast.dump(v) and not (isinstance(v, ast.BinOp) and isinstance(v.op, ast.BitOr))]
        for c, v in r.defs.items():
            if not isinstance(v, ast.ClassDef) or not isinstance(m.defs.get(c), ast.ClassDef): continue
            own = {t.id: x.value for x in m.defs[c].body if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None for t in (x.targets if isinstance(x, ast.Assign) else [x.target]) if isinstance(t, ast.Name)}
            todo += [(c + "." + t.id, own.get(t.id), x.value) for x in v.body if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Name)]
        for k, a, b in todo:
            if not isinstance(a, ast.expr): continue # moved or renamed: its uses are compared
            n += 1
            try:
                pyvn._n[0] = 0; e1 = Eval(wi, home=tgt); x = liftr(e1.canonfn, e1.ev(a, Frame(m, {})))
                pyvn._n[0] = 0; e2 = Eval(wr, home=tgt); y = liftr(e2.canonfn, e2.ev(b, Frame(r, {})))
                x, y = product(x, wi), product(y, wr)
                pyvn._n[0] = 0; d = diff(x, y)
            except Exception as ex: rep.undecided(cls_, tgt + "." + k, "%s.%s: %s" % (tgt, k, ex)); continue
            if not d: rep.good(cls_, "constant %s.%s" % (tgt, k))
            elif not certain(d): rep.undecided(cls_, tgt + "." + k, "%s.%s: loops of another form" % (tgt, k))
            else: rep.bad(cls_, (tgt + "." + k).replace("scipp.", "", 1), "%s:%d: the constant %s is %s, required is %s" % (os.path.relpath(m.path, REPO), a.lineno, k, show(x)[:300], show(y)[:300]))
    return n
INTERNAL = ("coords.coord", "coords.coord_table", "coords.graph", "coords.rule", "coords.transform_coords", "core.concepts", "core._sizes", "core._cpp_wrapper_util", "core.argument_handlers", "core.bin_remapping", "core.assignments", "core.util", "_binding", "io.hdf5", "compat.wrapping", "utils.comparison", "core.domains", "core.dataset", "curve_fit", "scipy.ndimage", "testing.assertions", "core.binning", "core.data_group", "core.structured", "visualization.formatting_html", "visualization.formatting_datagroup_html", "visualization.table")
PUBLIC = ("visualization.table.table", "formatting_html.variable_repr", "formatting_html.data_array_dataset_repr", "datagroup_html.datagroup_repr", "transform_coords.transform_coords", "transform_coords.show_graph", "hdf5.save_hdf5", "hdf5.load_hdf5", "curve_fit.curve_fit", "domains.merge_equal_adjacent", "ndimage.gaussian_filter", "assertions.assert_identical", "assertions.assert_allclose", "core.binning.hist", "core.binning.bin", "core.binning.group", "core.binning.rebin", "core.binning.nanhist", "core.binning.make_binned", "core.binning.make_histogrammed")
def internal(q, cls, name):
    """may be renamed, removed or given other parameters"""
    if name.startswith("_") and not (name.startswith("__") and name.endswith("__")): return True
    short = q.replace("scipp.", "", 1)
    if any(p in q for p in PUBLIC): return False
    if cls and cls.endswith("DataGroup") and "data_group" in q: return False
    return any(short.startswith(m + ".") for m in INTERNAL)
class Late(Exception): pass
def verdict(wi, wr, q, node, mod, cls, flip=None, limit=30, strict=False):
    """(status, identity, text, functions inlined on either side) of the comparison of one function with its reference.
    flip: additional function to be compared elsewhere (opaque here), or no longer opaque"""
    short = q.replace("scipp.", "", 1); inl = set()
    r = wi.fnode(q)
    if r is None: return ("missing", short, "%s not found" % q, inl)
    inode, imod = r
    where = "%s:%d" % (os.path.relpath(imod.path, REPO), inode.lineno)
    si, di = sigof(inode); sr, dr = sigof(node)
    # a caller of the reference's signature must be accepted with the same meaning
    ok = si[0] + si[1] == sr[0] + sr[1] or (si[0] + si[1])[:len(sr[0]+sr[1])] == sr[0] + sr[1] and all(x in di for x in (si[0]+si[1])[len(sr[0]+sr[1]):])
    ok = ok and all(x in si[2] or x in si[1] for x in sr[2]) and all(x in di for x in si[2] if x not in sr[2]) and (not set(si[0]) & set(sr[1]))
    if not ok: return ("signature", short + "/signature", "%s: %s has parameters %s, documented are %s" % (where, short, si, sr), inl)
    badd = [k for k in dr if k not in di] + [k for k in dr if k in di and di[k] != dr[k] and not defaults_equal(wi, wr, imod, mod, di[k], dr[k])]
    if badd: return ("signature", short + "/defaults", "%s: %s: default of %s differs from the documented one" % (where, short, ", ".join(badd)), inl)
    pos, kw = params(node, cls)
    m0 = (set(wi.modular), set(wr.modular), set(wi.opaque), set(wr.opaque))
    for x in (flip,) if isinstance(flip, str) else flip or ():
        for w in (wi, wr): (w.modular.add if x[0] == "+" else w.modular.discard if x in w.modular else w.opaque.discard if x in w.opaque else w.modular.add)(x.lstrip("+"))
    def late(*a): raise Late()
    old = signal.signal(signal.SIGALRM, late); signal.alarm(limit); e1 = e2 = None
    try:
        hm = q.rpartition('.')[0]; hm = hm if cls is None else hm.rpartition('.')[0]
        pyvn._n[0] = 0; e1 = Eval(wi, home=hm); a, fa = run(e1, q, r, pos, kw)
        pyvn._n[0] = 0; e2 = Eval(wr, home=hm); b, fb = run(e2, q, (node, mod), pos, kw)
        inl |= e1.inlined | e2.inlined | {c for c in e1.calls | e2.calls if c} | {"recursive:%s" % x for x in e1.recs | e2.recs}
        inl.discard(q)
        pyvn._n[0] = 0
        d = diff(a, b) or diff(fa, fb)
        c = restyled_conditions(certain(d), a, fa, b, fb) or aligned(a, fa, b, fb) or ingredients_differ(d, a, fa, b, fb) if d else None
        if c and strict:      # only under conditions that are not about collections
            c = [x for x in c if not any(deep(k) or collection(k) or any(isinstance(z, tuple) and collection(z) for z in k) for k in x[0])]
        if c:
            f, x, y = c[0]
            def cut(t): t = show(t); return t if len(t) < 400 else t[:400] + "..."
            when = "; ".join(("" if v else "not ") + show(k) for k, v in f.items()) or "always"
            return ("bad", short, "%s: %s is wrong when %s: implementation: %s; required: %s" % (where, short, when, cut(x), cut(y)), inl)
        if d: return ("und", short, "%s: loops of another form" % short, inl)
        return ("good", short, short, inl)
    except Late: return ("und", short, "%s: time limit" % short, inl)
    except Undecided as ex: return ("und", short, "%s: %s" % (short, ex), inl)
    except RecursionError: return ("und", short, "%s: too deep" % short, inl)
    except MemoryError: return ("und", short, "%s: memory" % short, inl)
    finally:
        signal.alarm(0); signal.signal(signal.SIGALRM, old)
        for e in (e1, e2): inl |= e.inlined if e else set()
        inl.discard(q)
        wi.modular, wr.modular, wi.opaque, wr.opaque = m0
def defaults_equal(wi, wr, mi, mr, a, b):
    try:
        x = Eval(wi).ev(eval_dump(mi, a), Frame(mi, {})); y = Eval(wr).ev(eval_dump(mr, b), Frame(mr, {}))
        return not diff(x, y)
    except (Undecided, KeyError): return False
def eval_dump(m, d):
    for n in ast.walk(m.tree):
        if isinstance(n, ast.expr) and ast.dump(n) == d: return n
    raise KeyError
_W = {}
def _init():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    sys.setrecursionlimit(20000)
def _work(a):
    i, flip = a[:2]
    q, node, mod, cls, f = _W["order"][i]
    try: return i, flip, verdict(_W["wi"], _W["wr"], q, node, mod, cls, flip, strict=len(a) > 2)
    except Exception as ex: return i, flip, ("und", q.replace("scipp.", "", 1), "%s: analysis failed: %r" % (q, ex), set())
def home(q, cls): return q.rpartition('.')[0] if cls is None else q.rpartition('.')[0].rpartition('.')[0]
def functions(rep, cls_, files, select=None):
    """compare every function of the modules with its reference"""
    done, refs, wi, wr, b, todo, tgt = compare(files, select)
    found = Refs(sorted(G.glob(os.path.join(VERIF, "witness/py/*.py"))), True).found
    known = {}
    if any(q in found for q in done) and any(v[0] != "good" for v in done.values()):
        # does everything equal the functions as found? then the differences are the known findings; any other difference is reported
        other = compare(files, select, True)
        known = {q: v for q, v in done.items() if v[0] == "bad" and q in found and other[0][q][0] != "bad"}
        done = other[0]
    for i in todo:
        q = refs.order[i][0]; st, ident, text, inl = done[q]
        if q in known: rep.bad(cls_, known[q][1], known[q][2])
        elif st == "good": rep.good(cls_, ident)
        elif st == "bad": rep.bad(cls_, ident if q not in found else ident + "/other", text)
        else: rep.undecided(cls_, ident, text)
    constants(rep, "constants", wi, wr, refs, {refs.retarget[f] for f in tgt})
    rep.extra["functions_compared"] = len(todo)
    return wi, wr, refs, b
def compare(files, select=None, found=False):
    allf = sorted(G.glob(os.path.join(VERIF, "witness/py/*.py")))
    refs = Refs(allf, found); wi, wr, b = worlds(refs)
    tgt = {"ref_" + f for f in files}
    todo = [i for i, o in enumerate(refs.order) if o[4] in tgt and (select is None or select(o[0]))]
    _W.update(order=refs.order, wi=wi, wr=wr)
    res = {}
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 2), _init) as pool:
        for i, _, v in pool.imap_unordered(_work, [(i, None) for i in todo]): res[refs.order[i][0]] = (i, v)
        # callers of undecided functions: judged with these functions opaque on both sides
        und = {q for q, (i, v) in res.items() if v[0] == "und" and q not in wi.modular}
        again = [(i, tuple(sorted("+" + u for u in v[3] & und))) for q, (i, v) in res.items() if v[0] == "bad" and v[3] & und]
        # too large: judged with the functions it calls opaque on both sides, these are judged themselves
        again += [(i, tuple(sorted("+" + u for u in v[3] if u in res and u != q))) for q, (i, v) in res.items() if v[0] == "und" and any(x in v[2] for x in ("too large", "time limit", "too deep", "memory"))]
        assumed = {}      # functions taken to be as defined in the verdict of a caller: that verdict says nothing about them
        for i, fl, v in pool.imap_unordered(_work, again):
            q = refs.order[i][0]
            if v[0] == "good" or v[0] != "bad" and res[q][1][0] == "bad": assumed[q] = {x[1:] for x in fl} | (res[q][1][3] - v[3])
            if v[0] != "bad" and res[q][1][0] == "bad" or v[0] == "good": res[q] = (i, v[:3] + (res[q][1][3],))
        # undecided, while the functions called are as defined: judged by the calls made to these
        more = [(i, tuple(sorted("+" + u for u in v[3] if u in res and u != q and res[u][1][0] == "good"))) for q, (i, v) in res.items() if v[0] == "und"]
        for i, fl, v in pool.imap_unordered(_work, [m + (True,) for m in more if m[1]]):
            q = refs.order[i][0]
            if v[0] == "bad": res[q] = (i, v[:3] + (res[q][1][3],))
        # recursion through a function that has another name or other parameters here ends in another call on either side
        gone = {"recursive:" + q for q, (i, v) in res.items() if v[0] in ("missing", "signature")}
        for q, (i, v) in list(res.items()):
            if v[0] == "bad" and v[3] & gone: res[q] = (i, ("und",) + v[1:])
        name = {q: refs.order[i][1].name for q, (i, v) in res.items()}; cl = {q: refs.order[i][3] for q, (i, v) in res.items()}
        inter = {q: internal(q, cl[q], name[q]) for q in res}
        done = {}
        for q, (i, v) in res.items():
            st, ident, text, inl = v
            if st == "good": done[q] = v; continue
            if not inter[q]: done[q] = v if st != "signature" and st != "missing" else ("bad",) + v[1:]; continue
            callers = [p for p, (j, w) in res.items() if q in w[3] and p != q and q not in assumed.get(p, ()) and "recursive:" + q not in w[3] and not (inter[p] and w[0] != "good")]
            opq = q in refs.opaque or q in wi.opaque and any(home(p, cl[p]) != home(q, cl[q]) for p in callers)
            if st in ("missing", "signature", "und"): st = "und"
            if not opq and callers and all(res[p][1][0] == "good" for p in callers): done[q] = ("good", ident, text, inl); continue
            if not opq and any(res[p][1][0] == "bad" for p in callers): done[q] = ("und", ident, text, inl) if st == "und" else ("bad", ident, text, inl); continue
            if st == "bad" and callers:
                # is the difference visible in the callers, with the function inlined (opaque otherwise)?
                tests = [(res[p][0], q) for p in callers if opq or res[p][1][0] != "good"]
                r2 = [v2[0] for _, _, v2 in pool.imap_unordered(_work, tests)]
                if opq: st = "good" if r2 and all(x == "good" for x in r2) else "bad"
                else: st = "bad" if r2 and all(x == "good" for x in r2) else "und"
            done[q] = (st, ident, text, inl)
    return done, refs, wi, wr, b, todo, tgt
def worlds(refs, opaque=()):
    opaque = set(opaque) | {q for q, n, m, c, f in refs.order if c is None and not n.name.startswith('_') and n.name not in ('call_func', 'data_group_overload')}
    b = bindings(); sig = signatures(b)
    wi = World(SRC, opaque=opaque, sigs=sig, modular=refs.opaque); wr = World(SRC, opaque=opaque, modular=refs.opaque, sigs=sig, over=refs.over, extra=refs.extra, retarget=refs.retarget)
    for q in refs.over:
        m, _, n = q.rpartition(".")
        if wi.mod(m):
            r = wi.lookup(m, n)
            if r[0] == "fn" and r[1] != q: wi.alias[r[1]] = q
    for q in refs.opaque:
        r = wi.fnode(q)
        if r is None or sigof(r[0]) != sigof(refs.over[q][0]): wi.modular.discard(q); wr.modular.discard(q)
    return wi, wr, b
