"""Value numbering of Python functions: every function is reduced to a decision diagram over uninterpreted terms.

Branches are merged (gated values), calls of functions defined in the repository are inlined, everything else is an
uninterpreted function of its arguments.  Nothing is executed and no path is handed to a solver."""
import copy, ast, itertools, os, re
class Undecided(Exception): pass
class NotYields(Exception): pass
class BadCall(Exception): "a call that does not fit the parameters of the function"
LIMIT = 200000

# ----------------------------------------------------------------------------------------------------------- terms
class T(tuple):
    """interned term: equality is identity"""
    __slots__ = ()
    __hash__ = object.__hash__
    __eq__ = object.__eq__
    __ne__ = object.__ne__
_I = {}
def I(t):
    if type(t) is T: return t
    t = [I(x) if type(x) is tuple else x for x in t]
    key = tuple([id(x) if type(x) is T else x for x in t])
    r = _I.get(key)
    if r is None:
        _I[key] = r = T(t)
        if len(_I) > 3000000: raise Undecided("too many terms")
    return r
def reset():
    """forget the terms of an earlier comparison"""
    keep = [NONE, TRUE, FALSE, ELL, FALL, FX0, ANY]
    _I.clear(); _H.clear()
    for x in keep:
        for y in x:
            pass
        _I[tuple([id(z) if type(z) is T else z for z in x])] = x
_H = {}
def H(t):
    """structural hash, the same for terms that differ in bound variables only"""
    if not isinstance(t, tuple): return _hs(repr(t)) if not isinstance(t, str) else _hs(t)
    k = id(t); r = _H.get(k)
    if r is not None and r[0] is t: return r[1]
    if len(t) == 3 and t[0] == "sym": h = 17
    else:
        h = 1469598103934665603
        for x in t: h = ((h ^ (H(x) & 0xffffffffffffffff)) * 1099511628211) & 0xffffffffffffffff
    _H[k] = (t, h)
    return h
import zlib
def _hs(x): return zlib.crc32(x.encode())
def const(v): return I(("const", type(v).__name__, v if v == v else "nan"))
NONE = const(None); TRUE = const(True); FALSE = const(False); ELL = const(Ellipsis)
def glob(n): return I(("glob", n))
def isconst(t): return t[0] == "const"
DISJOINT = {"builtins.str", "builtins.dict", "builtins.list", "builtins.tuple", "builtins.slice", "builtins.set", "numpy.ndarray", "numbers.Real", "numbers.Integral", "builtins.float", "builtins.int", "builtins.bytes",
            "_scipp.core.Variable", "_scipp.core.DataArray", "_scipp.core.Dataset", "_scipp.core.Unit", "_scipp.core.GroupByDataArray", "_scipp.core.GroupByDataset", "scipp.core.data_group.DataGroup", "scipp.core.bins.Bins", "_scipp.core.DType"}
NUM = {"numbers.Real", "numbers.Integral", "builtins.float", "builtins.int", "builtins.bool", "numbers.Number", "numbers.Complex"}
SUB = {("builtins.int", "numbers.Real"), ("builtins.float", "numbers.Real"), ("numbers.Integral", "numbers.Real"), ("builtins.int", "numbers.Integral"), ("builtins.bool", "builtins.int"), ("builtins.dict", "collections.abc.Mapping"), ("builtins.str", "collections.abc.Sequence"), ("scipp.core.data_group.DataGroup", "collections.abc.Mapping"), ("scipp.core.data_group.DataGroup", "collections.abc.MutableMapping")}

def decide(atom, facts):
    """truth of an atom given facts, or None"""
    r = facts.get(atom)
    if r is not None: return r
    k = atom[0]
    if k == "isinst":
        t, c = atom[1], atom[2]
        for f, v in facts.items():
            if f[0] == "isnone" and f[1] is t and v: return False
            if f[0] == "isinst" and f[1] is t:
                if v and (f[2], c) in SUB: return True
                if not v and (c, f[2]) in SUB: return False
                if v and f[2] != c and f[2] in DISJOINT and c in DISJOINT and not (f[2] in NUM and c in NUM): return False
    elif k == "isnone":
        for f, v in facts.items():
            if v and f[0] in ("isinst", "truthy") and f[1] is atom[1]: return False
            if v and f[0] == "eq" and (f[1] is atom[1] and isconst(f[2]) or f[2] is atom[1] and isconst(f[1])): return False
    elif k == "truthy":
        for f, v in facts.items():
            if f[0] == "isnone" and f[1] is atom[1] and v: return False
    elif k == "eq":
        for f, v in facts.items():
            if v and f[0] == "eq":
                for a, b in ((1, 2), (2, 1)):
                    for c, d in ((1, 2), (2, 1)):
                        if f[a] is atom[c] and isconst(f[b]) and isconst(atom[d]) and f[b] is not atom[d]: return False
            if v and f[0] == "isnone" and (f[1] is atom[1] and isconst(atom[2]) or f[1] is atom[2] and isconst(atom[1])): return False
    elif k == "cmp":
        # a < b together with its complements
        for f, v in facts.items():
            if f[0] == "cmp" and f[1] == "<" == atom[1] and f[2] is atom[3] and f[3] is atom[2] and v: return False
    return None
def restrict(t, facts):
    if t[0] != "ite": return t
    d = decide(t[1], facts)
    if d is not None: return restrict(t[2] if d else t[3], facts)
    a = restrict(t[2], {**facts, t[1]: True}); b = restrict(t[3], {**facts, t[1]: False})
    if a is b: return a
    return t if a is t[2] and b is t[3] else I(("ite", t[1], a, b))
_n = [0]
def ite(atom, a, b):
    _n[0] += 1
    if _n[0] > LIMIT: raise Undecided("decision diagram too large")
    a = restrict(a, {atom: True}); b = restrict(b, {atom: False})
    return a if a is b else I(("ite", atom, a, b))
def iten(c, a, b):
    """c: condition tree of TRUE/FALSE"""
    if c is TRUE: return a
    if c is FALSE: return b
    if c[0] == "raise": return c
    return ite(c[1], iten(c[2], a, b), iten(c[3], a, b))
def lift(f, *ts):
    """apply f to leaves of the decision diagrams ts"""
    for i, t in enumerate(ts):
        if t[0] == "ite":
            fa, fb = {t[1]: True}, {t[1]: False}
            return ite(t[1], lift(f, *[restrict(u, fa) for u in ts[:i]], t[2], *[restrict(u, fa) for u in ts[i+1:]]),
                       lift(f, *[restrict(u, fb) for u in ts[:i]], t[3], *[restrict(u, fb) for u in ts[i+1:]]))
    for t in ts:
        if t[0] == "raise": return t
    return f(*ts)
def liftr(f, *ts):
    """the same for outcome diagrams, in which an error is an ordinary leaf"""
    for i, t in enumerate(ts):
        if t[0] == "ite":
            fa, fb = {t[1]: True}, {t[1]: False}
            return ite(t[1], liftr(f, *[restrict(u, fa) for u in ts[:i]], t[2], *[restrict(u, fa) for u in ts[i+1:]]),
                       liftr(f, *[restrict(u, fb) for u in ts[:i]], t[3], *[restrict(u, fb) for u in ts[i+1:]]))
    return f(*ts)
def boolof(atom): return ite(atom, TRUE, FALSE)
def eqatom(a, b):
    if a is b: return TRUE
    if isconst(a) and isconst(b): return TRUE if a[2] == b[2] else FALSE
    for x, y in ((a, b), (b, a)):
        if x is NONE: return isnone(y)
    for x, y in ((a, b), (b, a)):
        if x[0] == "len" and y is const(0): return notc(truthy(x[1]))
    for x, y in ((a, b), (b, a)):
        ms = ENUM(y[1].rpartition(".")[0]) if y[0] == "glob" and "." in y[1] else None
        if ms and y[1].rpartition(".")[2] in ms and not (x[0] == "glob" and x[1].rpartition(".")[0] == y[1].rpartition(".")[0]):
            # a member of an enumeration is one of them: the first that matches, the last if no other does
            c = y[1].rpartition(".")[0]; r = TRUE
            for m in ms:
                z = eqraw(x, glob(c + "." + m))
                if m == y[1].rpartition(".")[2]: return r if m == ms[-1] else andc(r, z)
                r = andc(r, notc(z))
    return eqraw(a, b)
def ENUM(cls): return None
def eqraw(a, b):
    x, y = sorted((a, b), key=H)
    return boolof(I(("eq", x, y)))
def isnone(t):
    if t is NONE: return TRUE
    if t[0] in ("const", "tuple", "list", "dict", "fn", "glob", "comp", "dictcomp", "fstr", "lam", "mod", "cls", "set", "len", "bin"): return FALSE
    return boolof(I(("isnone", t)))
def truthy(t):
    k = t[0]
    if k == "const": return TRUE if t[2] else FALSE
    if k in ("tuple", "list", "set", "dict"):
        star = (lambda x: x[0] is None) if k == "dict" else (lambda x: x[0] == "star")
        if any(not star(x) for x in t[1]): return TRUE
        r = FALSE
        for x in reversed(t[1]): r = iten(truthy(x[1]), TRUE, r)
        return r
    if k in ("fn", "mod", "cls"): return TRUE
    if k == "len": return truthy(t[1])
    if k == "call" and t[1] in (glob("builtins.list"), glob("builtins.tuple"), glob("builtins.set")) and len(t[2]) == 1: return truthy(t[2][0])
    return boolof(I(("truthy", t)))
_SY = {}
def syms(t):
    """bound variables of a term"""
    r = _SY.get(t)
    if r is not None: return r
    if len(t) == 3 and t[0] == "sym": r = frozenset((t,))
    else:
        r = frozenset()
        for x in t:
            if type(x) is T:
                q = syms(x)
                if q: r = r | q
    _SY[t] = r
    return r
def hoist(build, trees, bound):
    """conditions that do not depend on the bound variables are decided outside of the binder"""
    for t in trees:
        st = [t]; seen = set()
        while st:
            x = st.pop()
            if x in seen or x[0] != "ite": continue
            seen.add(x)
            if not (syms(x[1]) & bound):
                a = x[1]
                return ite(a, hoist(build, [restrict(u, {a: True}) for u in trees], bound), hoist(build, [restrict(u, {a: False}) for u in trees], bound))
            st += [x[3], x[2]]
    return build(*trees)
def notc(c): return lift(lambda x: FALSE if x is TRUE else TRUE, c)
def andc(a, b): return lift(lambda x: b if x is TRUE else FALSE, a)
def orc(a, b): return lift(lambda x: TRUE if x is TRUE else b, a)
def cond(t): return lift(truthy, t)

# --------------------------------------------------------------------------------------------------------- modules
class Module:
    def __init__(s, name, path, pkg):
        s.name, s.path, s.pkg = name, path, pkg
        s.tree = ast.parse(open(path).read()); s.defs = {}
        s.scan(s.tree.body)
    def scan(s, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)): s.defs[n.name] = n
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name): s.defs[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None: s.defs[n.target.id] = n.value
            elif isinstance(n, ast.ImportFrom):
                base = s.resolve(n)
                for a in n.names: s.defs[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(n, ast.Import):
                for a in n.names: s.defs[a.asname or a.name.split(".")[0]] = ("mod", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(n, (ast.If, ast.Try)):
                if isinstance(n, ast.If) and "TYPE_CHECKING" in ast.dump(n.test): s.scan(n.body); continue
                s.scan(n.body); s.scan(getattr(n, "orelse", []))
    def resolve(s, n):
        if not n.level: return n.module
        parts = s.name.split(".") if s.pkg else s.name.split(".")[:-1]
        parts = parts[:len(parts)-(n.level-1)]
        return ".".join(parts + ([n.module] if n.module else []))
def literal(d):
    """the value of a constant of a module if it is a plain literal"""
    if isinstance(d, ast.Constant): return const(d.value)
    if isinstance(d, ast.UnaryOp) and isinstance(d.op, ast.USub) and isinstance(d.operand, ast.Constant) and type(d.operand.value) in (int, float): return const(-d.operand.value)
    if isinstance(d, ast.Tuple):
        l = [literal(x) for x in d.elts]
        return None if None in l else I(("tuple", tuple(l)))
    return None
class World:
    """all modules of the package; `over` maps qualified function names to reference nodes used instead"""
    def __init__(s, root, top="scipp", opaque=(), over=None, sigs=None, extra=(), retarget=None, modular=()):
        s.modular = set(modular); s.alias = {}; s.gown = {}
        global ENUM
        ENUM = s.enum; s.enums = {}
        s.root, s.top, s.mods, s.opaque, s.over, s.sigs = root, top, {}, set(opaque), over or {}, sigs or {}
        s.rootdir = os.path.join(root, top)
        s.extra = dict(extra); s.retarget = retarget or {}
    def mod(s, name):
        if name in s.mods: return s.mods[name]
        m = None
        if name in s.extra: m = Module(name, s.extra[name], False)
        elif name == s.top or name.startswith(s.top + "."):
            p = os.path.join(s.root, *name.split("."))
            if os.path.isfile(p + ".py"): m = Module(name, p + ".py", False)
            elif os.path.isfile(os.path.join(p, "__init__.py")): m = Module(name, os.path.join(p, "__init__.py"), True)
        s.mods[name] = m
        return m
    def canon(s, name):
        if name.startswith(s.top + "._scipp"): return name[len(s.top)+1:]
        return name
    def lookup(s, modname, attr, depth=0):
        """value of a module attribute: term"""
        if depth > 20: return glob(modname + "." + attr)
        modname = s.canon(modname)
        m = s.mod(modname)
        if m is None: return glob(modname + "." + attr)
        d = m.defs.get(attr)
        if d is None:
            sub = modname + "." + attr
            if s.mod(sub): return I(("mod", sub))
            if sub == s.top + "._scipp": return I(("mod", "_scipp"))
            return glob(sub)
        if isinstance(d, tuple):
            if d[0] == "mod": return I(("mod", s.canon(d[1])))
            base = s.canon(d[1])
            if base is None: return glob(d[2])
            if s.mod(base) is None:
                full = base + "." + d[2]
                if base == "_scipp" or s.mod(full): return I(("mod", full))
                return glob(full)
            if d[2] not in s.mod(base).defs:
                if s.mod(base + "." + d[2]): return I(("mod", base + "." + d[2]))
                if s.canon(base + "." + d[2]).startswith("_scipp"): return I(("mod", s.canon(base + "." + d[2])))
            return s.lookup(base, d[2], depth+1)
        q = s.retarget.get(modname, modname) + "." + attr
        if isinstance(d, ast.FunctionDef) and q not in s.over: q = modname + "." + attr
        if isinstance(d, ast.FunctionDef):
            return I(("fn", q, None))
        if isinstance(d, ast.ClassDef): return glob(s.retarget.get(modname, modname) + "." + attr)
        v = literal(d)
        if v is not None: return v
        c = s.retarget.get(modname, modname); s.gown[(c, attr)] = modname
        return I(("gval", c, attr))
    def fnode(s, q, depth=0):
        """function definition node and module of a qualified name 'mod.func' or 'mod.Class.meth'"""
        if q in s.over: return s.over[q]
        parts = q.split(".")
        for i in range(len(parts)-1, 0, -1):
            m = s.mod(".".join(parts[:i]))
            if m:
                rest = parts[i:]; n = m.defs.get(rest[0])
                for r in rest[1:]:
                    if not isinstance(n, ast.ClassDef): return None
                    want = "setter" if r.startswith("=") else None
                    n = next((x for x in reversed(n.body) if isinstance(x, ast.FunctionDef) and x.name == r.lstrip("=") and any(ast.unparse(d).endswith(".setter") for d in x.decorator_list) == bool(want)), None)
                if isinstance(n, tuple) and n[0] == "from" and len(rest) == 1 and depth < 8: return s.fnode("%s.%s" % (s.canon(n[1]), n[2]), depth+1)
                return (n, m) if isinstance(n, ast.FunctionDef) else None
        return None
    def enum(s, q):
        """names of the members of an enumeration of the package"""
        if q not in s.enums:
            s.enums[q] = None
            r = s.cls(q) if q.startswith(s.top + ".") else None
            if r and any(ast.unparse(b) in ("enum.Enum", "Enum", "enum.StrEnum", "StrEnum", "IntEnum", "enum.IntEnum") for b in r[0].bases):
                s.enums[q] = [x.targets[0].id for x in r[0].body if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name)]
        return s.enums[q]
    def cls(s, q):
        parts = q.split("."); m = s.mod(".".join(parts[:-1])) if len(parts) > 1 else None
        n = m.defs.get(parts[-1]) if m else None
        return (n, m) if isinstance(n, ast.ClassDef) else None

BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@", ast.LShift: "<<", ast.RShift: ">>"}
OPFN = {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "floordiv": "//", "mod": "%", "pow": "**", "and_": "&", "or_": "|", "xor": "^", "matmul": "@", "eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}
FALL = I(("fall",)); FX0 = I(("fx0",))
def prefix(a, b):
    """b is a or a part of a"""
    while True:
        if a is b: return True
        if b[0] in ("attr", "sub", "item"): b = b[1]
        elif b[0] == "bound": b = b[2]
        elif b[0] == "ite": return prefix(a, b[2]) or prefix(a, b[3])
        else: return False
def place(e):
    """the object an effect modifies, or None (unknown)"""
    k = e[0]
    if k in ("setitem", "delitem", "setattr", "delattr", "inplace", "mut"): return e[1]
    return None
def affects(e, o):
    p = place(e)
    if p is None: return False
    if e[0] in ("setattr", "mut", "delattr"):
        while p[0] in ("attr", "sub") and e[0] == "mut": p = p[1]
        return prefix(p, o) or prefix(o, p)
    return prefix(p, o) or prefix(o, p)
def independent(x, y):
    p, q = place(x), place(y)
    if p is None or q is None: return False
    if x[0] == y[0] == "setitem" and p is q and isconst(x[2]) and isconst(y[2]) and x[2] is not y[2]: return True
    if x[0] == "setattr" and y[0] == "setattr" and p is q: return False
    return not prefix(p, q) and not prefix(q, p)
def append(f, x):
    if f[0] == "seq" and independent(x, f[2]) and H(x) < H(f[2]): return I(("seq", append(f[1], x), f[2]))
    return I(("seq", f, x))
MUT = {"append", "extend", "update", "pop", "setdefault", "insert", "remove", "clear", "add", "popitem", "discard", "sort", "reverse"}
BUILTIN = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__)

class Frame:
    __slots__ = ("env", "mod", "fx", "parent", "q", "locals")
    def __init__(s, mod, env, parent=None, q=None): s.env, s.mod, s.parent, s.q = env, mod, parent, q
class Eval:
    def __init__(s, world, depth=12, home=None):
        s.w = world; s.stack = []; s.depth = depth; s.fx = FX0; s.fresh = 0; s.localsym = {}; s.bd = 0; s.home = home; s.clos = {}; s.top = set(); s.inlined = set(); s.notes = []; s.calls = set(); s.recs = set()
    # --- environment
    def name(s, fr, id):
        f = fr
        while f is not None:
            if id in f.env: return f.env[id]
            f = f.parent
        m = fr.mod
        if id in m.defs: return s.w.lookup(m.name, id)
        if id in BUILTIN or id in ("reveal_type",): return glob("builtins." + id)
        return glob("?" + id)
    def sym(s, tag):
        s.fresh += 1
        return I(("sym", tag, s.fresh))
    # --- expressions
    def ev(s, n, fr):
        m = getattr(s, "e_" + type(n).__name__, None)
        if m is None: raise Undecided("expression " + type(n).__name__)
        return m(n, fr)
    def e_Constant(s, n, fr): return const(n.value)
    def e_Name(s, n, fr): return s.name(fr, n.id)
    def e_Attribute(s, n, fr): return lift(lambda o: s.attr(o, n.attr, fr), s.ev(n.value, fr))
    def attr(s, o, a, fr=None):
        if o[0] == "mod": return s.w.lookup(o[1], a)
        if o[0] == "glob" and not s.w.cls(o[1]): return glob(o[1] + "." + a)
        if o[0] == "glob":
            r = s.w.fnode(o[1] + "." + a)
            if r:
                deco = [ast.unparse(d) for d in r[0].decorator_list]
                return I(("bound", o[1] + "." + a, o)) if "classmethod" in deco else I(("fn", o[1] + "." + a, None))
            return glob(o[1] + "." + a)
        if o[0] == "fn" and a == "__name__": return const(o[1].split(".")[-1])
        c = s.classof(o)
        if c:
            r = s.w.fnode(c + "." + a)
            if r:
                deco = [ast.unparse(d) for d in r[0].decorator_list]
                if "property" in deco and c + "." + a in s.w.modular and c + "." + a not in s.top:
                    v = s.version(o); return I(("attr", o, a)) if v is None else I(("attr", o, a, v))
                if "property" in deco: return s.inline(c + "." + a, r, [o], {}, None)
                if "staticmethod" in deco: return I(("fn", c + "." + a, None))
                if "classmethod" in deco: return I(("bound", c + "." + a, glob(c)))
                return I(("bound", c + "." + a, o))
        v = s.version(o)
        if a == "is_binned" and v is None: return notc(isnone(I(("attr", o, "bins"))))
        if a == "ndim" and v is None: return I(("len", I(("attr", o, "dims"))))
        return I(("attr", o, a)) if v is None else I(("attr", o, a, v))
    def classof(s, o):
        if o[0] == "par" and len(o) > 2: return o[2]
        if o[0] == "new": return o[1][1]
        return None
    def root(s, o):
        while o[0] in ("attr", "sub") or o[0] == "bound": o = o[1] if o[0] != "bound" else o[2]
        return o
    def version(s, o):
        """the effects so far that can have changed the object (None: none)"""
        if s.fx is FX0 or o[0] in ("const", "glob", "mod", "cls"): return None
        v = s.relevant(s.fx, o, {})
        return None if v is FX0 else v
    def relevant(s, f, o, memo):
        k = f
        if k in memo: return memo[k]
        if f[0] == "seq":
            p = s.relevant(f[1], o, memo)
            r = I(("seq", p, f[2])) if affects(f[2], o) else p
        elif f[0] == "ite":
            r = ite(f[1], s.relevant(f[2], o, memo), s.relevant(f[3], o, memo))
        else: r = FX0
        memo[k] = r
        return r
    def e_Subscript(s, n, fr):
        o = s.ev(n.value, fr); k = s.ev(n.slice, fr)
        return lift(s.sub, o, k)
    def sub(s, o, k):
        if o[0] in ("tuple", "list") and isconst(k) and isinstance(k[2], int) and -len(o[1]) <= k[2] < len(o[1]) and not any(x[0] == "star" for x in o[1]): return o[1][k[2]]
        if o[0] == "dict":
            for a, b in reversed(o[1]):
                if a is k: return b
                if a is None or not isconst(a) or not isconst(k): break
        if o[0] in ("tuple", "list") and k[0] == "slice" and all(x is NONE or isconst(x) for x in k[1:]) and not any(x[0] == "star" for x in o[1]):
            return I((o[0], tuple(o[1][slice(*[x[2] for x in k[1:]])])))
        if o[0] == "without" and isconst(k) and isconst(o[2]) and k is not o[2]: return s.sub(o[1], k)
        if o[0] == "dict" and isconst(k) and o[1] and o[1][-1][0] is not None and isconst(o[1][-1][0]) and o[1][-1][0] is not k: return s.sub(s.dcat(o[1][:-1]), k)
        c = s.classof(o)
        if c and s.w.fnode(c + ".__getitem__"): return s.inline(c + ".__getitem__", s.w.fnode(c + ".__getitem__"), [o, k], {}, None)
        v = s.version(o)
        return I(("sub", o, k)) if v is None else I(("sub", o, k, v))
    def e_Slice(s, n, fr):
        p = [s.ev(x, fr) if x is not None else NONE for x in (n.lower, n.upper, n.step)]
        return lift(lambda a, b, c: I(("slice", a, b, c)), *p)
    def seq(s, kind, elts, fr):
        vals = []
        for e in elts:
            if isinstance(e, ast.Starred): vals.append((True, s.ev(e.value, fr)))
            else: vals.append((False, s.ev(e, fr)))
        def mk(*xs):
            out = [I(("star", x)) if st else x for (st, _), x in zip(vals, xs)]
            if any(x[0] == "star" for x in out): return s.cat(kind, out)
            return I((kind, tuple(out)))
        return lift(mk, *[v for _, v in vals])
    def e_Tuple(s, n, fr): return s.seq("tuple", n.elts, fr)
    def e_List(s, n, fr): return s.seq("list", n.elts, fr)
    def e_Set(s, n, fr): return s.seq("set", n.elts, fr)
    def e_Dict(s, n, fr):
        ks = [s.ev(k, fr) if k is not None else None for k in n.keys]; vs = [s.ev(v, fr) for v in n.values]
        flat = [x for k, v in zip(ks, vs) for x in ((k,) if k is not None else ()) + (v,)]
        def mk(*xs):
            it = iter(xs); out = []
            for k in ks:
                if k is None:
                    d = next(it)
                    if d[0] == "dict": out = s.dput(out, d[1])
                    else: out.append((None, d))
                else: out = s.dput(out, [(next(it), next(it))])
            return I(("dict", tuple(out)))
        return lift(mk, *flat)
    def without(s, d, k):
        """the dict d with the entry of k removed"""
        if d[0] == "without" and d[2] is k: return d
        if d[0] == "dict" and isconst(k):
            l = list(d[1])
            while l and l[-1][0] is not None and isconst(l[-1][0]) and l[-1][0] is k: l.pop()
            if len(l) < len(d[1]): return s.without(s.dcat(l), k) if s.contains(k, s.dcat(l)) is not FALSE else s.dcat(l)
            if all(a is not None and isconst(a) for a, _ in l): return I(("dict", tuple((a, b) for a, b in l if a is not k)))
            if l and l[-1][0] is not None and isconst(l[-1][0]): return s.dcat([(None, s.without(s.dcat(l[:-1]), k)), l[-1]])
        return I(("without", d, k))
    def dput(s, out, items):
        for k, v in items:
            i = next((i for i in range(len(out)-1, -1, -1) if out[i][0] is k), None) if k is not None else None
            if i is not None and not any(a is None for a, _ in out[i:]): out = [(a, v if a is k else b) for a, b in out]
            else: out = list(out) + [(k, v)]
        return out
    def e_IfExp(s, n, fr):
        c = cond(s.ev(n.test, fr)); return s.branch(c, lambda: s.ev(n.body, fr), lambda: s.ev(n.orelse, fr))
    def branch(s, c, fa, fb):
        """value of a conditional expression with effects merged"""
        if c is TRUE: return fa()
        if c is FALSE: return fb()
        f0 = s.fx; a = fa(); f1 = s.fx; s.fx = f0; b = fb(); s.fx = f1 if s.fx is f1 else iten(c, f1, s.fx)
        return iten(c, a, b)
    def e_BoolOp(s, n, fr):
        r = s.ev(n.values[0], fr)
        for v in n.values[1:]:
            c = cond(r); prev = r
            if isinstance(n.op, ast.And): r = s.branch(c, lambda: s.ev(v, fr), lambda: prev)
            else: r = s.branch(c, lambda: prev, lambda: s.ev(v, fr))
        return r
    def e_UnaryOp(s, n, fr):
        x = s.ev(n.operand, fr)
        if isinstance(n.op, ast.Not): return notc(cond(x))
        op = {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(n.op)]
        def f(v):
            if isconst(v) and isinstance(v[2], (int, float)) and not isinstance(v[2], bool):
                return const(-v[2] if op == "-" else +v[2] if op == "+" else ~v[2])
            return I(("un", op, v))
        return lift(f, x)
    def e_BinOp(s, n, fr): return lift(lambda a, b: s.bin(BIN[type(n.op)], a, b), s.ev(n.left, fr), s.ev(n.right, fr))
    def bin(s, op, a, b):
        if op == "**" and b is const(2):
            x = a
            while x[0] in ("sub", "item", "attr", "getitem"): x = x[1]
            if x[0] == "glob" and x[1].startswith(("scipy.constants", "math.")): return s.bin("*", a, a)      # a number
        if op == "%" and isconst(a) and isinstance(a[2], str):
            r = percent(a[2], b[1] if b[0] == "tuple" and not any(x[0] == "star" for x in b[1]) else (b,))
            if r is not None: return r
        if op == "+" and a[0] == b[0] and a[0] in ("tuple", "list"): return I((a[0], a[1] + b[1]))
        if op == "+" and a[0] == "const" == b[0] and isinstance(a[2], str) and isinstance(b[2], str): return const(a[2] + b[2])
        if op == "+" and a[0] not in ("const", "fstr") and b[0] not in ("const", "fstr"):
            for kind in ("list", "tuple"):
                if kindof(a) == kind or kindof(b) == kind: return s.cat(kind, [I(("star", a)), I(("star", b))])
        if op == "|" and (kindof(a) == "set" or kindof(b) == "set"): return s.cat("set", [I(("star", a)), I(("star", b))])
        if op == "|" and (kindof(a) == "dict" or kindof(b) == "dict"): return s.dcat([(None, a), (None, b)])
        if op == "-" and kindof(a) == "set": b = unset(b)
        if op == "&" and (kindof(a) == "set" or kindof(b) == "set"): return I(("inter",) + tuple(sorted((unset(a), unset(b)), key=H)))
        if op == "+" and (a[0] == "fstr" or a[0] == "const" and isinstance(a[2], str)) and a is not const("") and b is not const(""):
            l = (a[1] if a[0] == "fstr" else (a,)) + (b[1] if b[0] == "fstr" else (b,)); return fstr(l)
        if op == "+" and (b[0] == "fstr" or b[0] == "const" and isinstance(b[2], str)) and a is not const("") and b is not const(""): return fstr((a,) + (b[1] if b[0] == "fstr" else (b,)))
        if op in "|" and a[0] in ("glob", "union", "cls") and b[0] in ("glob", "union", "cls", "const"):
            return I(("union", (a[1] if a[0] == "union" else (a,)) + (b[1] if b[0] == "union" else (b,))))
        if isconst(a) and isconst(b) and isinstance(a[2], (int, float)) and isinstance(b[2], (int, float)) and op in "+-*": return const(eval("%r %s %r" % (a[2], op, b[2])))
        if op == "**" and isconst(a) and isconst(b) and all(isinstance(x[2], int) and not isinstance(x[2], bool) for x in (a, b)) and 0 <= b[2] <= 64 and abs(a[2]) < 1 << 16: return const(a[2] ** b[2])
        if op == "/" and isconst(b) and a[0] == "bin" and a[1] == "/" and isconst(a[3]) and all(isinstance(x[2], int) and x[2] > 0 and x[2] & x[2] - 1 == 0 for x in (b, a[3])): return s.bin("/", a[2], const(a[3][2] * b[2]))      # powers of two: exact
        return I(("bin", op, a, b))
    def cat(s, kind, pieces):
        """sequence or set put together from elements and other collections"""
        out = []
        for x in pieces:
            if x[0] != "star": out.append(x); continue
            y = x[1]
            while y[0] == "call" and y[1] in (glob("builtins.list"), glob("builtins.tuple")) + ((glob("builtins.set"),) if kind == "set" else ()) and len(y[2]) == 1: y = y[2][0]
            if y[0] in ("list", "tuple") or y[0] == "set" == kind or y[0] == "set" and not y[1]: out.extend(y[1])
            else: out.append(I(("star", y)))
        if kind == "set": out = sorted(set(out), key=H)
        if len(out) == 1 and out[0][0] == "star":
            y = out[0][1]
            return y if kindof(y) == kind else s.builtin("builtins." + kind, [y], {}, None) or I(("call", glob("builtins." + kind), (y,), ()))
        return I((kind, tuple(out)))
    def dcat(s, items):
        out = []
        for k, v in items:
            if k is None and v[0] == "dict": out = s.dput(out, v[1])
            else: out = s.dput(out, [(k, v)])
        if len(out) == 1 and out[0][0] is None and kindof(out[0][1]) == "dict": return out[0][1]
        return I(("dict", tuple(out)))
    def e_Compare(s, n, fr):
        l = s.ev(n.left, fr); r = TRUE
        for op, c in zip(n.ops, n.comparators):
            x = s.ev(c, fr); t = lift(lambda a, b: s.compare(op, a, b), l, x)
            r = t if r is TRUE else lift(lambda p, q: q if p is TRUE else p, r, t) if len(n.ops) > 1 else t
            l = x
        return r
    def compare(s, op, a, b):
        if isinstance(op, ast.Is): return s.same(a, b)
        if isinstance(op, ast.IsNot): return notc(s.same(a, b))
        if isinstance(op, ast.In): return s.contains(a, b)
        if isinstance(op, ast.NotIn): return notc(s.contains(a, b))
        return s.cmp({ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)], a, b)
    ARR = False
    def cmp(s, op, a, b):
        """comparison of two leaves; element-wise comparisons of arrays are values, not conditions"""
        if isconst(a) and isconst(b):
            try: return const(eval("%r %s %r" % (a[2], op, b[2])))
            except Exception: pass
        if a[0] in ("tuple", "list") and b[0] == a[0] and op in ("==", "!=") and not any(x[0] == "star" for x in a[1] + b[1]):
            if len(a[1]) != len(b[1]): return FALSE if op == "==" else TRUE
            r = TRUE
            for x, y in zip(a[1], b[1]): r = andc(r, lift(lambda p, q: cond(s.cmp("==", p, q)), x, y))
            return r if op == "==" else notc(r)
        # numbers of elements: len(x) against 0 or 1 is emptiness
        for x, y, o in ((a, b, op), (b, a, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op))):
            if x[0] == "len" and isconst(y) and (o, y[2]) in ((">", 0), (">=", 1), ("!=", 0)): return truthy(x[1])
            if x[0] == "len" and isconst(y) and (o, y[2]) in (("==", 0), ("<", 1), ("<=", 0)): return notc(truthy(x[1]))
            if y is NONE: return isnone(x) if o == "==" else notc(isnone(x))
        if op in (">", ">="): a, b, op = b, a, {">": "<", ">=": "<="}[op]
        for x, y in ((a, b), (b, a)):
            if op in ("==", "!=") and y is I(("tuple", ())): return truthy(x) if op == "!=" else notc(truthy(x))
            if op in ("==", "!=") and y in (I(("set", ())), I(("list", ())), I(("dict", ()))) and kindof(x) == y[0]: return truthy(x) if op == "!=" else notc(truthy(x))
        if op in ("<=", "<") and (kindof(a) == "set" or kindof(b) == "set"):
            r = boolof(I(("subset", unset(a), unset(b))))
            return r if op == "<=" else andc(r, notc(eqatom(a, b)))
        if s.arrayish(a) or s.arrayish(b): return I(("rel", op, a, b))
        if op == "==": return eqatom(a, b)
        if op == "!=": return notc(eqatom(a, b))
        if op == "<=": return notc(boolof(I(("cmp", "<", b, a)))) if s.total(a, b) else boolof(I(("cmp", "<=", a, b)))
        return boolof(I(("cmp", op, a, b)))
    def total(s, a, b): return isconst(a) or isconst(b) or a[0] == "len" or b[0] == "len"
    def arrayish(s, t): return False
    def same(s, a, b):
        if b is NONE: return isnone(a)
        if a is NONE: return isnone(b)
        if a is b: return TRUE
        if isconst(a) and isconst(b): return FALSE
        if b in (TRUE, FALSE) or a in (TRUE, FALSE): return eqatom(a, b)
        x, y = sorted((a, b), key=H)
        return boolof(I(("is", x, y)))
    def contains(s, a, b):
        if b[0] in ("tuple", "list", "set"):
            r = FALSE
            for x in b[1]: r = orc(r, s.contains(a, x[1]) if x[0] == "star" else lift(lambda p, q: cond(s.cmp("==", p, q)), a, x))
            return r
        if b[0] == "without": return FALSE if a is b[2] else s.contains(a, b[1]) if isconst(a) and isconst(b[2]) else boolof(I(("in", a, b)))
        if b[0] == "dict" and any(x[0] is None for x in b[1]):
            r = FALSE
            for k, v in b[1]: r = orc(r, s.contains(a, v) if k is None else lift(lambda p, q: cond(s.cmp("==", p, q)), a, k))
            return r
        if b[0] == "dict" and not any(x[0] is None for x in b[1]) and isconst(a):
            return TRUE if any(k is a for k, _ in b[1]) else FALSE if all(isconst(k) for k, _ in b[1]) else boolof(I(("in", a, b)))
        if b[0] == "call" and b[1][0] == "attr" and b[1][2] == "keys" and not b[2]: b = b[1][1]
        if b[0] == "attr" and b[2] == "sizes" and len(b) == 3: b = I(("attr", b[1], "dims"))
        if b[0] == "call" and b[1] in (glob("builtins.set"), glob("builtins.list"), glob("builtins.tuple")) and len(b[2]) == 1: b = b[2][0]
        v = s.version(b)
        return boolof(I(("in", a, b)) if v is None else I(("in", a, b, v)))
    def e_JoinedStr(s, n, fr):
        parts = []
        for v in n.values:
            if not isinstance(v, ast.FormattedValue): parts.append(const(v.value)); continue
            x = s.ev(v.value, fr); spec = s.ev(v.format_spec, fr) if v.format_spec is not None else const("")
            parts.append(lift(lambda x, q, c=v.conversion: fmtd(x, q, chr(c) if c > 0 else ""), x, spec))
        return lift(lambda *p: const("".join(x[2] for x in p)) if all(isconst(x) and isinstance(x[2], str) for x in p) else fstr(p), *parts) if parts else const("")
    def e_FormattedValue(s, n, fr): return s.ev(n.value, fr)
    def e_Lambda(s, n, fr): return s.closure(n, fr)
    def e_NamedExpr(s, n, fr):
        v = s.ev(n.value, fr); fr.env[n.target.id] = v; return v
    def e_Starred(s, n, fr): return I(("star", s.ev(n.value, fr)))
    def e_Yield(s, n, fr):
        v = s.ev(n.value, fr) if n.value else NONE; s.effect(I(("stmt", I(("yield", v))))); return s.sym("sent")
    def e_YieldFrom(s, n, fr):
        v = s.ev(n.value, fr); s.effect(I(("stmt", I(("yieldfrom", v))))); return s.sym("sent")
    def e_Await(s, n, fr): return s.ev(n.value, fr)
    # comprehension: concrete iterables are expanded, symbolic ones become a term with a bound variable
    def e_ListComp(s, n, fr): return s.comp("list", n.elt, None, n.generators, fr)
    def e_SetComp(s, n, fr): return s.comp("set", n.elt, None, n.generators, fr)
    def e_GeneratorExp(s, n, fr): return s.comp("list", n.elt, None, n.generators, fr)
    def e_DictComp(s, n, fr): return s.comp("dict", n.key, n.value, n.generators, fr)
    def comp(s, kind, k, v, gens, fr):
        it = s.ev(gens[0].iter, fr)
        def gen(src):
            items = s.elements(src)
            if items is not None:
                out = I((kind, ()))
                for x in items:
                    f2 = Frame(fr.mod, {}, fr, fr.q); s.bind(gens[0].target, x, f2)
                    c = TRUE
                    for t in gens[0].ifs: c = andc(c, cond(s.ev(t, f2)))
                    if len(gens) > 1: e = s.comp(kind, k, v, gens[1:], f2)
                    elif kind == "dict": e = lift(lambda a, b: I(("dict", ((a, b),))), s.ev(k, f2), s.ev(v, f2))
                    else: e = lift(lambda a: I((kind, (a,))), s.ev(k, f2))
                    def cat(p, q):
                        if p[0] != kind or q[0] != kind: raise Undecided("mixed comprehension")
                        return I((kind, tuple(s.dput(list(p[1]), q[1])) if kind == "dict" else p[1] + q[1]))
                    keep = out
                    out = iten(c, lift(cat, keep, e), keep)
                return out
            f2 = Frame(fr.mod, {}, fr, fr.q); b = s.binder(); bd = s.bd; f0 = s.fx
            src, el = s.source(src, b)
            s.bind(gens[0].target, el, f2)
            c = TRUE
            for t in gens[0].ifs: c = andc(c, cond(s.ev(t, f2)))
            if len(gens) > 1: e = s.comp(kind, k, v, gens[1:], f2)
            elif kind == "dict": e = lift(lambda a, b_: I(("tuple", (a, b_))), s.ev(k, f2), s.ev(v, f2))
            else: e = s.ev(k, f2)
            s.fx = f0; s.bd = bd-1
            return s.mkcomp(kind if len(gens) == 1 else kind + "*", src, b, c, e)
        return lift(gen, it)
    def mkcomp(s, kind, src, b, c, e):
        e = where(c, e)
        return hoist(lambda c_, e_: FIXC(I(("comp", kind, src, b, order(c_), order(e_)))), [c, e], frozenset((b,)))
    def source(s, it, b):
        """what is iterated over, and the element for the bound variable: mappings are iterated over by key"""
        if it[0] == "call" and it[1][0] == "attr" and not it[2] and not it[3] and it[1][2] in ("keys", "items", "values"):
            o = it[1][1]
            if it[1][2] == "keys": return o, b
            v = s.sub(o, b)
            return o, (v if it[1][2] == "values" else I(("tuple", (b, v))))
        if it[0] == "call" and it[1] in (glob("builtins.list"), glob("builtins.tuple")) and len(it[2]) == 1 and not it[3]: return s.source(it[2][0], b)
        return it, b
    def anyof(s, src, b, c):
        """is there an element for which the condition (a diagram of TRUE/FALSE) holds"""
        c = liftr(lambda x: x if x in (TRUE, FALSE) else TRUE, c)
        return hoist(lambda c_: FALSE if c_ is FALSE else truthy(src) if c_ is TRUE else boolof(I(("any", src, b, order(c_)))), [c], frozenset((b,)))
    def binder(s):
        s.bd += 1
        return I(("sym", "bv", s.bd))
    def elements(s, t):
        """concrete elements of an iterable term, or None"""
        if t[0] in ("tuple", "list") and not any(x[0] == "star" for x in t[1]): return list(t[1])
        if t[0] == "set" and len(t[1]) <= 1 and not any(x[0] == "star" for x in t[1]): return list(t[1])
        if t[0] == "dict" and not any(x[0] is None for x in t[1]): return [a for a, _ in t[1]]
        if t[0] == "const" and isinstance(t[2], str): return [const(c) for c in t[2]]
        if t[0] == "gval":
            v = s.gval(t)
            if v is not None and v[0] in ("tuple", "list"): return s.elements(v)
        return None
    def bind(s, target, v, fr):
        if isinstance(target, ast.Name): fr.env[target.id] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            for i, t in enumerate(target.elts):
                if isinstance(t, ast.Starred):
                    j = i; rest = len(target.elts)-1-j
                    def rst(x):
                        if x[0] in ("tuple", "list") and not any(y[0] == "star" for y in x[1]): return I(("list", x[1][j:len(x[1])-rest]))
                        return I(("rest", x, j, rest))
                    s.bind(t.value, lift(rst, v), fr)
                elif any(isinstance(u, ast.Starred) for u in target.elts[:i]):
                    s.bind(t, lift(lambda x: s.item(x, i-len(target.elts)), v), fr)
                else: s.bind(t, lift(lambda x: s.item(x, i), v), fr)
        elif isinstance(target, ast.Attribute) and target.attr in ("__doc__", "__signature__", "__name__", "__qualname__", "__annotations__", "__module__"): pass
        elif isinstance(target, ast.Attribute):
            o = s.ev(target.value, fr); s.effect(lift(lambda p, q: I(("setattr", p, target.attr, q)), o, v))
        elif isinstance(target, ast.Subscript):
            k = s.ev(target.slice, fr); s.setitem(target.value, k, v, fr)
        elif isinstance(target, ast.Starred): s.bind(target.value, v, fr)
        else: raise Undecided("target " + type(target).__name__)
    def item(s, x, i):
        if x[0] in ("tuple", "list") and not any(y[0] == "star" for y in x[1]) and -len(x[1]) <= i < len(x[1]): return x[1][i]
        return s.sub(x, const(i))
    def setitem(s, base, k, v, fr):
        if isinstance(base, ast.Name):
            o = s.name(fr, base.id)
            if s.islocal(o, ("dict", "list")):
                def put(d, kk, vv):
                    if d[0] == "dict": return I(("dict", tuple(s.dput(list(d[1]), [(kk, vv)]))))
                    if d[0] == "list" and isconst(kk) and isinstance(kk[2], int) and -len(d[1]) <= kk[2] < len(d[1]):
                        l = list(d[1]); l[kk[2]] = vv; return I(("list", tuple(l)))
                    if s.islocal(d, ("dict",)): return s.dcat([(None, d), (kk, vv)])
                    return I(("put", d, kk, vv))
                s.setname(fr, base.id, lift(put, o, k, v)); return
        if isinstance(base, ast.Subscript):
            # item of a dict in a dict, both made in this function
            r = base
            while isinstance(r, ast.Subscript): r = r.value
            if isinstance(r, ast.Name) and s.islocal(s.name(fr, r.id), ("dict",)):
                inner = s.ev(base, fr)
                def madehere(x): return x[0] in ("dict", "comp") and kindof(x) == "dict" or x[0] == "after" and s.islocal(x, ("dict",))
                if all(madehere(x) for x in leaves(inner)):
                    s.setitem(base.value, s.ev(base.slice, fr), lift(lambda d, kk, vv: s.dcat([(None, d), (kk, vv)]), inner, k, v), fr); return
        s.effect(lift(lambda p, a, b: I(("setitem", s.sameobj(p), a, b)), s.ev(base, fr), k, v))
    def sameobj(s, p):
        """the object p without the items that were assigned to it: these do not change which object it is"""
        if p[0] != "attr" or len(p) != 4: return p
        o = I(p[:3]); memo = {}
        def go(f):
            if f in memo: return memo[f]
            if f[0] == "seq": r = go(f[1]) if f[2][0] in ("setitem", "delitem") and bare(f[2][1]) is bare(o) else I(("seq", go(f[1]), f[2]))
            elif f[0] == "ite": r = ite(f[1], go(f[2]), go(f[3]))
            else: r = f
            memo[f] = r; return r
        v = go(p[3])
        return o if v is FX0 else I(p[:3] + (v,))
    def islocal(s, o, kinds):
        if o[0] == "ite": return s.islocal(o[2], kinds) and s.islocal(o[3], kinds)
        if o[0] == "sym" and o in s.localsym: return s.localsym[o] in kinds
        if o[0] == "mutd": return s.islocal(o[1], kinds)
        if o[0] == "after": return s.islocal(o[1][7][o[2]], kinds)
        return o[0] in kinds or o[0] == "put" or o[0] == "without" and "dict" in kinds or o[0] == "comp" and o[1] in kinds or o[0] == "call" and o[1] in (glob("builtins.list"), glob("builtins.dict"), glob("builtins.set")) or o[0] == "bin" and s.islocal(o[2], kinds)
    def setname(s, fr, n, v):
        f = fr
        while f is not None:
            if n in f.env: f.env[n] = v; return
            f = f.parent
        fr.env[n] = v
    def effect(s, e): s.fx = liftr(lambda f, x: f if x[0] == "raise" else append(f, x), s.fx, e)
    # --- calls
    def closure(s, node, fr):
        s.fresh += 1; key = s.fresh
        s.clos[key] = (node, fr)
        return I(("fn", getattr(node, "name", "<lambda>"), key))
    def e_Call(s, n, fr):
        if isinstance(n.func, ast.Attribute) and n.func.attr in MUT and isinstance(n.func.value, ast.Name):
            r = s.localmut(n, fr)
            if r is not None: return r
        f = s.ev(n.func, fr); pos = []; kw = []
        for a in n.args:
            pos.append((isinstance(a, ast.Starred), s.ev(a.value if isinstance(a, ast.Starred) else a, fr)))
        for k in n.keywords: kw.append((k.arg, s.ev(k.value, fr)))
        if fr is not None and f is glob("builtins.super"): return I(("super",))
        def go(g, *xs):
            args = []; kws = {}
            for (st, _), x in zip(pos, xs):
                if not st: args.append(x)
                elif x[0] in ("tuple", "list"): args.extend(x[1])
                else: args.append(I(("star", x)))
            for (k, _), x in zip(kw, xs[len(pos):]):
                if k is not None: kws[k] = x
                elif x[0] == "dict" and all(a is not None and isconst(a) for a, _ in x[1]):
                    for a, b in x[1]: kws[a[2]] = b
                elif x[0] == "dict" and all(a is None or isconst(a) for a, _ in x[1]):
                    for a, b in x[1]: kws[a[2] if a is not None else "**%d" % len([q for q in kws if q.startswith("**")])] = b
                else: kws["**%d" % len([q for q in kws if q.startswith("**")])] = x
            return s.call(g, args, kws, fr)
        return s.eff_lift(go, f, *[x for _, x in pos], *[x for _, x in kw])
    def eff_lift(s, f, *ts):
        """lift for functions with effects: the effect state forks and merges with the value"""
        for i, t in enumerate(ts):
            if t[0] == "ite":
                fa, fb = {t[1]: True}, {t[1]: False}; f0 = s.fx
                s.fx = restrict(f0, fa); a = s.eff_lift(f, *[restrict(u, fa) for u in ts[:i]], t[2], *[restrict(u, fa) for u in ts[i+1:]]); f1 = s.fx
                s.fx = restrict(f0, fb); b = s.eff_lift(f, *[restrict(u, fb) for u in ts[:i]], t[3], *[restrict(u, fb) for u in ts[i+1:]])
                s.fx = f1 if f1 is s.fx else ite(t[1], f1, s.fx)
                return ite(t[1], a, b)
        for t in ts:
            if t[0] == "raise": return t
        return f(*ts)
    def localmut(s, n, fr):
        """mutating method of a container made in this function: rebind the name"""
        r = s.localmut1(n, fr)
        if r is not None: return r
        o = s.name(fr, n.func.value.id)
        if not s.islocal(o, ("list", "dict", "set")) or n.keywords or any(isinstance(x, ast.Starred) for x in n.args): return None
        args = [s.ev(x, fr) for x in n.args]; m = n.func.attr
        s.setname(fr, n.func.value.id, lift(lambda d, *a: I(("mutd", d, m, tuple(a))), o, *args))
        return lift(lambda d, *a: I(("mutr", d, m, tuple(a))), o, *args) if m in ("pop", "setdefault", "popitem") else NONE
    def localmut1(s, n, fr):
        o = s.name(fr, n.func.value.id); a = n.func.attr
        if n.keywords or any(isinstance(x, ast.Starred) for x in n.args): return None
        if a in ("pop", "setdefault", "update") and s.islocal(o, ("dict",)):
            args = [s.ev(x, fr) for x in n.args]
            if a == "pop" and args and isconst(args[0]):
                def has(d): return d[0] == "dict" and all(k is not None and isconst(k) for k, _ in d[1])
                if not all(has(x) for x in leaves(o)):
                    val = lift(lambda d: iten(s.contains(args[0], d), s.sub(d, args[0]), args[1]) if len(args) > 1 else s.sub(d, args[0]), o)
                    s.setname(fr, n.func.value.id, lift(lambda d: iten(s.contains(args[0], d), s.without(d, args[0]), d) if len(args) > 1 else s.without(d, args[0]), o)); return val
                val = lift(lambda d: next((v for k, v in d[1] if k is args[0]), args[1] if len(args) > 1 else I(("keyerror", args[0]))), o)
                s.setname(fr, n.func.value.id, lift(lambda d: I(("dict", tuple((k, v) for k, v in d[1] if k is not args[0]))), o)); return val
            if a == "update" and len(args) == 1:
                s.setname(fr, n.func.value.id, lift(lambda d, e: s.dcat([(None, d), (None, e)]), o, args[0])); return NONE
            if a == "setdefault" and args:
                v = args[1] if len(args) > 1 else NONE
                s.setname(fr, n.func.value.id, lift(lambda d, k, x: iten(s.contains(k, d), d, s.dcat([(None, d), (k, x)])), o, args[0], v))
                return lift(lambda d, k, x: iten(s.contains(k, d), s.sub(d, k), x), o, args[0], v)
            return None
        for kind in ("list", "set"):
            if a in {"list": ("append", "extend"), "set": ("add", "update")}[kind] and len(n.args) == 1 and s.islocal(o, (kind,)):
                x = s.ev(n.args[0], fr); many = a in ("extend", "update")
                s.setname(fr, n.func.value.id, lift(lambda l, v: s.cat(kind, [I(("star", l)), I(("star", v)) if many else v]), o, x)); return NONE
        return None
    def call(s, f, args, kw, fr=None):
        k = f[0]
        if k == "fn": return s.callfn(f, args, kw, fr)
        if k == "bound": return s.callfn(I(("fn", f[1], None)), [f[2]] + args, kw, fr)
        if k == "partial": return s.call(f[1], list(f[2]) + args, {**dict(f[3]), **kw}, fr)
        if k == "mcall" and len(args) == 1: return lift(lambda o: s.call(s.attr(o, f[1], fr) if isinstance(f[1], str) else I(("attrv", o, f[1])), list(f[2]), dict(f[3]), fr), args[0])
        if k == "agetter" and len(args) == 1: return lift(lambda o: s.attr(o, f[1], fr), args[0])
        if k == "igetter" and len(args) == 1: return lift(lambda o: s.sub(o, f[1]), args[0])
        if k == "glob":
            h = s.builtin(f[1], args, kw, fr)
            if h is not None: return h
            c = s.w.cls(f[1])
            if c and not any(a[0] == "star" for a in args): return s.construct(f, args, kw)
        if k == "attr":
            h = s.method(f[1], f[2], args, kw, fr)
            if h is not None: return h
        if k == "gval":
            v = s.gval(f)
            if v is not None and v is not f: return s.call(v, args, kw, fr)
        if any(a[0] == "star" for a in args): return s.opaque(f, args, kw)
        return s.opaque(f, args, kw)
    def construct(s, f, args, kw):
        """arguments of a constructor by the name of the parameter"""
        q = f[1]; todo = [q]; seen = set()
        while todo:
            q = todo.pop(0)
            if q in seen: continue
            seen.add(q); c = s.w.cls(q)
            if c is None: return s.opaque(f, args, kw)
            r = s.w.fnode(q + ".__init__")
            if r:
                try: b = s.bindargs(r[0], [I(("self",))] + args, kw, r[1], q)
                except BadCall as e: s.notes.append(str(e)); return I(("raise", "TypeError"))
                if b is None or r[0].args.vararg or r[0].args.kwarg: return s.opaque(f, args, kw)
                b.pop(next(iter(x.arg for x in r[0].args.posonlyargs + r[0].args.args)), None)
                return s.opaque(f, [], b)
            if any("dataclass" in ast.unparse(d) for d in c[0].decorator_list):
                n = [x.target.id for x in c[0].body if isinstance(x, ast.AnnAssign)]
                if len(args) > len(n) or c[0].bases: return s.opaque(f, args, kw)
                return s.opaque(f, [], {**dict(zip(n, args)), **kw})
            for b in c[0].bases:
                v = s.ev(b, Frame(c[1], {})) if isinstance(b, (ast.Name, ast.Attribute)) else NONE
                if v[0] == "glob": todo.append(v[1])
        return s.opaque(f, args, kw)
    def gval(s, f):
        m = s.w.mod(s.w.gown.get(f[1:], f[1])); d = m.defs.get(f[2])
        try: return s.ev(d, Frame(m, {}))
        except Undecided: return None
    def opaque(s, f, args, kw):
        name = f[1] if f[0] == "glob" else None
        if f[0] == "attr" and f[2] == "get" and len(args) == 2 and args[1] is NONE and not kw: args = args[:1]
        args = [s.ver(s.canonfn(a)) for a in args]; kw = {k: s.ver(s.canonfn(v)) for k, v in kw.items()}
        s.calls.add(name)
        sig = s.w.sigs.get(name)
        if sig and not any(a[0] == "star" for a in args):
            kw = dict(kw); rest = []
            for i, a in enumerate(args):
                n = sig[i] if i < len(sig) else None
                if n and n not in kw and not rest: kw[n] = a
                else: rest.append(a)
            args = rest
        return I(("call", f, tuple(args), tuple(sorted(kw.items(), key=lambda x: x[0]))))
    def ver(s, a):
        if a[0] in ("attr", "sub", "const", "glob"): return a
        v = s.version(a)
        return a if v is None else I(("ver", a, v))
    def canonfn(s, t):
        """closures as arguments: replaced by their value on bound variables"""
        if t[0] == "fn" and t[2] is not None and t[2] in s.clos:
            node, fr = s.clos[t[2]]
            a = node.args; n = len(a.posonlyargs) + len(a.args)
            if len(s.stack) > s.depth: raise Undecided("closure nesting")
            bd = s.bd; bv = [s.binder() for _ in range(n)]
            pos = list(bv)
            if a.vararg: bv.append(s.binder()); pos.append(I(("star", bv[-1])))
            kws = {}
            if a.kwarg: bv.append(s.binder()); kws["**0"] = bv[-1]
            for x in a.kwonlyargs: bv.append(s.binder()); kws[x.arg] = bv[-1]
            f0 = s.fx; s.fx = FX0; r = liftr(s.canonfn, s.callfn(t, pos, kws, fr)); e = s.fx; s.fx = f0; s.bd = bd
            al = a.posonlyargs + a.args; dl = list(zip([x.arg for x in al[len(al)-len(a.defaults):]], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
            df = tuple((k, const(d.value)) for k, d in dl if isinstance(d, ast.Constant)) if isinstance(node, ast.FunctionDef) else ()
            return hoist(lambda r_, e_: I(("lam", tuple(bv), order(r_), order(e_)) + ((df,) if df else ())), [r, e], frozenset(bv))
        if t[0] in ("tuple", "list", "set"):
            return I((t[0], tuple(s.canonfn(x) for x in t[1])))
        if t[0] == "dict": return I(("dict", tuple((k, s.canonfn(v)) for k, v in t[1])))
        if t[0] == "bound" and t[1] not in s.w.opaque: return I(("attr", t[2], t[1].split(".")[-1]))
        if t[0] == "star": return I(("star", s.canonfn(t[1])))
        return t
    def callfn(s, f, args, kw, fr):
        try: return s.callfn1(f, args, kw, fr)
        except BadCall as e:
            s.notes.append(str(e)); return I(("raise", "TypeError"))
    def callfn1(s, f, args, kw, fr):
        q, key = f[1], f[2]
        if key is not None: node, pf = s.clos[key]; mod = pf.mod
        else:
            q = s.w.alias.get(q, q)
            if q in s.w.modular and q in s.top: pass
            elif q in s.w.modular: return s.opaque_fn(q, args, kw)
            elif q in s.w.opaque and q.rpartition(".")[0] != s.home: return s.opaque_fn(q, args, kw)
            r = s.w.fnode(q)
            if r is None: return s.opaque(glob(q), args, kw)
            node, mod = r; pf = None
            for d in node.decorator_list:
                dn = ast.unparse(d)
                if dn in ("overload", "staticmethod", "classmethod", "property", "abstractmethod") or dn.startswith("wraps") or dn.startswith("functools.wraps"): continue
                dv = s.ev(d, Frame(mod, {}))
                key2 = I(("raw", q)); s.inlined.add(q)
                if key2 not in s.clos: s.clos[key2] = (node, Frame(mod, {}))
                return s.call(s.call(dv, [I(("fn", node.name, key2))], {}, None), args, kw, fr)
        if any(a[0] == "star" for a in args) and not node.args.vararg: return lift(lambda g: s.opaque(g, args, kw), glob(q) if key is None else s.canonfn(f))
        if (q, key) in s.stack: s.recs |= {x for x, _ in s.stack[s.stack.index((q, key)):]}      # the values of a recursive call are not followed
        if len(s.stack) > s.depth*3 or s.stack.count((q, key)) >= (1 if key is None else 2): return s.opaque_fn(q, args, kw) if key is None else s.opaque(I(("rec", q)), args, kw)
        return s.inline(q, (node, mod), args, kw, key)
    def opaque_fn(s, q, args, kw):
        r = s.w.fnode(q)
        if r:
            b = s.bindargs(r[0], args, kw, r[1], q)
            if b is not None: return s.opaque(glob(q), [], b)
        return s.opaque(glob(q), args, kw)
    def bindargs(s, node, args, kw, mod, q, dfr=None):
        """arguments by parameter name with defaults, or None"""
        a = node.args; names = [x.arg for x in a.posonlyargs + a.args]
        if any(x[0] == "star" for x in args) and not a.vararg: return None
        env = {}; rest = []
        for i, x in enumerate(args):
            if i < len(names) and x[0] != "star" and not rest: env[names[i]] = x
            else: rest.append(x)
        if rest and not a.vararg: raise BadCall("too many arguments to " + q)
        extra = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]: env[k] = v
            else: extra[k] = v
        un = [k for k in extra if k.startswith("**")]
        if len(un) > 1: return None
        if un and (a.kwarg is None or any(n not in env for n in [x.arg for x in a.args] + [x.arg for x in a.kwonlyargs])):
            # a mapping of unknown keywords may hold any of the parameters
            d = extra.pop(un[0]); df = dict(list(zip(names[len(names)-len(a.defaults):], a.defaults)) + [(x.arg, d_) for x, d_ in zip(a.kwonlyargs, a.kw_defaults) if d_ is not None])
            gone = []
            for n in [x.arg for x in a.args] + [x.arg for x in a.kwonlyargs]:
                if n not in env: env[n] = I(("kwget", d, n, s.ev(df[n], dfr or Frame(mod, {})) if n in df else None)); gone.append(n)
            if a.kwarg: extra[un[0]] = I(("kwrest", d, tuple(sorted(gone))))
        if extra and not a.kwarg: raise BadCall("unexpected keyword to " + q)
        dfr = dfr or Frame(mod, {})
        for n, d in list(zip(names[len(names)-len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if n not in env: env[n] = s.ev(d, dfr)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env: raise BadCall("missing argument %s of %s" % (n, q))
        if a.vararg: env[a.vararg.arg] = rest[0][1] if len(rest) == 1 and rest[0][0] == "star" else I(("tuple", tuple(rest)))
        if a.kwarg:
            if len(extra) == 1 and list(extra)[0].startswith("**"): env[a.kwarg.arg] = list(extra.values())[0]
            else: env[a.kwarg.arg] = I(("dict", tuple((None, v) if k.startswith("**") else (const(k), v) for k, v in extra.items())))
        return env
    def inline(s, q, nm, args, kw, key):
        node, mod = nm; s.inlined.add(q)
        pf = s.clos[key][1] if key is not None else None
        dmod = mod
        if key is not None and isinstance(node, ast.Lambda) or key is not None:
            # defaults of closures are evaluated where they are defined
            env = s.bindargs_in(node, args, kw, pf, q)
        else: env = s.bindargs(node, args, kw, dmod, q)
        fr = Frame(mod, env, pf, q)
        s.stack.append((q, key))
        try:
            if isinstance(node, ast.Lambda): return s.ev(node.body, fr)
            if generator(node):
                f0 = s.fx; s.fx = FX0
                try: out, fx = s.block(node.body, fr); fx = s.fx
                finally: s.fx = f0
                return liftr(lambda o, v: o if o[0] == "raise" else v, out, s.yielded(fx))
            out, fx = s.block(node.body, fr)
        finally: s.stack.pop()
        # an error outcome becomes a raise value: it absorbs whatever is computed from it
        return liftr(lambda o: NONE if o is FALL else o[1] if o[0] == "ret" else o, out)
    def yielded(s, fx):
        """what a generator yields, as a sequence"""
        def pieces(f):
            if f is FX0: return I(("list", ()))
            if f[0] == "ite": return ite(f[1], pieces(f[2]), pieces(f[3]))
            if f[0] != "seq": raise NotYields()
            p = pieces(f[1]); e = f[2]
            if e[0] != "stmt": raise NotYields()
            e = e[1]
            if e[0] == "yield": add = (e[1],)
            elif e[0] == "yieldfrom": add = (I(("star", e[1])),)
            elif e[0] == "loopfx" and not e[1][3] and e[1][6] is FALL and e[1][1][0] != "while":
                L = e[1]; q = pieces(L[5])
                add = (I(("star", s.flat(L[1], L[2], q))),)
            else: raise NotYields()
            def cat(l):
                return I(("list", l[1] + add))
            return liftr(cat, p)
        try: r = pieces(fx)
        except NotYields: return I(("gen", fx))
        def wrap(l):
            if l[0] == "list" and len(l[1]) == 1 and l[1][0][0] == "star": return l[1][0][1]
            return l
        return liftr(wrap, r)
    def flat(s, src, b, q):
        """the concatenation over the elements of src of the lists q"""
        one = all(l[0] == "list" and len(l[1]) <= 1 for l in leaves(q))
        if one and any(l[1] and l[1][0][0] == "star" for l in leaves(q)):
            if all(not l[1] or l[1][0][0] == "star" for l in leaves(q)):
                c = liftr(lambda l: TRUE if l[1] else FALSE, q)
                return s.mkcomp("list*", src, b, c, liftr(lambda l: l[1][0][1] if l[1] else ANY, q))
            one = False
        if one:
            c = liftr(lambda l: TRUE if l[1] else FALSE, q)
            return s.mkcomp("list", src, b, c, liftr(lambda l: l[1][0] if l[1] else ANY, q))
        return s.mkcomp("list*", src, b, TRUE, q)
    def bindargs_in(s, node, args, kw, pf, q): return s.bindargs(node, args, kw, pf.mod, q, pf)
    # --- statements: outcome diagram with leaves FALL / ("ret", t) / ("raise", t)
    def block(s, body, fr):
        for i, n in enumerate(body):
            out = s.stmt(n, fr)
            # a raise value computed by an inlined call ends the block
            if out is FALL: continue
            ls = leaves(out)
            if FALL not in ls: return out, s.fx
            c = liftr(lambda o: TRUE if o is FALL else FALSE, out)
            f0 = s.fx; env0 = dict(fr.env)
            facts = []
            jump = any(l[0] in ("cont", "brk") for l in ls)
            s.fx = under(s.fx, c)
            rest, _ = s.block_under(body[i+1:], fr, c)
            if jump: fr.env = s.merge(c, fr.env, env0)
            fr_out = liftr(lambda o, r: r if o is FALL else o, out, rest)
            s.fx = f0 if s.fx is f0 or s.fx is under(f0, c) else iten(c, s.fx, f0)
            return fr_out, s.fx
        return FALL, s.fx
    def block_under(s, body, fr, c):
        # values are restricted to the paths that fall through
        for k, v in list(fr.env.items()):
            if v[0] == "ite": fr.env[k] = under(v, c)
        return s.block(body, fr)
    def stmt(s, n, fr):
        m = getattr(s, "s_" + type(n).__name__, None)
        if m is None: raise Undecided("statement " + type(n).__name__)
        return m(n, fr)
    def fail(s, t):
        """raise values inside a computed value"""
        return liftr(lambda x: x if x[0] == "raise" else FALL, t)
    def s_Expr(s, n, fr):
        if isinstance(n.value, ast.Constant): return FALL
        f0 = s.fx; v = s.ev(n.value, fr)
        def eff(x):
            if x[0] in ("call", "await"): return I(("any", x))
            return None
        if any(x[0] == "call" for x in leaves(v)):
            s.fx = liftr(lambda f, x: append(f, I((("mut", x[1][1], x) if x[1][0] == "attr" else ("stmt", x)))) if x[0] == "call" else f, s.fx, v)
        return s.fail(v)
    def s_Assign(s, n, fr):
        v = s.ev(n.value, fr); e = s.fail(v)
        for t in n.targets: s.bind(t, v, fr)
        return e
    def s_AnnAssign(s, n, fr):
        if n.value is None: return FALL
        v = s.ev(n.value, fr); s.bind(n.target, v, fr); return s.fail(v)
    def s_AugAssign(s, n, fr):
        op = BIN[type(n.op)]; v = s.ev(n.value, fr)
        if isinstance(n.target, ast.Name):
            o = s.name(fr, n.target.id)
            def known(a): return next((k for k in ("list", "set", "dict") if kindof(a) == k or s.islocal(a, (k,))), None)
            def comb(a, b):
                k = known(a)
                if op == "+" and k == "list" or op == "|" and k == "set": return s.cat(k, [I(("star", a)), I(("star", b))])
                if op == "|" and k == "dict": return s.dcat([(None, a), (None, b)])
                return s.bin(op, a, b)
            r = lift(lambda a, b: comb(a, b) if known(a) or s.islocal(a, ("list", "dict", "set", "tuple")) or isconst(a) or a[0] in ("len", "fstr") or isconst(b) and isinstance(b[2], str) else I(("ibin", op, a, b)), o, v)
            s.setname(fr, n.target.id, r)
            for l in leaves(r):
                if l[0] == "ibin": s.effect(lift(lambda a, b: I(("inplace", a, op, b)), o, v)); break
        elif isinstance(n.target, ast.Attribute):
            s.effect(lift(lambda a, b: I(("inplace", I(("attr", a, n.target.attr)), op, b)), s.ev(n.target.value, fr), v))
        elif isinstance(n.target.value, ast.Name) and s.islocal(s.name(fr, n.target.value.id), ("dict",)):
            k = s.ev(n.target.slice, fr)
            s.setitem(n.target.value, k, lift(lambda a, k, b: s.bin(op, s.sub(a, k), b), s.name(fr, n.target.value.id), k, v), fr)
        else: s.effect(lift(lambda a, k, b: I(("inplace", I(("sub", a, k)), op, b)), s.ev(n.target.value, fr), s.ev(n.target.slice, fr), v))
        return s.fail(v)
    def s_Return(s, n, fr):
        v = s.ev(n.value, fr) if n.value is not None else NONE
        return lift(lambda x: x if x[0] == "raise" else I(("ret", x)), v)
    def s_Raise(s, n, fr):
        if n.exc is None: return I(("raise", "reraise"))
        e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
        t = s.ev(e, fr)
        def r(x):
            if x[0] == "glob": return I(("raise", x[1].split(".")[-1]))
            if x[0] == "fn" or x[0] == "call": return I(("raise", "?"))
            return I(("raise", repr(x)))
        return lift(r, t)
    def s_Pass(s, n, fr): return FALL
    def s_Assert(s, n, fr):
        return s.s_If(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=[ast.Raise(exc=ast.Name(id="AssertionError", ctx=ast.Load()), cause=None)], orelse=[]), fr)
    def s_Global(s, n, fr): raise Undecided("global")
    def s_Nonlocal(s, n, fr): return FALL
    def s_Import(s, n, fr):
        for a in n.names: fr.env[a.asname or a.name.split(".")[0]] = I(("mod", a.name if a.asname else a.name.split(".")[0]))
        return FALL
    def s_ImportFrom(s, n, fr):
        b = fr.mod.resolve(n)
        for a in n.names: fr.env[a.asname or a.name] = s.w.lookup(b, a.name)
        return FALL
    def s_FunctionDef(s, n, fr):
        fr.env[n.name] = s.closure(n, fr)
        for d in reversed(n.decorator_list):
            dn = ast.unparse(d)
            if dn.startswith("wraps") or dn.startswith("functools.wraps"): continue
            fr.env[n.name] = s.call(s.ev(d, fr), [fr.env[n.name]], {}, fr)
        return FALL
    def s_ClassDef(s, n, fr):
        l = []
        for k in n.body:
            if isinstance(k, ast.FunctionDef): l.append(I(("tuple", (const(k.name), s.closure(k, fr)))))
            elif isinstance(k, ast.Pass) or isinstance(k, ast.Expr) and isinstance(k.value, ast.Constant): pass
            else: raise Undecided("local class")
        fr.env[n.name] = I(("tuple", (const("class"),) + tuple(sorted(l, key=H))))
        return FALL
    def s_Delete(s, n, fr):
        for t in n.targets:
            if isinstance(t, ast.Name): fr.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and s.islocal(s.name(fr, t.value.id), ("dict",)):
                s.setname(fr, t.value.id, lift(s.without, s.name(fr, t.value.id), s.ev(t.slice, fr)))
            elif isinstance(t, ast.Subscript): s.effect(lift(lambda a, k: I(("delitem", a, k)), s.ev(t.value, fr), s.ev(t.slice, fr)))
            else: s.effect(lift(lambda a: I(("delattr", a, t.attr)), s.ev(t.value, fr)))
        return FALL
    def s_If(s, n, fr):
        ct = s.ev(n.test, fr)
        e = s.fail(ct)
        c = cond(ct) if e is FALL else liftr(lambda x: FALSE if x[0] == "raise" else truthy(x), ct)
        def two(cc):
            if cc is TRUE: return s.block(n.body, fr)[0]
            if cc is FALSE: return s.block(n.orelse, fr)[0]
            env0 = dict(fr.env); f0 = s.fx
            chain = []
            f = fr.parent
            while f is not None: chain.append((f, dict(f.env))); f = f.parent
            def reset(src):
                for f_, e_ in src: f_.env.clear(); f_.env.update(e_)
            fr.env = {k: under(v, cc) for k, v in env0.items()}; s.fx = under(f0, cc)
            oa = s.block(n.body, fr)[0]; ea, fa = fr.env, s.fx; ca = [(f_, dict(f_.env)) for f_, _ in chain]
            reset(chain)
            nc = notc(cc)
            fr.env = {k: under(v, nc) for k, v in env0.items()}; s.fx = under(f0, nc)
            ob = s.block(n.orelse, fr)[0]; eb, fb = fr.env, s.fx
            fr.env = s.merge(cc, ea, eb, oa, ob)
            for (f_, e_), (_, ec) in zip(chain, ca): f_.env = s.merge(cc, ec, f_.env, oa, ob)
            s.fx = fa if fa is fb else iten(cc, fa, fb)
            return iten(cc, oa, ob)
        r = two(c)
        return r if e is FALL else liftr(lambda x, o: o if x is FALL else x, e, r)
    def merge(s, c, ea, eb, oa=FALL, ob=FALL):
        out = {}
        go = lambda o: any(l[0] in ("fall", "cont", "brk") for l in leaves(o))
        da, db = not go(oa), not go(ob)
        if da and not db: return eb
        if db and not da: return ea
        for k in list(ea) + [k for k in eb if k not in ea]:
            a, b = ea.get(k), eb.get(k)
            if a is None or b is None: out[k] = iten(c, a if a is not None else I(("unbound",)), b if b is not None else I(("unbound",)))
            else: out[k] = a if a is b else iten(c, a, b)
        return out
    def assigned(s, body):
        r = {}
        for n in body:
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): r[x.id] = 1
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    y = x.value
                    while isinstance(y, ast.Subscript): y = y.value
                    if isinstance(y, ast.Name): r[y.id] = 1
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUT and isinstance(x.func.value, ast.Name): r[x.func.value.id] = 1
        return list(r)
    def s_For(s, n, fr):
        it = s.ev(n.iter, fr)
        if it[0] == "ite": 
            def go(x): raise _Fork()
            return s.forkfor(n, fr, it)
        els = s.elements(it)
        if els is not None:
            out = FALL
            body = []
            for x in els: body.append(x)
            return s.unrolled(n, fr, body, 0)
        m = s.inner(n, fr)
        if m: return s.nested(n, fr, it, *m)
        # accumulation into a fresh local container is the comprehension
        r = s.ascomp(n, fr, it)
        if r: return FALL
        return s.general(n, fr, it)
    def inner(s, n, fr):
        """the loop uses a local dict X through one item X[k] only, which it changes: (X, k)"""
        for x in ast.walk(n):
            if not (isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Subscript) and isinstance(x.value.value, ast.Name)): continue
            X = x.value.value.id; kd = ast.dump(x.value.slice); w = list(ast.walk(n))
            if X not in fr.env or not s.islocal(fr.env[X], ("dict",)): continue
            if sum(isinstance(y, ast.Name) and y.id == X for y in w) != sum(isinstance(y, ast.Subscript) and isinstance(y.value, ast.Name) and y.value.id == X and ast.dump(y.slice) == kd for y in w): continue
            if not isinstance(x.value.slice, (ast.Name, ast.Constant)) or isinstance(x.value.slice, ast.Name) and x.value.slice.id in s.assigned([n]): continue
            if isinstance(x.value.slice, ast.Name) and not isconst(s.ev(x.value.slice, fr)): continue
            return X, x.value.slice
    def nested(s, n, fr, it, X, k):
        key = (id(n), X, ast.dump(k)); tmp = X + "[]"
        if key not in _NEST:
            class T(ast.NodeTransformer):
                def visit_Subscript(s, y):
                    if isinstance(y.value, ast.Name) and y.value.id == X: return ast.copy_location(ast.Name(id=tmp, ctx=ast.Load()), y)
                    return s.generic_visit(y)
            _NEST[key] = (n, T().visit(copy.deepcopy(n)))
        kv = s.ev(k, fr); fr.env[tmp] = lift(lambda d: s.sub(d, kv), fr.env[X])
        out = s.s_For(_NEST[key][1], fr)
        fr.env[X] = lift(lambda d, v: s.dcat([(None, d), (kv, v)]), fr.env[X], fr.env.pop(tmp))
        return out
    def general(s, n, fr, it):
        """a loop as a term; it is None: while"""
        tnames = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)} if it is not None else set()
        bd = s.bd; b = s.binder(); names = s.assigned(n.body) + list(tnames)
        carried = [x for x in names if x in fr.env and x not in tnames]
        env0 = dict(fr.env)
        def body(carried):
            while True:
                f2 = Frame(fr.mod, dict(env0), fr.parent, fr.q); cv = {}; s.bd = bd + 1
                for x in names:
                    if x not in env0 or x in tnames: f2.env.pop(x, None)
                for x in carried:
                    cv[x] = s.binder(); f2.env[x] = cv[x]; s.localsym.pop(cv[x], None)
                    for kd in ("list", "dict", "set"):
                        if s.islocal(env0[x], (kd,)): s.localsym[cv[x]] = kd
                f0 = s.fx; s.fx = FX0
                if it is None: src = I(("while",))
                else: src, el = s.source(it, b); s.bind(n.target, el, f2)
                out, fx = s.block(n.body, f2); s.fx = f0; s.bd = bd
                out = liftr(lambda o: FALL if o[0] == "cont" else o, out)
                fc = liftr(lambda o: TRUE if o is FALL or o[0] == "brk" else FALSE, out)
                for x in list(f2.env): f2.env[x] = under(f2.env[x], fc)
                # a variable set in every iteration before it is used carries nothing
                used = set()
                for t in [f2.env.get(x, NONE) for x in carried] + [fx, out]: symbols(t, used)
                live = [x for x in carried if cv[x] in used]
                if live == carried: return f2, src, cv, fx, out, carried
                carried = live
        f2, src, cv, fx, out, carried = body(carried)
        def term(f2, src, cv, fx, out, carried):
            return I(("loop", src, b, tuple(cv[x] for x in carried), tuple(f2.env.get(x, NONE) for x in carried), fx, out, tuple(env0[x] for x in carried)))
        if it is not None and not n.orelse and len(carried) > 1 and not any(l[0] == "seq" for l in leaves(fx)) and set(leaves(out)) == {FALL}:
            # variables that do not depend on each other: a loop each
            dep = {}
            for x in carried:
                u = set(); symbols(f2.env[x], u); dep[x] = {y for y in carried if cv[y] in u} | {x}
            for _ in carried:
                for x in carried: dep[x] = set().union(*[dep[y] for y in dep[x]])
            if any(len(d) < len(carried) for d in dep.values()):
                cache = {}; new = {}
                def sep(D):
                    if D not in cache: cache[D] = body(list(D))
                    return cache[D]
                for x in carried:
                    D = tuple(y for y in carried if y in dep[x]); g = sep(D)
                    if x not in g[5]: new = None; break
                    if len(g[5]) == 1:
                        f3 = Frame(fr.mod, dict(env0), fr.parent, fr.q)
                        if s.loopform(f3, g[0], g[1], b, [x], g[2], g[3], g[4], [x]) is not None: new[x] = f3.env[x]; continue
                    new[x] = I(("after", term(*g), g[5].index(x)))
                if new is not None:
                    for x in names:
                        if x in carried: continue
                        u = set(); symbols(f2.env.get(x, NONE), u); D = {y for y in carried if cv[y] in u}
                        D = set().union(D, *[dep[y] for y in D]); g = sep(tuple(y for y in carried if y in D))
                        new[x] = I(("lastof", term(*g), g[0].env.get(x, NONE)))
                    fr.env.update(new); return FALL
        r = None if n.orelse or it is None else s.loopform(fr, f2, src, b, carried, cv, fx, out, names)
        if r is not None: return r
        loop = term(f2, src, cv, fx, out, carried)
        for i, x in enumerate(carried): fr.env[x] = I(("after", loop, i))
        for x in names:
            if x not in carried: fr.env[x] = I(("lastof", loop, f2.env.get(x, NONE)))
        if any(l[0] == "seq" for l in leaves(fx)): s.effect(I(("stmt", I(("loopfx", loop)))))
        if n.orelse: raise Undecided("for-else")
        ls = [l for l in leaves(out) if l not in (FALL, I(("cont",)), I(("brk",)))]
        if ls: return ite(I(("exits", loop)), I(("ret", I(("loopret", loop)))) if not all(l[0] == "raise" for l in ls) else ls[0] if len(set(ls)) == 1 else I(("raise", "loop")), FALL)
        return FALL
    def loopform(s, fr, f2, src, b, carried, cv, fx, out, names):
        """loops that are a comprehension, or a search with an outcome that does not depend on the element"""
        if any(l[0] == "seq" for l in leaves(fx)): return None
        ls = set(leaves(out))
        if not carried:
            ex = ls - {FALL, I(("cont",))}
            if I(("brk",)) in ex or len(ex) != 1: return None
            x = next(iter(ex))
            if b in syms(x): return None
            c = s.anyof(src, b, liftr(lambda o: TRUE if o is x else FALSE, out))
            for v in names: fr.env[v] = I(("unbound",))
            return iten(c, x, FALL)
        if ls != {FALL} or len(carried) != 1: return None
        X = carried[0]; v = cv[X]; init = fr.env[X]
        kind = next((k for k in ("list", "dict", "set") if init[0] != "ite" and s.islocal(init, (k,))), None)
        if kind is None: return None
        d = f2.env[X]; lv = leaves(d); star = I(("star", v))
        def pieces(l):
            if l is v: return ()
            if l[0] == "dict" == kind and l[1] and l[1][0][0] is None and l[1][0][1] is v: return l[1][1:]
            if l[0] == kind and star in l[1] and (kind == "set" or l[1][0] is star): return tuple(x for x in l[1] if x is not star)
            return None
        if any(pieces(l) is None for l in lv) or not any(pieces(l) for l in lv): return None
        if kind == "dict":
            if all(len(pieces(l)) <= 1 for l in lv) and len({pieces(l)[0][0] is None for l in lv if pieces(l)}) == 1:
                many = any(pieces(l) and pieces(l)[0][0] is None for l in lv)
                q = liftr(lambda l: I(("list", tuple(x[1] if many else I(("tuple", x)) for x in pieces(l)))), d)
            else: many = True; q = liftr(lambda l: I(("list", (I(("dict", pieces(l))),) if pieces(l) else ())), d)
            c = liftr(lambda l: TRUE if l[1] else FALSE, q); e = liftr(lambda l: l[1][0] if l[1] else ANY, q)
            u = set(); symbols(c, u); symbols(e, u)
            if v in u: return None
            r = s.mkcomp("dict*" if many else "dict", src, b, c, e)
        else:
            q = liftr(lambda l: I(("list", pieces(l))), d)
            u = set(); symbols(q, u)
            if v in u: return None
            r = s.flat(src, b, q)
            if kind == "set": r = liftr(lambda z: s.builtin("builtins.set", [z], {}, None) or I(("call", glob("builtins.set"), (z,), ())), r)
        fr.env[X] = liftr(lambda z: s.dcat([(None, init), (None, z)]) if kind == "dict" else s.cat(kind, [I(("star", init)), I(("star", z))]), r)
        for w in names:
            if w != X: fr.env[w] = I(("unbound",))
        return FALL
    def unrolled(s, n, fr, els, i):
        if i == len(els): return s.block(n.orelse, fr)[0]
        s.bind(n.target, els[i], fr)
        out, _ = s.block(n.body, fr)
        out = liftr(lambda o: FALL if o[0] == "cont" else o, out)
        if out is FALL: return s.unrolled(n, fr, els, i+1)
        ls = leaves(out)
        c = liftr(lambda o: TRUE if o is FALL else FALSE, out)
        env0 = dict(fr.env); f0 = s.fx
        if FALL in ls:
            for k, v in list(fr.env.items()): fr.env[k] = under(v, c)
            r = s.unrolled(n, fr, els, i+1)
            if any(l[0] == "brk" for l in ls): fr.env = s.merge(c, fr.env, env0)
            s.fx = f0 if s.fx is f0 else iten(c, s.fx, f0)
        else: r = FALL
        return liftr(lambda o, q: q if o is FALL else FALL if o[0] == "brk" else o, out, r)
    def forkfor(s, n, fr, it):
        env0 = dict(fr.env); f0 = s.fx
        n2 = ast.For(target=n.target, iter=ast.Name(id="#it", ctx=ast.Load()), body=n.body, orelse=n.orelse)
        fa, fb = {it[1]: True}, {it[1]: False}
        fr.env = {k: restrict(v, fa) for k, v in env0.items()}; fr.env["#it"] = it[2]; s.fx = restrict(f0, fa); oa = s.s_For(n2, fr); ea, xa = fr.env, s.fx
        fr.env = {k: restrict(v, fb) for k, v in env0.items()}; fr.env["#it"] = it[3]; s.fx = restrict(f0, fb); ob = s.s_For(n2, fr); eb, xb = fr.env, s.fx
        fr.env = s.merge(boolof(it[1]), ea, eb, oa, ob); s.fx = xa if xa is xb else ite(it[1], xa, xb)
        return ite(it[1], oa, ob)
    def ascomp(s, n, fr, it):
        body = n.body; conds = []
        while len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse: conds.append(body[0].test); body = body[0].body
        if len(body) != 1 or n.orelse: return False
        b = body[0]; g = [ast.comprehension(target=n.target, iter=ast.Name(id="#it", ctx=ast.Load()), ifs=conds, is_async=0)]
        if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) and b.value.func.attr == "append" and isinstance(b.value.func.value, ast.Name) and len(b.value.args) == 1:
            nm = b.value.func.value.id; kind = "list"; k, v = b.value.args[0], None
        elif isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Subscript) and isinstance(b.targets[0].value, ast.Name):
            nm = b.targets[0].value.id; kind = "dict"; k, v = b.targets[0].slice, b.value
        else: return False
        if fr.env.get(nm) is not I((kind, ())): return False
        fr.env["#it"] = it; fr.env[nm] = s.comp(kind, k, v, g, fr)
        return True
    def s_While(s, n, fr):
        stop = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=[ast.Break()], orelse=[])
        always = isinstance(n.test, ast.Constant) and n.test.value
        return s.general(ast.While(test=n.test, body=n.body if always else [stop] + n.body, orelse=n.orelse), fr, None)
    def s_Break(s, n, fr): return I(("brk",))
    def s_Continue(s, n, fr): return I(("cont",))
    def s_With(s, n, fr):
        if len(n.items) == 1 and isinstance(n.items[0].context_expr, ast.Call) and s.ev(n.items[0].context_expr.func, fr) is glob("contextlib.suppress"):
            a = n.items[0].context_expr.args
            return s.s_Try(ast.Try(body=n.body, handlers=[ast.ExceptHandler(type=a[0] if len(a) == 1 else ast.Tuple(elts=a, ctx=ast.Load()), name=None, body=[ast.Pass()])], orelse=[], finalbody=[]), fr)
        for i in n.items:
            c = s.ev(i.context_expr, fr); s.effect(lift(lambda x: I(("stmt", I(("enter", x)))), c))
            if i.optional_vars is not None: s.bind(i.optional_vars, lift(lambda x: I(("entered", x)), c), fr)
        o, _ = s.block(n.body, fr)
        s.effect(I(("stmt", I(("exit", len(n.items))))))
        return o
    def s_Try(s, n, fr):
        env0 = dict(fr.env); f0 = s.fx
        ob, _ = s.block(n.body, fr); eb, fb = fr.env, s.fx
        probe = I(("body", tuple(sorted({v for k, v in eb.items() if env0.get(k) is not v} | {l[1] for l in leaves(ob) if l[0] == "ret"}, key=H)), fb if fb is not f0 else None))
        if n.orelse and FALL in leaves(ob):
            if ob is not FALL: raise Undecided("try-else")
            ob, _ = s.block(n.orelse, fr); eb, fb = fr.env, s.fx
        for h in n.handlers:
            et = s.ev(h.type, Frame(fr.mod, dict(env0), fr.parent)) if h.type is not None else glob("builtins.BaseException")
            if et[0] == "ite": raise Undecided("handler")
            fr.env = dict(env0); s.fx = f0
            if h.name: fr.env[h.name] = I(("exc", probe))
            oh, _ = s.block(h.body, fr); eh, fh = fr.env, s.fx
            at = s.throws(probe, s.excname(et))
            eb = s.merge(at, eh, eb, oh, ob); fb = fh if fh is fb else iten(at, fh, fb); ob = iten(at, oh, ob)
        fr.env, s.fx = eb, fb
        if n.finalbody:
            if any(isinstance(x, (ast.Return, ast.Raise)) for y in n.finalbody for x in ast.walk(y)): raise Undecided("finally")
            s.effect(I(("stmt", I(("finally",)))))
            s.block(n.finalbody, fr)
        return ob
    def throws(s, probe, e):
        vals = probe[1]
        if probe[2] is None and len(vals) == 1:
            v = vals[0]
            if v[0] == "sub" and e in ("KeyError", "LookupError") and simple(v[1]) and simple(v[2]): return notc(s.contains(v[2], v[1]))
            if v[0] == "attr" and e == "AttributeError" and simple(v[1]): return notc(boolof(I(("hasattr", v[1], const(v[2])))))
        return boolof(I(("throws", probe, e)))
    def excname(s, t):
        if t[0] == "tuple": return tuple(sorted(s.excname(x) for x in t[1]))
        return t[1].split(".")[-1] if t[0] == "glob" else repr(t)
    def s_Match(s, n, fr):
        """patterns of values and names, as a chain of comparisons"""
        t = "match:%d" % n.lineno; fr.env[t] = s.ev(n.subject, fr); sub = ast.Name(t, ast.Load())
        def test(p):
            if isinstance(p, ast.MatchValue): return ast.Compare(sub, [ast.Eq()], [p.value])
            if isinstance(p, ast.MatchSingleton): return ast.Compare(sub, [ast.Is()], [ast.Constant(p.value)])
            if isinstance(p, ast.MatchOr): return ast.BoolOp(ast.Or(), [test(x) for x in p.patterns])
            if isinstance(p, ast.MatchAs) and p.pattern is None: return ast.Constant(True)
            if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns: return ast.Call(ast.Name("isinstance", ast.Load()), [sub, p.cls], [])
            raise Undecided("match")
        body = []
        for c in reversed(n.cases):
            c_, b = test(c.pattern), list(c.body)
            if isinstance(c.pattern, ast.MatchAs) and c.pattern.name: b.insert(0, ast.Assign([ast.Name(c.pattern.name, ast.Store())], sub))
            if c.guard is not None:
                if b is not c.body and len(b) != len(c.body): raise Undecided("match")
                c_ = ast.BoolOp(ast.And(), [c_, c.guard])
            body = [ast.If(c_, b, body)]
        body = [ast.fix_missing_locations(ast.copy_location(x, n)) for x in body]
        return s.block(body, fr)[0]
    # --- builtins
    def isinst(s, t, c):
        if c[0] == "tuple" or c[0] == "union":
            r = FALSE
            for x in c[1]: r = orc(r, s.isinst(t, x))
            return r
        if c[0] == "gval":
            v = s.gval(c)
            if v is not None: return s.isinst(t, v)
        if c is NONE: return isnone(t)
        if c[0] == "call" and c[1] is glob("builtins.type") and len(c[2]) == 1: return boolof(I(("isinstof", t, c[2][0])))
        if c[0] != "glob": return boolof(I(("isinstof", t, c)))
        cn = c[1]
        k = t[0]
        if k == "const":
            if t is NONE: return TRUE if cn in ("types.NoneType",) else FALSE
            if cn.startswith("builtins."): return TRUE if t[1] == cn[9:] or t[1] == "bool" and cn == "builtins.int" else FALSE
            if cn == "numbers.Real": return TRUE if t[1] in ("int", "float", "bool") else FALSE
            return FALSE if cn in DISJOINT else boolof(I(("isinst", t, cn)))
        if k in ("tuple", "list", "dict", "set"):
            if cn == "builtins." + k: return TRUE
            if cn in DISJOINT: return FALSE
        if k == "fstr": return TRUE if cn == "builtins.str" else FALSE
        cl = s.classof(t)
        if cl:
            if cl == cn or (cl, cn) in SUB: return TRUE
            if cn in DISJOINT and cl in DISJOINT: return FALSE
        if k == "call" and t[1][0] == "glob" and (s.w.cls(t[1][1]) or t[1][1] in DISJOINT):
            if t[1][1] == cn: return TRUE
            if t[1][1] in DISJOINT and cn in DISJOINT: return FALSE
        if k in ("fn", "lam"): return FALSE if cn in DISJOINT else boolof(I(("isinst", t, cn)))
        return boolof(I(("isinst", t, cn)))
    def builtin(s, n, a, kw, fr):
        if any(x[0] == "star" for x in a): return None
        la = len(a)
        if n == "builtins.isinstance" and la == 2: return lift(s.isinst, a[0], a[1])
        if n in ("typing.cast",) and la == 2: return a[1]
        if n == "builtins.int" and la == 1 and not kw and a[0][0] == "bin" and a[0][1] == "/" and isconst(a[0][3]) and isinstance(a[0][3][2], int) and a[0][3][2] > 0: return s.bin("//", a[0][2], a[0][3])      # of a number that is not negative
        if n == "builtins.len" and la == 1:
            e = s.elements(a[0])
            if e is not None: return const(len(e))
            c = s.classof(a[0])
            if c and s.w.fnode(c + ".__len__"): return s.inline(c + ".__len__", s.w.fnode(c + ".__len__"), [a[0]], {}, None)
            return I(("len", a[0]))
        if n in ("builtins.tuple", "builtins.list") and la == 1 and not kw and a[0][0] == "call" and a[0][1][0] == "attr" and a[0][1][2] in ("values", "items") and not a[0][2] and not a[0][3]:
            bd = s.bd; v = s.binder(); src, el = s.source(a[0], v); s.bd = bd
            r = s.mkcomp("list", src, v, TRUE, el)
            return s.builtin(n, [r], kw, fr) or I(("call", glob(n), (r,), ()))
        if n in ("builtins.tuple", "builtins.list") and la <= 1 and not kw:
            if not la: return I((n[9:], ()))
            e = s.elements(a[0])
            if e is not None: return I((n[9:], tuple(e)))
            if a[0][0] == "comp" and a[0][1] == "list" and n == "builtins.list": return a[0]
            return I(("call", glob(n), (a[0],), ()))
        if n == "builtins.dict" and la <= 1:
            base = I(("dict", ())) if not la else a[0]
            if la and base[0] != "dict":
                if kw: return I(("dict", ((None, base),) + tuple((const(k), v) for k, v in kw.items())))
                if base[0] == "comp" and base[1] == "list" and base[5][0] == "tuple" and len(base[5][1]) == 2: return FIXC(I(("comp", "dict") + base[2:]))
                if base[0] == "call" and base[1] in (glob("builtins.zip"), glob("builtins.enumerate"), glob("builtins.map")): return I(("call", glob(n), (a[0],), ()))
                return I(("dict", ((None, base),)))
            if any(k.startswith("**") for k in kw): return I(("dict", base[1] + tuple((None, v) if k.startswith("**") else (const(k), v) for k, v in kw.items())))
            return I(("dict", tuple(s.dput(list(base[1]), [(const(k), v) for k, v in kw.items()]))))
        if n == "builtins.set" and la == 0: return I(("set", ()))
        if n in ("builtins.any", "builtins.all") and la == 1:
            e = s.elements(a[0])
            if e is not None:
                r = FALSE if n.endswith("any") else TRUE
                for x in e: r = orc(r, cond(x)) if n.endswith("any") else andc(r, cond(x))
                return r
            if a[0][0] == "ite": return lift(lambda x: s.builtin(n, [x], kw, fr) or s.opaque(glob(n), [x], kw), a[0])
            if a[0][0] == "comp" and a[0][1] in ("list", "set"):
                c = cond(a[0][5])
                return s.anyof(a[0][2], a[0][3], andc(a[0][4], c)) if n.endswith("any") else notc(s.anyof(a[0][2], a[0][3], andc(a[0][4], notc(c))))
        if n == "builtins.dict.fromkeys" and la in (1, 2) and not kw:
            b = s.binder(); src, el = s.source(a[0], b); s.bd -= 1
            return s.mkcomp("dict", src, b, TRUE, I(("tuple", (el, a[1] if la == 2 else NONE))))
        if n == "builtins.format" and la == 2 and not kw: return lift(lambda x, q: fstr((fmtd(x, q),)), a[0], a[1])
        if n == "builtins.str" and la == 1 and not kw and a[0][0] != "star": return lift(lambda x: x if isconst(x) and isinstance(x[2], str) else fstr((x,)), a[0])
        if n == "builtins.bool" and la == 1: return lift(truthy, a[0])
        if n == "builtins.getattr" and la >= 2 and isconst(a[1]):
            if la == 2: return s.attr(a[0], a[1][2], fr)
            c = s.classof(a[0])
            if c and s.w.fnode(c + "." + a[1][2]): return s.attr(a[0], a[1][2], fr)
            return I(("getattrd", a[0], a[1][2], a[2]))
        if n == "builtins.getattr" and la == 2: return I(("attrv", a[0], a[1]))
        if n == "builtins.hasattr" and la == 2: return boolof(I(("hasattr", a[0], a[1])))
        if n == "itertools.chain":
            es = [s.elements(x) for x in a]
            if all(e is not None for e in es): return I(("list", tuple(x for e in es for x in e)))
            return I(("call", glob(n), tuple(a), ()))
        if n == "functools.partial" and la: return I(("partial", a[0], tuple(a[1:]), tuple(kw.items())))
        if n == "functools.reduce" and la >= 2:
            e = s.elements(a[1])
            if e is not None and (la == 3 or e):
                r = a[2] if la == 3 else e[0]
                for x in (e if la == 3 else e[1:]): r = lift(lambda p, q: s.call(a[0], [p, q], {}, fr), r, x)
                return r
        if n == "builtins.filter" and la == 2:
            e = s.elements(a[1])
            if e is not None:
                out = I(("list", ()))
                for x in e:
                    c = cond(lift(lambda p: s.call(a[0], [p], {}, fr), x)); keep = out
                    out = iten(c, lift(lambda l: I(("list", l[1] + (x,))), keep), keep)
                return out
            if a[1][0] == "ite": return lift(lambda x: s.builtin(n, [a[0], x], kw, fr), a[1])
            b = s.binder(); src, el = s.source(a[1], b); f0 = s.fx; c = cond(el if a[0] is NONE else s.call(a[0], [el], {}, fr)); s.fx = f0; s.bd -= 1
            return s.mkcomp("list", src, b, c, el)
        if n == "builtins.set" and la == 1 and a[0][0] == "comp" and a[0][1] in ("list", "list*", "set", "set*"): return FIXC(I(("comp", a[0][1].replace("list", "set")) + a[0][2:]))
        if n == "builtins.set" and la == 1 and a[0][0] == "call" and a[0][1] in (glob("builtins.list"), glob("builtins.tuple")) and len(a[0][2]) == 1: return s.builtin(n, [a[0][2][0]], kw, fr) or I(("call", glob(n), (a[0][2][0],), ()))
        if n == "builtins.map" and la == 2:
            e = s.elements(a[1])
            if e is not None:
                rs = [s.call(a[0], [x], {}, fr) for x in e]
                return lift(lambda *p: I(("list", tuple(p))), *rs) if rs else I(("list", ()))
            b = s.binder(); src, el = s.source(a[1], b); f0 = s.fx; r = s.call(a[0], [el], {}, fr); s.fx = f0; s.bd -= 1
            return s.mkcomp("list", src, b, TRUE, r)
        if n == "builtins.zip" and la:
            es = [s.elements(x) for x in a]
            if all(e is not None for e in es): return I(("list", tuple(I(("tuple", t)) for t in zip(*es))))
        if n == "builtins.enumerate" and la == 1:
            e = s.elements(a[0])
            if e is not None: return I(("list", tuple(I(("tuple", (const(i), x))) for i, x in enumerate(e))))
        if n == "builtins.iter" and la == 1 and a[0][0] in ("tuple", "list"): return a[0]
        if n == "builtins.callable" and la == 1 and a[0][0] in ("fn", "lam", "partial"): return TRUE
        if n == "builtins.slice" and 1 <= la <= 3 and not kw:
            p = [NONE, a[0], NONE] if la == 1 else list(a) + [NONE]*(3-la)
            return I(("slice",) + tuple(p))
        if n.startswith("operator.") or n.startswith("_operator."):
            o = n.split(".", 1)[1]
            if o in OPFN and la == 2:
                op = OPFN[o]
                return s.bin(op, a[0], a[1]) if op in BIN.values() else I(("rel", op, a[0], a[1])) if False else s.cmp(op, a[0], a[1])
            if o in ("invert", "neg", "pos", "inv") and la == 1: return I(("un", {"invert": "~", "inv": "~", "neg": "-", "pos": "+"}[o], a[0]))
            if o == "not_" and la == 1: return notc(cond(a[0]))
            if o == "methodcaller" and la: return I(("mcall", a[0][2] if isconst(a[0]) else a[0], tuple(a[1:]), tuple(sorted(kw.items()))))
            if o == "attrgetter" and la == 1 and isconst(a[0]): return I(("agetter", a[0][2]))
            if o == "itemgetter" and la == 1: return I(("igetter", a[0]))
            if o == "getitem" and la == 2: return s.sub(a[0], a[1])
            if o == "contains" and la == 2: return s.contains(a[1], a[0])
        return None
    def method(s, o, m, a, kw, fr):
        if m == "get" and 1 <= len(a) <= 2 and not kw and o[0] not in ("glob", "mod") and not any(x[0] == "star" for x in a):
            return iten(s.contains(a[0], o), s.sub(o, a[0]), a[1] if len(a) > 1 else NONE)
        if m == "format" and isconst(o) and isinstance(o[2], str) and not any(x[0] == "star" for x in a) and None not in kw:
            ks = sorted(kw)
            return lift(lambda *v: template(o[2], v[:len(a)], dict(zip(ks, v[len(a):]))) or I(("call", I(("attr", o, m)), tuple(v[:len(a)]), tuple(zip(ks, v[len(a):])))), *a, *[kw[k] for k in ks])
        if m == "join" and isconst(o) and isinstance(o[2], str) and len(a) == 1 and not kw and a[0][0] in ("list", "tuple") and (o is const("") or not any(x[0] == "star" for x in a[0][1])):
            out = []
            for i, x in enumerate(a[0][1]):
                if i: out.append(o)
                out.append(I(("call", I(("attr", o, "join")), (x[1],), ())) if x[0] == "star" else x)
            return lift(lambda *p: fstr(p), *out) if out else const("")
        if kindof(o) == "set" and not kw and not any(x[0] == "star" for x in a):
            if m == "union": return s.cat("set", [I(("star", x)) for x in [o] + a])
            if m in ("difference", "intersection") and len(a) == 1: return s.bin("-" if m == "difference" else "&", o, a[0])
            if m == "isdisjoint" and len(a) == 1: return lift(lambda x: notc(truthy(x)), s.bin("&", o, a[0]))
            if m == "issubset" and len(a) == 1: return boolof(I(("subset", unset(o), unset(a[0]))))
            if m == "issuperset" and len(a) == 1: return boolof(I(("subset", unset(a[0]), unset(o))))
        if o[0] == "dict" and not any(k is None for k, _ in o[1]):
            if m == "values" and not a: return I(("list", tuple(v for _, v in o[1])))
            if m == "keys" and not a: return I(("list", tuple(k for k, _ in o[1])))
            if m == "items" and not a: return I(("list", tuple(I(("tuple", (k, v))) for k, v in o[1])))
            if m == "get" and a and isconst(a[0]) and all(isconst(k) for k, _ in o[1]):
                return next((v for k, v in o[1] if k is a[0]), a[1] if len(a) > 1 else NONE)
            if m == "copy" and not a: return o
        if o[0] in ("list", "tuple") and m == "index" and len(a) == 1 and isconst(a[0]) and all(isconst(x) for x in o[1]):
            for i, x in enumerate(o[1]):
                if x is a[0]: return const(i)
        if o[0] == "set" or o[0] == "call" and o[1] is glob("builtins.set"): pass
        return None
ANY = I(("unused",))
def fmtd(x, spec, conv=""):
    """a replacement field: object, format and conversion"""
    if conv and conv != "s": x = I(("call", glob("builtins." + {"r": "repr", "a": "ascii"}[conv]), (x,), ()))
    if spec[0] == "fstr" and len(spec[1]) == 1: spec = spec[1][0]
    if spec is const(""): return x
    return I(("fmtd", x, spec))
def template(t, a, kw):
    """text of t.format(*a, **kw), or None"""
    import string
    out = []; n = 0
    try: fs = list(string.Formatter().parse(t))
    except ValueError: return None
    for lit, field, spec, conv in fs:
        if lit: out.append(const(lit))
        if field is None: continue
        if field == "": k = n; n += 1
        elif field.isdigit(): k = int(field)
        elif field.isidentifier(): k = field
        else: return None
        if isinstance(k, int) and k >= len(a) or not isinstance(k, int) and k not in kw: return None
        x = a[k] if isinstance(k, int) else kw[k]
        if "{" in (spec or ""):
            q = []
            for l2, f2, s2, c2 in string.Formatter().parse(spec):
                if l2: q.append(const(l2))
                if f2 is None: continue
                if s2 or c2: return None
                if f2 == "": k2 = n; n += 1
                elif f2.isdigit(): k2 = int(f2)
                elif f2.isidentifier(): k2 = f2
                else: return None
                if isinstance(k2, int) and k2 >= len(a) or not isinstance(k2, int) and k2 not in kw: return None
                q.append(a[k2] if isinstance(k2, int) else kw[k2])
            sp = fstr(q)
        else: sp = const(spec or "")
        if sp[0] == "fstr" and len(sp[1]) == 1: sp = sp[1][0]
        out.append(fmtd(x, sp, conv or ""))
    return fstr(out)
def percent(t, a):
    out = []; n = 0; i = 0; import re as _re
    for m in _re.finditer(r"%(?:(%)|([sr]))|%", t):
        out.append(const(t[i:m.start()])); i = m.end()
        if m.group(1): out.append(const("%")); continue
        if not m.group(2) or n >= len(a): return None
        out.append(fmtd(a[n], const(""), m.group(2))); n += 1
    out.append(const(t[i:]))
    return fstr(out) if n == len(a) else None
def fstr(p):
    """text in pieces: nested pieces and neighbouring constants are joined"""
    out = []
    for x in p:
        if x[0] == "call" and x[1] is glob("builtins.str") and len(x[2]) == 1 and len(x[3]) == 0 and x[2][0][0] != "star": x = x[2][0]
        for y in x[1] if x[0] == "fstr" else (x,):
            if isconst(y) and (y[2] is None or isinstance(y[2], (bool, int))): y = const(str(y[2]))
            if isconst(y) and isinstance(y[2], str) and out and isconst(out[-1]) and isinstance(out[-1][2], str): out[-1] = const(out[-1][2] + y[2])
            elif y is not const(""): out.append(y)
    if not out: return const("")
    return out[0] if len(out) == 1 and isconst(out[0]) else I(("fstr", tuple(out)))
def simple(t):
    return t[0] in ("par", "sym", "const", "glob") or t[0] == "attr" and len(t) == 3 and simple(t[1])
def unset(x):
    """x as a collection whose order and repetitions do not matter"""
    while x[0] == "call" and x[1] in (glob("builtins.set"), glob("builtins.frozenset"), glob("builtins.list"), glob("builtins.tuple")) and len(x[2]) == 1 and not x[3]: x = x[2][0]
    if x[0] == "call" and x[1][0] == "attr" and x[1][2] == "keys" and not x[2] and not x[3]: x = x[1][1]
    if x[0] in ("list", "tuple") : x = I(("set", x[1]))
    return x
def kindof(x):
    """kind of a collection made by the language itself, or None"""
    if x[0] in ("list", "tuple", "set", "dict"): return x[0]
    if x[0] == "without": return "dict"
    if x[0] == "comp": return x[1].rstrip("*")
    if x[0] == "call" and x[1][0] == "glob" and x[1][1].startswith("builtins."): return {"list": "list", "sorted": "list", "tuple": "tuple", "set": "set", "frozenset": "set", "dict": "dict"}.get(x[1][1][9:])
    if x[0] == "bin" and x[1] == "-" and kindof(x[2]) == "set" or x[0] == "inter": return "set"
    return None
_GN = {}; _NEST = {}
def generator(node):
    r = _GN.get(id(node))
    if r is None or r[0] is not node:
        st = list(node.body) if isinstance(node, ast.FunctionDef) else []; g = False
        while st and not g:
            x = st.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)): g = True
            elif not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): st += list(ast.iter_child_nodes(x))
        r = _GN[id(node)] = (node, g)
    return r[1]
def order(t):
    """the diagram with its conditions in a fixed order"""
    if t[0] != "ite": return t
    at = set(); st = [t]; seen = set()
    while st:
        x = st.pop()
        if x in seen or x[0] != "ite": continue
        seen.add(x); at.add(x[1]); st += [x[2], x[3]]
    if len(at) < 2 or len(at) > 7: return t
    def build(u):
        if u[0] != "ite": return u
        cur = set(); st = [u]; seen = set()
        while st:
            x = st.pop()
            if x in seen or x[0] != "ite": continue
            seen.add(x); cur.add(x[1]); st += [x[2], x[3]]
        a = min(cur, key=H)
        return ite(a, build(restrict(u, {a: True})), build(restrict(u, {a: False})))
    return build(t)
def where(c, e):
    """e as far as it is used: where the condition c holds"""
    if c is TRUE: return e
    r = liftr(lambda x, y: y if x is TRUE else ANY, c, e)
    def drop(t):
        if t[0] != "ite": return t
        a, b = drop(t[2]), drop(t[3])
        return b if a is ANY else a if b is ANY else ite(t[1], a, b)
    return drop(r)
def FIXC(c):
    if c[1] == "dict" and c[4] is TRUE and c[5][0] == "tuple" and all(x is I(("sub", c[3], const(i))) for i, x in enumerate(c[5][1])): return I(("call", glob("builtins.dict"), (c[2],), ()))
    if c[1] == "set" and c[4] is TRUE and c[5] is c[3]: return I(("call", glob("builtins.set"), (c[2],), ()))
    if c[1] in ("list*", "set*", "dict*") and c[4] is TRUE and c[5][0] == "comp" and c[5][4] is TRUE and c[5][5] is c[5][3] and c[1] == "list*": return I(("comp", "list*", c[2], c[3], TRUE, c[5][2]))
    if c[1] == "list*" and c[4] is TRUE and c[5][0] == "call" and c[5][1] in (glob("builtins.list"), glob("builtins.tuple")) and len(c[5][2]) == 1: return I(("comp", "list*", c[2], c[3], TRUE, c[5][2][0]))
    if c[4] is FALSE: return I((c[1].rstrip("*"), ()))
    if c[1] == "dict" and c[4] is TRUE and c[5][0] == "tuple" and c[5][1][0] is c[3] and c[5][1][1] is I(("sub", c[2], c[3])): return I(("dict", ((None, c[2]),)))
    if c[1] == "list" and c[4] is TRUE and c[5] is c[3]: return I(("call", glob("builtins.list"), (c[2],), ()))
    return c
class _Fork(Exception): pass
def symbols(t, out, seen=None):
    seen = set() if seen is None else seen; st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or x in seen: continue
        seen.add(x)
        if len(x) == 3 and x[0] == "sym": out.add(x)
        else: st.extend(x)
def leaves(t):
    out = []; st = [t]; seen = set()
    while st:
        x = st.pop()
        if id(x) in seen: continue
        seen.add(id(x))
        if x[0] == "ite": st += [x[2], x[3]]
        else: out.append(x)
    return out
def under(t, c):
    """t on the inputs where the condition diagram c is true"""
    if t[0] != "ite" or c is TRUE: return t
    if c is FALSE: return t
    return where(c, t)
def facts_of(c):
    """atoms forced by c being true"""
    f = {}
    while c[0] == "ite":
        if c[3] is FALSE: f[c[1]] = True; c = c[2]
        elif c[2] is FALSE: f[c[1]] = False; c = c[3]
        else: break
    return f

# ---------------------------------------------------------------------------------------------- comparing two diagrams
STRUCT = {"loop", "after", "lastof", "comp", "mutd", "mutr", "put", "any", "loopfx", "exits", "throws", "loopret", "rest", "unbound", "enter", "entered", "exit", "finally", "ver", "rec"}
LOOPS = {"list", "tuple", "dict", "set", "map", "zip", "filter", "sorted", "enumerate", "range", "sum", "any", "all", "next", "iter", "max", "min", "reversed"}
def structural(x):
    return isinstance(x, tuple) and bool(x) and (x[0] in STRUCT or x[0] == "call" and x[1][0] == "glob" and (x[1][1].startswith("itertools.") or x[1][1].startswith("functools.") or x[1][1].startswith("builtins.") and x[1][1][9:] in LOOPS) or x[0] == "raise" and not x[1].isidentifier())
def mism(x, y, memo, depth=0):
    """smallest pairs of subterms that differ; empty: the terms are equal"""
    if x is y: return ()
    if type(x) is not T or type(y) is not T: return () if type(x) == type(y) and x == y else ((x, y),)
    k = (id(x), id(y)); r = memo.get(k)
    if r is not None: return r
    memo[k] = ()
    if x and x[0] == "ite" or y and y[0] == "ite":
        r = tuple(p for _, a, b in diff(x, y, memo=memo) for p in mism(a, b, memo))
    elif x and y and ascomp(x, y) is not None: r = mism(ascomp(x, y), y, memo)
    elif x and y and ascomp(y, x) is not None: r = mism(x, ascomp(y, x), memo)
    elif not x or not y or len(x) != len(y): r = ((x, y),)
    elif type(x[0]) is not T and x[0] != y[0]: r = ((x, y),)
    elif x[0] == "sym": r = ((x, y),)
    elif x[0] == "seq": r = effects(x, y, memo)
    elif x[0] == "call" and x[1] is not y[1] and mism(x[1], y[1], memo): r = mism(x[1], y[1], memo)
    elif x[0] in ("comp", "loop", "any") and (lambda i: x[i] is not y[i] and mism(x[i], y[i], memo))(2 if x[0] == "comp" else 1):
        i = 2 if x[0] == "comp" else 1; u, v = x[i], y[i]
        rest = [p for j, (a, b) in enumerate(zip(x, y)) if j != i for p in mism(a, b, memo)]
        r = mism(u, v, memo) if not rest and u[0] == v[0] and not (u[0] == "call" and u[1] is not v[1]) else ((x, y),)
    elif x[0] == "loop" and len(x[3]) > 1 and len(x) == len(y):
        r = tuple(p for a, b in zip(x, y) for p in mism(a, b, memo))
        if r and len(x[3]) == len(y[3]) <= 4:
            # the variables carried from one iteration to the next have no order
            for perm in itertools.permutations(range(len(y[3]))):
                z = permute(y, perm)
                q = tuple(p for a, b in zip(x, z) for p in mism(a, b, memo))
                if len(q) < len(r): r = q
                if not r: break
        elif r: r = ((x, y),)
    elif x[0] == "dict" and len(x[1]) == len(y[1]) and all(a is not None and isconst(a) for a, _ in x[1] + y[1]) and {a for a, _ in x[1]} == {a for a, _ in y[1]}:
        d = {a: b for a, b in y[1]}; r = tuple(p for a, b in x[1] for p in mism(b, d[a], memo))
    elif x[0] in ("eq", "is") and len(x) == 3:
        r = mism(x[1], y[1], memo) + mism(x[2], y[2], memo)
        if r and not mism(x[1], y[2], memo) and not mism(x[2], y[1], memo): r = ()
    else: r = tuple(p for a, b in zip(x, y) for p in mism(a, b, memo))
    memo[k] = r
    return r
def chain(x):
    l = []
    while x[0] == "seq": l.append(x[2]); x = x[1]
    return x, l[::-1]
def effects(x, y, memo):
    """two sequences of effects: what both have is left out"""
    bx, lx = chain(x); by, ly = chain(y)
    if bx is not by: return tuple(p for a, b in zip(x, y) for p in mism(a, b, memo))
    rest = list(ly); rx = []
    for e in lx:
        j = next((j for j, g in enumerate(rest) if not mism(e, g, memo)), None)
        if j is None: rx.append(e)
        else: rest.pop(j)
    if not rx and not rest:
        return tuple(p for a, b in zip(x, y) for p in mism(a, b, memo))
    if len(rx) == len(rest): return tuple(p for a, b in zip(rx, rest) for p in mism(a, b, memo))
    return ((I(("fxs", tuple(rx))), I(("fxs", tuple(rest)))),)
def permute(y, perm):
    n = len(y[3]); new = [y[3][perm[i]] for i in range(n)]
    sub = {new[i]: y[3][i] for i in range(n)}; memo = {}
    def go(t):
        if t in sub: return sub[t]
        if type(t) is not T and type(t) is not tuple: return t
        if t in memo: return memo[t]
        if not (symset(t) & set(sub)): r = t
        elif t[:1] == ("ite",): r = iten(boolof(go(t[1])), go(t[2]), go(t[3]))
        else: r = (I if type(t) is T else tuple)(tuple(go(z) for z in t))
        memo[t] = r; return r
    return I(("loop", y[1], y[2], y[3], tuple(go(y[4][perm[i]]) for i in range(n)), go(y[5]), go(y[6]), tuple(y[7][perm[i]] for i in range(n))))
def symset(t):
    s = set(); symbols(t, s); return s
def diff(a, b, facts=None, out=None, lim=6, memo=None):
    """leaf pairs that differ, with the facts under which they do"""
    facts = facts or {}; out = [] if out is None else out; memo = {} if memo is None else memo
    if len(out) >= lim: return out
    if a is b: return out
    a, b = restrict(a, facts), restrict(b, facts)
    if a is b: return out
    t = a if a[0] == "ite" else b if b[0] == "ite" else None
    if t is None:
        if not (_SKIP[0] is not None and conflict(_SKIP[0] + list(facts.items()))) and mism(a, b, memo): out.append((dict(facts), a, b))
        return out
    for v in (True, False):
        f2 = {**facts, t[1]: v}
        if contradictory(f2): continue
        diff(a, b, f2, out, lim, memo)
    return out
def ascomp(x, y):
    """list(x) as a comprehension, to be compared with one"""
    if y[0] != "comp" or y[1] not in ("list", "dict"): return None
    if y[1] == "list" and x[0] == "call" and x[1] is glob("builtins.list") and len(x[2]) == 1: return I(("comp", "list", x[2][0], y[3], TRUE, y[3]))
    if y[1] == "dict" and x[0] == "dict" and len(x[1]) == 1 and x[1][0][0] is None: return I(("comp", "dict", x[1][0][1], y[3], TRUE, I(("tuple", (y[3], I(("sub", x[1][0][1], y[3])))))))
    return None
_DS = {}
def deep(x):
    """does the term contain a loop"""
    if type(x) is not T: return False
    r = _DS.get(x)
    if r is None:
        _DS[x] = False; r = _DS[x] = structural(x) or x[:1] == ("call",) and x[1][0] in ("sym", "lam", "fn") or any(deep(y) for y in x)
    return r
VOC = {"get", "items", "keys", "values", "append", "extend", "update", "pop", "setdefault", "add", "union", "intersection", "difference", "issubset", "issuperset", "isdisjoint", "copy", "fromkeys", "insert", "remove", "discard", "clear", "popitem", "index", "count", "join", "format", "__name__", "__getitem__"}
TRIV = {"builtins." + x for x in LOOPS | {"len", "bool", "isinstance", "getattr", "hasattr", "str", "repr", "frozenset", "slice", "callable", "type", "super", "object", "int", "print"}}
_FT = {}
def features(x):
    """what a term is made of, up to the vocabulary of the language for putting collections together"""
    if type(x) is not T and type(x) is not tuple: return frozenset()
    k = id(x); r = _FT.get(k)
    if r is not None and r[0] is x: return r[1]
    _FT[k] = (x, frozenset())
    h = x[0] if x else None; f = set()
    if h == "const":
        if x[2] not in (True, False, None, 0, 1, 2, -1, "", Ellipsis) and x[1] != "ellipsis": f.add(("const", x[1], x[2]))
    elif h == "glob":
        if x[1] not in TRIV and not (x[1].startswith("builtins.") and x[1].split(".")[-1] in VOC) and not x[1].startswith(("itertools.", "functools.", "operator.", "collections.", "typing.")): f.add(x[1].split(".")[-1])
        if x[1] in ("builtins.sorted", "builtins.reversed"): f.add("#" + x[1][9:])
        if x[1].split(".")[-1] in ("Counter", "sum", "len", "enumerate", "accumulate", "reduce", "count"): f.add("#counts")
    elif h == "attr":
        if x[2] not in VOC: f.add("." + x[2])
        if x[2] in ("sort", "reverse"): f.add("#sorted" if x[2] == "sort" else "#reversed")
        if x[2] == "count": f.add("#counts")
    elif h == "par": f.add("$" + x[1])
    elif h == "raise": f.add("!" + str(x[1]))
    elif h == "un": f.add("u" + x[1])
    elif h in ("bin", "ibin", "inplace"):
        o = x[1] if h != "inplace" else x[2]
        if o not in ("+", "|", "-", "&"): f.add("b" + o)
        if h == "bin" and o == "+" and isconst(x[3]) and x[2][:1] in (("sub",), ("item",)): f.add("#counting")
    elif h == "rec" or h == "gval": f |= {z for z in x[1:] if isinstance(z, str)}
    elif h == "isinst": f.add(x[2].split(".")[-1])
    elif h in ("agetter", "mcall") and isinstance(x[1], str): f.add("." + x[1])
    elif h in ("setattr", "delattr", "getattrd"): f.add("." + x[2])
    for z in x:
        if isinstance(z, tuple): f |= features(z)
    r = frozenset(f); _FT[k] = (x, r)
    return r
def collection(x):
    """a term that puts together or takes apart a collection: its form is a matter of style"""
    if not isinstance(x, tuple) or not x: return False
    if structural(x) or x[0] in ("gen", "fxs", "lam", "partial", "mcall", "agetter", "igetter", "fn", "fstr", "getattrd", "kwget", "kwrest", "attrv", "item"): return True
    if x[0] in ("tuple", "list", "set"): return True
    if x[0] == "dict": return True
    if x[0] == "stmt" or x[0] == "mut" and x[-1][0] == "call" and x[-1][1][0] == "attr" and x[-1][1][2] in VOC: return collection(x[-1]) or x[0] == "mut"
    if x[0] == "call" and x[1][0] == "attr" and x[1][2] in VOC: return True
    return x[0] in ("bin", "ibin") and x[1] in ("+", "|") and (collection(x[2]) or collection(x[3]))
def restyled(x, y):
    """the same ingredients put together in another form"""
    if not isinstance(x, tuple) or not isinstance(y, tuple): return False
    if not (collection(x) or collection(y)): return False
    if x[:1] == y[:1] and len(x) == len(y) and x[0] in ("tuple", "list", "set", "const", "dict") and len(x[1]) == len(y[1]) and x[0] != "dict": return False
    return uncounted(x, y) is False
_TAG = re.compile(r"\w+|[^\w\s]")
def ingredients(x):
    """what a term is made of; a piece of markup counts by its parts, it may be put together from smaller pieces"""
    f = features(bare(x)) - {"#counts", "#counting"}
    m = [z for z in f if isinstance(z, tuple) and z[:2] == ("const", "str") and "<" in z[2]]
    return f if not m else (f - set(m)) | {"markup:" + w for z in m for w in _TAG.findall(z[2])}
def uncounted(x, y):
    """the same ingredients, but only one side counts (counting has several forms)"""
    f, g = features(bare(x)), features(bare(y))
    if f - {"#counts", "#counting"} != g - {"#counts", "#counting"}: return None
    return "#counting" in f and not g & {"#counts", "#counting"} or "#counting" in g and not f & {"#counts", "#counting"}
def filtered(x, y):
    """x is y without a condition on its elements"""
    if y[:1] != ("comp",) or y[4] is TRUE or y[1] not in ("list", "set", "dict"): return False
    if x[:1] == ("comp",): return x[1] == y[1] and x[4] is TRUE and bare(x[2]) is bare(y[2]) and bare(x[5]) is bare(y[5])
    return y[5] is y[3] and bare(x) is bare(y[2])
def unclear(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple) and (filtered(x, y) or filtered(y, x)): return False
    if restyled(x, y): return True
    if isinstance(x, tuple) and isinstance(y, tuple) and uncounted(x, y): return False
    g = lambda t: isinstance(t, tuple) and t[:1] == ("gval",)
    if g(x) or g(y): return type(x) is not type(y) or x != y
    if not (structural(x) and deep(y) or structural(y) and deep(x)): return False
    a, b = loops(bare(x)), loops(bare(y))
    # every loop of one side is also on the other, which has more: something is missing
    return not (a < b or b < a)
_LS = {}
def loops(x):
    if type(x) is not T and type(x) is not tuple: return frozenset()
    r = _LS.get(x)
    if r is None:
        r = frozenset().union(*[loops(z) for z in x if isinstance(z, tuple)])
        if x[:1] in (("loop",), ("comp",), ("any",)) or x[:1] == ("call",) and structural(x): r = r | {x}
        _LS[x] = r
    return r
_SV = {}
def bare(x):
    """the term without the effects that its reads come after"""
    if type(x) is not T: return x
    r = _SV.get(x)
    if r is None:
        y = x[1] if x[:1] == ("ver",) and len(x) == 3 else I(x[:3]) if x[:1] in (("attr",), ("sub",), ("in",)) and len(x) == 4 else x
        r = _SV[x] = bare(y) if y is not x else iten(boolof(bare(x[1])), bare(x[2]), bare(x[3])) if x[:1] == ("ite",) else I(tuple(bare(z) if type(z) is T else tuple(bare(w) for w in z) if type(z) is tuple else z for z in x))
    return r
def conflict(f):
    seen = {}
    return any(seen.setdefault(bare(k), v) != v for k, v in f)
_SKIP = [None]
def skipping(f, x, y):
    _SKIP[0] = list(f.items())
    try: return mism(x, y, {})
    finally: _SKIP[0] = None
def atoms(t):
    at = set(); st = [t]; seen = set()
    while st:
        x = st.pop()
        if x in seen or x[0] != "ite": continue
        seen.add(x); at.add(x[1]); st += [x[2], x[3]]
    return at
def restyled_conditions(c, a, fa, b, fb):
    """differences under conditions about loops that only one side has, while both sides are made of the same ingredients"""
    if not c or ingredients(a) | ingredients(fa) != ingredients(b) | ingredients(fb): return c
    A, B = atoms(a) | atoms(fa), atoms(b) | atoms(fb); p = A ^ B
    if not any(deep(k) or collection(k) for k in A - B) or not any(deep(k) or collection(k) for k in B - A): return c      # not the same condition in two forms
    return [x for x in c if not any(k in p and (deep(k) or collection(k)) for k in x[0])]
def parts(*roots):
    """calls and loops in the terms, by what they contain: term -> calls and loops directly or indirectly inside"""
    memo = {}
    def go(x):
        if type(x) is not T and type(x) is not tuple: return frozenset()
        r = memo.get(id(x))
        if r is None:
            memo[id(x)] = (x, frozenset()); s = set()
            for z in x:
                if isinstance(z, tuple):
                    s |= go(z)
                    if type(z) is T and z and (z[0] in ("loop", "comp", "any", "fxs") or z[0] == "call"): s.add(z)
            r = memo[id(x)] = (x, frozenset(s))
        return r[1]
    out = {}
    for r in roots:
        for z in go(I(("root", r))): out[z] = go(z)
    return out
def aligned(a, fa, b, fb):
    """innermost calls and loops that only one side has, each with a counterpart of the same form on the other that differs in content: [facts, x, y]"""
    pa = {**parts(bare(a)), **parts(bare(fa))}; pb = {**parts(bare(b)), **parts(bare(fb))}
    xs = {x for x in pa if x not in pb}; ys = {y for y in pb if y not in pa}
    xs = {x for x in xs if not (pa[x] & xs)}; ys = {y for y in ys if not (pb[y] & ys)}
    if not xs or len(xs) != len(ys) or len(xs) > 8: return []
    out = []
    for x in sorted(xs, key=lambda z: len(str(z))):
        best = None
        for y in ys:
            if x[0] != y[0] or len(x) != len(y): continue
            m = mism(x, y, {})
            k = (any(unclear(p, q) or vague(p, q) for p, q in m), len(m))
            if m and (best is None or k < best[2]): best = (y, m, k)
        if best is None or best[2][0] or len(best[1]) > 16: return []
        ys = ys - {best[0]}; out.append(best[1][0])
    return [({}, p, q) for p, q in out]
def along(t, f):
    """what is left of a term, or of the effects, on the path"""
    while t[:1] == ("ite",) and t[1] in f: t = t[2] if f[t[1]] else t[3]
    return t
def ingredients_differ(d, a, fa, b, fb):
    """paths, told apart by conditions that are not about collections, whose results and effects are made of different things"""
    def differ(f, x, y):
        if any(deep(k) or collection(k) or any(isinstance(z, tuple) and collection(z) for z in k) for k in f): return False
        rest = lambda u, v: ingredients(along(u, f)) | ingredients(along(v, f))
        return ingredients(x) != ingredients(y) and rest(a, fa) != rest(b, fb)
    return [x for x in d if not conflict(x[0].items()) and differ(*x)]
def vague(x, y):
    if isinstance(x, str) and isinstance(y, str) and x in TRIV and y in TRIV: return {x[9:], y[9:]} not in ({"any", "all"}, {"min", "max"})
    if isinstance(x, tuple) and isinstance(y, tuple) and ingredients(x) != ingredients(y): return False
    def g(x): return isinstance(x, tuple) and (collection(x) or x[:1] == ("sym",)) or x in ("list", "dict", "set", "list*", "dict*", "set*", "tuple")
    return g(x) or g(y)
def certain(d):
    """the differences that do not come from a loop written in another form, nor from reads moved across effects"""
    return [x for x in d if not conflict(x[0].items()) and not all(unclear(p, q) or bare(p) is bare(q) for p, q in mism(x[1], x[2], {})) and not all(unclear(p, q) or bare(p) is bare(q) for p, q in skipping(*x))]
def contradictory(f):
    for k, v in f.items():
        rest = {a: b for a, b in f.items() if a is not k}
        d = decide(k, rest)
        if d is not None and d != v: return True
        # a dict made by a call does not hold None
        if v and k[0] == "isnone" and k[1][0] == "sub" and k[1][1][0] == "call" and len(k[1]) == 3 and f.get(I(("in", k[1][2], k[1][1]))): return True
    return False

def show(t, d=0):
    if not isinstance(t, tuple) or not t: return str(t)
    k = t[0]
    if d > 7: return "..."
    S = lambda x: show(x, d+1)
    if k == "const": return repr(t[2])
    if k == "glob": return t[1].replace("_scipp.core.", "_cpp.").replace("builtins.", "")
    if k == "par": return t[1]
    if k == "sym": return "v%d" % t[2]
    if k == "bv": return "v%d" % t[1]
    if k == "attr": return "%s.%s%s" % (S(t[1]), t[2], "'" if len(t) > 3 else "")
    if k == "sub": return "%s[%s]%s" % (S(t[1]), S(t[2]), "'" if len(t) > 3 else "")
    if k == "slice": return ":".join("" if x is NONE else S(x) for x in t[1:])
    if k == "call": return "%s(%s)" % (S(t[1]), ", ".join([S(x) for x in t[2]] + ["%s=%s" % (a, S(b)) for a, b in t[3]]))
    if k in ("tuple", "list", "set"): return {"tuple": "(%s)", "list": "[%s]", "set": "{%s}"}[k] % ", ".join(S(x) for x in t[1])
    if k == "dict": return "{%s}" % ", ".join("%s: %s" % (S(a) if a is not None else "**", S(b)) for a, b in t[1])
    if k == "star": return "*" + S(t[1])
    if k == "bin" or k == "ibin": return "(%s %s %s)" % (S(t[2]), t[1], S(t[3]))
    if k == "rel": return "(%s %s %s)" % (S(t[2]), t[1], S(t[3]))
    if k == "un": return t[1] + S(t[2])
    if k == "ite": return "(%s if %s else %s)" % (S(t[2]), S(t[1]), S(t[3]))
    if k == "isnone": return S(t[1]) + " is None"
    if k == "isinst": return "isinstance(%s, %s)" % (S(t[1]), t[2].split(".")[-1])
    if k == "truthy": return "bool(%s)" % S(t[1])
    if k == "eq": return "%s == %s" % (S(t[1]), S(t[2]))
    if k == "cmp": return "%s %s %s" % (S(t[2]), t[1], S(t[3]))
    if k == "in": return "%s in %s" % (S(t[1]), S(t[2]))
    if k == "ret": return "returns " + S(t[1])
    if k == "raise": return "raises " + str(t[1])
    if k == "comp": return "%s[%s for %s in %s if %s]" % (t[1], S(t[5]), S(t[3]), S(t[2]), S(t[4])) if t[4] is not TRUE else "%s[%s for %s in %s]" % (t[1], S(t[5]), S(t[3]), S(t[2]))
    if k == "lam": return "lambda %s: %s" % (", ".join(S(x) for x in t[1]), S(t[2]))
    if k == "fall": return "returns nothing"
    if k == "fx0": return "-"
    if k == "seq": return "%s; %s" % (S(t[1]), S(t[2]))
    if k in ("setitem",): return "%s[%s] = %s" % (S(t[1]), S(t[2]), S(t[3]))
    if k == "setattr": return "%s.%s = %s" % (S(t[1]), t[2], S(t[3]))
    if k == "len": return "len(%s)" % S(t[1])
    if k == "fn": return t[1].split(".")[-1]
    return "%s(%s)" % (k, ", ".join(S(x) if isinstance(x, tuple) else str(x) for x in t[1:]))
