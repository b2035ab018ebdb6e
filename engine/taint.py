"""Which text reaches markup: abstract interpretation of the modules that produce HTML and SVG.
Values: NUM (numbers and truth values), TXT (constant text, markup, escaped text), RAW (text that may come from the data; with where
it comes from), functions, tuples, objects of the analysed classes. Calls of functions of the package are followed with the abstract
values of the arguments; loops and recursion are iterated to a fixed point.
Violations: a RAW value that is joined into text containing tags, that is substituted into a template, or that an entry point yields."""
import ast, os, re, sys
REPO = os.environ.get("REPO") or os.environ.get("SCIPP_REPO") or "/repo"
SRC = os.path.join(REPO, "src")
TAG = re.compile(r"<\s*/?\s*[A-Za-z!{$]|/>|</")
NUMATTR = {"shape", "size", "ndim", "nbytes", "aligned", "_aligned", "hex_"}
NUMCALL = {"len", "int", "float", "bool", "abs", "round", "isinstance", "hasattr", "callable", "id", "hash", "issubclass", "range", "any", "all", "ord", "uuid4", "uuid1", "time"}
NUMMETH = {"__sizeof__", "underlying_size", "is_edges", "find", "rfind", "index", "count", "startswith", "endswith", "any", "all", "isdigit", "rand", "random", "bit_length"}
NUMSPEC = re.compile(r"[bcdeEfFgGnoxX%]$")
def numeric_fields(template):
    """positions and names whose every replacement field has a number format"""
    import string
    seen = {}; i = 0
    try: fs = list(string.Formatter().parse(template))
    except ValueError: return set()
    for _, field, spec, conv in fs:
        if field is None: continue
        k = re.split(r"[.\[]", field)[0]
        if k == "": k = str(i); i += 1
        seen[k] = seen.get(k, True) and bool(spec and NUMSPEC.search(spec)) and not conv
    return {k for k, v in seen.items() if v}
def percent_fields(template):
    cs = [c for c in re.findall(r"%[-#0 +]*(?:\d+|\*)?(?:\.(?:\d+|\*))?([a-zA-Z%])", template) if c != "%"]
    return {i for i, c in enumerate(cs) if c in "dieEfFgGoxXu"}
class V:
    """kinds: subset of {'num','raw'} (empty: text that is safe); raw: where from; funcs: (module, node, env, bound); objs: class names; elts: of a tuple; keys: of a dict whose values the others describe; esc: 1 contains escaped text or markup, 2 its elements do"""
    __slots__ = ("num", "raw", "funcs", "objs", "elts", "keys", "esc")
    def __init__(s, num=False, raw=(), funcs=(), objs=(), elts=None, keys=None, esc=0):
        s.esc = esc
        s.num, s.raw, s.funcs, s.objs, s.elts, s.keys = num, frozenset(raw), frozenset(funcs), frozenset(objs), elts, None if keys is None else frozenset(keys)
    def key(s): return (s.num, s.esc, bool(s.raw), tuple(sorted(map(repr, s.funcs))), tuple(sorted(s.objs)), None if s.elts is None else tuple(e.key() for e in s.elts), None if s.keys is None else bool(s.keys))
TXT, NUM = V(), V(num=True)
def RAW(w): return V(raw=(w,))
def join(*vs):
    vs = [v for v in vs if v is not None]
    if not vs: return TXT
    if len(vs) == 1: return vs[0]
    raw = set().union(*(v.raw for v in vs))
    if len(raw) > 8: raw = set(sorted(raw)[:8])
    el = None
    if all(v.elts is not None for v in vs) and len({len(v.elts) for v in vs}) == 1: el = tuple(join(*z) for z in zip(*[v.elts for v in vs]))
    else:
        for v in vs:
            if v.elts is not None: raw |= flat(v).raw
    return V(all(v.num for v in vs), raw, set().union(*(v.funcs for v in vs)), set().union(*(v.objs for v in vs)), el, None if all(v.keys is None for v in vs) else set().union(*(v.keys or () for v in vs)), max(v.esc for v in vs))
def flat(v):
    if v.keys is not None: return V(v.num and not v.keys, v.raw | v.keys, v.funcs, v.objs)
    if v.elts is None: return v
    if not v.elts: return NUM
    f = join(*[flat(e) for e in v.elts])
    return V(f.num, f.raw | v.raw, f.funcs | v.funcs, f.objs | v.objs, esc=2 if f.esc else 0)
def item(v):
    """an element of a container of unknown position"""
    f = flat(v); return V(f.num, f.raw, f.funcs, f.objs, esc=1 if f.esc == 2 else 0)
def listof(v): return V(v.num, v.raw, v.funcs, v.objs, esc=2 if v.esc else 0)
class Mod:
    def __init__(s, name, path):
        s.name, s.path = name, path; s.tree = ast.parse(open(path).read()); s.defs = {}; s.imports = {}
        for n in s.tree.body: s.top(n)
    def top(s, n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)): s.defs[n.name] = n
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name): s.defs[t.id] = n.value
        elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name): s.defs[n.target.id] = n.value
        elif isinstance(n, (ast.If, ast.Try)):
            for x in n.body + n.orelse: s.top(x)
        elif isinstance(n, (ast.Import, ast.ImportFrom)): s.imp(n, s.imports)
    def imp(s, n, into):
        if isinstance(n, ast.Import):
            for a in n.names: into[a.asname or a.name.split(".")[0]] = (a.name if a.asname else a.name.split(".")[0], None)
        else:
            pkg = s.name.split(".") if s.path.endswith("__init__.py") else s.name.split(".")[:-1]
            base = ".".join(pkg[:len(pkg) - (n.level - 1)] + ([n.module] if n.module else [])) if n.level else n.module
            for a in n.names: into[a.asname or a.name] = (base, a.name)
class Taint:
    def __init__(s, roots):
        s.roots = roots; s.mods = {}; s.bad = {}; s.memo = {}; s.active = {}; s.attrs = {}; s.sites = set(); s.escapes = set(); s.followed = set(); s.changed = False
    def mod(s, name):
        if name not in s.mods:
            p = os.path.join(SRC, *name.split("."))
            f = p + ".py" if os.path.exists(p + ".py") else os.path.join(p, "__init__.py")
            s.mods[name] = Mod(name, f) if name.startswith("scipp") and os.path.exists(f) else None
        return s.mods[name]
    def where(s, m, n): return "%s:%d" % (os.path.relpath(m.path, REPO), n.lineno)
    def follow(s, m): return m.startswith(("scipp.visualization", "scipp.utils", "scipp.format", "scipp.logging"))
    # ---- names
    def resolve(s, mod, name, depth=0):
        """-> ('fn', Mod, node) | ('class', Mod, node) | ('expr', Mod, node) | ('ext', dotted)"""
        m = s.mod(mod)
        if m is None or depth > 8: return ("ext", mod + "." + name)
        d = m.defs.get(name)
        if isinstance(d, ast.FunctionDef): return ("fn", m, d)
        if isinstance(d, ast.ClassDef): return ("class", m, d)
        if d is not None: return ("expr", m, d)
        if name in m.imports:
            b, a = m.imports[name]
            if a is None: return ("ext", b)
            if s.mod(b + "." + a) is not None and not (s.mod(b) and a in s.mod(b).defs): return ("module", b + "." + a)
            return s.resolve(b, a, depth+1)
        return ("ext", mod + "." + name)
    def name(s, n, fr):
        f = fr
        while f is not None:
            if n in f.env: return f.env[n]
            f = f.parent
        return None
    def globalname(s, n, fr):
        f = fr
        while f is not None:
            if n in f.imports:
                b, a = f.imports[n]
                return s.resolve(b, a) if a else ("ext", b)
            f = f.parent
        m = fr.mod
        if n in m.defs or n in m.imports: return s.resolve(m.name, n)
        return ("ext", "builtins." + n)
    def value(s, r, at):
        if r[0] == "fn": return V(funcs=[("fn", r[1].name, r[2].lineno, r[2].name)]) if s.follow(r[1].name) else V(funcs=[("ext", r[1].name + "." + r[2].name)])
        if r[0] == "class": return V(funcs=[("class", r[1].name, r[2].name)])
        if r[0] == "module": return V(funcs=[("module", r[1])])
        if r[0] == "expr":
            k = ("const", r[1].name, id(r[2]))
            if k not in s.memo:
                s.memo[k] = TXT; s.memo[k] = s.ev(r[2], Frame(s, r[1], None, "<module>"))
            return s.memo[k]
        return V(funcs=[("ext", r[1])])
    # ---- expressions
    def ev(s, n, fr):
        f = getattr(s, "e_" + type(n).__name__, None)
        if f: return f(n, fr)
        kids = [s.ev(c, fr) for c in ast.iter_child_nodes(n) if isinstance(c, ast.expr)]
        return flat(join(*kids)) if kids else TXT
    def e_Constant(s, n, fr): return TXT if isinstance(n.value, (str, bytes)) else NUM
    def e_Name(s, n, fr):
        v = s.name(n.id, fr)
        return v if v is not None else s.value(s.globalname(n.id, fr), n)
    def markup(s, fr, n, texts, parts):
        """texts: constant pieces; parts: (node, value) joined to them"""
        tag = any(TAG.search(t) for t in texts)
        if tag: s.sites.add((fr.mod.name, n.lineno))
        bad = [(x, v) for x, v in parts if flat(v).raw]
        esc = 1 if tag or any(flat(v).esc for _, v in parts) else 0
        if tag and bad:
            for x, v in bad: s.report(fr, x, v, "is put into markup")
            return V(esc=esc)
        return join(V(esc=esc), *[V(raw=flat(v).raw) for _, v in parts])
    def report(s, fr, x, v, how):
        if not flat(v).raw: s.bad.setdefault((fr.mod.name, fr.fn, ast.unparse(x)[:60]), "%s: %s: %s %s" % (s.where(fr.mod, x), fr.fn, ast.unparse(x)[:80], how)); return
        src = sorted(flat(v).raw)[0]
        s.bad.setdefault((fr.mod.name, fr.fn, ast.unparse(x)[:60]), "%s: %s: %s %s without being escaped (text from %s)" % (s.where(fr.mod, x), fr.fn, ast.unparse(x)[:80], how, src))
    def e_JoinedStr(s, n, fr):
        texts, parts = [], []
        for p in n.values:
            if isinstance(p, ast.Constant): texts.append(p.value); continue
            v = s.ev(p.value, fr)
            spec = p.format_spec
            if spec is not None:
                t = [q.value for q in spec.values if isinstance(q, ast.Constant)]
                if t and NUMSPEC.search(t[-1]): v = NUM
            if flat(v).num: v = NUM
            parts.append((p.value, v))
        return s.markup(fr, n, texts, parts)
    def consttext(s, n, fr, depth=0):
        """constant text that an expression is known to contain"""
        if isinstance(n, ast.Constant): return [n.value] if isinstance(n.value, str) else []
        if isinstance(n, ast.JoinedStr): return [p.value for p in n.values if isinstance(p, ast.Constant)]
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add): return s.consttext(n.left, fr, depth) + s.consttext(n.right, fr, depth)
        if isinstance(n, ast.IfExp): return s.consttext(n.body, fr, depth) + s.consttext(n.orelse, fr, depth)
        if isinstance(n, ast.Name) and depth < 4:
            if n.id in fr.markup: return ["<p>"]
            r = s.globalname(n.id, fr) if s.name(n.id, fr) is None else ("", )
            if r[0] == "expr": return s.consttext(r[2], fr, depth+1)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("join", "format", "replace"): return s.consttext(n.func.value, fr, depth)
        if isinstance(n, (ast.List, ast.Tuple)): return [t for e in n.elts for t in s.consttext(e, fr, depth)]
        return []
    def e_BinOp(s, n, fr):
        a, b = s.ev(n.left, fr), s.ev(n.right, fr); fa, fb = flat(a), flat(b)
        if isinstance(n.op, (ast.Sub, ast.Div, ast.FloorDiv, ast.Pow, ast.MatMult, ast.LShift, ast.RShift)): return NUM
        if isinstance(n.op, ast.Add):
            if fa.num and a.elts is None or fb.num and b.elts is None: return NUM
            if a.elts is not None and b.elts is not None: return V(elts=a.elts + b.elts)
            if not fa.raw and not fb.raw: return join(fa, fb)
            return s.markup(fr, n, s.consttext(n, fr), [(n.left, a), (n.right, b)])
        if isinstance(n.op, ast.Mult):
            return NUM if fa.num and fb.num or any(isinstance(x, ast.Constant) and isinstance(x.value, float) for x in (n.left, n.right)) else join(fa, fb)
        if isinstance(n.op, ast.Mod):
            t = s.consttext(n.left, fr)
            if not t and fa.num: return NUM
            const = n.left.value if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) else None
            nums = percent_fields(const) if const is not None else ()
            ps = list(zip(n.right.elts, b.elts)) if isinstance(n.right, ast.Tuple) and b.elts else [(n.right, b)]
            return s.markup(fr, n, t, [(n.left, a)] + [(x, NUM if flat(v).num or i in nums else v) for i, (x, v) in enumerate(ps)])
        return join(fa, fb)
    def e_UnaryOp(s, n, fr): s.ev(n.operand, fr); return NUM
    def e_Compare(s, n, fr):
        for x in [n.left] + n.comparators: s.ev(x, fr)
        return NUM
    def e_BoolOp(s, n, fr): return join(*[s.ev(v, fr) for v in n.values])
    def e_IfExp(s, n, fr): s.ev(n.test, fr); return join(s.ev(n.body, fr), s.ev(n.orelse, fr))
    def e_Tuple(s, n, fr):
        if any(isinstance(e, ast.Starred) for e in n.elts): return listof(join(*[item(s.ev(e.value, fr)) if isinstance(e, ast.Starred) else flat(s.ev(e, fr)) for e in n.elts]))
        return V(elts=tuple(s.ev(e, fr) for e in n.elts))
    def e_List(s, n, fr): return listof(join(*[item(s.ev(e.value, fr)) if isinstance(e, ast.Starred) else flat(s.ev(e, fr)) for e in n.elts])) if n.elts else V()
    e_Set = e_List
    def e_Dict(s, n, fr):
        ks = set().union(set(), *[flat(s.ev(k, fr)).raw for k in n.keys if k is not None]); vs = []
        for k, v in zip(n.keys, n.values):
            x = s.ev(v, fr)
            if k is None:
                ks |= x.keys if x.keys is not None else flat(x).raw
                vs.append(V(x.num, x.raw, x.funcs, x.objs) if x.keys is not None else flat(x))
            else: vs.append(flat(x))
        j = join(*vs) if vs else TXT
        return V(j.num and bool(vs), j.raw, j.funcs, j.objs, None, ks)
    def e_Starred(s, n, fr): return s.ev(n.value, fr)
    def e_NamedExpr(s, n, fr): v = s.ev(n.value, fr); s.bind(n.target, v, fr); return v
    def e_Await(s, n, fr): return s.ev(n.value, fr)
    def e_Lambda(s, n, fr): return V(funcs=[s.closure(n, fr)])
    def e_Attribute(s, n, fr):
        if n.attr in NUMATTR: s.ev(n.value, fr); return NUM
        if n.attr == "__name__" and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id in ("type",): return TXT
        b = s.ev(n.value, fr)
        r = []
        for o in b.objs:
            m = s.method(o, n.attr)
            if m: r.append(V(funcs=[("meth", o, n.attr)]))
            elif (o, n.attr) in s.attrs: r.append(s.attrs[o, n.attr])
        for f in b.funcs:
            if f[0] == "module": r.append(s.value(s.resolve(f[1], n.attr), n))
            elif f[0] == "class":
                m = s.method(f[1] + "." + f[2], n.attr)
                r.append(V(funcs=[("meth", f[1] + "." + f[2], n.attr)]) if m else TXT)
            elif f[0] == "ext": r.append(V(funcs=[("ext", f[1] + "." + n.attr)]))
        if b.raw: r.append(RAW("%s at %s" % (ast.unparse(n)[:60], s.where(fr.mod, n))))
        return join(*r) if r else (TXT if not b.num else NUM)
    def method(s, cls, name):
        mod, _, c = cls.rpartition("."); m = s.mod(mod); d = m and m.defs.get(c)
        if not isinstance(d, ast.ClassDef): return None
        for x in d.body:
            if isinstance(x, ast.FunctionDef) and x.name == name: return m, x
        for b in d.bases:
            if isinstance(b, ast.Name):
                r = s.resolve(mod, b.id)
                if r[0] == "class":
                    q = s.method(r[1].name + "." + r[2].name, name)
                    if q: return q
        return None
    def e_Subscript(s, n, fr):
        v = s.ev(n.value, fr)
        if isinstance(n.slice, ast.Slice):
            for x in (n.slice.lower, n.slice.upper, n.slice.step):
                if x is not None: s.ev(x, fr)
            f = flat(v)
            return V(f.num, f.raw | {"escaped text that is cut at %s" % s.where(fr.mod, n)}, f.funcs, f.objs) if f.esc == 1 else f
        k = s.ev(n.slice, fr)
        if v.elts is not None and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int) and -len(v.elts) <= n.slice.value < len(v.elts): return v.elts[n.slice.value]
        if v.keys is not None: return V(v.num, v.raw, v.funcs, v.objs)
        return item(v)
    def comp(s, n, fr, elts):
        f = Frame(s, fr.mod, fr, fr.fn); f.markup = fr.markup
        for _ in range(2):
            for g in n.generators:
                s.bind(g.target, s.iterate(g.iter, f), f)
                for c in g.ifs: s.ev(c, f)
        return listof(flat(join(*[s.ev(e, f) for e in elts])))
    def e_ListComp(s, n, fr): return s.comp(n, fr, [n.elt])
    e_SetComp = e_GeneratorExp = e_ListComp
    def e_DictComp(s, n, fr):
        k, v = s.comp(n, fr, [n.key]), s.comp(n, fr, [n.value])
        return V(v.num, v.raw, v.funcs, v.objs, None, flat(k).raw)
    def iterate(s, it, fr):
        """abstract value of an element of what is iterated over"""
        if isinstance(it, ast.Call):
            f = it.func; fn = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
            if isinstance(f, ast.Name) and fn == "enumerate" and it.args: return V(elts=(NUM, s.iterate(it.args[0], fr)))
            if isinstance(f, ast.Name) and fn == "zip": return V(elts=tuple(s.iterate(a, fr) for a in it.args))
            if isinstance(f, ast.Name) and fn in ("sorted", "reversed", "list", "tuple", "iter") and len(it.args) == 1:
                for k in it.keywords: s.ev(k.value, fr)
                return s.iterate(it.args[0], fr)
            if isinstance(f, ast.Name) and fn == "range":
                for a in it.args: s.ev(a, fr)
                return NUM
            if isinstance(f, ast.Attribute) and fn == "items" and not it.args:
                b = s.ev(f.value, fr)
                if isinstance(f.value, ast.Attribute) and f.value.attr == "sizes": return V(elts=(flat(b), NUM))
                if b.keys is not None: return V(elts=(V(raw=b.keys), V(b.num, b.raw, b.funcs, b.objs)))
                return V(elts=(V(raw=flat(b).raw), flat(b)))
            if isinstance(f, ast.Attribute) and fn in ("keys", "values") and not it.args:
                b = s.ev(f.value, fr)
                if b.keys is not None: return V(raw=b.keys) if fn == "keys" else V(b.num, b.raw, b.funcs, b.objs)
                return flat(b)
        if isinstance(it, (ast.List, ast.Tuple)): return join(*[item_of(s.ev(e, fr), e) for e in it.elts]) if it.elts else TXT
        v = s.ev(it, fr)
        if v.elts is not None: return join(*v.elts) if v.elts else TXT
        if v.keys is not None: return V(raw=v.keys)
        return item(v)
    # ---- calls
    def e_Call(s, n, fr):
        f = n.func
        args = [(a, s.ev(a.value if isinstance(a, ast.Starred) else a, fr)) for a in n.args]
        kws = [(k.arg, k.value, s.ev(k.value, fr)) for k in n.keywords]
        allv = [flat(v) for _, v in args] + [flat(v) for _, _, v in kws]
        un = V(raw=set().union(set(), *[v.raw for v in allv]))
        if isinstance(f, ast.Attribute):
            b = s.ev(f.value, fr); a = f.attr
            if a in ("format", "substitute", "safe_substitute"):
                texts = s.consttext(f.value, fr)
                if a != "format": texts = texts + ["<p>"]      # a template file
                nums = numeric_fields(f.value.value) if a == "format" and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str) and not any(isinstance(x, ast.Starred) for x in n.args) else ()
                parts = [(x, NUM if flat(v).num or str(i) in nums else v) for i, (x, v) in enumerate(args)] + [(x, NUM if flat(v).num or k in nums else v) for k, x, v in kws]
                if not b.raw or isinstance(f.value, ast.Constant): return s.markup(fr, n, texts, parts)
                return join(flat(b), un)
            if a == "join":
                texts = s.consttext(f.value, fr) + [t for x, _ in args for t in s.consttext(x, fr)] + [t for x, _ in args if isinstance(x, (ast.ListComp, ast.GeneratorExp)) for t in s.consttext(x.elt, fr)]
                return s.markup(fr, n, texts, [(x, V(raw=v.raw, esc=1 if v.esc else 0) if not v.num else NUM) for (x, _), v in zip(args, allv)])
            if a == "replace" and not b.funcs:
                if len(args) == 2: return s.markup(fr, n, s.consttext(f.value, fr) + s.consttext(args[1][0], fr), [(f.value, b), args[1]]) if flat(args[1][1]).raw else V(raw=flat(b).raw, esc=flat(b).esc)
            if a in ("append", "extend", "insert", "add", "update", "setdefault", "write") and isinstance(f.value, ast.Name) and s.name(f.value.id, fr) is not None:
                old = s.name(f.value.id, fr); s.setname(f.value.id, join(flat(old), *[v if a == "extend" else listof(v) for v in allv]) if args or kws else old, fr); return NUM
            if a in ("append", "extend") and isinstance(f.value, ast.Attribute) and isinstance(f.value.value, ast.Name) and f.value.value.id == "self":
                for o in (s.name("self", fr) or TXT).objs: s.setattr(o, f.value.attr, join(*[v if a == "extend" else listof(v) for v in allv]))
                return NUM
            if b.funcs or b.objs:
                g = s.e_Attribute(f, fr)
                fs = [x for x in g.funcs if x[0] in ("fn", "class", "meth", "closure", "partial")]
                if fs: return join(*[s.invoke(x, args, kws, fr, n, b) for x in fs])
                if any(x[0] == "ext" for x in g.funcs): return s.external(sorted(x[1] for x in g.funcs if x[0] == "ext")[0], args, kws, un, fr, n)
            if a in NUMMETH: return NUM
            if b.keys is not None and a in ("get", "pop", "values"): return join(V(b.num, b.raw, b.funcs, b.objs), *([flat(args[1][1])] if len(args) > 1 else []))
            if b.keys is not None and a == "keys": return V(raw=b.keys)
            if b.keys is not None and a == "copy": return b
            return V(raw=flat(b).raw | un.raw, num=flat(b).num and a in ("max", "min", "sum", "mean"))
        g = s.ev(f, fr)
        r = []
        for x in sorted(g.funcs, key=repr):
            if x[0] == "ext": r.append(s.external(x[1], args, kws, un, fr, n))
            else: r.append(s.invoke(x, args, kws, fr, n))
        if g.raw: r.append(V(raw=g.raw | un.raw))
        return join(*r) if r else un
    def external(s, name, args, kws, un, fr, n):
        last = name.split(".")[-1]
        if name == "html.escape" or name.endswith("saxutils.escape") or name.endswith("saxutils.quoteattr"): 
            s.escapes.add((fr.mod.name, n.lineno))
            for x, v in args[:1]:
                if flat(v).esc: s.report(fr, x, V(), "is escaped although it is markup or escaped already")
            return V(esc=1)
        if name in ("builtins.isinstance",) or last in NUMCALL: return NUM
        if name == "builtins.format" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant) and NUMSPEC.search(str(n.args[1].value)): return NUM
        if name == "builtins.str" and len(args) == 1: return V(False, un.raw, esc=1 if flat(args[0][1]).esc == 1 else 0)
        if name == "builtins.type": return V(raw=un.raw)
        if name == "functools.partial" and args:
            return V(funcs=[("partial", x, tuple((i, v) for i, (_, v) in enumerate(args[1:])), tuple((k, v) for k, _, v in kws)) for x in args[0][1].funcs])
        if name in ("builtins.getattr",) and len(args) > 1: return join(un)
        if name == "builtins.map" and args: return join(*[s.invoke(x, [(a, item(v)) for a, v in args[1:]], [], fr, n) if x[0] != "ext" else s.external(x[1], args[1:], [], V(raw=set().union(set(), *[flat(v).raw for _, v in args[1:]])), fr, n) for x in args[0][1].funcs]) if args[0][1].funcs else un
        if name.startswith(("builtins.min", "builtins.max", "builtins.sum")) and args and all(flat(v).num for _, v in args): return NUM
        if last in ("HTML", "SVG") and "IPython" in name:
            s.sites.add((fr.mod.name, n.lineno))
            for x, v in args:
                if flat(v).raw: s.report(fr, x, v, "is displayed as markup")
            return TXT
        if last == "Template": return V(raw=un.raw)
        if name == "operator.mul": return NUM
        if name == "functools.reduce" and args and any(x == ("ext", "operator.mul") for x in args[0][1].funcs): return NUM
        if name.startswith("numpy.") and last in ("floor", "log10", "zeros", "ones", "sqrt", "prod", "array") and all(flat(v).num for _, v in args): return NUM
        return un
    def invoke(s, x, args, kws, fr, n, bound=None):
        if x[0] == "ext": return s.external(x[1], args, kws, V(raw=set().union(set(), *[flat(v).raw for _, v in args], *[flat(v).raw for _, _, v in kws])), fr, n)
        if x[0] == "module": return TXT
        if x[0] == "partial":
            k2 = {k: v for k, v in x[3]}
            k2.update({k: v for k, _, v in kws})
            return s.invoke(x[1], [(n, v) for _, v in x[2]] + list(args), [(k, n, v) for k, v in k2.items()], fr, n)
        if x[0] == "class":
            cls = x[1] + "." + x[2]; q = s.method(cls, "__init__")
            if not s.follow(x[1]): return V(raw=set().union(set(), *[flat(v).raw for _, v in args], *[flat(v).raw for _, _, v in kws]))
            if not q and any("dataclass" in ast.unparse(c) for c in s.mod(x[1]).defs[x[2]].decorator_list):
                names = [c.target.id for c in s.mod(x[1]).defs[x[2]].body if isinstance(c, ast.AnnAssign)]
                for k, v in list(zip(names, [v for _, v in args])) + [(k, v) for k, _, v in kws if k]: s.setattr(cls, k, v)
            if q: s.run(q[0], q[1], [(None, V(objs=[cls]))] + list(args), kws, None)
            return V(objs=[cls])
        if x[0] == "meth":
            m, d = s.method(x[1], x[2])
            st = any(isinstance(c, ast.Name) and c.id == "staticmethod" for c in d.decorator_list)
            return s.run(m, d, ([] if st else [(None, V(objs=[x[1]]))]) + list(args), kws, None)
        if x[0] == "closure": c = s.closures[x[1]]; return s.run(c[0], c[1], args, kws, c[2])
        m = s.mod(x[1]); d = m.defs[x[3]] if x[3] in m.defs else None
        return s.run(m, d, args, kws, None)
    closures = {}
    def closure(s, n, fr):
        k = (fr.mod.name, n.lineno, n.col_offset); s.closures[k] = (fr.mod, n, fr); return ("closure", k)
    def annotated(s, a):
        """the annotation of a parameter says it is a number (or several)"""
        if a is None: return False
        t = {x.id for x in ast.walk(a) if isinstance(x, ast.Name)} | {x.value for x in ast.walk(a) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
        return bool(t) and t <= {"int", "float", "bool", "tuple", "list", "None", "Sequence", "Iterable", "range"}
    def run(s, m, d, args, kws, parent):
        if d is None: return TXT
        lam = isinstance(d, ast.Lambda); A = d.args; env = {}
        names = [a.arg for a in A.posonlyargs + A.args]
        defaults = dict(zip(names[len(names) - len(A.defaults):], A.defaults)); defaults.update({a.arg: v for a, v in zip(A.kwonlyargs, A.kw_defaults) if v is not None})
        fr = Frame(s, m, parent, getattr(d, "name", "lambda"))
        rest = []; star = None
        for i, (x, v) in enumerate(args):
            if isinstance(x, ast.Starred): star = item(v); continue
            if star is None and i < len(names): env[names[i]] = v
            else: rest.append(v)
        kw = {}
        for k, x, v in kws:
            if k is None: star = item(v) if star is None else join(star, item(v))
            elif k in names or k in [a.arg for a in A.kwonlyargs]: env[k] = v
            else: kw[k] = v
        for a in A.posonlyargs + A.args + A.kwonlyargs:
            if a.arg not in env: env[a.arg] = star if star is not None and a.arg not in defaults else s.ev(defaults[a.arg], fr) if a.arg in defaults else TXT
            if s.annotated(a.annotation): env[a.arg] = NUM
        if A.vararg: env[A.vararg.arg] = flat(join(*rest, *( [star] if star is not None else []))) if rest or star is not None else TXT
        if A.kwarg: env[A.kwarg.arg] = flat(join(*kw.values())) if kw else TXT
        key = (m.name, d.lineno, d.col_offset, id(parent) if parent else 0, tuple(sorted((k, v.key()) for k, v in env.items())))
        if key in s.active: return s.active[key]
        if key in s.memo and not parent and s.memo[key][1] == s.gen: return s.memo[key][0]
        if len(s.active) > 60: return V(raw=set().union(set(), *[flat(v).raw for v in env.values()]))
        s.followed.add((m.name, getattr(d, "name", "lambda")))
        s.active[key] = TXT; r = TXT
        for _ in range(6):
            f = Frame(s, m, parent, fr.fn); f.env = dict(env); f.ret = None
            if lam: r = s.ev(d.body, f)
            else:
                s.block(d.body, f); r = f.ret if f.ret is not None else TXT
            if r.key() == s.active[key].key(): break
            s.active[key] = join(s.active[key], r) if s.active[key] is not TXT else r
        del s.active[key]
        s.memo[key] = (r, s.gen); return r
    # ---- statements
    def setname(s, n, v, fr):
        f = fr
        while f is not None and n not in f.env: f = f.parent
        (f or fr).env[n] = v
    def setattr(s, o, a, v):
        old = s.attrs.get((o, a)); new = join(old, v) if old is not None else v
        if old is None or new.key() != old.key(): s.attrs[o, a] = new; s.changed = True
    def bind(s, t, v, fr):
        if isinstance(t, ast.Name): fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = any(isinstance(e, ast.Starred) for e in t.elts)
            for i, e in enumerate(t.elts):
                s.bind(e.value if isinstance(e, ast.Starred) else e, v.elts[i] if v.elts is not None and not star and len(v.elts) == len(t.elts) else flat(v), fr)
        elif isinstance(t, ast.Attribute):
            b = s.ev(t.value, fr)
            for o in b.objs: s.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
            old = s.name(t.value.id, fr)
            k = flat(s.ev(t.slice, fr)) if not isinstance(t.slice, ast.Slice) else TXT
            if old is not None and old.keys is not None:
                j = join(V(old.num, old.raw, old.funcs, old.objs), flat(v)); s.setname(t.value.id, V(j.num, j.raw, j.funcs, j.objs, None, old.keys | k.raw), fr)
            elif old is not None: s.setname(t.value.id, join(flat(old), flat(v), k), fr)
    def block(s, body, fr):
        for n in body: s.stmt(n, fr)
    def branch(s, fr, bodies):
        """alternatives: what may be in a variable afterwards"""
        e0 = dict(fr.env); outs = []
        for b in bodies:
            fr.env = dict(e0); s.block(b, fr)
            if not (b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))): outs.append(fr.env)
        if not outs: outs = [e0]
        fr.env = {k: join(*[o[k] for o in outs if k in o]) for k in {k for o in outs for k in o}}
    def stmt(s, n, fr):
        if isinstance(n, ast.Assign):
            v = s.ev(n.value, fr)
            for t in n.targets:
                s.bind(t, v, fr)
                if isinstance(t, ast.Name) and any(TAG.search(x) for x in s.consttext(n.value, fr)): fr.markup.add(t.id)
        elif isinstance(n, ast.AnnAssign):
            if n.value is not None: s.bind(n.target, s.ev(n.value, fr), fr)
        elif isinstance(n, ast.AugAssign):
            e = ast.copy_location(ast.BinOp(ast.copy_location(ast.Name(n.target.id, ast.Load()), n) if isinstance(n.target, ast.Name) else ast.copy_location(ast.parse(ast.unparse(n.target), mode="eval").body, n), n.op, n.value), n)
            ast.fix_missing_locations(e); v = s.ev(e, fr)
            if isinstance(n.target, ast.Name) and any(TAG.search(x) for x in s.consttext(n.value, fr)): fr.markup.add(n.target.id)
            s.bind(n.target, v, fr)
        elif isinstance(n, ast.Expr): s.ev(n.value, fr)
        elif isinstance(n, ast.Return):
            v = s.ev(n.value, fr) if n.value is not None else NUM
            fr.ret = v if fr.ret is None else join(fr.ret, v)
        elif isinstance(n, ast.If): s.ev(n.test, fr); s.branch(fr, [n.body, n.orelse])
        elif isinstance(n, (ast.For, ast.While)):
            for _ in range(3):
                if isinstance(n, ast.For): s.bind(n.target, s.iterate(n.iter, fr), fr)
                else: s.ev(n.test, fr)
                s.branch(fr, [n.body, []])
            s.block(n.orelse, fr)
        elif isinstance(n, ast.Try): s.branch(fr, [n.body + n.orelse] + [n.body + h.body for h in n.handlers]); s.block(n.finalbody, fr)
        elif isinstance(n, ast.With):
            for i in n.items:
                v = s.ev(i.context_expr, fr)
                if i.optional_vars is not None: s.bind(i.optional_vars, v, fr)
            s.block(n.body, fr)
        elif isinstance(n, ast.Match):
            v = s.ev(n.subject, fr)
            for c in n.cases:
                for x in ast.walk(c.pattern):
                    if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name: fr.env[x.name] = flat(v)
            s.branch(fr, [c.body for c in n.cases] + [[]])
        elif isinstance(n, ast.FunctionDef): fr.env[n.name] = V(funcs=[s.closure(n, fr)])
        elif isinstance(n, (ast.Import, ast.ImportFrom)): fr.mod.imp(n, fr.imports)
        elif isinstance(n, (ast.Raise, ast.Assert, ast.Pass, ast.Delete, ast.Global, ast.Nonlocal, ast.Break, ast.Continue)): pass
        elif isinstance(n, ast.ClassDef): pass
    # ----
    gen = 0
    def analyse(s):
        for s.gen in range(8):
            s.changed = False; s.bad = {}
            for mod, fn in s.roots:
                r = s.resolve(mod, fn)
                if r[0] != "fn": s.bad[mod, fn, "missing"] = None; continue
                m, d = r[1], r[2]
                a = [(None, RAW("argument %s of %s.%s" % (x.arg, mod, fn))) for x in d.args.args]
                k = [(x.arg, None, RAW("argument %s" % x.arg)) for x in d.args.kwonlyargs]
                v = s.run(m, d, a, k, None)
                if flat(v).raw:
                    f = Frame(s, m, None, fn); s.report(f, ast.copy_location(ast.Name("the result", ast.Load()), d), v, "is yielded as markup")
            s.log()
            if not s.changed: break
        return s
    def log(s):
        """the log widget: what a handler makes of a record whose texts are arbitrary, and what the widget makes of that"""
        m = s.mod("scipp.logging")
        if m is None: return
        rec = "scipp.logging.WidgetLogRecord"
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.FunctionDef): continue
            if n.name == "format" and s.method("scipp.logging.WidgetHandler", "format") == (m, n):
                v = s.run(m, n, [(None, V(objs=["scipp.logging.WidgetHandler"])), (None, RAW("a log record"))], [], None)
                msg = s.attrs.get((rec, "message"))
                if msg is not None and flat(msg).raw: s.report(Frame(s, m, None, n.name), ast.copy_location(ast.Name("the message", ast.Load()), n), msg, "is handed to the widget")
            if n.name == "_format_row" and n.args.args:
                for a in ("name", "levelname", "time_stamp"): s.setattr(rec, a, RAW("%s of a log record" % a))
                args = [(None, V(objs=[rec]))]
                if len(n.args.args) > 1: args.insert(0, (None, TXT))
                s.run(m, n, args, [], None)
def item_of(v, e): return item(v) if isinstance(e, ast.Starred) else v
class Frame:
    def __init__(s, t, mod, parent, fn): s.mod, s.parent, s.fn, s.env, s.imports, s.ret, s.markup = mod, parent, fn, {}, {}, None, set(parent.markup) if parent else set()
ROOTS = [("scipp.visualization.formatting_html", "variable_repr"), ("scipp.visualization.formatting_html", "data_array_dataset_repr"), ("scipp.visualization.formatting_datagroup_html", "datagroup_repr"),
         ("scipp.visualization.html", "make_html"), ("scipp.visualization.html", "to_html"), ("scipp.visualization.table", "table"), ("scipp.visualization.show", "make_svg"), ("scipp.visualization.show", "show")]
if __name__ == "__main__":
    sys.setrecursionlimit(10000)
    t = Taint(ROOTS).analyse()
    for k, v in sorted(t.bad.items(), key=repr): print(k, "\n    ", v)
    print(len(t.sites), "sites", len(t.escapes), "escapes", len(t.followed), "functions")
