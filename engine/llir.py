"""Parser for the textual LLVM IR (clang 18, opaque pointers) of the witness units."""
import re

class Ty:
    __slots__ = ("k", "a", "n", "name")
    def __init__(s, k, a=None, n=None, name=None): s.k, s.a, s.n, s.name = k, a, n, name
    def __repr__(s):
        if s.k == "int": return "i%d" % s.n
        if s.k in ("arr", "vec"): return ("[%d x %r]" if s.k == "arr" else "<%d x %r>") % (s.n, s.a)
        if s.k == "struct": return "{" + ",".join(map(repr, s.a or [])) + "}"
        if s.k == "named": return s.name
        return s.k

TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<glob>@(?:"[^"]*"|[-\w.$]+))
 |(?P<loc>%(?:"[^"]*"|[-\w.$]+))
 |(?P<meta>![\w.]*|\#\d+)
 |(?P<num>0x[KMLHR]?[0-9A-Fa-f]+|-?\d+\.\d*(?:[eE][-+]?\d+)?|-?\d+)
 |(?P<dots>\.\.\.)
 |(?P<word>[A-Za-z_$.][\w.$-]*)
 |(?P<p>[()\[\]{}<>,=*:|])
)''', re.X)

def lex(line):
    out, i = [], 0
    while i < len(line):
        m = TOK.match(line, i)
        if not m:
            if line[i:].strip() == "" or line[i:].lstrip().startswith(";"): break
            raise ValueError("lex: " + line[i:i+60])
        if line[i:].lstrip().startswith(";"): break
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out

class Ins:
    __slots__ = ("res", "op", "ty", "args", "x", "line")
    def __init__(s, res, op, ty, args, x=None, line=""):
        s.res, s.op, s.ty, s.args, s.x, s.line = res, op, ty, args, x, line
    def __repr__(s): return s.line

class Func:
    def __init__(s, name): s.name = name; s.params = []; s.blocks = {}; s.order = []; s.ret = None

PARAM_ATTR_P = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "memory", "elementtype", "range", "allocsize", "captures", "inalloca", "preallocated"}
ATTRS = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "readnone", "zeroext", "signext", "returned", "immarg", "noreturn", "nounwind", "inreg", "nofree", "nest", "swiftself", "allocptr", "allocalign", "dead_on_unwind", "writable", "nofpclass", "noext", "dso_local", "local_unnamed_addr", "unnamed_addr", "fastcc", "tail", "musttail", "notail", "mustprogress", "weak_odr", "linkonce_odr", "internal", "private", "available_externally", "hidden", "external", "weak", "comdat", "cold", "coldcc", "ccc", "linkonce", "swiftcc","hot","inrange"}
FMF = {"fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "nsw", "nuw", "exact", "inbounds", "disjoint", "nneg", "volatile", "atomic", "samesign", "nusw"}

class Parser:
    def __init__(s, toks, mod): s.t, s.i, s.m = toks, 0, mod
    def peek(s, k=0): return s.t[s.i+k] if s.i+k < len(s.t) else (None, None)
    def next(s): r = s.t[s.i]; s.i += 1; return r
    def acc(s, v):
        if s.peek()[1] == v: s.i += 1; return True
        return False
    def exp(s, v):
        if not s.acc(v): raise ValueError("expected %s got %s in %s" % (v, s.t[s.i:s.i+5], " ".join(x[1] for x in s.t)))
    def ty(s):
        k, v = s.next()
        if v == "void" or v in ("double", "float", "ptr", "label", "metadata", "half", "x86_fp80", "token"): t = Ty(v)
        elif k == "word" and re.fullmatch(r"i\d+", v): t = Ty("int", n=int(v[1:]))
        elif k == "loc": t = Ty("named", name=v)
        elif v == "[":
            n = int(s.next()[1]); s.exp("x"); e = s.ty(); s.exp("]"); t = Ty("arr", e, n)
        elif v == "<":
            if s.peek()[1] == "{":
                t = s.ty(); s.exp(">"); t = Ty("struct", t.a, n=1)
            else:
                n = int(s.next()[1]); s.exp("x"); e = s.ty(); s.exp(">"); t = Ty("vec", e, n)
        elif v == "{":
            el = []
            while not s.acc("}"):
                el.append(s.ty()); s.acc(",")
            t = Ty("struct", el)
        elif v == "opaque": t = Ty("opaque")
        else: raise ValueError("type? %s in %s" % (v, " ".join(x[1] for x in s.t)))
        while s.peek()[1] == "(":   # function type
            d = 0
            while True:
                x = s.next()[1]
                d += x == "("; d -= x == ")"
                if d == 0: break
            t = Ty("fn", t)
        return t
    def attrs(s):
        while True:
            k, v = s.peek()
            if v in ATTRS: s.i += 1
            elif v in PARAM_ATTR_P:
                s.i += 1
                if s.peek()[1] == "(":
                    d = 0
                    while True:
                        x = s.next()[1]
                        d += x == "("; d -= x == ")"
                        if d == 0: break
                elif s.peek()[0] == "num": s.i += 1
            elif k == "str": s.i += 1
            elif k == "meta" and v.startswith("#"): s.i += 1
            else: return
    def val(s, t):
        """operand: ('loc',name) ('glob',name) ('c',const) ('undef',) ('zero',) ('agg',[..]) ('ce',...)"""
        k, v = s.next()
        if k == "loc": return ("loc", v)
        if k == "glob": return ("glob", v)
        if k == "num":
            if t.k in ("double", "float"): return ("c", fpconst(v))
            return ("c", int(v))
        if v in ("true", "false"): return ("c", 1 if v == "true" else 0)
        if v in ("undef", "poison"): return ("undef",)
        if v == "null": return ("c", 0)
        if v == "zeroinitializer": return ("zero",)
        if v in ("[", "{", "<"):
            if v == "<" and s.peek()[1] == "{":
                s.next(); close = "}"; extra = True
            else: close = {"[": "]", "{": "}", "<": ">"}[v]; extra = False
            el = []
            while not s.acc(close):
                et = s.ty(); el.append((et, s.val(et))); s.acc(",")
            if extra: s.exp(">")
            return ("agg", el)
        if k == "str": return ("str", v)
        if v == "splat":
            s.exp("("); et = s.ty(); e = s.val(et); s.exp(")"); return ("splat", et, e)
        if v in ("getelementptr", "bitcast", "inttoptr", "ptrtoint", "addrspacecast", "sub", "add", "trunc", "icmp", "select", "blockaddress","xor","mul", "dso_local_equivalent"):
            while s.peek()[1] in FMF: s.next()
            st = s.i; d = 0
            s.exp("(")
            ops = []
            if v == "getelementptr":
                bt = s.ty(); s.exp(",")
                while True:
                    s.attrs()
                    et = s.ty(); s.attrs(); ops.append((et, s.val(et)))
                    if not s.acc(","): break
                s.exp(")")
                return ("gep", bt, ops)
            try:
                if v in ("ptrtoint", "trunc"):
                    et = s.ty(); s.attrs(); x = s.val(et); s.exp("to"); dt = s.ty(); s.exp(")")
                    return ("cast", v, (et, x), dt)
                if v in ("sub", "add"):
                    while s.peek()[1] in ("nuw", "nsw"): s.next()
                    a = s.tv(); s.exp(","); b = s.tv(); s.exp(")")
                    return ("bin", v, a, b)
            except (ValueError, AssertionError): s.i = st; s.exp("(")
            d = 1
            while d:
                x = s.next()[1]; d += x == "("; d -= x == ")"
            return ("ce", v)
        if v == "asm": raise ValueError("asm")
        raise ValueError("value? %s in %s" % (v, " ".join(x[1] for x in s.t)))
    def tv(s):
        t = s.ty(); s.attrs(); return (t, s.val(t))

import struct as _st
def fpconst(v):
    if v.startswith("0x"):
        h = v[2:]
        if h[0] in "KMLHR": return float("nan")
        return _st.unpack(">d", bytes.fromhex(h.rjust(16, "0")))[0]
    return float(v)

class Module:
    def __init__(s, text):
        s.types, s.funcs, s.globals, s.declared = {}, {}, {}, set()
        cur = None; blk = None; pend = None
        for raw in text.split("\n"):
            line = raw.strip()
            if not line or line[0] == ";": continue
            if pend is not None:
                pend += " " + line
                if line.startswith("]") or line.endswith("]"):
                    line, pend = pend, None
                else: continue
            if cur is None:
                if line.startswith("%") and " = type " in line:
                    n, d = line.split(" = type ", 1)
                    s.types[n] = Parser(lex(d), s).ty()
                elif line.startswith("define"):
                    cur = s._def(line); cur.linkage = (re.search(r"\b(internal|private|linkonce_odr|linkonce|weak_odr|weak|available_externally)\b", line.split("@")[0]) or [""])[0]; blk = None
                elif line.startswith("declare"):
                    m = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', line)
                    if m: s.declared.add(m.group(1))
                elif line.startswith("@"):
                    m = re.match(r'(@(?:"[^"]*"|[-\w.$]+)) = (.*)', line)
                    s.globals[m.group(1)] = m.group(2)
                continue
            if line == "}":
                s.funcs[cur.name] = cur; cur = None; continue
            m = re.match(r'^("[^"]*"|[-\w.$]+):(\s|$)', line)
            if m:
                blk = "%" + m.group(1); cur.blocks[blk] = []; cur.order.append(blk); continue
            if blk is None:
                blk = "%" + cur.entry; cur.blocks[blk] = []; cur.order.append(blk)
            if line.startswith("switch") and "]" not in line:
                pend = line; continue
            if cur.blocks[blk] and cur.blocks[blk][-1].op == "landingpad" and re.match(r"(catch|cleanup|filter)\b", line): continue
            if cur.blocks[blk] and cur.blocks[blk][-1].op == "invoke?":
                raise ValueError
            if line.startswith("to label"):
                ins = cur.blocks[blk][-1]
                mm = re.search(r"to label (%\S+) unwind label (%\S+)", line)
                ins.x["normal"], ins.x["unwind"] = mm.group(1).rstrip(","), mm.group(2).rstrip(",")
                continue
            cur.blocks[blk].append(s._ins(line))
    def _def(s, line):
        m = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', line)
        f = Func(m.group(1))
        p = Parser(lex(line[m.end():line.rindex("{")]), s)
        pre = Parser(lex(line[6:m.start()]), s)
        pre.attrs(); f.ret = pre.ty()
        n = 0
        while not p.acc(")"):
            if p.acc("..."): continue
            t = p.ty(); p.attrs()
            k, v = p.peek()
            if k == "loc": p.next(); name = v
            else: name = "%%%d" % n
            n += 1
            f.params.append((t, name)); p.acc(",")
        f.entry = str(len(f.params))
        # unnamed numbering: entry label is next number unless named
        num = [int(x[1][1:]) for x in f.params if x[1][1:].isdigit()]
        f.entry = str(max(num)+1) if num else ("0" if not f.params else "entry")
        return f
    def _ins(s, line):
        body = re.sub(r", ![\w.]+ !\d+", "", line)
        body = re.sub(r", ![\w.]+ !\{\}", "", body)
        p = Parser(lex(body), s)
        res = None
        if p.peek()[0] == "loc" and p.peek(1)[1] == "=":
            res = p.next()[1]; p.next()
        while p.peek()[1] in ("tail", "musttail", "notail"): p.next()
        op = p.next()[1]
        flags = set()
        while p.peek()[1] in FMF: flags.add(p.next()[1])
        I = lambda ty, args, x=None: Ins(res, op, ty, args, x, line)
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem", "add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor"):
            t = p.ty(); a = p.val(t); p.exp(","); b = p.val(t)
            return I(t, [(t, a), (t, b)], flags)
        if op in ("fneg", "freeze"):
            a = p.tv(); return I(a[0], [a])
        if op in ("icmp", "fcmp"):
            pred = p.next()[1]; t = p.ty(); a = p.val(t); p.exp(","); b = p.val(t)
            return I(Ty("int", n=1) if t.k != "vec" else Ty("vec", Ty("int", n=1), t.n), [(t, a), (t, b)], pred)
        if op in ("sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "sext", "zext", "trunc", "bitcast", "ptrtoint", "inttoptr", "addrspacecast"):
            a = p.tv(); p.exp("to"); t = p.ty(); return I(t, [a])
        if op == "select":
            c = p.tv(); p.exp(","); a = p.tv(); p.exp(","); b = p.tv()
            return I(a[0], [c, a, b])
        if op == "phi":
            t = p.ty(); inc = []
            while True:
                p.exp("["); v = p.val(t); p.exp(","); b = p.next()[1]; p.exp("]"); inc.append((v, b))
                if not p.acc(","): break
            return I(t, inc)
        if op == "load":
            t = p.ty(); p.exp(","); a = p.tv(); return I(t, [a])
        if op == "store":
            v = p.tv(); p.exp(","); a = p.tv(); return I(Ty("void"), [v, a])
        if op == "alloca":
            t = p.ty(); n = None
            if p.acc(","):
                if p.peek()[1] != "align": n = p.tv()
            return I(Ty("ptr"), [], (t, n))
        if op == "getelementptr":
            bt = p.ty(); p.exp(","); ops = [p.tv()]
            while p.acc(","): ops.append(p.tv())
            return I(Ty("ptr"), ops, bt)
        if op in ("call", "invoke"):
            while p.peek()[1] in FMF: p.next()
            p.attrs(); t = p.ty(); p.attrs()
            if t.k == "fn": t = t.a
            k, v = p.next()
            callee = (k, v)
            p.exp("("); args = []
            while not p.acc(")"):
                at = p.ty(); p.attrs()
                if at.k == "metadata":
                    d = 0
                    while p.peek()[1] not in (",", ")"): p.next()
                    args.append((at, ("undef",)))
                else: args.append((at, p.val(at)))
                p.acc(",")
            x = {"callee": callee}
            rest = " ".join(z[1] for z in p.t[p.i:])
            mm = re.search(r"to label (%\S+) unwind label (%\S+)", rest)
            if mm: x["normal"], x["unwind"] = mm.group(1), mm.group(2)
            return I(t, args, x)
        if op == "br":
            if p.acc("label"): return I(Ty("void"), [], [p.next()[1]])
            c = p.tv(); p.exp(","); p.exp("label"); a = p.next()[1]; p.exp(","); p.exp("label"); b = p.next()[1]
            return I(Ty("void"), [c], [a, b])
        if op == "switch":
            c = p.tv(); p.exp(","); p.exp("label"); d = p.next()[1]; p.exp("["); cs = []
            while not p.acc("]"):
                v = p.tv(); p.exp(","); p.exp("label"); cs.append((v, p.next()[1]))
            return I(Ty("void"), [c], (d, cs))
        if op == "ret":
            if p.acc("void"): return I(Ty("void"), [])
            return I(Ty("void"), [p.tv()])
        if op in ("unreachable", "resume", "landingpad", "fence"): return I(Ty("void"), [])
        if op == "extractvalue":
            a = p.tv(); ix = []
            while p.acc(","): ix.append(int(p.next()[1]))
            return I(None, [a], ix)
        if op == "insertvalue":
            a = p.tv(); p.exp(","); b = p.tv(); ix = []
            while p.acc(","): ix.append(int(p.next()[1]))
            return I(a[0], [a, b], ix)
        if op == "extractelement":
            a = p.tv(); p.exp(","); b = p.tv(); return I(a[0].a, [a, b])
        if op == "insertelement":
            a = p.tv(); p.exp(","); b = p.tv(); p.exp(","); c = p.tv(); return I(a[0], [a, b, c])
        if op == "shufflevector":
            a = p.tv(); p.exp(","); b = p.tv(); p.exp(","); c = p.tv(); return I(Ty("vec", a[0].a, c[0].n), [a, b, c])
        if op in ("atomicrmw", "cmpxchg", "va_arg", "extractelement"): return I(Ty("void"), [], None)
        raise ValueError("op %s: %s" % (op, line))
    # ---- layout
    def size_align(s, t):
        k = t.k
        if k == "int":
            b = max(1, (t.n + 7) // 8); b = 1 << (b-1).bit_length(); return b, min(b, 16)
        if k == "double" or k == "ptr": return 8, 8
        if k == "float": return 4, 4
        if k == "x86_fp80": return 16, 16
        if k == "arr":
            a, b = s.size_align(t.a); return a*t.n, b
        if k == "vec":
            a, b = s.size_align(t.a); z = a*t.n; return z, 1 << (z-1).bit_length()
        if k == "named": return s.size_align(s.types[t.name])
        if k == "struct":
            off, al = 0, 1
            for e in t.a:
                z, a = s.size_align(e)
                if t.n: a = 1
                off = (off + a - 1)//a*a + z; al = max(al, a)
            return (off + al - 1)//al*al, al
        raise ValueError("size of %r" % t)
    def field(s, t, i):
        if t.k == "named": t = s.types[t.name]
        if t.k in ("arr", "vec"): return i*s.size_align(t.a)[0], t.a
        off = 0
        for j, e in enumerate(t.a):
            z, a = s.size_align(e)
            if t.n: a = 1
            off = (off + a - 1)//a*a
            if j == i: return off, e
            off += z
        raise IndexError
