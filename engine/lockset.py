"""Lock-set and check-then-act analysis over unoptimised IR of one translation unit.

Shared state = every mutable global of the unit that is written outside of its own initialisation.  The analysis walks all
paths (normal and unwind) of the entry points, entering the unit's own functions, and keeps the set of locks held."""
import re, subprocess
import llir
RAII = re.compile(r"^std::(shared_lock|unique_lock|lock_guard|scoped_lock)<.*>::(~?)(\w+)\((.*)\)$")
MUTEX = re.compile(r"^std::(?:\w*mutex|__shared_mutex\w*)::(\w+)\(\)")
READS = {"find", "end", "begin", "cend", "cbegin", "size", "count", "contains", "at", "empty", "equal_range", "bucket_count", "max_size", "load_factor", "bucket", "get"}
def demangle(names):
    names = sorted(names)
    p = subprocess.run(["c++filt"], input="\n".join(n.strip('"') for n in names), capture_output=True, text=True)
    return dict(zip(names, (d.replace("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >", "std::string").replace("[abi:cxx11]", "") for d in p.stdout.split("\n"))))
def base_name(d):
    """last component of a demangled function name, without template arguments and parameters"""
    s = re.sub(r"operator\s*\(\)", "operator_call", d)
    depth = 0; out = []
    for i, c in enumerate(s):
        if c in "<":
            if s[max(0, i-8):i].endswith("operator") : out.append(c); continue
            depth += 1
        elif c == ">" and depth: depth -= 1
        elif c == "(" and depth == 0: break
        elif depth == 0: out.append(c)
    return "".join(out).strip().split("::")[-1].split(" ")[-1]
class Unit:
    def __init__(s, mod, own):
        """own(demangled) -> the walk enters this function"""
        s.m = mod; s.own = own
        s.dm = {n[1:].strip('"'): d for n, d in zip(list(mod.funcs) + list(mod.declared), [None]*(len(mod.funcs)+len(mod.declared)))}
        s.dm = demangle(s.dm)
        s.mutable = {g for g, d in mod.globals.items() if re.search(r"\b(global)\b", d) and "external" not in d.split("global")[0] and not re.search(r"shared_mutex|class\.std::mutex|recursive_mutex|ios_base|thread_local", d) and not g.startswith(("@_ZGV", "@__dso", "@.str", "@_ZTI", "@_ZTS", "@_ZTV", "@llvm."))}
        s.pts = {}; s.retp = {}
        s.solve()
    def name(s, callee): return s.dm.get(callee[1].lstrip("@").strip('"'), callee[1]) if callee[0] == "glob" else "?"
    # ---- flow-insensitive pointer values: (func, value) -> set of objects
    def val(s, f, v):
        if v[0] == "glob": return {("g", v[1])}
        if v[0] == "loc": return s.pts.get((f.name, v[1]), set())
        if v[0] == "gep": return s.val(f, v[2][0][1])
        return set()
    def solve(s):
        ch = True
        def add(k, xs):
            nonlocal ch
            c = s.pts.setdefault(k, set())
            if not xs <= c: c |= xs; ch = True
        while ch:
            ch = False
            for f in s.m.funcs.values():
                for b in f.order:
                    for i in f.blocks[b]:
                        if i.op == "alloca": add((f.name, i.res), {("a", f.name, i.res)})
                        elif i.op in ("getelementptr", "freeze", "bitcast"): add((f.name, i.res), s.val(f, i.args[0][1]))
                        elif i.op == "phi" or i.op == "select":
                            for a in (i.args if i.op == "phi" else i.args[1:]):
                                v = a[0] if i.op == "phi" else a[1]
                                if isinstance(v, tuple): add((f.name, i.res), s.val(f, v))
                        elif i.op == "store":
                            vs = s.val(f, i.args[0][1])
                            if vs:
                                for o in s.val(f, i.args[1][1]): add(("mem", o), vs)
                        elif i.op == "load" and i.res:
                            for o in s.val(f, i.args[0][1]): add((f.name, i.res), s.pts.get(("mem", o), set()))
                        elif i.op in ("call", "invoke") and i.x["callee"][0] == "glob":
                            g = s.m.funcs.get(i.x["callee"][1]); d = s.name(i.x["callee"])
                            if g is not None and s.own(d):
                                for (t, pn), a in zip(g.params, i.args): add((g.name, pn), s.val(f, a[1]))
                                if i.res: add((f.name, i.res), s.retp.get(g.name, set()))
                            elif i.res and i.args:
                                # results of container methods may point into the container
                                objs = set().union(*[s.val(f, a[1]) for a in i.args])
                                add((f.name, i.res), {("in",) + o[:2] if o[0] == "g" else o for o in objs if o[0] == "in" or (o[0] == "g" and o[1] in s.mutable)})
                        elif i.op == "ret" and i.args:
                            r = s.retp.setdefault(f.name, set()); v = s.val(f, i.args[0][1])
                            if not v <= r: r |= v; ch = True
class Walk:
    def __init__(s, unit):
        s.u = unit; s.viol = []; s.acc = {}; s.events = 0; s.written = set(); s.sites = set(); s.memo = {}
        s.tables = {g for g in unit.mutable if re.search(r"(map|set)\b|(map|set)\"?\s|unordered_map", unit.m.globals[g])}
    def guards(s, st): return {(m, k) for _, m, k in st[0]}
    def event(s, f, st, g, kind, what):
        """access of shared object g"""
        s.events += 1
        ms = {m: k for _, m, k in st[0]}
        s.sites.add((f.name, g, kind, what))
        if kind == "W": s.written.add(g)
        s.acc.setdefault(g, []).append((kind, frozenset(m for m, k in s.guards(st)), frozenset(m for m, k in s.guards(st) if k == "X"), f.name, what))
    def callseq(s, f, st, ins, stack):
        """-> list of (state, 'n' or 'u')"""
        u = s.u; d = u.name(ins.x["callee"])
        if d.startswith(("llvm.", "__cxa_guard", "__cxa_atexit")): return [(st, "n")]
        held, chk, size, stored = st
        A = [u.val(f, a[1]) for a in ins.args]
        m = RAII.match(d)
        if m:
            kind, dt, nm, par = m.groups(); lock = next(iter(A[0]), ("?",)) if A else ("?",)
            mode = "S" if kind == "shared_lock" else "X"
            if nm == kind and not dt:      # constructor
                if "defer_lock" in par or not par or len(A) < 2: return [(st, "n")]
                mus = {o for o in A[1] if o[0] == "g"}
                return [((frozenset(held | {(lock, o[1], mode) for o in mus}), chk, size, stored), "n")]
            if nm == kind and dt or nm in ("unlock", "release"): return [(s.release(st, lock), "n")]
            if nm == "lock":
                mus = {a[1] for a in s.ctor_mutex(f, lock)}
                return [((frozenset(held | {(lock, o, mode) for o in mus}), chk, size, stored), "n")]
            return [(st, "n")]
        m = MUTEX.match(d)
        if m and A:
            mus = {o for o in A[0] if o[0] == "g"}
            if m.group(1) in ("lock", "lock_shared"): return [((frozenset(held | {(o, o[1], "X" if m.group(1) == "lock" else "S") for o in mus}), chk, size, stored), "n")]
            if m.group(1) in ("unlock", "unlock_shared"):
                for o in mus: st = s.release(st, o)
                return [(st, "n")]
            return [(st, "n")]
        g = u.m.funcs.get(ins.x["callee"][1]) if ins.x["callee"][0] == "glob" else None
        if g is not None and u.own(d) and g.name not in stack:
            return s.walk(g, st, stack + (g.name,))
        b = base_name(d)
        out = [(st, "n")] + ([(st, "u")] if ins.op == "invoke" else [])
        for o in set().union(set(), *A):
            if o[0] == "in" and b in ("operator++", "operator--"): s.event(f, st, o[1], "R", b); continue
            if o[0] == "a" and b in ("operator++", "operator--"):
                for q in u.pts.get(("mem", o), set()):
                    if q[0] == "in": s.event(f, st, q[1], "R", b)
                continue
            if o[0] != "g" or o[1] not in u.mutable: continue
            cls = d.split("(")[0]
            if re.search(r"::(~?)(unordered_map|map|vector|basic_string|unordered_set|set|deque|optional|unique_ptr|array)$", re.sub(r"<.*>", "", cls)): continue      # construction
            kind = "R" if b in READS or d.endswith(" const") else "W"
            s.event(f, st, o[1], kind, b)
            xl = frozenset(l for l, mu, k in st[0] if k == "X")
            if b in ("find", "count", "contains", "equal_range", "at"): chk = chk | {(o[1], "any")}
            if b in ("find", "count", "contains", "equal_range"): chk = chk | {(o[1], l) for l in xl}
            if b == "size": size = frozenset({x for x in size if x[0] != o[1]} | ({(o[1], l) for l in xl} or {(o[1], None)}))
            if kind == "W":
                if b in ("erase", "clear", "extract", "swap", "merge"): s.bad(f, "%s() removes entries of %s, so an identifier can be handed out twice" % (b, short(o[1])))
                elif b in ("operator[]", "insert_or_assign") and not any(x[0] == o[1] and x[1] in xl for x in chk):
                    s.bad(f, "%s of %s without a lookup since the exclusive lock was taken: a concurrent insertion of the same key is overwritten" % (b, short(o[1])))
                for t in s.tables:
                    if t != o[1] and (t, "any") not in chk: s.bad(f, "insertion into %s without a lookup in %s: the key may exist there" % (short(o[1]), short(t)))
                if any(x[0] == o[1] and x[1] not in xl for x in size):
                    s.bad(f, "insertion into %s uses a size that was read before the exclusive lock was taken" % short(o[1]))
            out = [((held, chk, size, stored), "n")] + ([((held, chk, size, stored), "u")] if ins.op == "invoke" else [])
        return out
    def ctor_mutex(s, f, lock):
        r = set()
        for g in s.u.m.funcs.values():
            for b in g.order:
                for i in g.blocks[b]:
                    if i.op in ("call", "invoke") and RAII.match(s.u.name(i.x["callee"])) and len(i.args) > 1 and lock in s.u.val(g, i.args[0][1]):
                        r |= {o for o in s.u.val(g, i.args[1][1]) if o[0] == "g"}
        return r
    def bad(s, f, t):
        x = "%s: %s" % (s.u.dm.get(f.name[1:].strip('"'), f.name), t)
        if x not in s.viol: s.viol.append(x)
    def release(s, st, lock):
        held, chk, size, stored = st
        return (frozenset(h for h in held if h[0] != lock), frozenset(c for c in chk if c[1] != lock), frozenset((g, None if l == lock else l) for g, l in size), stored)
    def walk(s, f, st, stack):
        """all exit states"""
        k = (f.name, st, stack)
        if k in s.memo: return s.memo[k]
        s.memo[k] = []
        seen = set(); out = set(); u = s.u; E = frozenset()
        work = [(f.order[0], st, E)]
        def go(frm, to, st, env):
            """enter block `to`: constants of the flags set on the way (clean-up destinations, found/not found) are tracked"""
            e = dict(env)
            for i in f.blocks[to]:
                if i.op != "phi": break
                e.pop(i.res, None)
                for v, p in i.args:
                    if p.lstrip("%") == frm.lstrip("%"):
                        if v[0] == "c" and isinstance(v[1], (int, bool)): e[i.res] = int(v[1])
                        elif v[0] == "loc" and v[1] in dict(env): e[i.res] = dict(env)[v[1]]
            work.append((to, st, frozenset(e.items())))
        def const(v, env):
            if v[0] == "c": return v[1]
            return env.get(v[1]) if v[0] == "loc" else None
        while work:
            blk, st, env = work.pop()
            if (blk, st, env) in seen: continue
            seen.add((blk, st, env))
            states = [st]; E0 = env; env = dict(env)
            for i in f.blocks[blk]:
                nxt = []
                if i.op == "icmp" and i.x in ("eq", "ne"):
                    x, y = const(i.args[0][1], env), const(i.args[1][1], env)
                    env.pop(i.res, None)
                    if isinstance(x, int) and isinstance(y, int): env[i.res] = int((x == y) == (i.x == "eq"))
                elif i.op in ("trunc", "zext", "freeze"):
                    x = const(i.args[0][1], env)
                    env.pop(i.res, None)
                    if isinstance(x, int): env[i.res] = x & 1 if i.op == "trunc" and i.ty.n == 1 else x
                elif i.res and i.op != "phi": env.pop(i.res, None)
                E1 = frozenset(env.items())
                for st in states:
                    if i.op in ("call", "invoke"):
                        dead = s.u.name(i.x["callee"]) in ("__cxa_throw", "__cxa_rethrow", "abort", "std::terminate()")
                        for st2, how in s.callseq(f, st, i, stack):
                            if i.op == "invoke":
                                if how == "n" and not dead: go(blk, i.x["normal"], st2, E1)
                                if how == "u" or dead: go(blk, i.x["unwind"], st2, E1)
                            elif how == "u": out.add((st2, "u"))
                            elif dead: out.add((st2, "u"))
                            else: nxt.append(st2)
                    else:
                        if i.op in ("load", "store"):
                            p = i.args[1 if i.op == "store" else 0][1]
                            for o in u.val(f, p):
                                if o[0] == "g" and o[1] in u.mutable: s.event(f, st, o[1], "W" if i.op == "store" else "R", i.op)
                                if i.op == "store" and o == ("this",): st = (st[0], st[1], st[2], True)
                        if i.op == "br":
                            c = const(i.args[0][1], env) if i.args else None
                            for j, b in enumerate(i.x):
                                if c is None or len(i.x) == 1 or j == (0 if c else 1): go(blk, b, st, E1)
                        elif i.op == "switch":
                            c = const(i.args[0][1], env) if i.args else None
                            if c is None: tg = [i.x[0]] + [c[1] for c in i.x[1]]
                            else: tg = [t for k2, t in i.x[1] if (k2[1][1] if isinstance(k2, tuple) else k2) == c] or [i.x[0]]
                            for b in tg: go(blk, b, st, E1)
                        elif i.op == "ret": out.add((st, "n"))
                        elif i.op == "resume": out.add((st, "u"))
                        else: nxt.append(st)
                states = nxt
                if not states: break
        s.memo[k] = list(out)
        return s.memo[k]
    def finish(s):
        """lock discipline of every shared object that is written"""
        for g in sorted(s.written):
            acc = s.acc[g]
            common = None
            for kind, ms, xs, fn, what in acc:
                fd = s.u.dm.get(fn[1:].strip('"'), fn)
                use = xs if kind == "W" else ms
                if not use:
                    t = "%s: %s of shared %s (%s) %s" % (fd, "modification" if kind == "W" else "access", short(g), what, "without an exclusive lock" if kind == "W" else "without a lock")
                    if t not in s.viol: s.viol.append(t)
                common = use if common is None else common & use
            if not s.viol and not common: s.viol.append("accesses of shared %s are not guarded by one common mutex" % short(g))
def short(g):
    d = demangle([g[1:]])[g[1:]]
    return d
