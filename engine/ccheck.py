"""Common library and dimension labels."""
import json, os, re, subprocess
import kcheck, llir, lockset, vn, wbuild
def ir0(path, extra=()):
    """unoptimised IR with local references promoted"""
    inc = wbuild.includes(("stubs/exp",))
    p = subprocess.run(["clang++"] + inc + ["-std=c++17", "-O0", "-Xclang", "-disable-O0-optnone", "-w", "-DSCIPP_EXPORT=", "-S", "-emit-llvm", "-o", "-", path] + list(extra), capture_output=True, text=True)
    if p.returncode: raise wbuild.BuildError(p.stderr[-2000:])
    q = subprocess.run(["opt-18", "-S", "-passes=mem2reg", "-"], input=p.stdout, capture_output=True, text=True)
    if q.returncode: raise wbuild.BuildError(q.stderr[-2000:])
    return q.stdout
def snake(s): return re.sub(r"(?<=[a-z0-9])([A-Z])", r"_\1", s).lower()
def dim_enum():
    """enumerators of Dim::Id, in order (clang's AST)"""
    p = subprocess.run(["clang++"] + wbuild.includes(("stubs/exp",)) + ["-std=c++17", "-fsyntax-only", "-w", "-Xclang", "-ast-dump", "-Xclang", "-ast-dump-filter=Dim::Id", wbuild.REPO + "/lib/units/dim.cpp"], capture_output=True, text=True)
    out = []; val = 0
    for l in p.stdout.split("\n"):
        m = re.search(r"EnumConstantDecl .*?(?:referenced |used )?(\w+) '", l)
        if m and not any(o[0] == m.group(1) for o in out): out.append([m.group(1), None]); continue
        m = re.search(r"value: Int (\d+)", l)
        if m and out and out[-1][1] is None: out[-1][1] = int(m.group(1))
    for o in out:
        if o[1] is None: o[1] = val
        val = o[1] + 1
    return out
LABELX = ("-fno-threadsafe-statics",)
def C02(rep):
    path = wbuild.REPO + "/lib/units/dim.cpp"
    m = llir.Module(ir0(path))
    own = lambda d: "scipp::" in d.split("(")[0] and not d.startswith("std::") and " std::" not in d.split("(")[0].split("<")[0]
    u = lockset.Unit(m, own)
    # 1. locks
    entries = [f for f in m.funcs.values() if own(u.dm.get(f.name[1:].strip('"'), "")) and not f.linkage]
    w = lockset.Walk(u)
    ctor = 0
    for f in entries:
        d = u.dm[f.name[1:].strip('"')]
        if "(anonymous namespace)" in d: continue
        isctor = re.search(r"units::Dim::Dim\(std::", d)
        if isctor:
            u.pts.setdefault((f.name, f.params[0][1]), set()).add(("this",)); u.solve()
        ex = w.walk(f, (frozenset(), frozenset(), frozenset(), False), (f.name,))
        if isctor:
            ctor += 1
            if any(how == "n" and not st[3] for st, how in ex): rep.bad("initialised", d, "%s can return without assigning the identifier" % d)
            else: rep.good("initialised", d)
        for st, how in ex:
            if st[0]: rep.bad("locks", d + " leak", "%s can leave while holding %s" % (d, sorted(map(str, st[0])))); break
    w.finish()
    for t in w.viol: rep.bad("locks", t, t)
    if not w.viol:
        for s in sorted(w.sites, key=str):
            if s[1] in w.written: rep.good("locks", "%s %s %s" % (u.dm.get(s[0][1:].strip('"'), s[0]), s[3], s[2]))
    rep.extra["shared_state"] = [lockset.short(g) for g in sorted(w.written)]
    # 2. the built-in labels
    en = dim_enum(); ids = dict(en)
    if len(set(ids.values())) == len(en): rep.good("enum", "%d enumerators with distinct values" % len(en))
    else: rep.bad("enum", "enum values", "enumerators of Dim::Id share a value")
    pairs = table(m)
    if len(pairs) < 3: rep.undecided("builtin", "table", "built-in labels not found")
    else:
        seen_n, seen_i = {}, {}
        for n, i in pairs:
            if n in seen_n and seen_n[n] != i: rep.bad("builtin", "label " + n, "label '%s' is listed twice" % n)
            if i in seen_i and seen_i[i] != n: rep.bad("builtin", "id %d" % i, "id %d has two labels, '%s' and '%s'" % (i, seen_i[i], n))
            seen_n[n] = i; seen_i[i] = n
        for e, v in en:
            n = seen_i.get(v)
            if n is None: rep.bad("builtin", e, "Dim::%s has no label: its name does not round-trip" % e)
            elif n.strip("<>") != snake(e): rep.bad("builtin", e, "Dim::%s is labelled '%s'" % (e, n))
            else: rep.good("builtin", "Dim::%s <-> '%s'" % (e, n))
        for n, i in pairs:
            if i not in ids.values(): rep.bad("builtin", n, "label '%s' maps to %d, which is not an enumerator" % (n, i))
    # 3. new identifiers: disjoint from the built-in ones, never truncated
    custom(rep, path, max(ids.values()))
    mod, _ = kcheck.module("witness/c_dim.cpp", (), ("stubs/exp",))
    for n, p in sorted(kcheck.pairs(mod).items()): kcheck.check_pair(rep, mod, n, p, "real", "compare", throws=True)
    # 4. short histories: which label gets which dimension and which name
    try:
        mod, _ = kcheck.module("witness/c_labels.cpp", LABELX, ("stubs/exp",))
        for n, p in sorted(kcheck.pairs(mod).items()): kcheck.check_pair(rep, mod, n, p, "real", "histories", throws=True, what={"P_fresh_labels": "creating three dimensions from labels and asking for their names", "P_fresh_again": "creating dimensions from known labels"}.get(n))
    except wbuild.BuildError as e:
        print("NOT ANALYSED witness/c_labels.cpp: does not compile against the current sources"); rep.extra["not_analysed"] = ["witness/c_labels.cpp"]; rep.skipped = True
    rep.assume += ["std::unordered_map, std::shared_mutex and the lock classes behave as specified", "no code outside dim.cpp reaches the tables (they have internal linkage)"]
    return rep.finish("other", "lock-set analysis over all paths (exceptional ones included) of lib/units/dim.cpp: every access of the label table under the mutex, modification under the exclusive lock after a lookup and a size taken under the same lock; built-in labels are a bijection with the enumerators; new ids start above the built-in ones and are range-checked before narrowing; value numbering of histories of up to four creations over abstract labels: equal labels give the same dimension, different ones different dimensions, and every dimension returns its label",
                      min_obl=20, trusted=["clang 18 -O0 IR", "engine/lockset.py"], expect={"initialised": 1, "enum": 1})
def table(m):
    """(label, id) constants that are passed together when the table is built"""
    strs = {}
    for g, d in m.globals.items():
        k = re.search(r'constant \[\d+ x i8\] c"(.*?)\\00"', d)
        if k: strs[g] = re.sub(r"\\([0-9A-F]{2})", lambda x: chr(int(x.group(1), 16)), k.group(1))
    def idof(v):
        if v[0] == "glob":
            k = re.search(r"constant i16 (\d+)", m.globals.get(v[1], ""))
            if k: return int(k.group(1))
        return None
    out = []
    for f in m.funcs.values():
        for b in f.order:
            store = {}
            for i in f.blocks[b]:
                if i.op == "store" and i.args[0][0].k == "int" and i.args[0][1][0] == "c": store[i.args[1][1]] = i.args[0][1][1]
                if i.op not in ("call", "invoke"): continue
                n = [strs[a[1][1]] for a in i.args if a[1][0] == "glob" and a[1][1] in strs]
                k = [x for x in (idof(a[1]) for a in i.args) if x is not None] or [store[a[1]] for a in i.args if a[1] in store]
                if len(n) == 1 and len(k) == 1: out.append((n[0], k[0]))
    return out
def custom(rep, path, top):
    p = subprocess.run(["clang++"] + wbuild.includes(("stubs/exp",)) + ["-std=c++17", "-O2", "-w", "-DSCIPP_EXPORT=", "-S", "-emit-llvm", "-o", "-", path], capture_output=True, text=True)
    if p.returncode: raise wbuild.BuildError(p.stderr[-2000:])
    m = llir.Module(p.stdout); found = 0
    for f in m.funcs.values():
        defs = {i.res: (b, i) for b in f.order for i in f.blocks[b] if i.res}
        preds = {}
        for b in f.order:
            t = f.blocks[b][-1]
            if t.op == "br":
                for j, x in enumerate(t.x): preds.setdefault(x, []).append((b, t, j))
            elif t.op == "invoke":
                preds.setdefault(t.x["normal"], []).append((b, t, None)); preds.setdefault(t.x["unwind"], []).append((b, t, None))
            elif t.op == "switch":
                for x in [t.x[0]] + [c[1] for c in t.x[1]]: preds.setdefault(x, []).append((b, t, None))
        def split(v):
            """value as (origin, constant offset)"""
            c = 0
            while v[0] == "loc" and v[1] in defs and defs[v[1]][1].op in ("add", "sub") and defs[v[1]][1].args[1][1][0] == "c":
                i = defs[v[1]][1]; k = i.args[1][1][1]; c += k if i.op == "add" else -k; v = i.args[0][1]
            return v, c
        for b in f.order:
            for i in f.blocks[b]:
                if i.op != "trunc" or i.ty.n != 16 or i.args[0][0].k != "int": continue
                if i.args[0][0].n < 32: continue
                o, c = split(i.args[0][1])
                tr = i
                if c == 0:      # offset added after narrowing
                    for b2 in f.order:
                        for j in f.blocks[b2]:
                            if j.op == "add" and j.args[0][1] == ("loc", i.res) and j.args[1][1][0] == "c": c = j.args[1][1][1] & 0xffff
                found += 1
                if c <= top: rep.bad("custom", "offset", "new identifiers start at %d, but %d is the identifier of a built-in label" % (c, top))
                else: rep.good("custom", "new identifiers start at %d" % c)
                # walk the dominating branches upwards while the predecessor is unique
                hi = None; cur = b; seen = set()
                while cur not in seen:
                    seen.add(cur); ps = preds.get(cur, [])
                    if len(ps) != 1: break
                    pb, t, j = ps[0]
                    if t.op == "br" and j is not None and t.args:
                        cd = defs.get(t.args[0][1][1]) if t.args[0][1][0] == "loc" else None
                        if cd and cd[1].op == "icmp" and cd[1].args[1][1][0] == "c":
                            x, cc = split(cd[1].args[0][1]); k = cd[1].args[1][1][1]; pr = cd[1].x
                            if x == o:
                                lim = {("ugt", 1): k, ("sgt", 1): k, ("uge", 1): k-1, ("sge", 1): k-1, ("ult", 0): k-1, ("slt", 0): k-1, ("ule", 0): k, ("sle", 0): k}.get((pr, j))
                                if lim is not None:
                                    v = lim - cc + c
                                    if pr[0] == "s" or cc == 0 or True: hi = v if hi is None else min(hi, v)
                    cur = pb
                if hi is None: rep.bad("custom", "range", "a new identifier is narrowed to 16 bits without a range check")
                elif hi > 65535: rep.bad("custom", "range", "identifiers up to %d are narrowed to 16 bits" % hi)
                else: rep.good("custom", "identifiers up to %d" % hi)
    if not found: rep.undecided("custom", "range", "no narrowing of a new identifier found")
def C01(rep):
    import dcheck
    dcheck.pairs_of(rep, [("witness/c_numeric.cpp", True)])
    return rep.finish("proof", "for every length up to 5 and every content (NaN and infinities included): a sequence is reported as linspace exactly if it ascends and all its steps agree with the mean step within rounding, and as arange exactly if every step is one",
                      min_obl=30, trusted=["clang 18 front end and -O2 mid-level optimiser", "engine/vn.py", "witness/c_numeric.cpp"], expect={"P_linspace_double_3": 1, "P_arange_lng_3": 1})
