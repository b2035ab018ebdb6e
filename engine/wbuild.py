"""Compiles witness units against /repo's current headers to LLVM IR (cached by content)."""
import hashlib, os, re, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SCIPP_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
MODS = ("common", "units", "core", "variable", "dataset")

class BuildError(Exception): pass

def includes(stubs=("stubs", "stubs/exp")):
    r = []
    for s in stubs: r.append("-I" + os.path.join(VERIF, s))
    r += ["-isystem", "/usr/include/eigen3"]
    for m in MODS: r.append("-I%s/lib/%s/include" % (REPO, m))
    r += ["-I%s/lib" % REPO]
    return r
OPT = ["-std=c++17", "-O2", "-fno-vectorize", "-fno-slp-vectorize", "-fno-math-errno", "-ffp-contract=off",
       "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_NO_DEBUG", "-DNDEBUG", "-DSCIPP_EXPORT=", "-fno-operator-names", "-w"]

_state = None
def repo_state():
    """hash over all headers and sources of the C++ library"""
    global _state
    if _state is None:
        h = hashlib.sha256()
        for root, ds, fs in sorted(os.walk(os.path.join(REPO, "lib"))):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".cpp", ".tcc", ".in", ".cmake", ".txt")):
                    p = os.path.join(root, f); h.update(p.encode()); h.update(open(p, "rb").read())
        for d in ("witness", "stubs", "engine"):
            for root, ds, fs in sorted(os.walk(os.path.join(VERIF, d))):
                for f in sorted(fs):
                    if f.endswith((".h", ".hpp", ".cpp")): h.update(open(os.path.join(root, f), "rb").read())
        _state = h.hexdigest()[:20]
    return _state

def compile_ll(src, extra=(), stubs=("stubs", "stubs/exp"), opt=OPT, timeout=600):
    """-> path of the .ll file"""
    key = hashlib.sha256(repr((repo_state(), src, list(extra), stubs, opt, "lcssa")).encode()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, os.path.basename(src) + "." + key + ".ll")
    if os.path.exists(out): return note(src, out)
    tmp = "%s.%d.tmp" % (out, os.getpid())
    def run(path, *more):
        cmd = ["clang++"] + includes(stubs) + ["-I" + os.path.join(VERIF, os.path.dirname(src))] + list(opt) + list(extra) + ["-ferror-limit=0", "-fno-caret-diagnostics", "-fdiagnostics-absolute-paths", *more, "-S", "-emit-llvm", "-o", tmp, path]
        return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    path = os.path.join(VERIF, src); p = run(path); dropped = []
    cut = "%s.%d.cpp" % (out[:-3], os.getpid())
    for _ in range(8):
        if p.returncode == 0: break
        # witnesses that no longer fit the sources are left out, the others still stand
        text, names = prune(open(path).read(), path, p.stderr)
        if not names: break
        dropped += names; path = cut
        with open(cut, "w") as f: f.write(text)
        p = run(cut)
    if os.path.exists(cut): os.unlink(cut)
    if p.returncode != 0: raise BuildError("cannot compile %s against the current tree:\n%s" % (src, p.stderr[-3000:]))
    if dropped:
        with open(out + ".dropped", "w") as f: f.write("\n".join(dropped))
    # loops in simplified, loop-closed form: values leave a loop through phis only
    p = subprocess.run(["opt-18" if shutil.which("opt-18") else "/usr/lib/llvm-18/bin/opt", "-S", "-passes=function(loop-simplify,lcssa)", tmp, "-o", tmp + "2"], capture_output=True, text=True, timeout=timeout)
    if p.returncode != 0: raise BuildError("opt failed on %s:\n%s" % (src, p.stderr[-3000:]))
    os.unlink(tmp); os.rename(tmp + "2", out)
    return note(src, out)

DROPPED = []  # (witness file, what was left out)
def note(src, out):
    if os.path.exists(out + ".dropped"):
        for n in open(out + ".dropped").read().split("\n"):
            if (src, n) not in DROPPED: DROPPED.append((src, n)); print("NOT ANALYSED %s: %s does not compile against the current sources" % (src, n))
    return out
def balanced(text, i, o, c):
    d = 0
    while i < len(text):
        if text[i] == o: d += 1
        elif text[i] == c:
            d -= 1
            if d == 0: return i + 1
        i += 1
    return None
def prune(text, path, err):
    """-> the witness file without the witnesses that the errors point to, and their names"""
    lines = text.split("\n"); start = [0]
    for l in lines: start.append(start[-1] + len(l) + 1)
    directive = []
    i = 0
    while i < len(lines):
        if lines[i].lstrip().startswith("#"):
            b = start[i]
            while lines[i].endswith("\\") and i + 1 < len(lines): i += 1
            directive.append((b, start[i + 1]))
        i += 1
    units = []  # (begin, end, name)
    for m in re.finditer(r"(?:template\s*<[^{};]*>\s*)?struct\s+(P_\w+)\s*\{", text):
        if any(b <= m.start() < e for b, e in directive): continue
        e = balanced(text, m.end() - 1, "{", "}")
        if e: units.append((m.start(), text.find(";", e) + 1, m.group(1)))
    for m in re.finditer(r"\b[A-Z][A-Z0-9_]*\(", text):
        if any(b <= m.start() < e for b, e in directive) or any(b <= m.start() < e for b, e, _ in units): continue
        e = balanced(text, m.end() - 1, "(", ")")
        if e: units.append((m.start(), e, text[m.start():e]))
    for m in re.finditer(r"(?:template\s+struct|\bI)\s+P_\w+<[^;{}]*>\s*;", text):
        if not any(b <= m.start() < e for b, e in directive): units.append((m.start(), m.end(), m.group(0)))
    at = set()
    for l, c in re.findall(r"^%s:(\d+):(\d+): (?:error|note|fatal error)" % re.escape(path), err, re.M): at.add(start[int(l) - 1] + int(c) - 1)
    gone = [u for u in units if any(u[0] <= a < u[1] for a in at)]
    names = {u[2] for u in gone if re.fullmatch(r"P_\w+", u[2])}
    gone += [u for u in units if u not in gone and any(re.search(r"\b%s\b" % n, text[u[0]:u[1]]) for n in names)]
    out = list(text)
    for b, e, _ in gone:
        for i in range(b, e):
            if out[i] != "\n": out[i] = " "
    return "".join(out), sorted({u[2][:120] for u in gone})

def compile_many(jobs):
    """jobs: list of (src, extra) or (src, extra, stubs); parallel"""
    from concurrent.futures import ThreadPoolExecutor
    repo_state()
    with ThreadPoolExecutor(8) as ex: return list(ex.map(lambda j: compile_ll(*j), jobs))
