"""Gated value numbering over the LLVM IR of witness functions.

Every SSA value is mapped to a decision diagram whose inner nodes test a finite-outcome atom
(NaN-ness of a term, the ordering {<,=,>} of two terms, a boolean term) and whose leaves are
terms in a normal form:
  mode "strict": IEEE operations are uninterpreted up to commutativity and neutral elements
  mode "real":   IEEE operations are read as operations of the field of reals and leaves are
                 rational functions (numerator/denominator polynomials) of the inputs
Integer leaves are polynomials modulo 2^n over uninterpreted terms in both modes.
No path is enumerated and nothing is executed or handed to a solver: phis become gates, loads are
resolved against the (ordered, gated) stores, and two functions are compared leaf by leaf.
"""
import math, re, struct
from fractions import Fraction
from llir import Ty

class Undecided(Exception): pass

# ------------------------------------------------------------------ terms
_intern = {}
def I(t):
    r = _intern.get(t)
    if r is None: _intern[t] = r = t
    return r

CONST_ATOMS = {}
for _n, _v in (("LN10", math.log(10.0)), ("PI", math.pi), ("LN2", math.log(2.0))):
    CONST_ATOMS[_v] = _n
    CONST_ATOMS[struct.unpack("f", struct.pack("f", _v))[0]] = _n

def f32(v):
    try: return struct.unpack("f", struct.pack("f", v))[0]
    except OverflowError: return math.inf if v > 0 else -math.inf

# polynomials: tuple of sorted ((monomial), coef); monomial: tuple of sorted (atom, exp)
def mkey(m): return repr(m)
def pnorm(d):
    return tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda x: (len(x[0]), repr(x[0]))))
def padd(p, q, s=1):
    d = dict(p)
    for m, c in q: d[m] = d.get(m, 0) + s*c
    return pnorm(d)
def mmul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for x, e in b: d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda x: (repr(x[0]))))
def pmul(p, q):
    d = {}
    for m, c in p:
        for n, e in q:
            k = mmul(m, n); d[k] = d.get(k, 0) + c*e
    return pnorm(d)
def pconst(c): return (((), c),) if c else ()
def patom(a): return ((((a, 1),), Fraction(1)),)
P1 = pconst(Fraction(1))

def rat(num, den=P1):
    """('rat', num, den), monomial content cancelled, den's first coefficient 1"""
    if not num: return I(("rat", (), P1))
    if len(den) > 1 or den[0][0] or den[0][1] != 1:
        # monomial gcd
        common = None
        for p in (num, den):
            for m, c in p:
                dm = dict(m)
                if common is None: common = dict(dm)
                else: common = {a: min(e, dm[a]) for a, e in common.items() if a in dm}
                if not common: break
            if not common: break
        if common:
            def div(p): return pnorm({tuple((a, e - common.get(a, 0)) for a, e in m if e - common.get(a, 0)): c for m, c in p})
            num, den = div(num), div(den)
        c0 = den[0][1]
        if c0 != 1:
            num = tuple((m, c/c0) for m, c in num); den = tuple((m, c/c0) for m, c in den)
        if num == den: return I(("rat", P1, P1))
    return I(("rat", num, den))

def rsq(r):
    """reduce sqrt(x)^2 -> x"""
    _, n, d = r
    out = r
    def fix(p):
        tot = ("rat", (), P1); changed = False
        for m, c in p:
            t = ("rat", pconst(c), P1)
            for a, e in m:
                if e >= 2 and isinstance(a, tuple) and a[0] == "fn" and a[1] == "sqrt" and a[2][0] == "rat":
                    changed = True
                    x = a[2]
                    for _ in range(e // 2): t = rmul0(t, x)
                    if e % 2: t = rmul0(t, rat(patom(a)))
                else:
                    t = rmul0(t, rat(((((a, e),), Fraction(1)),)))
            tot = radd0(tot, t)
        return tot, changed
    a, ca = fix(n); b, cb = fix(d)
    if ca or cb: return rat(pmul(a[1], b[2]), pmul(a[2], b[1]))
    return r
def rmul0(a, b): return rat(pmul(a[1], b[1]), pmul(a[2], b[2]))
def radd0(a, b, s=1):
    if a[2] == b[2]: return rat(padd(a[1], b[1], s), a[2])
    return rat(padd(pmul(a[1], b[2]), pmul(b[1], a[2]), s), pmul(a[2], b[2]))
def rdiv0(a, b):
    if not b[1]: raise ZeroDivisionError
    return rat(pmul(a[1], b[2]), pmul(a[2], b[1]))

# ------------------------------------------------------------------ machine
LATTICE = [True]
class VN:
    def __init__(s, mode="strict", narrow_opaque=True):
        s.mode = mode; s.narrow_opaque = narrow_opaque
        s.tab = []; s.uniq = {}; s.atoms = []; s.atomidx = {}
        s.ratreps = {}; s.rems = {}
        s.memo_ite = {}; s.memo_case = {}; s.T = s.leaf(("i", 1, pconst(1))); s.F = s.leaf(("i", 1, ()))
        s.fresh = 0
    # ---- nodes
    def leaf(s, e):
        k = ("L", e); r = s.uniq.get(k)
        if r is None: r = s.uniq[k] = len(s.tab); s.tab.append(k)
        return r
    def isleaf(s, n): return s.tab[n][0] == "L"
    def atom(s, a):
        r = s.atomidx.get(a)
        if r is None: r = s.atomidx[a] = len(s.atoms); s.atoms.append(a)
        return r
    def mk(s, ai, ch):
        if all(c == ch[0] for c in ch): return ch[0]
        k = ("N", ai, ch); r = s.uniq.get(k)
        if r is None: r = s.uniq[k] = len(s.tab); s.tab.append(k)
        return r
    def top(s, n):
        t = s.tab[n]; return t[1] if t[0] == "N" else 1 << 60
    def cof(s, n, ai, j):
        t = s.tab[n]
        return t[2][j] if t[0] == "N" and t[1] == ai else n
    def nary(s, ai): return 3 if s.atoms[ai][0] in ("ord", "uord") else 2
    def restrict(s, n, ai, j, memo=None):
        if memo is None: memo = {}
        if n in memo: return memo[n]
        t = s.tab[n]
        if t[0] == "L" or t[1] > ai: r = n
        elif t[1] == ai: r = t[2][j]
        else: r = s.mk(t[1], tuple(s.restrict(c, ai, j, memo) for c in t[2]))
        memo[n] = r; return r
    def case(s, ai, ch):
        """node testing atom ai, children may contain any atoms"""
        if min(s.top(c) for c in ch) > ai: return s.mk(ai, ch)
        ch = tuple(s.restrict(c, ai, j) for j, c in enumerate(ch))
        return s._case(ai, ch)
    def _case(s, ai, ch):
        if all(c == ch[0] for c in ch): return ch[0]
        m = min(s.top(c) for c in ch)
        if m > ai: return s.mk(ai, ch)
        k = (ai, ch); r = s.memo_case.get(k)
        if r is None:
            r = s.memo_case[k] = s.mk(m, tuple(s._case(ai, tuple(s.cof(c, m, j) for c in ch)) for j in range(s.nary(m))))
        return r
    def ite(s, c, a, b):
        if c == s.T: return a
        if c == s.F: return b
        if a == b: return a
        if a == s.T and b == s.F: return c
        k = (c, a, b); r = s.memo_ite.get(k)
        if r is not None: return r
        if s.isleaf(c): raise Undecided("non-boolean condition %r" % (s.tab[c],))
        m = min(s.top(c), s.top(a), s.top(b))
        r = s.mk(m, tuple(s.ite(s.cof(c, m, j), s.cof(a, m, j), s.cof(b, m, j)) for j in range(s.nary(m))))
        s.memo_ite[k] = r; return r
    def NOT(s, a): return s.ite(a, s.F, s.T)
    def AND(s, a, b): return s.ite(a, b, s.F)
    def OR(s, a, b): return s.ite(a, s.T, b)
    def app(s, f, *ns):
        """apply a leaf function (returning a node) to decision diagrams"""
        memo = {}
        def go(ns):
            r = memo.get(ns)
            if r is not None: return r
            m = min((s.top(n) for n in ns), default=1 << 60)
            if m == 1 << 60: r = f(*[s.tab[n][1] for n in ns])
            else: r = s._casesafe(m, tuple(go(tuple(s.cof(n, m, j) for n in ns)) for j in range(s.nary(m))))
            if len(memo) > 20000: raise Undecided("diagram too large")
            memo[ns] = r; return r
        return go(tuple(ns))
    def _casesafe(s, m, ch):
        return s.case(m, ch)
    # ---- leaf constructors
    def fconst(s, v, ty="double"):
        if v != v: return I(("nanc",))
        if v in (math.inf, -math.inf):
            return I(("inf", 1 if v > 0 else -1))
        a = CONST_ATOMS.get(v)
        if a and s.mode == "real": return rat(patom(("K", a)))
        return rat(pconst(Fraction(v)))
    def iconst(s, v, n):
        v &= (1 << n) - 1
        if n > 1 and v >> (n-1): v -= 1 << n
        return I(("i", n, pconst(v)))
    def isym(s, n, a): return I(("i", n, (((( a, 1),), 1),)))
    def fsym(s, a): return rat(patom(a))
    def sym(s, ty, a):
        if ty.k in ("double", "float"): return s.leaf(s.fsym(a))
        if ty.k == "int":
            if ty.n == 1: return s.boolatom(a)
            return s.leaf(s.isym(ty.n, a))
        if ty.k == "ptr": return s.leaf(I(("ptr", a, 0)))
        raise Undecided("symbol of type %r" % ty)
    def boolatom(s, a):
        return s.mk(s.atom(I(("bool", a))), (s.F, s.T))
    def rep(s, r):
        """representative of a rational term up to cross-multiplication equality"""
        if r[0] != "rat": return r
        x = s.ratreps.get(r)
        if x is not None: return x
        for q in list(s.ratreps):
            if q[2] != P1 or r[2] != P1:
                if s.ratreps[q] is q and req(q, r): s.ratreps[r] = q; return q
        s.ratreps[r] = r; return r
    # ---- floats
    def fcombine(s, op, a, b):
        """two float leaves -> leaf"""
        if a[0] == "nanc" or b[0] == "nanc": return s.leaf(I(("nanc",)))
        if a[0] == "inf" or b[0] == "inf":
            if a[0] == "inf" and b[0] == "inf":
                if op == "fadd": return s.leaf(a if a == b else I(("nanc",)))
                if op == "fsub": return s.leaf(a if a != b else I(("nanc",)))
                if op == "fmul": return s.leaf(I(("inf", a[1]*b[1])))
                return s.leaf(I(("nanc",)))
            if a[0] == "inf" and b[0] == "rat" and isconst(b):
                c = cval(b)
                if op in ("fadd", "fsub"): return s.leaf(a)
                if c == 0 and op == "fmul": return s.leaf(I(("nanc",)))
                return s.leaf(I(("inf", a[1]*(-1 if c < 0 else 1))))
            if b[0] == "inf" and a[0] == "rat" and isconst(a):
                c = cval(a)
                if op == "fadd": return s.leaf(b)
                if op == "fsub": return s.leaf(I(("inf", -b[1])))
                if op == "fdiv": return s.leaf(s.fconst(0.0))
                if c == 0: return s.leaf(I(("nanc",)))
                return s.leaf(I(("inf", b[1]*(-1 if c < 0 else 1))))
            return s.leaf(rat(patom(I(("ff", op) + ((a, b) if op in ("fsub", "fdiv") else tuple(sorted((a, b), key=repr)))))))
        if a[0] != "rat" or b[0] != "rat": raise Undecided("float op on %r %r" % (a[0], b[0]))
        if op == "frem": return s.leaf(rat(patom(I(("fn", "fmod", s.rep(a), s.rep(b))))))
        if s.mode == "real":
            if op == "fadd": return s.leaf(s.red(radd0(a, b)))
            if op == "fsub": return s.leaf(s.red(radd0(a, b, -1)))
            if op == "fmul": return s.leaf(s.red(rmul0(a, b)))
            if op == "fdiv":
                if not b[1]:
                    if isconst(a): return s.leaf(I(("nanc",)) if not a[1] else I(("inf", 1 if cval(a) > 0 else -1)))
                    return s.leaf(rat(patom(I(("ff", "fdiv", a, b)))))
                return s.leaf(s.red(rdiv0(a, b)))
        # strict
        if isconst(a) and isconst(b):
            x, y = float(cval(a)), float(cval(b))
            if op == "fadd": return s.leaf(s.fconst(x+y))
            if op == "fsub": return s.leaf(s.fconst(x-y))
            if op == "fmul": return s.leaf(s.fconst(x*y))
            if op == "fdiv" and y: return s.leaf(s.fconst(x/y))
        if op == "fadd":
            if isconst(a) and cval(a) == 0: return s.leaf(b)
            if isconst(b) and cval(b) == 0: return s.leaf(a)
            na, nb = sneg(a), sneg(b)
            if na is not None and nb is None: return s.fcombine("fsub", b, na)
            if nb is not None and na is None: return s.fcombine("fsub", a, nb)
        if op == "fsub":
            if a == b:      # x - x: zero unless x is not finite
                n, z = s.leaf(I(("nanc",))), s.leaf(s.fconst(0.0))
                return s.ord(a, s.fconst(float("inf")), s.ord(a, s.fconst(float("-inf")), n, n, z, n), n, n, n)
            if isconst(b) and cval(b) == 0: return s.leaf(a)
            if isconst(a) and cval(a) == 0: return s.leaf(rneg(b))
            if sneg(b) is not None: return s.fcombine("fadd", a, sneg(b))
        if op == "fmul":
            if isconst(a) and cval(a) == 1: return s.leaf(b)
            if isconst(b) and cval(b) == 1: return s.leaf(a)
            if isconst(a) and cval(a) == -1: return s.leaf(rneg(b))
            if isconst(b) and cval(b) == -1: return s.leaf(rneg(a))
        if op == "fdiv" and isconst(b) and cval(b) == 1: return s.leaf(a)
        sg = 1
        if op in ("fmul", "fdiv"):     # signs commute exactly
            if sneg(a) is not None: a = sneg(a); sg = -sg
            if sneg(b) is not None: b = sneg(b); sg = -sg
        if op in ("fadd", "fmul"): a, b = sorted((a, b), key=repr)
        t = rat(patom(I(("ff", op, a, b))))
        return s.leaf(t if sg > 0 else rneg(t))
    def red(s, r): return I(rsq(r))
    def fn(s, name, *args):
        """uninterpreted pure function on float leaves"""
        args = tuple(s.rep(a) for a in args)
        return s.leaf(rat(patom(I(("fn", name) + args))))
    # ---- comparisons -> boolean nodes
    def nan(s, e):
        if e[0] == "nanc": return s.T
        if e[0] == "inf" or isconst(e): return s.F
        if e[0] == "rat":
            if e[2] == P1 and len(e[1]) == 1 and len(e[1][0][0]) == 1 and e[1][0][0][0][1] == 1:
                a = e[1][0][0][0][0]
                if a[0] in ("sitofp", "uitofp", "K"): return s.F
                if a[0] == "fn" and a[1] in ("fptrunc",) and a[2][0] == "rat": return s.nan(a[2])
                return s.case(s.atom(I(("nan", rat(patom(a))))), (s.F, s.T))
            # an arithmetic term over inputs is NaN only if ... keep it as its own atom
        return s.case(s.atom(I(("nan", s.rep(s.absnorm(e))))), (s.F, s.T))
    def absnorm(s, e):
        n = rneg(e)
        return min((e, n), key=repr)
    def ord(s, a, b, lt, eq, gt, un):
        """a node choosing by IEEE ordering of two float leaves"""
        if a[0] == "nanc" or b[0] == "nanc": return un
        if a == b or (a[0] == "rat" and b[0] == "rat" and req(a, b)):
            return s.ite(s.nan(a), un, eq)
        ka, kb = constkey(a), constkey(b)
        if ka is not None and kb is not None:
            return lt if ka < kb else gt if ka > kb else eq
        a, b, flip = s.canonord(a, b)
        if flip: lt, gt = gt, lt
        c = s.case(s.atom(I(("ord", a, b))), (lt, eq, gt))
        c = s.ite(s.nan(a), un, c)
        return s.ite(s.nan(b), un, c)
    def canonord(s, a, b):
        flip = False
        if a[0] == "rat": a = s.rep(a)
        if b[0] == "rat": b = s.rep(b)
        if constkey(a) is not None or (constkey(b) is None and repr(b) < repr(a)):
            a, b, flip = b, a, not flip
        # a is now non-constant; make its leading sign positive
        if a[0] == "rat" and a[1] and a[1][0][1] < 0:
            na = rneg(a); nb = rneg(b)
            a, b = s.rep(na), (s.rep(nb) if nb[0] == "rat" else nb)
            flip = not flip
            if constkey(b) is None and repr(b) < repr(a) and b[0] == "rat" and b[1][0][1] > 0:
                a, b, flip = b, a, not flip
        return a, b, flip
    def sign(s, a):
        """signbit"""
        ka = constkey(a)
        if ka is not None: return s.T if ka < 0 else s.F
        b = s.boolatom(I(("sgn", s.rep(a))))
        return s.ord(a, s.fconst(0.0), s.T, b, s.F, b)
    def fcmp(s, p, a, b):
        if p == "true": return s.T
        if p == "false": return s.F
        T, F = s.T, s.F
        tab = {"eq": (F, T, F), "gt": (F, F, T), "ge": (F, T, T), "lt": (T, F, F), "le": (T, T, F), "ne": (T, F, T)}
        if p == "ord": return s.NOT(s.OR(s.nan(a), s.nan(b)))
        if p == "uno": return s.OR(s.nan(a), s.nan(b))
        l, e, g = tab[p[1:]]
        return s.ord(a, b, l, e, g, T if p[0] == "u" else F)
    def remof(s, a, b):
        """a - b as plus or minus the remainder of a truncating division: (dividend, divisor, sign)"""
        n = a[1]
        for x, sg in ((a, 1), (b, -1)):
            o = b if x is a else a
            if isconst(o) and icval(o) == 0 and x in s.rems: return s.rems[x] + (sg,)
        e = pnorm({m: smod(c, n) for m, c in padd(a[2], b[2], -1)})
        if not e or len(e) > 4: return None
        for t in {t for m, c in e for t, _ in m if isinstance(t, tuple) and t[:1] == ("sdiv",) and t[1][1] == n}:
            r = pnorm({m: smod(c, n) for m, c in padd(t[1][2], pmul(t[2][2], ((((t, 1),), 1),)), -1)})
            if r == e: return t[1], t[2], 1
            if r == pnorm({m: smod(-c, n) for m, c in e}): return t[1], t[2], -1
        return None
    def iord(s, a, b, lt, eq, gt, signed=True):
        n = a[1]
        if a[2] == b[2]: return eq
        if isconst(a) and isconst(b):
            x, y = icval(a), icval(b)
            if not signed: x &= (1 << n)-1; y &= (1 << n)-1
            return lt if x < y else gt if x > y else eq
        if signed and isconst(b) and icval(b) == 0 or isconst(a) and icval(a) == 0 or lt is gt or lt == gt:   # sign of a remainder is the dividend's
            r = s.remof(a, b)
            if r is not None and (lt == gt or signed):
                d, m, sg = r
                nz = s.boolatom(I(("remnz", d, m)))
                return s.ite(nz, s.iord(d, s.iconst(0, n), lt, eq, gt) if sg > 0 else s.iord(d, s.iconst(0, n), gt, eq, lt), eq)
        flip = False
        if isconst(a) or (not isconst(b) and repr(b) < repr(a)): a, b, flip = b, a, True
        if flip: lt, gt = gt, lt
        if signed and isconst(b) and s.mode == "real" and len(a[2]) and LATTICE[0]:      # truncation of a real, assumed in range
            c0 = dict(a[2]).get((), 0); t = single(I(("i", n, padd(a[2], pconst(c0), -1))))
            if t is not None and t[0] == "fptosi" and t[1][0] == "rat":
                k = icval(b) - int(c0); x = t[1]
                below = s.fcmp("ole" if k <= 0 else "olt", x, s.fconst(float(k-1 if k <= 0 else k)))
                above = s.fcmp("oge" if k >= 0 else "ogt", x, s.fconst(float(k+1 if k >= 0 else k)))
                return s.ite(below, lt, s.ite(above, gt, eq))
        if not signed and isconst(b):
            # (x + c) <u k  as signed interval membership of x
            k = icval(b) & ((1 << n)-1)
            c = dict(a[2]).get((), 0)
            lo = -c; hi = -c + k          # x in [lo, hi) is '<', x == hi is '='
            h = 1 << (n-1)
            x = I(("i", n, padd(a[2], pconst(c), -1)))
            if -h <= lo and hi < h and len(x[2]) == 1 and lt is not None:
                if lo == -h and c == 0: pass
                res = s.iord(x, s.iconst(lo, n), gt, None, None) if False else None
                ltlo = s.iord(x, s.iconst(lo, n), s.T, s.F, s.F)
                inner = s.iord(x, s.iconst(hi, n), lt, eq, gt)
                return s.ite(ltlo, gt, inner)
            h2 = hi - (1 << n)
            if -h <= h2 and lo < h and h2 < lo and len(x[2]) == 1 and c != 0:      # wrapped: '=' at h2, '>' on (h2, lo), '<' elsewhere
                inner = s.iord(x, s.iconst(lo, n), gt, lt, lt)
                return s.iord(x, s.iconst(h2, n), lt, eq, inner)
        t, u = single(a), single(b)
        if signed and t is not None and t[0] == "sext":
            w = t[1][1]
            if isconst(b):
                c = icval(b)
                if c > (1 << (w-1))-1: return lt
                if c < -(1 << (w-1)): return gt
                return s.iord(t[1], s.iconst(c, w), lt, eq, gt)
            if u is not None and u[0] == "sext" and u[1][1] == w: return s.iord(t[1], u[1], lt, eq, gt)
        if t is not None and t[0] == "zext" and isconst(b) and (signed or icval(b) >= 0):
            w = t[1][1]; c = icval(b)
            if c < 0: return gt
            if c >= 1 << w: return lt
            if c < 1 << (w-1): return s.ite(s.ineg(t[1]), gt, s.iord(t[1], s.iconst(c, w), lt, eq, gt))
            return s.ite(s.ineg(t[1]), s.iord(t[1], s.iconst(c - (1 << w), w), lt, eq, gt), lt)
        return s.case(s.atom(I(("ord" if signed else "uord", a, b))), (lt, eq, gt))
    def icmp(s, p, a, b):
        T, F = s.T, s.F
        if a[0] == "ptr" and b[0] == "ptr":
            if a[1] == b[1]:
                x, y = a[2], b[2]
                r = {"eq": x == y, "ne": x != y, "ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}.get(p)
                if r is None: return s.boolatom(I(("call", "pointer compare", p, a, b)))
                return T if r else F
            if root(a[1]) == root(b[1]):
                x, y = s.bytes(a), s.bytes(b)
                if x is not None and y is not None:     # of one object: addresses are ordered as the distances
                    d = I(("i", 64, pnorm({m: smod(c, 64) for m, c in padd(x, y, -1)}))); return s.icmp({"u": "s"}.get(p[0], "")+p[1:] if p not in ("eq", "ne") else p, d, s.iconst(0, 64))
            if p in ("eq", "ne"):
                if "alloca" in (a[1][0], b[1][0]) or (a[1][0] == "arg" and b[1][0] == "arg"):
                    return F if p == "eq" else T
            return s.boolatom(I(("call", "pointer compare", p, a, b)))
        if a[0] == "ptr" or b[0] == "ptr":
            q = a if a[0] == "ptr" else b
            o = b if a[0] == "ptr" else a
            if isconst(o) and icval(o) == 0 and p in ("eq", "ne") and q[1][0] in ("arg", "alloca", "glob"): return F if p == "eq" else T
            if p in ("eq", "ne"):
                n = s.boolatom(I(("peq", q, o))); return n if p == "eq" else s.NOT(n)
            return s.boolatom(I(("call", "pointer compare", p, a, b)))
        tab = {"eq": (F, T, F), "gt": (F, F, T), "ge": (F, T, T), "lt": (T, F, F), "le": (T, T, F), "ne": (T, F, T)}
        t = single(a)
        if t is not None and isconst(b) and t[0] in ("bits", "xor", "or", "and"):
            c = icval(b); neg = None
            if (p, c) in (("slt", 0), ("sle", -1)): neg = True
            if (p, c) in (("sgt", -1), ("sge", 0)): neg = False
            if neg is not None:
                if t[0] == "bits": sg = s.sign(t[1])
                elif t[0] == "or": sg = s.OR(s.ineg(t[1]), s.ineg(t[2]))
                elif t[0] == "and": sg = s.AND(s.ineg(t[1]), s.ineg(t[2]))
                else:
                    x, y = s.ineg(t[1]), s.ineg(t[2]); sg = s.ite(x, s.NOT(y), y)
                return sg if neg else s.NOT(sg)
        if t is not None and t[0] == "fexp" and isconst(b) and p in ("slt", "sle", "sgt", "sge"):   # frexp: |x| < 2^e
            c = icval(b) - (p in ("slt", "sge")); lim = s.fconst(2.0**(c if -900 < c < 900 else 900)); x = t[1]
            r = s.AND(s.fcmp("olt", x, lim), s.fcmp("ogt", x, rneg(lim)))
            if 0 <= c < 900: return r if p[1] == "l" else s.NOT(r)
        if p in ("eq", "ne"): return s.iord(a, b, *tab[p])
        return s.iord(a, b, *tab[p[1:]], signed=(p[0] == "s"))
    def ineg(s, x): return s.icmp("slt", x, s.iconst(0, x[1]))
    def bytes(s, p):
        """distance in bytes from the start of the object a pointer points into"""
        q, b = pconst(p[2]), p[1]
        while b[0] == "dyn":
            if len(b[2]) != 1 or b[2][0][1] != 1: return None
            q = padd(q, b[2][0][0][2]); b = b[1]
        return q
    # ---- ints
    def iop(s, op, a, b):
        n = a[1] if a[0] == "i" else b[1] if b[0] == "i" else 64
        if a[0] == "ptr" or b[0] == "ptr":
            if op == "sub" and a[0] == "ptr" and b[0] == "ptr" and a[1] == b[1]: return s.leaf(s.iconst(a[2]-b[2], n))
            if op == "sub" and a[0] == "ptr" and b[0] == "ptr" and root(a[1]) == root(b[1]):
                x, y = s.bytes(a), s.bytes(b)
                if x is not None and y is not None: return s.leaf(I(("i", n, pnorm({m: smod(c, n) for m, c in padd(x, y, -1)}))))
            if op == "add" and a[0] == "ptr" and isconst(b): return s.leaf(I(("ptr", a[1], a[2]+icval(b))))
            if op == "sub" and a[0] == "ptr" and isconst(b): return s.leaf(I(("ptr", a[1], a[2]-icval(b))))
            return s.leaf(s.isym(n, I(("call", "pointer arithmetic", op, a, b))))
        mod = lambda p: I(("i", n, pnorm({m: smod(c, n) for m, c in p})))
        if op == "add": return s.leaf(mod(padd(a[2], b[2])))
        if op == "sub": return s.leaf(mod(padd(a[2], b[2], -1)))
        if op == "mul": return s.leaf(mod(pmul(a[2], b[2])))
        if isconst(a) and isconst(b):
            x, y = icval(a), icval(b); ux, uy = x & ((1 << n)-1), y & ((1 << n)-1)
            r = None
            if op == "shl": r = x << uy
            elif op == "lshr": r = ux >> uy
            elif op == "ashr": r = x >> uy
            elif op == "and": r = x & y
            elif op == "or": r = x | y
            elif op == "xor": r = x ^ y
            elif y != 0:
                if op == "sdiv": r = abs(x)//abs(y)*(1 if (x < 0) == (y < 0) else -1)
                if op == "srem": r = abs(x) % abs(y)*(1 if x >= 0 else -1)
                if op == "udiv": r = ux//uy
                if op == "urem": r = ux % uy
            if r is not None: return s.leaf(s.iconst(r, n))
        if op in ("lshr", "ashr") and isconst(b) and icval(b) == n-1:
            return s.ite(s.ineg(a), s.leaf(s.iconst(1 if op == "lshr" else -1, n)), s.leaf(s.iconst(0, n)))
        if op in ("ashr", "sdiv") and NOWRAP[0] and isconst(b) and icval(b) > 0 and a[0] == "i":    # exact
            k = 1 << icval(b) if op == "ashr" else icval(b)
            if k < 1 << 62 and all(c % k == 0 for _, c in a[2]): return s.leaf(I(("i", n, pnorm({m: c // k for m, c in a[2]}))))
        if op == "srem":     # a - b*(a sdiv b); remembered so that its sign can be decided
            q = s.tab[s.iop("sdiv", a, b)][1]
            r = mod(padd(a[2], pmul(b[2], q[2]), -1))
            s.rems[r] = (a, b)
            return s.leaf(r)
        if op == "shl" and isconst(b): return s.leaf(mod(pmul(a[2], pconst(1 << icval(b)))))
        if op in ("and", "or", "xor"):
            if isconst(a): a, b = b, a
            if isconst(b):
                v = icval(b)
                if v == 0: return s.leaf(s.iconst(0, n)) if op == "and" else s.leaf(a)
                if v == -1:
                    if op == "and": return s.leaf(a)
                    if op == "or": return s.leaf(b)
                    return s.leaf(mod(padd(pconst(-1), a[2], -1)))
            if a == b: return s.leaf(s.iconst(0, n)) if op == "xor" else s.leaf(a)
            if op in ("or", "xor"):         # halves of a packed word share no bit
                for x, y in ((a, b), (b, a)):
                    w = narrow(x)
                    if w and y[0] == "i" and y[2] and all(c % (1 << w) == 0 for _, c in y[2]): return s.leaf(mod(padd(x[2], y[2])))
            a, b = sorted((a, b), key=repr)
        if op in ("sdiv", "udiv") and isconst(b) and icval(b) == 1: return s.leaf(a)
        if op == "lshr" and isconst(b) and a[0] == "i":     # the upper half of a packed word
            k = icval(b); lo = [(m, c) for m, c in a[2] if c % (1 << k)]; hi = [(m, c) for m, c in a[2] if c % (1 << k) == 0]
            if len(hi) == 1 and hi[0][1] & 0xffffffffffffffff == 1 << k:
                w = narrow(("i", n, ((hi[0][0], 1),)))
                if w and w + k <= n and (not lo or len(lo) == 1 and 0 < narrow(("i", n, tuple(lo))) <= k): return s.leaf(mod(((hi[0][0], 1),)))
        if op == "sdiv" and NOWRAP[0]:      # truncating division composes
            t = single(a)
            if t is not None and t[0] == "sdiv": return s.iop("sdiv", t[1], s.tab[s.iop("mul", t[2], b)][1])
        if op == "udiv" and isconst(b) and icval(b) > 0 and (icval(b) & (icval(b)-1)) == 0:
            op, b = "lshr", s.iconst(icval(b).bit_length()-1, n)
        return s.leaf(s.isym(n, I((op, a, b))))

def narrow(x):
    "the width of a value that is one zero-extended narrower value, else 0"
    t = single(x)
    return t[1][1] if t is not None and t[0] == "zext" and isinstance(t[1], tuple) and len(t[1]) > 1 and isinstance(t[1][1], int) else 0
def smod(c, n):
    c = int(c) & ((1 << n)-1)
    return c - (1 << n) if n > 1 and c >> (n-1) else c
def isconst(e):
    if e[0] == "rat": return e[2] == P1 and (not e[1] or (len(e[1]) == 1 and e[1][0][0] == ()))
    if e[0] == "i": return not e[2] or (len(e[2]) == 1 and e[2][0][0] == ())
    return e[0] in ("inf", "nanc")
def cval(e): return e[1][0][1] if e[1] else Fraction(0)
def icval(e): return int(e[2][0][1]) if e[2] else 0
def constkey(e):
    if e[0] == "inf": return e[1]*math.inf
    if e[0] == "rat":
        if isconst(e): return cval(e)
        if e[2] == P1 and len(e[1]) == 1 and len(e[1][0][0]) == 1 and e[1][0][0][0][0][0] == "K" and e[1][0][0][0][1] == 1:
            return e[1][0][1]*Fraction({"LN10": math.log(10.0), "PI": math.pi, "LN2": math.log(2.0)}[e[1][0][0][0][0][1]])
    return None
def rneg(e):
    if e[0] == "inf": return I(("inf", -e[1]))
    if e[0] == "nanc": return e
    return I(("rat", tuple((m, -c) for m, c in e[1]), e[2]))
def sneg(e):
    """if e is -t for a single atom t: t"""
    if e[0] == "rat" and len(e[1]) == 1 and e[1][0][1] == -1 and e[1][0][0]: return rneg(e)
    return None
def req(a, b):
    if a[0] != "rat" or b[0] != "rat": return a == b
    if a[2] == b[2]: return a[1] == b[1]
    return pmul(a[1], b[2]) == pmul(b[1], a[2])

# ------------------------------------------------------------------ memory
class Mem:
    pass
class MInit(Mem):
    pass
class MWrite(Mem):
    __slots__ = ("p", "base", "off", "size", "val", "ty")
class MCopy(Mem):
    __slots__ = ("p", "base", "off", "n", "sbase", "soff", "smem")
class MSet(Mem):
    __slots__ = ("p", "base", "off", "n", "byte")
class MIte(Mem):
    """joined memories; dom: the memory both derive from, touched: what is written in between (base -> ranges, None for unknown)"""
    __slots__ = ("c", "a", "b", "dom", "touched", "alias")
    def __init__(s, c, a, b):
        s.c, s.a, s.b = c, a, b; t = {}; s.alias = {}
        x, y = a, b; dx, dy = mdepth(x), mdepth(y)
        while x is not y:
            if dx >= dy: x = mstep(x, t); dx = mdepth(x)
            else: y = mstep(y, t); dy = mdepth(y)
        s.dom, s.touched, s.depth = x, None if None in t else t, mdepth(x) + 1
    def untouched(s, base, off, size):
        if s.touched is None: return False
        r = s.alias.get(base)
        if r is None: r = s.alias[base] = all(b == base or not mayalias(base, b) for b in s.touched)
        return r and all(h <= off or off + size <= l for l, h in s.touched.get(base, ()))
def mdepth(m):
    w = []
    while True:
        d = getattr(m, "depth", None)
        if d is not None: break
        if isinstance(m, MInit): d = m.depth = 0; break
        w.append(m); m = m.p
    for x in reversed(w): d += 1; x.depth = d
    return d
def mstep(m, t):
    """the memory before m; what m writes is noted in t"""
    if isinstance(m, MIte):
        if m.touched is None: t[None] = True
        else:
            for b, r in m.touched.items(): t.setdefault(b, set()).update(r)
        return m.dom
    if isinstance(m, (MJunk, MClob)): t[None] = True
    else: t.setdefault(m.base, set()).add((m.off, m.off + (m.size if isinstance(m, MWrite) else m.n)))
    return m.p
def hasundef(x):
    """does an integer leaf depend on a value that was never set (its use has no defined meaning)"""
    return any("'undef'" in r or "'junk'" in r or "'outside'" in r for r in (repr(m) for m, _ in x[2]))
class MJunk(Mem):
    """a store through a value that is not a pointer (on an infeasible combination), or outside its array"""
    __slots__ = ("p", "oob")
    def __init__(s): s.oob = False
class MClob(Mem):
    __slots__ = ("p", "bases", "id")

class Result: pass

PURE = {"exp", "log", "log10", "log2", "exp2", "pow", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "erf", "erfc", "floor", "ceil", "rint", "nearbyint", "round", "trunc", "sqrt", "fmod", "cbrt", "hypot", "exp10", "ldexp", "expm1", "log1p"}

class _CE:
    """constant expression dressed as an instruction"""
    def __init__(s, op, args, ty): s.op, s.args, s.ty, s.x, s.res = op, args, ty, None, None
class Eval:
    def __init__(s, mod, vn, maxdepth=24):
        s.m, s.v, s.maxdepth = mod, vn, maxdepth
        s.lookmemo = {}; s.keep = []; s.extents = {}     # base -> bytes
        s.words = set()      # arrays of 32-bit elements
        s.allocid = 0; s.calls = []; s.opaque_effects = []; s.narrow = []; s.widths = set()
    # ---- entry
    def run(s, fname, argbases):
        """argbases: per parameter either ('ptr',base) -> pointer to symbolic memory, or node"""
        f = s.m.funcs[fname]
        args = []
        for (t, n), a in zip(f.params, argbases):
            args.append(s.v.leaf(I(("ptr", I(a), 0))) if isinstance(a, tuple) else a)
        s.initmem = MInit()
        r = s.func(f, args, s.initmem, 0)
        return r
    def func(s, f, args, mem, depth):
        """value-numbers a function; counted loops are unrolled completely: the body is numbered again
        until the condition of its back edges is constant false"""
        if depth > s.maxdepth: raise Undecided("inlining depth in %s" % f.name)
        v = s.v
        env = {n: a for (t, n), a in zip(f.params, args)}
        succ = getattr(f, "_succ", None)
        if succ is None: succ = f._succ = {b: s.succs(f.blocks[b][-1]) for b in f.order}
        doomed = s.doomed(f, succ)
        rpo, nest = s.loopnest(f, succ, doomed)
        st = Result(); st.rets = []; st.throws = v.F
        LIMIT, LONGLIMIT = s.maxiter, 1200
        def block(b, insts, emit):
            cond = v.F
            for c, m, ph in insts: cond = v.OR(cond, c)
            if cond == v.F: return
            live = [x for x in insts if x[0] != v.F]
            mem = live[-1][1]
            for c, m, ph in live[:-1]:
                if m is not mem:
                    mem = MIte(c, m, mem)
            if b in doomed:      # can only leave by an exception (or is unreachable by assumption): nothing in it is observable
                if doomed[b]: st.throws = v.OR(st.throws, v.AND(cond, s.raised(mem))); s.calls.append(("throw", f.name))
                return
            if live[0][2]:
                for r in live[0][2]:
                    val = None
                    for c, m, ph in live: val = ph[r] if val is None else s.vite(c, ph[r], val)
                    env[r] = val
            def go(tgt, c):
                if c == v.F: return
                ph = {}
                for ins in (() if tgt in doomed else f.blocks[tgt]):
                    if ins.op != "phi": break
                    for pv, pb in ins.args:
                        if pb == b: ph[ins.res] = s.const(ins.ty, pv, env); break
                emit(tgt, (c, mem, ph))
            for ins in f.blocks[b]:
                op = ins.op
                if op == "phi": continue
                if op == "br":
                    if len(ins.x) == 1: go(ins.x[0], cond)
                    elif ins.x[0] == ins.x[1]: go(ins.x[0], cond)
                    else:
                        c = s.op(ins.args[0], env)
                        go(ins.x[0], v.AND(cond, c))
                        go(ins.x[1], v.AND(cond, v.NOT(c)))
                    break
                if op == "switch":
                    d, cs = ins.x; x = s.op(ins.args[0], env); rest = cond; tg = {}
                    for cv, lb in cs:
                        k = s.op(cv, env)
                        e = v.app(lambda p, q: v.icmp("eq", p, q), x, k)
                        tg[lb] = v.OR(tg.get(lb, v.F), v.AND(rest, e))
                        rest = v.AND(rest, v.NOT(e))
                    tg[d] = v.OR(tg.get(d, v.F), rest)
                    for lb, c in tg.items(): go(lb, c)
                    break
                if op == "ret":
                    st.rets.append((cond, s.op(ins.args[0], env) if ins.args else None, mem)); break
                if op == "unreachable": break
                if op == "resume":
                    st.throws = v.OR(st.throws, cond); break
                if op in ("call", "invoke"):
                    val, mem, thr = s.call(ins, env, mem, cond, depth)
                    if thr != v.F:
                        st.throws = v.OR(st.throws, v.AND(cond, thr))
                        cond = v.AND(cond, v.NOT(thr))
                    if ins.res is not None: env[ins.res] = val
                    if op == "invoke": go(ins.x["normal"], cond); break
                    if cond == v.F: break
                    continue
                if op == "store":
                    mem = s.store(mem, s.op(ins.args[1], env), s.op(ins.args[0], env), ins.args[0][0]); continue
                if op == "load":
                    env[ins.res] = s.load(mem, s.op(ins.args[0], env), ins.ty); continue
                if op == "alloca":
                    s.allocid += 1
                    env[ins.res] = v.leaf(I(("ptr", I(("alloca", s.allocid)), 0))); s.extent(ins, env); continue
                if op == "landingpad": continue
                env[ins.res] = s.compute(ins, env)
        def region(L, insts):
            """numbers one pass over the blocks of loop L (None: the function) -> (instances leaving it, instances on its back edges)"""
            head = f.order[0] if L is None else L
            blocks = rpo[L]; inL = nest[L]
            pend = {head: list(insts)}; exits = []; back = []; done = set()
            def route(tgt, inst):
                if L is not None and tgt == L: back.append(inst)
                elif tgt in inL:
                    if tgt in done: raise Undecided("irreducible control flow in %s" % f.name)
                    pend.setdefault(tgt, []).append(inst)
                else: exits.append((tgt, inst))
            for b in blocks:
                ins = pend.pop(b, None)
                done.add(b)
                if not ins: continue
                if b in nest and b != L:
                    it = 0; entry = [c for c, _, _ in ins]
                    while ins and any(c != v.F for c, _, _ in ins):
                        it += 1
                        # an iteration that is entered exactly when the loop is does not count: constant trip counts may be long
                        if it > LIMIT and (it > LONGLIMIT or any(c not in entry for c, _, _ in ins)): raise Undecided("loop in %s without constant bound" % f.name)
                        ex, ins = region(b, ins)
                        for tgt, inst in ex: route(tgt, inst)
                else: block(b, ins, route)
            return exits, back
        region(None, [(v.T, mem, {})])
        out = Result()
        rets = st.rets
        if rets:
            val, mm = rets[-1][1], rets[-1][2]
            for c, x, m in rets[:-1]:
                if x is not None: val = s.vite(c, x, val)
                if m is not mm:
                    mm = MIte(c, m, mm)
            out.val, out.mem = val, mm
        else: out.val, out.mem = None, mem
        out.throws = st.throws
        out.returns = v.F
        for c, x, m in rets: out.returns = v.OR(out.returns, c)
        return out
    maxiter = 24
    fresh = False    # the function runs first: mutable globals hold their initialisers
    def loopnest(s, f, succ, doomed):
        """-> ({loop header or None: blocks at that level in reverse post order (inner loops by their header)}, {header or None: set of blocks})"""
        r = getattr(f, "_nest", None)
        if r is not None: return r
        entry = f.order[0]
        suc = {b: ([] if b in doomed else succ[b]) for b in f.order}
        order, state = [], {}
        st = [(entry, iter(suc[entry]))]; state[entry] = 1; backe = []
        while st:
            x, it = st[-1]
            for y in it:
                if state.get(y) == 1: backe.append((x, y)); continue
                if y not in state:
                    state[y] = 1; st.append((y, iter(suc[y]))); break
            else:
                state[x] = 2; order.append(x); st.pop()
        order.reverse()
        pred = {b: [] for b in order}
        for b in order:
            for c in suc[b]: pred[c].append(b)
        loops = {None: set(order)}
        for x, h in backe:
            body = loops.setdefault(h, {h}); w = [x]
            while w:
                y = w.pop()
                if y in body: continue
                if y == entry: raise Undecided("irreducible control flow in %s" % f.name)
                body.add(y); w += pred[y]
        pos = {b: i for i, b in enumerate(order)}
        heads = sorted((h for h in loops if h is not None), key=lambda h: len(loops[h]))
        inner = {}       # innermost loop of each block
        for b in order:
            inner[b] = next((h for h in heads if b in loops[h]), None)
        parent = {h: next((g for g in heads if g != h and h in loops[g]), None) for h in heads}
        rp = {None: []}
        for h in heads: rp[h] = []
        for b in order:
            L = inner[b]
            if L == b: rp[b].append(b); rp[parent[b]].append(b)
            else: rp[L].append(b)
        # loops entered other than through their header
        for h in heads:
            for b in loops[h]:
                if b != h and any(p not in loops[h] for p in pred[b]): raise Undecided("irreducible control flow in %s" % f.name)
        f._nest = (rp, loops); return f._nest
    def raised(s, mem):
        """the condition under which an error counts as one: in fresh mode, of a model that records writes, none was made before"""
        v = s.v
        w = s.fresh and next((g for g in s.m.globals if "written_so_far" in g), None)
        return v.T if not w else v.app(lambda x: v.icmp("eq", x, v.iconst(0, 64)), s.load(mem, v.leaf(I(("ptr", I(("glob", w)), 0))), Ty("int", n=64)))
    def doomed(s, f, succ):
        """blocks from which no return is reachable -> do they contain a call (else: undefined behaviour)"""
        r = getattr(f, "_doomed", None)
        if r is not None: return r
        pred = {b: [] for b in f.order}
        for b in f.order:
            for c in succ[b]:
                if c in pred: pred[c].append(b)
        live = {b for b in f.order if f.blocks[b][-1].op in ("ret", "resume")}; st = list(live)
        while st:
            for p in pred[st.pop()]:
                if p not in live: live.add(p); st.append(p)
        r = {}
        def calls(b, seen):
            if b in seen: return False
            seen.add(b)
            if any(i.op == "invoke" or i.op == "call" and not (i.x["callee"][0] != "loc" and i.x["callee"][1][1:].strip('"').startswith("llvm.")) for i in f.blocks[b]): return True
            return any(calls(c, seen) for c in succ[b])
        for b in f.order:
            if b not in live and b != f.order[0]: r[b] = calls(b, set())
        f._doomed = r; return r
    def succs(s, ins):
        if ins.op == "br": return ins.x
        if ins.op == "switch": return [ins.x[0]] + [l for _, l in ins.x[1]]
        if ins.op == "invoke": return [ins.x["normal"]]
        return []
    # ---- operands
    def op(s, tv, env): return s.const(tv[0], tv[1], env)
    def const(s, t, val, env):
        k = val[0]; v = s.v
        if k == "loc":
            if val[1] not in env: raise Undecided("undefined %s" % val[1])
            return env[val[1]]
        if k == "c":
            if t.k in ("double", "float"): return v.leaf(v.fconst(val[1]))
            if t.k == "int": return (v.T if val[1] & 1 else v.F) if t.n == 1 else v.leaf(v.iconst(val[1], t.n))
            if t.k == "ptr": return v.leaf(v.iconst(0, 64))
        if k in ("undef", "zero"):
            if t.k in ("vec", "arr"): return tuple(s.const(t.a, val, env) for _ in range(t.n))
            if t.k == "struct": return tuple(s.const(e, val, env) for e in t.a)
            if t.k == "named": return s.const(s.m.types[t.name], val, env)
            if k == "zero": return s.const(t, ("c", 0 if t.k not in ("double", "float") else 0.0), env)
            if t.k in ("double", "float"): return v.leaf(rat(patom(("undef",))))
            if t.k == "int" and t.n == 1: return v.F
            if t.k == "int": return v.leaf(v.isym(t.n, ("undef",)))
            if t.k == "ptr": return v.leaf(I(("ptr", ("undef",), 0)))
        if k == "agg": return tuple(s.const(et, ev, env) for et, ev in val[1])
        if k == "splat": return tuple(s.const(val[1], val[2], env) for _ in range(t.n))
        if k == "glob": return v.leaf(I(("ptr", I(("glob", val[1])), 0)))
        if k == "gep":
            ops = val[2]
            return s.gep(val[1], [s.op(o, env) for o in ops], [o[0] for o in ops])
        if k == "cast": return s.cast(val[1], val[2][0], val[3], s.op(val[2], env))
        if k == "bin": return s.compute(_CE(val[1], [val[2], val[3]], t), env)
        raise Undecided("constant %r of %r" % (val, t))
    def vite(s, c, a, b):
        if isinstance(a, tuple): return tuple(s.vite(c, x, y) for x, y in zip(a, b))
        return s.v.ite(c, a, b)
    def map(s, t, f, *vals):
        if isinstance(vals[0], tuple): return tuple(s.map(t.a if t is not None and t.k in ("vec", "arr") else t, f, *[x[i] for x in vals]) for i in range(len(vals[0])))
        return f(*vals)
    # ---- instructions
    def compute(s, ins, env):
        v = s.v; op = ins.op; A = [s.op(a, env) for a in ins.args]
        el = ins.ty.a if ins.ty is not None and ins.ty.k == "vec" else ins.ty
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            s.widths.add(el.k)
            return s.map(ins.ty, lambda a, b: v.app(lambda x, y: v.fcombine(op, x, y), a, b), *A)
        if op == "fneg": return s.map(ins.ty, lambda a: v.app(lambda x: v.leaf(rneg(x)), a), *A)
        if op == "freeze": return A[0]
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor"):
            if el.n == 1:
                def b1(a, b):
                    if op == "and" or op == "mul": return v.AND(a, b)
                    if op == "or": return v.OR(a, b)
                    if op in ("xor", "add", "sub"): return v.ite(a, v.NOT(b), b)
                    raise Undecided("i1 " + op)
                return s.map(ins.ty, b1, *A)
            return s.map(ins.ty, lambda a, b: v.app(lambda x, y: v.iop(op, x, y), a, b), *A)
        if op == "fcmp": return s.map(ins.ty, lambda a, b: v.app(lambda x, y: v.fcmp(ins.x, x, y), a, b), *A)
        if op == "icmp":
            if ins.args[0][0].k == "int" and ins.args[0][0].n == 1:
                def bc(a, b):
                    e = v.ite(a, b, v.NOT(b))
                    if ins.x == "eq": return e
                    if ins.x == "ne": return v.NOT(e)
                    if ins.x in ("ult", "sgt"): return v.AND(v.NOT(a), b)
                    if ins.x in ("ugt", "slt"): return v.AND(a, v.NOT(b))
                    if ins.x in ("ule", "sge"): return v.OR(v.NOT(a), b)
                    return v.OR(a, v.NOT(b))
                return bc(*A)
            return s.map(ins.ty, lambda a, b: v.app(lambda x, y: v.icmp(ins.x, x, y), a, b), *A)
        if op == "select":
            c, a, b = A
            if isinstance(c, tuple): return tuple(s.vite(x, y, z) for x, y, z in zip(c, a, b))
            return s.vite(c, a, b)
        if op in ("sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "sext", "zext", "trunc", "bitcast", "ptrtoint", "inttoptr"):
            st = ins.args[0][0]
            return s.cast(op, st, ins.ty, A[0])
        if op == "getelementptr": return s.gep(ins.x, A, [a[0] for a in ins.args])
        if op == "extractvalue":
            x = A[0]
            for i in ins.x: x = x[i]
            return x
        if op == "insertvalue":
            def ins_(x, ix, y):
                if not ix: return y
                x = list(x); x[ix[0]] = ins_(x[ix[0]], ix[1:], y); return tuple(x)
            return ins_(A[0], ins.x, A[1])
        if op == "extractelement": return A[0][s.cint(A[1])]
        if op == "insertelement":
            x = list(A[0]); x[s.cint(A[2])] = A[1]; return tuple(x)
        if op == "shufflevector":
            src = list(A[0]) + list(A[1]); mv = ins.args[2][1]
            if mv[0] == "zero": ix = [0]*ins.ty.n
            elif mv[0] == "undef": ix = [0]*ins.ty.n
            else: ix = [e[1][1] if e[1][0] == "c" else 0 for e in mv[1]]
            return tuple(src[i] for i in ix)
        raise Undecided("instruction " + op)
    def cint(s, n):
        t = s.v.tab[n]
        if t[0] == "L" and t[1][0] == "i" and isconst(t[1]): return icval(t[1])
        raise Undecided("non-constant index")
    def cast(s, op, st, dt, a):
        v = s.v
        if isinstance(a, tuple) and op != "bitcast":
            return tuple(s.cast(op, st.a if st.k == "vec" else st, dt.a if dt.k == "vec" else dt, x) for x in a)
        if op == "bitcast":
            if isinstance(a, tuple):
                if dt.k == "vec" and dt.n == len(a): return tuple(s.cast(op, st.a, dt.a, x) for x in a)
                if len(a) == 2 and st.a.k == "float" and (dt.k == "double" or dt.k == "int" and dt.n == 64): return s.pack(a[0], a[1], dt)
                if dt.k == "int" and len(a) and st.k == "vec":
                    return v.app(lambda *xs: v.leaf(v.isym(dt.n, I(("pack",) + xs))), *a)
                raise Undecided("bitcast")
            if dt.k == "int" and st.k in ("double", "float"):
                return v.app(lambda x: v.leaf(v.isym(dt.n, I(("bits", x)))) , a)
            if dt.k in ("double", "float") and st.k == "int":
                def f(x):
                    y = unbits(x)
                    if y is not None: return v.leaf(y)
                    return v.leaf(rat(patom(I(("fbits", x)))))
                return v.app(f, a)
            if dt.k == "vec" and dt.n == 2 and dt.a.k == "float":
                return (s.half(a, 0, dt.a), s.half(a, 4, dt.a))
            if dt.k == "vec":
                raise Undecided("bitcast")
            return a
        if op in ("ptrtoint", "inttoptr"): return a
        if op == "fpext": return a
        if op == "fptrunc":
            def ft(x):
                if x[0] in ("inf", "nanc"): return v.leaf(x)
                if isconst(x): return v.leaf(v.fconst(f32(float(cval(x)))))
                at = single(x)
                if at is not None and at[0] == "fn" and at[1] == "fptrunc": return v.leaf(x)
                s.narrow.append(x)
                if not v.narrow_opaque: return v.leaf(x)
                sg = sneg(x)
                if sg is not None: return v.leaf(rneg(v.tab[v.fn("fptrunc", sg)][1]))
                return v.fn("fptrunc", x)
            return v.app(ft, a)
        if op in ("sitofp", "uitofp"):
            if st.n == 1:
                return v.ite(a, v.leaf(v.fconst(-1.0 if op == "sitofp" else 1.0)), v.leaf(v.fconst(0.0)))
            def cv(x):
                if x[0] != "i": raise Undecided("sitofp of pointer")
                if isconst(x):
                    c = icval(x)
                    if op == "uitofp": c &= (1 << st.n)-1
                    return v.leaf(v.fconst(float(c)))
                o = op
                t = single(x)
                if t is not None and t[0] == "zext": o = "sitofp"
                if o == "sitofp" and all(c < 0 for _, c in x[2]):   # -(float)y for (float)(-y); differs for y = INT_MIN only
                    return v.leaf(rneg(rat(patom(I((o, I(("i", x[1], tuple((m, -c) for m, c in x[2])))))))))
                return v.leaf(rat(patom(I((o, x)))))
            return v.app(cv, a)
        if op in ("fptosi", "fptoui"):
            def cv(x):
                if isconst(x) and x[0] == "rat": return v.leaf(v.iconst(int(cval(x)), dt.n))
                return v.leaf(v.isym(dt.n, I((op, v.rep(x)))))
            if dt.n == 1: raise Undecided("fptosi i1")
            return v.app(cv, a)
        if op in ("sext", "zext"):
            if st.n == 1:
                return v.ite(a, v.leaf(v.iconst(-1 if op == "sext" else 1, dt.n)), v.leaf(v.iconst(0, dt.n)))
            def cv(x):
                if isconst(x):
                    c = icval(x)
                    if op == "zext": c &= (1 << st.n)-1
                    return v.leaf(v.iconst(c, dt.n))
                t = single(x)
                if t is not None and t[0] == op: return s.leafcast(op, t[1], dt.n)
                if t is not None and t[0] == "zext": return s.leafcast("zext", t[1], dt.n)
                return s.leafcast(op, x, dt.n)
            return v.app(cv, a)
        if op == "trunc":
            def cv(x):
                if isconst(x):
                    return (v.T if icval(x) & 1 else v.F) if dt.n == 1 else v.leaf(v.iconst(icval(x), dt.n))
                if x[0] != "i": raise Undecided("trunc of %s" % x[0])
                if dt.n == 1: return v.boolatom(I(("bit0", x)))
                t = single(x)
                if t is not None and dt.n == 32 and t[0] in ("fpack",): return s.half(v.leaf(x), 0, dt)
                if t is not None and dt.n == 32 and t[0] == "lshr" and isconst(t[2]) and icval(t[2]) == 32: return s.half(v.leaf(t[1]), 4, dt)
                if t is not None and dt.n == 32 and t[0] == "in" and x[1] == 64 and len(t) == 3 and (getattr(s, "halves", False) or t[1] in s.words): return s.half(v.leaf(x), 0, dt)
                if t is not None and t[0] in ("sext", "zext"):
                    if t[1][1] == dt.n: return v.leaf(t[1])
                    if t[1][1] < dt.n: return s.leafcast(t[0], t[1], dt.n)
                if x[1] == 32 and dt.n in (8, 16) and t is not None:
                    if t[0] == "in": return s.initial(t[1], t[2], dt.n//8, dt)
                    if t[0] == "lshr" and isconst(t[2]) and icval(t[2]) % 8 == 0:
                        u = single(t[1])
                        if u is not None and u[0] == "in" and icval(t[2]) + dt.n <= 32: return s.initial(u[1], u[2] + icval(t[2])//8, dt.n//8, dt)
                # trunc distributes over + and *
                d = {}
                for m, c in x[2]:
                    r = pconst(1)
                    for at, e in m:
                        q = None
                        if at[0] in ("sext", "zext") and at[1][1] == dt.n: q = at[1][2]
                        else: q = ((((I(("trunc", I(("i", x[1], ((((at, 1),), 1),)))),), 1),), 1),) if False else ((((("trunc", dt.n, at), 1),), 1),)
                        for _ in range(e): r = pmul(r, q)
                    for mm, cc in r: d[mm] = d.get(mm, 0) + cc*c
                return v.leaf(I(("i", dt.n, pnorm({m: smod(c, dt.n) for m, c in d.items()}))))
            return v.app(cv, a)
        raise Undecided(op)
    def leafcast(s, op, x, n): return s.v.leaf(s.v.isym(n, I((op, x))))
    def extent(s, ins, env):
        t, n = ins.x
        if n is None: s.extents[I(("alloca", s.allocid))] = s.m.size_align(t)[0]
    def gep(s, bt, A, T):
        v = s.v; base = A[0]; t = bt; off = 0; dyn = []
        z = s.m.size_align(bt)[0]
        for i, (a, ty) in enumerate(zip(A[1:], T[1:])):
            if i == 0: dyn.append((a, z))
            else:
                tt = s.m.types[t.name] if t.k == "named" else t
                if tt.k == "struct":
                    o, t = s.m.field(tt, s.cint(a)); off += o
                else:
                    dyn.append((a, s.m.size_align(tt.a)[0])); t = tt.a
        def f(p, *ix):
            o = off
            ext = []
            for x, (_, z) in zip(ix, dyn):
                if isconst(x): o += icval(x)*z
                else: ext.append((x, z))
            if p[0] != "ptr": return v.leaf(I(("ptr", I(("call", "address of a non-pointer", p)), 0)))
            base = p[1]
            if base[0] == "oob": return v.leaf(p)
            if len(ext) == 1 and base[0] == "glob" and base not in s.extents:
                g = re.search(r"constant \[(\d+) x (double|float|i64|i32|i8)\]", s.m.globals.get(base[1], ""))
                if g: s.extents[base] = int(g.group(1))*{"double": 8, "float": 4, "i64": 8, "i32": 4, "i8": 1}[g.group(2)]
            if len(ext) == 1 and base in s.extents: return s.slots(base, p[2]+o, *ext[0])
            if ext and all(x[0] == "i" and x[1] == 64 for x, _ in ext):    # one polynomial of bytes
                q = pconst(0)
                for x, z in ext: q = padd(q, pmul(x[2], pconst(z)))
                while base[0] == "dyn" and len(base[2]) == 1 and base[2][0][1] == 1: q = padd(q, base[2][0][0][2]); base = base[1]
                c0 = dict(q).get((), 0); q = pnorm({m: smod(c, 64) for m, c in padd(q, pconst(c0), -1)}); o += smod(c0, 64)
                ext = [(I(("i", 64, q)), 1)] if q else []
            if ext: base = I(("dyn", base, tuple(ext)))
            return v.leaf(I(("ptr", base, p[2]+o)))
        return v.app(f, base, *[a for a, _ in dyn])
    def slots(s, base, o, x, z):
        """pointer at a computed index of an array of known size: one case per element (one past the end included), out of bounds otherwise"""
        v = s.v
        c0 = dict(x[2]).get((), 0); rest = padd(x[2], pconst(c0), -1)
        g = 0
        for _, c in rest: g = math.gcd(g, abs(int(c)))
        if rest[0][1] < 0: g = -g
        y = I(("i", x[1], tuple((m, Fraction(int(c)//g)) for m, c in rest)))
        step = g*z; o += int(c0)*z
        lo, hi = sorted(((-o)/step, (s.extents[base]-o)/step))
        ks = range(math.ceil(lo), math.floor(hi)+1)
        if hasundef(x): return v.leaf(I(("ptr", I(("oob", base)), 0)))
        if len(ks) > 40: raise Undecided("computed index into a large array")
        r = v.leaf(I(("ptr", I(("oob", base)), 0)))
        for k in ks: r = v.ite(v.icmp("eq", y, v.iconst(k, x[1])), v.leaf(I(("ptr", base, o+k*step))), r)
        return r
    # ---- memory
    def store(s, mem, ptr, val, ty):
        v = s.v
        if isinstance(val, tuple):
            if ty.k == "vec" or ty.k == "arr":
                z = s.m.size_align(ty.a)[0]
                for i, x in enumerate(val): mem = s.store(mem, s.padd(ptr, i*z), x, ty.a)
                return mem
            tt = s.m.types[ty.name] if ty.k == "named" else ty
            for i, x in enumerate(val):
                o, et = s.m.field(tt, i); mem = s.store(mem, s.padd(ptr, o), x, et)
            return mem
        size = s.m.size_align(ty)[0]
        def wr(m, p):
            if p[0] != "ptr" or p[1][0] in ("call", "undef", "oob"): x = MJunk(); x.p = m; x.oob = p[0] == "ptr" and p[1][0] == "oob"; return x
            w = MWrite(); w.p, w.base, w.off, w.size, w.val, w.ty = m, p[1], p[2], size, val, ty
            return w
        if v.isleaf(ptr): return wr(mem, v.tab[ptr][1])
        leaves = s.leaves(ptr)
        out = mem
        for L in leaves:
            c = v.app(lambda x: v.T if x == L else v.F, ptr)
            out = MIte(c, wr(mem, L), out)
        return out
    def padd(s, ptr, o):
        v = s.v
        return v.app(lambda p: v.leaf(I(("ptr", p[1], p[2]+o))), ptr)
    def leaves(s, n, acc=None, seen=None):
        if acc is None: acc, seen = [], set()
        if n in seen: return acc
        seen.add(n); t = s.v.tab[n]
        if t[0] == "L": acc.append(t[1])
        else:
            for c in t[2]: s.leaves(c, acc, seen)
        return acc
    def load(s, mem, ptr, ty):
        v = s.v
        if ty.k in ("vec", "arr"):
            z = s.m.size_align(ty.a)[0]
            return tuple(s.load(mem, s.padd(ptr, i*z), ty.a) for i in range(ty.n))
        if ty.k in ("struct", "named"):
            tt = s.m.types[ty.name] if ty.k == "named" else ty
            r = []
            for i in range(len(tt.a)):
                o, et = s.m.field(tt, i); r.append(s.load(mem, s.padd(ptr, o), et))
            return tuple(r)
        size = s.m.size_align(ty)[0]
        def ld(p):
            if p[0] == "ptr" and p[1][0] == "oob": return v.sym(ty, I(("outside", p, repr(ty))))   # no defined value: equal to nothing required
            if p[0] != "ptr" or p[1][0] in ("call", "undef"): return v.sym(ty, I(("call", "load", p, repr(ty))))
            return s.look(mem, p[1], p[2], size, ty)
        return v.app(ld, ptr)
    def look(s, mem, base, off, size, ty):
        while isinstance(mem, MIte) and mem.untouched(base, off, size): mem = mem.dom
        k = (id(mem), base, off, size, ty.k, ty.n)
        r = s.lookmemo.get(k)
        if r is None:
            r = s.look0(mem, base, off, size, ty); s.lookmemo[k] = r; s.keep.append(mem)
        return r
    def look0(s, mem, base, off, size, ty):
        v = s.v
        while True:
            if isinstance(mem, MInit): return s.initial(base, off, size, ty)
            if isinstance(mem, MIte):
                if mem.untouched(base, off, size): mem = mem.dom; continue
                return v.ite(mem.c, s.look(mem.a, base, off, size, ty), s.look(mem.b, base, off, size, ty))
            if isinstance(mem, MJunk) and mem.oob: return v.sym(ty, I(("outside", "store", id(mem), base, off, repr(ty))))
            if isinstance(mem, MJunk): return v.sym(ty, I(("call", "junk", id(mem), base, off, repr(ty))))
            if isinstance(mem, MClob):
                if any(same(b, base) for b in mem.bases): return v.sym(ty, I(("clob", mem.id, base, off, repr(ty))))
                mem = mem.p; continue
            if base != mem.base:
                if mayalias(base, mem.base): raise Undecided("possible alias %r %r" % (base, mem.base))
                mem = mem.p; continue
            if isinstance(mem, MWrite):
                if mem.off == off and mem.size == size:
                    if repr(mem.ty) == repr(ty): return mem.val
                    if ty.k == "int" and mem.ty.k == "int": return mem.val if ty.n == mem.ty.n else (s.cast("zext", mem.ty, ty, mem.val) if mem.ty.n < ty.n else s.cast("trunc", mem.ty, ty, mem.val))
                    if (ty.k == "ptr") or mem.ty.k == "ptr": return mem.val
                    return s.cast("bitcast", mem.ty, ty, mem.val)
                if mem.off + mem.size <= off or off + size <= mem.off: mem = mem.p; continue
                if mem.off <= off and off + size <= mem.off + mem.size and mem.ty.k == "int" and ty.k == "int":
                    sh = (off - mem.off)*8
                    x = v.app(lambda q: v.iop("lshr", q, v.iconst(sh, mem.ty.n)), mem.val) if sh else mem.val
                    return s.cast("trunc", mem.ty, ty, x)
                if mem.off <= off and off + size <= mem.off + mem.size and mem.size == 8 and size == 4:
                    return s.half(mem.val, off - mem.off, ty)
                if size == 8 and ty.k == "double" or size == 8 and ty.k == "int" and mem.ty.k == "float":
                    lo = s.look(mem, base, off, 4, Ty("float")); hi = s.look(mem, base, off+4, 4, Ty("float"))
                    return s.pack(lo, hi, ty)
                # wide load over narrower parts
                if size == 8 and ty.k == "int":
                    lo = s.look(mem, base, off, 4, Ty("int", n=32)); hi = s.look(mem, base, off+4, 4, Ty("int", n=32))
                    lo = s.cast("zext", Ty("int", n=32), ty, lo); hi = s.cast("zext", Ty("int", n=32), ty, hi)
                    hi = v.app(lambda q: v.iop("shl", q, v.iconst(32, 64)), hi)
                    return v.app(lambda p, q: v.iop("add", p, q), lo, hi)
                if size in (2, 4) and ty.k == "int":
                    hs = size*4; ht = Ty("int", n=hs)
                    lo = s.cast("zext", ht, ty, s.look(mem, base, off, size//2, ht)); hi = s.cast("zext", ht, ty, s.look(mem, base, off + size//2, size//2, ht))
                    hi = v.app(lambda q: v.iop("shl", q, v.iconst(hs, size*8)), hi)
                    return v.app(lambda p, q: v.iop("add", p, q), lo, hi)
                raise Undecided("partial overlap load")
            if isinstance(mem, MCopy):
                if mem.off <= off and off + size <= mem.off + mem.n:
                    return s.look(mem.smem, mem.sbase, mem.soff + off - mem.off, size, ty)
                if mem.off + mem.n <= off or off + size <= mem.off: mem = mem.p; continue
                r = s.parts(mem, base, off, size, ty)
                if r is not None: return r
                raise Undecided("partial overlap memcpy")
            if isinstance(mem, MSet):
                if mem.off <= off and off + size <= mem.off + mem.n:
                    if mem.byte == 0: return s.const(ty, ("zero",), {})
                    if ty.k == "int": return s.const(ty, ("c", int.from_bytes(bytes([mem.byte & 255])*size, "little")), {})
                    raise Undecided("memset")
                if mem.off + mem.n <= off or off + size <= mem.off: mem = mem.p; continue
                r = s.parts(mem, base, off, size, ty)
                if r is not None: return r
                raise Undecided("partial overlap memset")
            raise Undecided("mem")
    def pack(s, lo, hi, ty):
        v = s.v
        if ty.k == "double": return v.app(lambda a, b: v.leaf(rat(patom(I(("fpack", a, b))))), lo, hi)
        return v.app(lambda a, b: v.leaf(v.isym(64, I(("fpack", a, b)))), lo, hi)
    def parts(s, mem, base, off, size, ty):
        """a wide integer load over parts that were written separately"""
        v = s.v
        if ty.k != "int" or size not in (2, 4, 8) or ty.n != size*8: return None
        hs = size*4; ht = Ty("int", n=hs)
        lo = s.cast("zext", ht, ty, s.look(mem, base, off, size//2, ht)); hi = s.cast("zext", ht, ty, s.look(mem, base, off + size//2, size//2, ht))
        hi = v.app(lambda q: v.iop("shl", q, v.iconst(hs, size*8)), hi)
        return v.app(lambda p, q: v.iop("add", p, q), lo, hi)
    def half(s, val, o, ty):
        """32-bit half of a 64-bit value"""
        v = s.v
        def f(x):
            t = single(x)
            if t is not None and t[0] == "fpack":
                y = t[1] if o == 0 else t[2]
                return v.leaf(y) if ty.k == "float" else s.cast("bitcast", Ty("float"), ty, v.leaf(y))
            if t is not None and t[0] == "in" and len(t) == 3: return s.initial(t[1], t[2]+o, 4, ty)
            if t is not None and t[0] == "zext" and t[1][1] == 32:
                y = v.leaf(t[1]) if o == 0 else v.leaf(v.iconst(0, 32))
                return y if ty.k == "int" else s.cast("bitcast", Ty("int", n=32), ty, y)
            if isconst(x) and x[0] == "i":
                w = (icval(x) >> (8*o)) & 0xffffffff
                y = v.iconst(w, 32)
                return v.leaf(y) if ty.k == "int" else s.cast("bitcast", Ty("int", n=32), ty, v.leaf(y))
            if x[0] == "i" and x[1] == 64:
                hi = tuple((m, Fraction(int(c) >> 32)) for m, c in x[2] if int(c) % (1 << 32) == 0)
                lo = tuple((m, c) for m, c in x[2] if int(c) % (1 << 32))
                u = single(I(("i", 64, lo))) if lo else None
                if not lo or (u is not None and u[0] == "zext" and u[1][1] == 32):
                    y = s.cast("trunc", Ty("int", n=64), Ty("int", n=32), v.leaf(I(("i", 64, hi if o else lo))))
                    return y if ty.k == "int" else s.cast("bitcast", Ty("int", n=32), ty, y)
            raise Undecided("half of %s" % show(x))
        return v.app(f, val)
    def initial(s, base, off, size, ty):
        v = s.v
        if base[0] == "alloca": return s.const(ty, ("undef",), {})
        if base[0] == "glob":
            g = s.m.globals.get(base[1], "")
            r = s.globinit(base[1], off, ty)
            if r is not None: return r
        return v.sym(ty, I(("in", base, off)) if not (ty.k == "int" and ty.n not in (64,32,8,1)) else I(("in", base, off, ty.n)))
    def globinit(s, name, off, ty):
        from llir import Parser, lex
        d = s.m.globals.get(name, "")
        m = re.search(r"\bconstant\b (.*)" if not s.fresh else r"\b(?:constant|global)\b (.*)", d)
        if not m: return None
        k = re.match(r'\[(\d+) x i8\] c"(.*?)"(?:,|$)', m.group(1))
        if k:
            b = [int(x[1:], 16) if len(x) > 1 else ord(x) for x in re.findall(r"\\[0-9A-Fa-f]{2}|.", k.group(2))]
            if ty.k != "int" or not 0 <= off <= len(b) - ty.n//8: return None
            return s.v.leaf(s.v.iconst(int.from_bytes(bytes(b[off:off + ty.n//8]), "little"), ty.n))
        try:
            p = Parser(lex(re.split(r", (?:align|comdat|section)", m.group(1))[0]), s.m); t, val = p.tv()
        except Exception: return None
        def find(t, val, off):
            if t.k == "named": t = s.m.types[t.name]
            if t.k in ("struct", "arr", "vec"):
                if val[0] == "zero": return ("zero",)
                if val[0] != "agg": return None
                for i, (et, ev) in enumerate(val[1]):
                    o, ft = s.m.field(t, i)
                    z = s.m.size_align(et)[0]
                    if o <= off < o + z: return find(et, ev, off - o)
                return None
            if off: return None
            return (t, val)
        r = find(t, val, off)
        if r is None: return None
        if r == ("zero",): return s.const(ty, ("zero",), {})
        if repr(r[0]) != repr(ty): return None
        return s.const(ty, r[1], {})
    # ---- calls
    def call(s, ins, env, mem, cond, depth):
        v = s.v; kind, name = ins.x["callee"]
        A = [s.op(a, env) if a[0].k != "metadata" else None for a in ins.args]
        T = [a[0] for a in ins.args]
        if kind == "loc": raise Undecided("indirect call")
        n = name[1:].strip('"')
        if n.startswith("llvm."):
            r = s.intrinsic(n, ins, A, T, mem)
            return r[0], r[1], v.F
        if n in ("__cxa_throw", "__cxa_rethrow", "abort", "__assert_fail", "_ZSt9terminatev", "__clang_call_terminate") or n.startswith("_ZSt") and "__throw_" in n:
            s.calls.append(("throw", n))
            return None, mem, s.raised(mem)
        f = s.m.funcs.get(name)
        if f is not None and (not getattr(s, "keep_opaque", None) or not s.keep_opaque(n)):
            r = s.func(f, A, mem, depth+1)
            return r.val, r.mem, r.throws
        if f is not None and any(t.k == "ptr" for t in T):   # scalars passed by reference
            T, A = list(T), list(A)
            for i, (pt, pn) in enumerate(f.params):
                if pt.k != "ptr": continue
                lt = next((x.ty for b in f.order for x in f.blocks[b] if x.op == "load" and x.args[0][1] == ("loc", pn)), None)
                if lt is not None and lt.k in ("double", "float", "int"): A[i] = s.load(mem, A[i], lt); T[i] = lt
        if (f is not None or n.startswith("pure_")) and all(t.k in ("double", "float", "int") for t in T) and ins.ty.k in ("double", "float", "int"):
            # a function of its scalar arguments only, kept uninterpreted
            def pf(*xs):
                a = I(("pure", n) + tuple(v.rep(x) for x in xs))
                if ins.ty.k == "int": return v.boolatom(a) if ins.ty.n == 1 else v.leaf(v.isym(ins.ty.n, a))
                return v.leaf(rat(patom(a)))
            if any(t.k == "int" and t.n == 1 for t in T): raise Undecided("boolean argument of " + n)
            return v.app(pf, *A), mem, v.F
        b = n[:-1] if n.endswith("f") and n[:-1] in PURE else n
        if b in PURE:
            if len(T) and T[0].k in ("double", "float") and T[-1].k in ("double", "float"): return v.app(lambda *xs: v.fn(b, *xs) if all(x[0] == "rat" for x in xs) else v.leaf(rat(patom(I(("fn", b) + xs)))), *A), mem, v.F
        if n in ("_Znwm", "_Znam", "malloc"):
            s.allocid += 1
            L = v.tab[A[0]]
            if L[0] == "L" and isconst(L[1]): s.extents[I(("alloca", s.allocid))] = icval(L[1])
            return v.leaf(I(("ptr", I(("alloca", s.allocid)), 0))), mem, v.F
        if n == "bcmp":      # used as a test for equality only
            L = s.v.tab[A[2]]
            if L[0] == "L" and isconst(L[1]) and icval(L[1]) <= 256:
                e, k = v.T, icval(L[1])
                for o, w in [(o, 8) for o in range(0, k - 7, 8)] + [(o, 1) for o in range(k - k % 8, k)]:
                    x, y = (s.load(mem, s.padd(a, o), Ty("int", n=8*w)) for a in A[:2])
                    e = v.AND(e, v.app(lambda p, q: v.icmp("eq", p, q), x, y))
                return v.ite(e, v.leaf(v.iconst(0, 32)), v.leaf(v.iconst(1, 32))), mem, v.F
        if n in ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free"): return None, mem, v.F
        if n in ("frexp", "frexpf"):       # the exponent as a function of the argument
            i32 = Ty("int", n=32)
            mem = s.store(mem, A[1], v.app(lambda x: v.leaf(I(("i", 32, ((((I(("fexp", x)), 1),), 1),)))), A[0]), i32)
            return v.app(lambda x: v.fn("frexp", x), A[0]), mem, v.F
        if n.startswith("__cxa_"):  # allocate_exception etc.
            s.allocid += 1
            return v.leaf(I(("ptr", I(("alloca", s.allocid)), 0))), mem, v.F
        return s.opaque(n, ins, A, T, mem, cond)
    def opaque(s, n, ins, A, T, mem, cond):
        """call of a function without body: result and written memory become fresh symbols"""
        v = s.v
        v.fresh += 1; s.callno = v.fresh
        cid = ("call", s.callno, n)
        s.opaque_effects.append((n, A, T, mem, cond, s.callno))
        bases = []
        for a, t in zip(A, T):
            if t.k == "ptr":
                for L in s.leaves(a):
                    if L[0] == "ptr": bases.append(L[1])
        if bases:
            m = MClob(); m.p, m.bases, m.id = mem, bases, s.callno; mem = m
        val = None
        if ins.ty.k != "void":
            try: val = s.symty(ins.ty, cid)
            except Undecided: val = None
        return val, mem, v.F
    def gatedmem(s, mem, f, *ns):
        """memory after f(leaf combination) for gated operands; lengths must be constants"""
        v = s.v
        def need(i, x):
            if i and x[0] == "i" and not isconst(x):
                if hasundef(x): return False
                raise Undecided("non-constant length %s" % show(x))
            return True
        def go(ns):
            m = min(v.top(n) for n in ns)
            if m == 1 << 60:
                ls = [v.tab[n][1] for n in ns]
                if not all([need(i, x) for i, x in enumerate(ls)]): x = MJunk(); x.p = mem; return x
                return f(*ls)
            out = None; ar = v.nary(m)
            # the last outcome is the default
            out = go(tuple(v.cof(n, m, ar-1) for n in ns))
            for j in range(ar-2, -1, -1):
                a = go(tuple(v.cof(n, m, j) for n in ns))
                if a is out: continue
                out = MIte(v.case(m, tuple(v.T if i == j else v.F for i in range(ar))), a, out)
            return out
        return go(tuple(ns))
    def symty(s, t, cid):
        if t.k == "named": t = s.m.types[t.name]
        if t.k == "struct": return tuple(s.symty(e, I(cid + (i,))) for i, e in enumerate(t.a))
        if t.k in ("vec", "arr"): return tuple(s.symty(t.a, I(cid + (i,))) for i in range(t.n))
        return s.v.sym(t, I(cid))
    def intrinsic(s, n, ins, A, T, mem):
        v = s.v; b = n.split(".")[1]
        if b in ("lifetime", "assume", "dbg", "experimental", "invariant", "prefetch", "stacksave", "stackrestore", "donothing"): return None, mem
        if b in ("memcpy", "memmove"):
            def cp(d, q, k):
                if d[0] != "ptr" or q[0] != "ptr" or d[1][0] in ("call", "undef") or q[1][0] in ("call", "undef"): x = MJunk(); x.p = mem; return x
                k = icval(k)
                if k == 0: return mem
                m = MCopy(); m.p, m.base, m.off, m.n, m.sbase, m.soff, m.smem = mem, d[1], d[2], k, q[1], q[2], mem; return m
            return None, s.gatedmem(mem, cp, A[0], A[1], A[2])
        if b == "memset":
            def st(d, k, byte):
                if d[0] != "ptr" or d[1][0] in ("call", "undef"): x = MJunk(); x.p = mem; return x
                k = icval(k)
                if k == 0: return mem
                m = MSet(); m.p, m.base, m.off, m.n, m.byte = mem, d[1], d[2], k, icval(byte); return m
            return None, s.gatedmem(mem, st, A[0], A[2], A[1])
        def mp(f, *xs): return s.map(T[0], f, *xs)
        if b == "fabs":
            def fa(a):
                return v.app(lambda x: v.ord(x, v.fconst(0.0), v.leaf(rneg(x)), v.leaf(x), v.leaf(x), v.leaf(x)), a)
            return mp(fa, A[0]), mem
        if b in ("floor", "ceil", "rint", "nearbyint", "sqrt", "exp", "log", "log10", "log2", "exp2", "sin", "cos", "pow", "round", "trunc", "roundeven", "exp10", "tan", "powi"):
            if b == "powi":
                k = s.cint(A[1])
                def pw(a):
                    r = v.leaf(v.fconst(1.0))
                    for _ in range(abs(k)): r = v.app(lambda x, y: v.fcombine("fmul", x, y), r, a)
                    if k < 0: r = v.app(lambda y: v.fcombine("fdiv", v.fconst(1.0), y), r)
                    return r
                return mp(pw, A[0]), mem
            def g(*as_):
                return v.app(lambda *xs: v.fn(b, *xs) if all(x[0] == "rat" for x in xs) else v.leaf(rat(patom(I(("fn", b) + xs)))), *as_)
            return mp(g, *A[:2 if b == "pow" else 1]), mem
        if b in ("fmuladd", "fma"):
            return mp(lambda a, c, d: v.app(lambda x, y: v.fcombine("fadd", x, y), v.app(lambda x, y: v.fcombine("fmul", x, y), a, c), d), *A[:3]), mem
        if b == "copysign":
            def cs(a, c):
                ab = v.app(lambda x: v.ord(x, v.fconst(0.0), v.leaf(rneg(x)), v.leaf(x), v.leaf(x), v.leaf(x)), a)
                sg = v.app(lambda y: v.sign(y), c)
                return v.ite(sg, v.app(lambda x: v.leaf(rneg(x)), ab), ab)
            return mp(cs, A[0], A[1]), mem
        if b in ("minnum", "maxnum", "minimum", "maximum"):
            def mm(x, y):
                X, Y = v.leaf(x), v.leaf(y); lo = b.startswith("min")
                un = v.ite(v.nan(x), Y, X) if b.endswith("num") else v.leaf(I(("nanc",)))
                return v.ord(x, y, X if lo else Y, X, Y if lo else X, un)
            return mp(lambda a, c: v.app(mm, a, c), *A[:2]), mem
        if b in ("smax", "smin", "umax", "umin"):
            def mm(x, y):
                X, Y = v.leaf(x), v.leaf(y); lo = b.endswith("min")
                return v.iord(x, y, X if lo else Y, X, Y if lo else X, signed=b[0] == "s")
            return mp(lambda a, c: v.app(mm, a, c), *A[:2]), mem
        if b == "abs":
            def ab(x):
                z = v.iconst(0, x[1]); neg = v.iop("sub", z, x); X = v.leaf(x)
                return v.iord(x, z, neg, X, X)
            return mp(lambda a: v.app(ab, a), A[0]), mem
        if b == "is":  # is.fpclass
            mask = s.cint(A[1])
            def fc(x):
                r = v.F
                inf, ninf, z = I(("inf", 1)), I(("inf", -1)), v.fconst(0.0)
                neg = v.fcmp("olt", x, z); pos = v.fcmp("ogt", x, z)
                pinf = v.fcmp("oeq", x, inf); nninf = v.fcmp("oeq", x, ninf); sg = v.sign(x); iz = v.fcmp("oeq", x, z)
                if mask & 3 == 3: r = v.OR(r, v.nan(x))
                elif mask & 3: raise Undecided("fpclass nan kind")
                if mask & 4: r = v.OR(r, nninf)
                if mask & 8 and mask & 16: r = v.OR(r, v.AND(neg, v.NOT(nninf)))
                elif mask & 24: raise Undecided("fpclass subnormal")
                if mask & 32: r = v.OR(r, v.AND(iz, sg))
                if mask & 64: r = v.OR(r, v.AND(iz, v.NOT(sg)))
                if mask & 128 and mask & 256: r = v.OR(r, v.AND(pos, v.NOT(pinf)))
                elif mask & 384: raise Undecided("fpclass subnormal")
                if mask & 512: r = v.OR(r, pinf)
                return r
            return mp(lambda a: v.app(fc, a), A[0]), mem
        if b in ("umul", "smul", "uadd", "sadd", "usub", "ssub"):
            o = {"mul": "mul", "add": "add", "sub": "sub"}[b[1:]]
            val = v.app(lambda x, y: v.iop(o, x, y), A[0], A[1])
            ov = v.app(lambda x, y: v.F if isconst(x) and isconst(y) else v.boolatom(I(("ovf", b, x, y))), A[0], A[1])
            return (val, ov), mem
        if b in ("fshl", "fshr", "ctpop", "ctlz", "cttz", "bswap", "bitreverse", "fptosi", "fptoui","scmp","ucmp"):
            return v.app(lambda *xs: v.leaf(v.isym(ins.ty.n, I((n,) + xs))), *A), mem
        if b == "vector":  # reductions
            o = n.split(".")[3]
            r = None
            xs = A[-1]
            if o in ("fadd", "fmul"):
                r = A[0]
                for x in xs: r = v.app(lambda p, q: v.fcombine(o, p, q), r, x)
                return r, mem
            for x in xs:
                if r is None: r = x
                elif o in ("and", "or", "xor") and ins.ty.n == 1: r = {"and": v.AND, "or": v.OR, "xor": lambda p, q: v.ite(p, v.NOT(q), q)}[o](r, x)
                else: r = v.app(lambda p, q: v.iop(o, p, q), r, x)
            return r, mem
        if b in ("load",): pass
        raise Undecided("intrinsic " + n)

def single(x):
    """the atom if the leaf is exactly one atom"""
    p = x[2] if x[0] == "i" else (x[1] if x[0] == "rat" and x[2] == P1 else None)
    if p is not None and len(p) == 1 and p[0][1] == 1 and len(p[0][0]) == 1 and p[0][0][0][1] == 1: return p[0][0][0][0]
    return None
def unbits(x):
    t = single(x)
    if t is not None and t[0] == "bits": return t[1]
    if isconst(x) and x[0] == "i":
        raw = icval(x) & ((1 << x[1])-1)
        f = struct.unpack(">d", raw.to_bytes(8, "big"))[0] if x[1] == 64 else struct.unpack(">f", raw.to_bytes(4, "big"))[0] if x[1] == 32 else None
        if f is None: return None
        if f != f: return I(("nanc",))
        if f in (math.inf, -math.inf): return I(("inf", 1 if f > 0 else -1))
        return rat(pconst(Fraction(f)))
    return None
def same(a, b): return a == b or (a[0] == "dyn" and same(a[1], b)) or (b[0] == "dyn" and same(a, b[1]))
def root(b):
    while b[0] == "dyn": b = b[1]
    return b
def mayalias(a, b):
    ra, rb = root(a), root(b)
    if ra == rb: return True
    for x, y in ((ra, rb), (rb, ra)):
        if x[0] == "alloca": return False
        if x[0] == "glob" and y[0] in ("arg", "glob"): return False
    if ra[0] == "arg" and rb[0] == "arg": return False
    if ra[0] == "in" or rb[0] == "in":   # pointer loaded from an argument: distinct objects by construction of the witnesses
        return False
    return True

# ------------------------------------------------------------------ comparison
class Facts:
    def __init__(s): s.l = []
def feasible(vn, facts):
    return feasible_float(vn, facts) and feasible_int(facts)
def feasible_float(vn, facts):
    """is the set of ordering facts consistent with a total (pre)order of the reals?"""
    for k, a, b, o in facts:
        if k == "bool" and a[0] == "remnz" and o == 1:      # a remainder is zero for divisors +-1 and dividend 0
            for k2, x, y, o2 in facts:
                if k2 == "ord" and o2 == 1 and isconst(y) and y[0] == "i":
                    if unext(x) == unext(a[2]) and icval(y) in (1, -1) or unext(x) == unext(a[1]) and icval(y) == 0: return False
    nans = {a for k, a, b, o in facts if k == "nan" and o == 1}
    if nans:      # arithmetic on a NaN is NaN
        for k, a, b, o in facts:
            if k == "nan" and o == 0 and leaf_nan(a, nans): return False
    if FINITE[0] and any(k == "nan" and o == 1 for k, a, b, o in facts):      # a polynomial of numbers is a number
        ok = set()
        for k, a, b, o in facts:
            for x in (a,) if k == "nan" and o == 0 else ():
                if x is not None and x[0] == "rat" and len(x[1]) == 1 and len(x[1][0][0]) == 1: ok.add(x[1][0][0][0][0])
        for k, a, b, o in facts:
            if k == "nan" and o == 1 and a[0] == "rat" and a[2] == P1 and all(t in ok for m, c in a[1] for t, e in m): return False
    nodes = {}; edges = []; ne = []
    def nd(x):
        if x not in nodes: nodes[x] = len(nodes)
        return nodes[x]
    for k, a, b, o in facts:
        if k != "ord" or a[0] == "i": continue
        if a in nans or b in nans: continue
        if nans and (leaf_nan(a, nans) or leaf_nan(b, nans)): continue
        A, B = nd(a), nd(b)
        if o == 3: ne.append((A, B)); continue
        if o == 0: edges.append((A, B, 1))
        elif o == 2: edges.append((B, A, 1))
        else: edges.append((A, B, 0)); edges.append((B, A, 0))
        # negated copies keep the order of -a and -b related
        na, nb = rneg(a), rneg(b)
        if True:
            A2, B2 = nd(na), nd(nb)
            if o == 0: edges.append((B2, A2, 1))
            elif o == 2: edges.append((A2, B2, 1))
            else: edges.append((A2, B2, 0)); edges.append((B2, A2, 0))
    cs = [(constkey(x), i) for x, i in nodes.items()]
    for _ in (0,):
        c2 = sorted([(c, i) for c, i in cs if c is not None])
        for (c, i), (d, j) in zip(c2, c2[1:]):
            if c == d: edges += [(i, j, 0), (j, i, 0)]
            else: edges.append((i, j, 1))
    # infinities bound every non-nan term
    for x, i in nodes.items():
        if x[0] == "inf":
            for y, j in nodes.items():
                if j != i and y[0] != "i": edges.append((j, i, 0) if x[1] > 0 else (i, j, 0))
    n = len(nodes)
    INF = -1
    d = [[INF]*n for _ in range(n)]
    for a, b, w in edges: d[a][b] = max(d[a][b], w)
    for k in range(n):
        for i in range(n):
            if d[i][k] == INF: continue
            for j in range(n):
                if d[k][j] == INF: continue
                w = max(d[i][k], d[k][j])
                if w > d[i][j]: d[i][j] = w
    if any(d[i][i] > 0 for i in range(n)): return False
    return not any(d[i][j] == 0 and d[j][i] == 0 for i, j in ne)
NOWRAP = [False]      # index arithmetic: sums of sizes and offsets do not leave the int64 range
class IntState:
    """difference constraints over the integers, closed incrementally: d[i][j] = w means  j - i >= w"""
    __slots__ = ("ix", "d", "ne", "un")
    def __init__(s): s.ix = {(): 0}; s.d = [[0]]; s.ne = (); s.un = ()
    def copy(s):
        r = IntState.__new__(IntState); r.ix = s.ix; r.d = [list(x) for x in s.d]; r.ne = s.ne; r.un = s.un; return r
    def node(s, x):
        """-> (index, offset)"""
        if isconst(x): return 0, icval(x)
        c = 0; k = x[1:]
        if NOWRAP[0]:
            m0, c0 = x[2][0]
            if m0 == (): c = c0; k = (x[1], x[2][1:])
        i = s.ix.get(k)
        if i is None:
            s.ix = dict(s.ix); i = s.ix[k] = len(s.ix)
            n = len(s.d)
            for row in s.d: row.append(None)
            s.d.append([None]*n + [0])
        while len(s.d) <= i:
            for row in s.d: row.append(None)
            s.d.append([None]*(len(s.d)) + [0])
        return i, c
    def edge(s, a, b, w):
        """b - a >= w; False if inconsistent"""
        d = s.d; n = len(d)
        if d[a][b] is not None and d[a][b] >= w: return True
        if d[b][a] is not None and d[b][a] + w > 0: return False
        ra = [(i, d[i][a]) for i in range(n) if d[i][a] is not None]
        rb = [(j, d[b][j]) for j in range(n) if d[b][j] is not None]
        for i, x in ra:
            di = d[i]
            for j, y in rb:
                z = x + w + y
                if di[j] is None or z > di[j]: di[j] = z
        return True
    def add(s, f):
        """-> extended state, or None if the fact contradicts the others"""
        k, a, b, o = f
        r = s.copy()
        (A, p), (B, q) = r.node(a), r.node(b)      # values A+p, B+q
        if k == "uord" and o in (0, 2): r.un = r.un + ((A, p, B, q, o),)
        elif o == 3: r.ne = r.ne + ((A, p, B, q),)
        elif o == 0:
            if not r.edge(A, B, 1 + p - q): return None
        elif o == 2:
            if not r.edge(B, A, 1 + q - p): return None
        else:
            if not r.edge(A, B, p - q) or not r.edge(B, A, q - p): return None
        if r.un:
            d = r.d
            def sg(X, p):     # known sign of X+p
                lo = d[0][X]; hi = d[X][0]
                if lo is not None and lo + p >= 0: return 1
                if hi is not None and -hi + p < 0: return -1
                return 0
            keep = []
            for A, p, B, q, o in r.un:
                x, y = sg(A, p), sg(B, q)
                if x == 0 or y == 0:
                    keep.append((A, p, B, q, o)); continue
                if x == y:
                    if not (r.edge(A, B, 1 + p - q) if o == 0 else r.edge(B, A, 1 + q - p)): return None
                elif (x > 0) != (o == 0): return None      # non-negative <u negative
            r.un = tuple(keep)
        again = True
        while again:      # a bound that is excluded moves by one
            again = False
            for A, p, B, q in r.ne:
                if A == B:
                    if p == q: return None
                    continue
                for X, Y, w in ((A, B, p - q), (B, A, q - p)):
                    if r.d[X][Y] is not None and r.d[X][Y] == w:
                        if not r.edge(X, Y, w + 1): return None
                        again = True
        return r
FINITE = [False]      # floating-point operands are finite (linear reasoning over the reals is then valid)
def feasible_linear(facts, mp):
    """Fourier-Motzkin elimination over the ordering facts; monomials and non-linear terms count as independent variables"""
    rows = []      # (coefs dict, const, strict): sum + const > 0 (strict) or >= 0
    def lin(e):
        if e[0] == "i": p, kind = e[2], "i"
        elif e[0] == "rat" and len(e[2]) == 1 and e[2][0][0] == ():
            p, kind = tuple((m, c/e[2][0][1]) for m, c in e[1]), "r"
        elif e[0] == "rat": return {("R", e): Fraction(1)}, Fraction(0)
        else: return None
        d = {}; k = Fraction(0)
        for m, c in p:
            if m == (): k += c
            else: d[(kind, m)] = Fraction(c)
        return d, k
    def put(a, b, strict):      # a - b > 0
        d = dict(a[0])
        for m, c in b[0].items(): d[m] = d.get(m, 0) - c
        rows.append(({m: c for m, c in d.items() if c}, a[1]-b[1], strict))
    ratios = []
    for k, a, b, o in facts:
        if k != "ord" or b is None: continue
        if a[0] == "rat" and b[0] == "rat" and isconst(b) and isconst(rat(a[2], P1)) is False and FINITE[0]: ratios.append((a, b, o))
        if a[0] == "i" and not NOWRAP[0]: continue
        if a[0] != "i" and not FINITE[0]: continue
        for x, y in {(a, b), (apply_subst(a, mp), apply_subst(b, mp))}:
            p, q = lin(x), lin(y)
            if p is None or q is None: continue
            one = Fraction(1) if a[0] == "i" else 0
            if o == 0: put((q[0], q[1]-one), p, not one)
            elif o == 2: put((p[0], p[1]-one), q, not one)
            elif o == 1: put(p, q, False); put(q, p, False)
    zero = ({}, Fraction(0))
    for a, b, o in ratios:      # n/d < c, once the sign of d is known
        d = lin(rat(a[2], P1)); base = list(rows)
        pos = neg = True
        put(d, zero, True); pos = fm(rows); rows[:] = base
        put(zero, d, True); neg = fm(rows); rows[:] = base
        if pos == neg: continue
        x, y = lin(rat(padd(a[1], pmul(b[1], a[2]), -1), P1)), zero
        if neg: x, y = y, x
        if o == 0: put(y, x, True)
        elif o == 2: put(x, y, True)
        elif o == 1: put(x, y, False); put(y, x, False)
    return fm(rows)
def fm(rows):
    seen = set(); cur = []
    def norm(r):
        d, k, st = r
        if not d: return None if (k > 0 or (k == 0 and not st)) else False
        m = abs(d[min(d, key=repr)])
        key = (tuple(sorted(((repr(v), c/m) for v, c in d.items()))), k/m, st)
        if key in seen: return None
        seen.add(key); return ({v: c/m for v, c in d.items()}, k/m, st)
    for r in rows:
        r = norm(r)
        if r is False: return False
        if r: cur.append(r)
    while True:
        vs = {v for r in cur for v in r[0]}
        if not vs: return True
        def cost(v):
            p = sum(1 for r in cur if r[0].get(v, 0) > 0); q = sum(1 for r in cur if r[0].get(v, 0) < 0)
            return (p*q - p - q, repr(v))
        v = min(vs, key=cost)
        P = [r for r in cur if r[0].get(v, 0) > 0]; N = [r for r in cur if r[0].get(v, 0) < 0]
        cur = [r for r in cur if not r[0].get(v, 0)]
        if len(cur) + len(P)*len(N) > 3000: return True
        for a, ka, sa in P:
            for b, kb, sb in N:
                x, y = 1/a[v], -1/b[v]; d = {}
                for m, c in a.items(): d[m] = d.get(m, 0) + c*x
                for m, c in b.items(): d[m] = d.get(m, 0) + c*y
                r = norm(({m: c for m, c in d.items() if c}, ka*x + kb*y, sa or sb))
                if r is False: return False
                if r: cur.append(r)
def feasible_int(facts):
    st = IntState()
    for f in facts:
        if f[0] in ("ord", "uord") and f[1][0] == "i":
            st = st.add(f)
            if st is None: return False
    return True

def feasible_products(facts, mp):
    """index arithmetic: facts with the equalities substituted; products of positive factors are at least as large as each factor"""
    st = IntState(); todo = []
    for k, a, b, o in facts:
        if k not in ("ord", "uord") or a[0] != "i": continue
        for x, y in ((a, b), (apply_subst(a, mp), apply_subst(b, mp))):
            if isconst(x) and isconst(y):
                p, q = icval(x), icval(y)
                if k == "uord": p &= (1 << x[1])-1; q &= (1 << x[1])-1
                if not {0: p < q, 1: p == q, 2: p > q, 3: p != q}[o]: return False
                continue
            if x[2] == y[2]:
                if o != 1: return False
                continue
            st = st.add((k, x, y, o))
            if st is None: return False
            todo += [x, y]
    nz = set()      # atoms of a product that is known not to be zero
    for k, a, b, o in facts:
        if a[0] == "i" and ((k == "ord" and o != 1) or (k == "uord" and o != 1)):
            for x, y in ((a, b), (apply_subst(a, mp), apply_subst(b, mp))):
                z = padd(x[2], y[2], -1)
                if len(z) == 1: nz |= {t for t, e in z[0][0]}
    def nonzero(f):
        if single(f) in nz: return True
        i, off = st.node(f)
        lo, hi = st.d[0][i], st.d[i][0]
        if (lo is not None and lo + off > 0) or (hi is not None and -hi + off < 0): return True
        return any({A, B} == {i, 0} and (p - q if A == i else q - p) == off for A, p, B, q in st.ne)
    for k, a, b, o in facts:
        if k != "ord" or o != 1 or a[0] != "i": continue
        for x, y in ((a, b), (apply_subst(a, mp), apply_subst(b, mp))):
            z = padd(x[2], y[2], -1)
            if len(z) == 1 and z[0][0] != () and all(nonzero(("i", x[1], ((((t, 1),), 1),))) for t, e in z[0][0]): return False
    for _ in range(3):
        d0 = repr(st.d)
        for x in todo:
            for m, c in x[2]:
                if c < 0 or m == () or (len(m) == 1 and m[0][1] == 1): continue
                fs = [("i", x[1], ((((a, 1),), 1),)) for a, e in m for _ in range(e)]
                ok = True
                for f in fs:
                    i, off = st.node(f)
                    lo = st.d[0][i]
                    if lo is None or lo + off < 1: ok = False
                if not ok: continue
                prod = ("i", x[1], ((m, 1),))
                rest = [("i", x[1], ((pm, 1),)) for pm in {tuple((a, e - (a == b)) for a, e in m if e - (a == b)) for b, _ in m}]
                for f in fs + rest:
                    st = st.add(("ord", f, ("i", x[1], pnorm({**dict(prod[2]), (): 1})), 0))      # f < prod + 1
                    if st is None: return False
        if repr(st.d) == d0: break
    return True
def unext(x):
    t = single(x)
    return t[1] if t is not None and t[0] in ("sext", "zext") else x
def subst_maps(facts):
    """equalities implied by the facts: atom -> leaf"""
    m = {}; nans = set()
    for k, a, b, o in facts:
        if k == "nan" and o == 1: nans.add(a)
    for k, a, b, o in facts:
        if k == "ord" and o == 1:
            if a in nans or b in nans: continue
            a2, b2 = apply_subst(a, m), apply_subst(b, m)
            if a2 == b2: continue
            t = single(a2)
            if t is not None and not occurs(t, b2): m = {x: apply_subst(y, {t: b2}) for x, y in m.items()}; m[t] = b2; continue
            t = single(b2)
            if t is not None and not occurs(t, a2): m = {x: apply_subst(y, {t: a2}) for x, y in m.items()}; m[t] = a2; continue
            if a2[0] == "i" and b2[0] == "i" and NOWRAP[0]:      # solve for an atom that occurs linearly
                z = padd(a2[2], b2[2], -1)
                for mm, c in z:
                    if abs(c) != 1 or len(mm) != 1 or mm[0][1] != 1: continue
                    r = I(("i", a2[1], pnorm({k2: (-v if c == 1 else v) for k2, v in z if k2 != mm})))
                    t = mm[0][0]
                    if not occurs(t, r): m = {x: apply_subst(y, {t: r}) for x, y in m.items()}; m[t] = r; break
    return m, nans
def occurs(t, e): return t in atoms_deep(e)
def atoms_deep(e, acc=None):
    if acc is None: acc = set()
    polys = (e[1], e[2]) if e[0] == "rat" else ((e[2],) if e[0] == "i" else ())
    for p in polys:
        for m, c in p:
            for a, _ in m:
                acc.add(a)
                if a[0] == "trunc" and isinstance(a[1], int): acc.add(a[2]); a = a[2]
                for x in a[1:]:
                    if isinstance(x, tuple) and x and x[0] in ("rat", "i"): atoms_deep(x, acc)
    return acc
_vn0 = None
def apply_subst(e, m):
    if not m or e[0] not in ("rat", "i"): return e
    if not (atoms_deep(e) & set(m)): return e
    def sa(a):
        """substituted atom -> leaf"""
        if a in m: return m[a]
        if any(isinstance(x, tuple) and x and x[0] in ("rat", "i", "inf") for x in a[1:]):
            args = tuple(apply_subst(x, m) if isinstance(x, tuple) and x and x[0] in ("rat", "i") else x for x in a[1:])
            return rebuild(a[0], args, e)
        return rat(patom(a)) if e[0] == "rat" else None
    if e[0] == "rat":
        def sp(p):
            tot = ("rat", (), P1)
            for mm, c in p:
                t = ("rat", pconst(c), P1)
                for a, ex in mm:
                    r = sa(a)
                    if r[0] in ("inf", "nanc"): raise InfLeaf(r)
                    for _ in range(ex): t = rmul0(t, r)
                tot = radd0(tot, t)
            return tot
        try:
            if e[2] == P1 and len(e[1]) == 1 and len(e[1][0][0]) == 1 and e[1][0][0][0][1] == 1 and abs(e[1][0][1]) == 1:
                r = sa(e[1][0][0][0][0])
                if r[0] in ("inf", "nanc"): return r if e[1][0][1] == 1 else rneg(r)
            n, d = sp(e[1]), sp(e[2])
            if not d[1]: return I(("div0", n))
            return rdiv0(n, d)
        except InfLeaf: return I(("infexpr", e))
    n = e[1]; tot = ()
    for mm, c in e[2]:
        t = pconst(c)
        for a, ex in mm:
            if a in m: q = m[a][2]
            else:
                if any(isinstance(x, tuple) and x and x[0] in ("rat", "i") for x in a[1:]):
                    a = I((a[0],) + tuple(apply_subst(x, m) if isinstance(x, tuple) and x and x[0] in ("rat", "i") else x for x in a[1:]))
                q = ((((a, 1),), 1),)
                if a[0] == "sdiv" and isconst(a[2]) and icval(a[2]) in (1, -1): q = tuple((mm_, c_*icval(a[2])) for mm_, c_ in a[1][2])
                elif a[0] in FOLD and len(a) == 3 and all(isinstance(x, tuple) and x[0] == "i" and isconst(x) for x in a[1:]):
                    c0 = fold_int(a[0], icval(a[1]), icval(a[2]), a[1][1])
                    if c0 is not None: q = pconst(c0)
                elif a[0] == "sext" and isconst(a[1]): q = pconst(icval(a[1]))
                elif a[0] == "trunc" and not isinstance(a[1], int) and isconst(a[1]): q = pconst(icval(a[1]))
                elif a[0] == "trunc" and isinstance(a[1], int):
                    inner = apply_subst(I(("i", 64, ((((a[2], 1),), 1),))), m)
                    if isconst(inner): q = pconst(icval(inner))
                    else: q = trunc_poly(inner, a[1])
            for _ in range(ex): t = pmul(t, q)
        tot = padd(tot, t)
    return I(("i", n, pnorm({m_: smod(c, n) for m_, c in tot})))
def trunc_poly(x, w):
    r = ()
    for mm, c in x[2]:
        t = pconst(c)
        for at, e in mm:
            if at[0] in ("sext", "zext") and at[1][1] == w: q = at[1][2]
            else: q = ((((("trunc", w, at), 1),), 1),)
            for _ in range(e): t = pmul(t, q)
        r = padd(r, t)
    return r
class InfLeaf(Exception): pass
FOLD = {"lshr", "ashr", "udiv", "sdiv", "urem", "srem"}
def fold_int(op, x, y, n):
    M = (1 << n)-1
    if op in ("lshr", "ashr"):
        if not 0 <= y < n: return None
        return smod((x & M) >> y, n) if op == "lshr" else x >> y
    if y & M == 0: return None
    if op == "udiv": return smod((x & M)//(y & M), n)
    if op == "urem": return smod((x & M) % (y & M), n)
    q = abs(x)//abs(y)
    if (x < 0) != (y < 0): q = -q
    return smod(q, n) if op == "sdiv" else smod(x-q*y, n)
def rebuild(k, args, e):
    if k == "ff":
        v = VN("strict"); return v.tab[v.fcombine(args[0], args[1], args[2])][1]
    if k in ("sitofp",) and isconst(args[0]): return rat(pconst(Fraction(icval(args[0]))))
    if k == "fn" and args[0] in ("fptrunc", "floor", "ceil", "rint", "trunc") and args[1][0] in ("inf", "nanc"): return args[1]
    if k == "fn" and args[0] == "fptrunc" and isconst(args[1]): return rat(pconst(Fraction(f32(float(cval(args[1]))))))
    return rat(patom(I((k,) + args)))

def leaf_nan(e, nans):
    if e[0] == "nanc": return True
    if e[0] in ("rat",):
        def go(a):
            if rat(patom(a)) in nans: return True
            if a[0] == "ff": return any(leaf_nan(x, nans) for x in a[2:])
            if a[0] == "fn" and a[1] not in ("pow",): return any(leaf_nan(x, nans) for x in a[2:])
            return False
        return any(go(a) for p in (e[1], e[2]) for m, c in p for a, _ in m)
    return False

def has_call(t):
    if not isinstance(t, tuple): return False
    if t and t[0] == "call": return True
    return any(has_call(x) for x in t)

def euclid(facts, mp, a, b):
    """bounds of truncating quotients: no integers satisfy the facts together with a != b (a: None: the facts alone)"""
    qs = set()
    for t in [x for f in facts for x in f[1:3] if isinstance(x, tuple)] + [a, b]:
        if t is None: continue
        for e in (t, apply_subst(t, mp)) if t[0] in ("i", "rat") else (t,):
            qs |= {x for x in atoms_deep(e) if x[0] == "sdiv"}
    rem = []
    for f in facts:
        if f[0] == "bool" and f[1][0] == "remnz": rem.append((f[1][1], f[1][2], f[3])); qs.add(I(("sdiv", f[1][1], f[1][2])))
    if not qs or len(qs) > 6: return False
    qs = sorted(qs, key=repr)
    def P(n, p): return ("i", n, pnorm(dict(p)))
    def implied(x, k):      # x >= k
        if isconst(x): return icval(x) >= k
        return not feasible_linear(facts + (("ord", x, P(x[1], {(): k}), 0),), mp)
    extra = []; divs = {}
    for q in qs:
        x, y = q[1], q[2]; n = x[1]
        if not implied(y, 1): continue
        Q = ((((q, 1),), 1),); bq = pmul(y[2], Q); divs[q] = y[2]
        def ge(p, k=0): extra.append(("ord", P(n, padd(p, (), 1)), P(n, {(): k-1}), 2))
        nz = {o for u, w, o in rem if u == x and w == y}
        if implied(x, 0):
            ge(Q); ge(padd(x[2], bq, -1), 1 if 1 in nz else 0); ge(padd(padd(bq, y[2]), padd(x[2], pconst(1)), -1)); ge(padd(x[2], Q, -1))
        elif not feasible_linear(facts + (("ord", x, P(n, {(): 0}), 2),), mp):
            ge(tuple((m, -c) for m, c in Q)); ge(padd(bq, x[2], -1), 1 if 1 in nz else 0); ge(padd(padd(x[2], y[2]), padd(bq, pconst(1)), -1))
        if 0 in nz: extra.append(("ord", P(n, x[2]), P(n, bq), 1))
    if not divs: return False
    def times(f):      # a fact about quotients, multiplied by their divisor
        k, x, y, o = f; out = []
        if k != "ord" or x[0] != "i" or y is None: return out
        for u, w in {(x, y), (apply_subst(x, mp), apply_subst(y, mp))}:
            d = padd(u[2], w[2], -1)
            for b_ in {divs[q] for q in divs if any(q == t for m, c in d for t, e in m)}:
                if o == 1: out.append(("ord", P(x[1], pmul(d, b_)), P(x[1], ()), 1))
                elif o in (0, 2): out.append(("ord", P(x[1], padd(pmul(d if o == 2 else tuple((m, -c) for m, c in d), b_), b_, -1)), P(x[1], {(): -1}), 2))
        return out
    base = facts + tuple(extra) + tuple(g for f in facts for g in times(f))
    if not feasible_linear(base, mp): return True
    if a is None or a[0] != "i" or b[0] != "i": return False
    def ruled_out(o):
        g = ("ord", a, b, o)
        return not feasible_linear(base + (g,) + tuple(times(g)), mp)
    return ruled_out(0) and ruled_out(2)
class Cmp:
    """compares diagrams under the collected facts; calls back on leaf pairs"""
    def __init__(s, vn, eqleaf=None, limit=40000):
        s.v = vn; s.n = 0; s.limit = limit; s.diff = None; s.eqleaf = eqleaf
        s.pairs = 0
    def run(s, nodes, assume=()):
        """nodes: tuple of diagrams (impl0, ref0, impl1, ref1, ...), compares pairwise"""
        s.equal = set()      # node tuples that are equal whatever the facts
        st = IntState()
        for f in assume:
            if f[0] in ("ord", "uord") and f[1][0] == "i": st = st.add(f)
        return s.go(tuple(nodes), tuple(assume), st)[0]
    def go(s, nodes, facts, st):
        """-> (equal, no fact was needed)"""
        v = s.v
        if all(nodes[i] == nodes[i+1] for i in range(0, len(nodes), 2)): return True, True
        if nodes in s.equal: return True, True
        m = min(v.top(n) for n in nodes)
        if m == 1 << 60:
            s.pairs += 1
            if not feasible_float(v, facts): return True, False
            mp, nans = subst_maps(facts)
            for i in range(0, len(nodes), 2):
                a, b = v.tab[nodes[i]][1], v.tab[nodes[i+1]][1]
                if not s.leafeq(a, b, mp, nans, facts):
                    if NOWRAP[0] and not feasible_products(facts, mp): return True, False
                    if not feasible_linear(facts, mp): return True, False
                    if NOWRAP[0] and euclid(facts, mp, a, b): continue
                    for t in (a, b) + tuple(x for f in facts for x in f[1:3]):
                        if t is not None and has_call(t): raise Undecided("depends on an uninterpreted call")
                    s.diff = (facts, a, b, i//2); return False, False
            return True, False
        s.n += 1
        if s.n > s.limit: raise Undecided("comparison too large")
        at = v.atoms[m]; free = True
        cofs = [tuple(v.cof(n, m, j) for n in nodes) for j in range(v.nary(m))]
        outs = list(range(len(cofs)))
        if len(cofs) == 3 and cofs[0] == cofs[2] and at[1][0] == "i": outs = [1, 3]; cofs.append(cofs[0])
        for j in outs:
            f = (at[0], at[1], at[2] if len(at) > 2 else None, j)
            nf = facts + (f,)
            st2 = st
            if at[0] in ("ord", "uord") and at[1][0] == "i":
                st2 = st.add(f)
                if st2 is None: free = False; continue
            elif at[0] in ("ord", "nan") and not feasible_float(v, nf): free = False; continue
            ok, fr = s.go(cofs[j], nf, st2)
            if not ok: return False, False
            free = free and fr
        if free: s.equal.add(nodes)
        return True, free
    def leafeq(s, a, b, mp, nans, facts=()):
        if a == b: return True
        if a[0] == "rat" and b[0] == "rat" and req(a, b): return True
        na, nb = leaf_nan(a, nans), leaf_nan(b, nans)
        if na and nb: return True
        if na != nb and (a[0] != "i"): 
            return False
        a2, b2 = apply_subst(a, mp), apply_subst(b, mp)
        if a2 == b2 or (a2[0] == "rat" and b2[0] == "rat" and req(a2, b2)): return True
        if a[0] == "i" and b[0] == "i" and any(f[0] == "bool" and f[1][0] == "remnz" and f[3] == 0 for f in facts):      # no remainder
            n = a[1]; N = lambda p: pnorm({m: smod(c, n) for m, c in p})
            for f in facts:
                if f[0] != "bool" or f[1][0] != "remnz" or f[3] != 0: continue
                x, y = f[1][1], f[1][2]
                r = I(("i", x[1], padd(x[2], pmul(y[2], ((((I(("sdiv", x, y)), 1),), 1),)), -1)))
                if n < x[1]: r = I(("i", n, trunc_poly(r, n)))
                if r[1] != n: continue
                for p, q in ((a, b), (a2, b2)):
                    e = N(padd(p[2], q[2], -1))
                    if e in (N(r[2]), N(tuple((m, -c) for m, c in r[2]))): return True
        if s.eqleaf is not None: return s.eqleaf(a2, b2, facts)
        if isconst(a): a, b = b, a
        if isconst(b) and a[0] == "i" and s.v.mode == "real" and LATTICE[0]:      # truncation of a real known to lie in [k, k+1)
            c0 = dict(a[2]).get((), 0); t = single(I(("i", a[1], padd(a[2], pconst(c0), -1))))
            if t is not None and t[0] in ("sext", "zext"): t = single(t[1])
            if t is not None and t[0] == "fptosi" and t[1][0] == "rat":
                k = icval(b) - int(c0); x = t[1]; f = lambda q: rat(pconst(Fraction(q)))
                lo = [("ord", x, f(k-1), 0), ("ord", x, f(k-1), 1)] if k <= 0 else [("ord", x, f(k), 0)]
                hi = [("ord", x, f(k+1), 2), ("ord", x, f(k+1), 1)] if k >= 0 else [("ord", x, f(k), 2)]
                fin = FINITE[0]; FINITE[0] = True
                try: return not any(feasible_linear(tuple(facts) + (g,), mp) for g in lo + hi)
                finally: FINITE[0] = fin
        return False

# ------------------------------------------------------------------ printing
def show(e, depth=0):
    if e is None: return "-"
    if depth > 6: return "..."
    k = e[0]
    if k == "rat":
        n = showp(e[1], depth)
        return n if e[2] == P1 else "(%s)/(%s)" % (n, showp(e[2], depth))
    if k == "i": return showp(e[2], depth)
    if k == "inf": return "inf" if e[1] > 0 else "-inf"
    if k == "nanc": return "NaN"
    if k == "ptr": return "&%s+%d" % (e[1], e[2])
    return repr(e)[:80]
def showp(p, depth):
    if not p: return "0"
    out = []
    for m, c in p:
        t = "*".join((showa(a, depth) + ("^%d" % e if e > 1 else "")) for a, e in m)
        cs = str(c) if not isinstance(c, Fraction) or c.denominator < 10**6 else "%g" % float(c)
        out.append(t if c == 1 and t else ("-" + t if c == -1 and t else (cs + ("*" + t if t else ""))))
    return " + ".join(out)
def showa(a, depth):
    if a[0] == "in":
        b = a[1]; off = a[2]
        nm = b[1] if b[0] == "arg" else repr(b)
        return "%s[%d]" % (nm, off) if off else "%s" % nm
    if a[0] == "ff": return "(%s %s %s)" % (show(a[2], depth+1), {"fadd": "+", "fsub": "-", "fmul": "*", "fdiv": "/"}[a[1]], show(a[3], depth+1))
    if a[0] == "fn": return "%s(%s)" % (a[1], ", ".join(show(x, depth+1) for x in a[2:]))
    if len(a) >= 2 and isinstance(a[1], tuple) and a[1] and a[1][0] in ("rat", "i"): return "%s(%s)" % (a[0], ", ".join(show(x, depth+1) if isinstance(x, tuple) else str(x) for x in a[1:]))
    return repr(a)[:60]
def showfacts(facts):
    out = []
    for k, a, b, o in facts:
        if k == "nan": out.append("%s %s NaN" % (show(a), "is" if o else "is not"))
        elif k in ("ord", "uord"): out.append("%s %s %s" % (show(a), ("<", "==", ">", "!=")[o], show(b)))
        else: out.append("%s is %s" % (showa(a, 0) if a[0] != "rat" else show(a), bool(o)))
    return "; ".join(out) if out else "always"
