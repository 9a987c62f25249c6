"""Value domain of the value-flow analysis.

Scalars are hash-consed expression nodes (E), booleans are reduced ordered
binary decision diagrams over comparison atoms (B); both are plain data, built
while the dataflow analysis walks the MIR.  Nothing is ever executed or handed
to a solver.
"""
from fractions import Fraction
import math
import sys

sys.setrecursionlimit(20000)


# ------------------------------------------------------------------ scalars
class E:
    __slots__ = ("op", "args", "id", "unk", "bvs", "hasite", "_nf")

    def __repr__(self):
        return show(self)


_etab = {}
DISCR = {}         # id of an enum tag -> its possible values


def mk(op, *args):
    key = (op, args)
    e = _etab.get(key)
    if e is None:
        e = E()
        e.op = op
        e.args = args
        e.id = len(_etab)
        e._nf = None
        unk = op == "unknown"
        bvs = frozenset((args[0],)) if op == "bv" else frozenset()
        hasite = op in ("ite", "cond")
        for a in args:
            if isinstance(a, E):
                unk = unk or a.unk
                bvs |= a.bvs
                hasite = hasite or a.hasite
            elif isinstance(a, B):
                unk = unk or a.unk
                bvs |= a.bvs
                hasite = hasite or a.hasite
        if op in ("sum", "fold", "first", "count", "minover", "maxover"):
            bvs = bvs - {args[0]}
        e.unk = unk
        e.bvs = bvs
        e.hasite = hasite
        _etab[key] = e
    return e


def num(x):
    if isinstance(x, float):
        return cnum(x)
    return mk("num", Fraction(x))


_pi_den = (1, 2, 3, 4, 6, 8, 12, 16, 90, 180, 360, 45)


def nice(x):
    """Exact rational for a float constant: the simplest fraction it denotes."""
    f = Fraction(x).limit_denominator(2000)
    if float(f) == x:
        return f
    return Fraction(repr(x))


def cnum(x):
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return INF if x > 0 else mk("mul", num(-1), INF)
    if x == 0:
        return ZERO
    r = x / math.pi
    for d in _pi_den:
        n = round(r * d)
        if n != 0 and abs(n) < 4000 and abs(n * math.pi / d - x) <= 4e-16 * abs(x):
            fr = Fraction(n, d)
            return PI if fr == 1 else mk("mul", mk("num", fr), PI)
    ri = x * math.pi
    for n in (180, 1, 90, 360):
        # reciprocal multiples: 180/pi
        q = ri / n
        if abs(q - round(q)) < 1e-15 * max(1, abs(q)) and 0 < abs(round(q)) < 1000:
            return mk("mul", num(round(q) * n), mk("div", ONE, PI))
    return mk("num", nice(x))


def isnum(e):
    return isinstance(e, E) and e.op == "num"


def nv(e):
    return e.args[0]


_nt = {}


_lv = {}


def few(e, n=6):
    """a case distinction with at most n values that are not numbers"""
    def leaves(x):
        if x.op != "ite":
            return 0 if x.op == "num" else 1
        r = _lv.get(x.id)
        if r is None:
            r = _lv[x.id] = min(leaves(x.args[1]) + leaves(x.args[2]), 1000)
        return r
    return leaves(e) <= n


def numtree(e):
    """a case distinction between numbers"""
    if e.op == "num":
        return True
    if e.op != "ite":
        return False
    r = _nt.get(e.id)
    if r is None:
        r = _nt[e.id] = numtree(e.args[1]) and numtree(e.args[2])
    return r


def add(a, b):
    if isnum(a) and isnum(b):
        return mk("num", nv(a) + nv(b))
    if a is NAN or b is NAN:
        return NAN
    if isnum(b) and a.op == "ite" and numtree(a):
        return ite(a.args[0], add(a.args[1], b), add(a.args[2], b))
    if isnum(a) and b.op == "ite" and numtree(b):
        return ite(b.args[0], add(a, b.args[1]), add(a, b.args[2]))
    if isnum(a) and nv(a) == 0:
        return b
    if isnum(b) and nv(b) == 0:
        return a
    return mk("add", a, b)


def neg(a):
    if isnum(a):
        return mk("num", -nv(a))
    if a is NAN:
        return NAN
    return mk("mul", num(-1), a)


def sub(a, b):
    if isnum(a) and isnum(b):
        return mk("num", nv(a) - nv(b))
    if a is NAN or b is NAN:
        return NAN
    if isnum(b):
        return add(a, mk("num", -nv(b)))
    if a is b:
        return ZERO
    return mk("add", a, neg(b))


def mul(a, b):
    if isnum(a) and isnum(b):
        return mk("num", nv(a) * nv(b))
    if a is NAN or b is NAN:
        return NAN
    if isnum(a) and nv(a) == 1:
        return b
    if isnum(b) and nv(b) == 1:
        return a
    if (isnum(a) and nv(a) == 0) or (isnum(b) and nv(b) == 0):
        return ZERO
    return mk("mul", a, b)


def div(a, b):
    if isnum(a) and isnum(b) and nv(b) != 0:
        return mk("num", nv(a) / nv(b))
    if a is NAN or b is NAN:
        return NAN
    if isnum(b) and nv(b) == 1:
        return a
    return mk("div", a, b)


def powi(a, n):
    if isnum(a) and (nv(a) != 0 or n >= 0):
        return mk("num", nv(a) ** n)
    if n == 0:
        return ONE
    if n == 1 or a is NAN:
        return a
    return mk("powi", a, n)


NANFNS = {"sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sqrt", "exp", "ln", "log", "floor", "ceil", "round", "trunc",
          "abs", "cbrt", "sinh", "cosh", "tanh", "exp2", "log2", "log10"}


def fn(name, *args):
    if name in NANFNS and any(a is NAN for a in args):
        return NAN
    return mk(name, *args)


def maybenan(e):
    """a case distinction with a branch that is not a number"""
    return e is NAN or isinstance(e, E) and e.op == "ite" and (maybenan(e.args[1]) or maybenan(e.args[2]))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isinstance(a, B) and isinstance(b, B):
        return bite(c, a, b)
    if isinstance(a, E) and a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if isinstance(b, E) and b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("ite", c, a, b)


# ------------------------------------------------------------------ booleans
class B:
    """ROBDD node."""
    __slots__ = ("var", "hi", "lo", "id", "unk", "bvs", "hasite")

    def __repr__(self):
        return showb(self)

    def __and__(self, o):
        return bite(self, o, FALSE)

    def __or__(self, o):
        return bite(self, TRUE, o)

    def __invert__(self):
        return bite(self, FALSE, TRUE)


_btab = {}
_bmemo = {}
ATOMS = []        # index -> atom tuple
_atomidx = {}


def _mkb(var, hi, lo):
    if hi is lo:
        return hi
    k = (var, hi.id, lo.id)
    b = _btab.get(k)
    if b is None:
        b = B()
        b.var, b.hi, b.lo = var, hi, lo
        b.id = len(_btab) + 2
        at = ATOMS[var]
        b.unk = hi.unk or lo.unk
        b.bvs = hi.bvs | lo.bvs
        b.hasite = hi.hasite or lo.hasite
        for x in at[1:]:
            if isinstance(x, (E, B)):
                b.unk = b.unk or x.unk
                b.bvs = b.bvs | x.bvs
                b.hasite = b.hasite or x.hasite
        if at[0] == "any":
            b.bvs = b.bvs - {at[1]}
        _btab[k] = b
    return b


def _term(v):
    b = B()
    b.var = 1 << 60
    b.hi = b.lo = None
    b.id = 1 if v else 0
    b.unk = False
    b.bvs = frozenset()
    b.hasite = False
    return b


TRUE = _term(True)
FALSE = _term(False)


def bite(f, g, h):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    k = (f.id, g.id, h.id)
    r = _bmemo.get(k)
    if r is not None:
        return r
    v = min(f.var, g.var, h.var)

    def co(x, hi):
        if x.var != v:
            return x
        return x.hi if hi else x.lo

    r = _mkb(v, bite(co(f, 1), co(g, 1), co(h, 1)), bite(co(f, 0), co(g, 0), co(h, 0)))
    _bmemo[k] = r
    return r


def atom(*key):
    i = _atomidx.get(key)
    if i is None:
        i = len(ATOMS)
        ATOMS.append(key)
        _atomidx[key] = i
    return _mkb(i, TRUE, FALSE)


def cofactor(b, var, val, memo=None):
    if memo is None:
        memo = {}
    if b.var > var:
        return b
    if b.var == var:
        return b.hi if val else b.lo
    r = memo.get(b.id)
    if r is None:
        r = _mkb(b.var, cofactor(b.hi, var, val, memo), cofactor(b.lo, var, val, memo))
        memo[b.id] = r
    return r


def restrict(f, c, memo=None):
    """Coudert-Madre restrict: simplify f knowing c holds."""
    if memo is None:
        memo = {}
    if c is TRUE or f is TRUE or f is FALSE:
        return f
    if c is FALSE:
        return f
    k = (f.id, c.id)
    r = memo.get(k)
    if r is not None:
        return r
    v = min(f.var, c.var)
    if c.var == v:
        if c.lo is FALSE:
            r = restrict(f.hi if f.var == v else f, c.hi, memo)
        elif c.hi is FALSE:
            r = restrict(f.lo if f.var == v else f, c.lo, memo)
        elif f.var == v:
            r = _mkb(v, restrict(f.hi, c.hi, memo), restrict(f.lo, c.lo, memo))
        else:
            r = restrict(f, c.hi | c.lo, memo)
    else:
        r = _mkb(v, restrict(f.hi, c, memo), restrict(f.lo, c, memo))
    memo[k] = r
    return r


def bvars(b, acc=None, seen=None):
    if acc is None:
        acc, seen = set(), set()
    if b.id in seen or b is TRUE or b is FALSE:
        return acc
    seen.add(b.id)
    acc.add(b.var)
    bvars(b.hi, acc, seen)
    bvars(b.lo, acc, seen)
    return acc


def bnot(b):
    return bite(b, FALSE, TRUE)


def blt(a, b):
    if a is b or a is NAN or b is NAN:
        return FALSE
    if a.op == "ite" and maybenan(a):
        return bite(a.args[0], blt(a.args[1], b), blt(a.args[2], b))
    if b.op == "ite" and maybenan(b):
        return bite(b.args[0], blt(a, b.args[1]), blt(a, b.args[2]))
    if isnum(a) and isnum(b):
        return TRUE if nv(a) < nv(b) else FALSE
    if a.op == "ite" and isnum(b) and few(a):
        return bite(a.args[0], blt(a.args[1], b), blt(a.args[2], b))
    if b.op == "ite" and isnum(a) and few(b):
        return bite(b.args[0], blt(a, b.args[1]), blt(a, b.args[2]))
    if b.op == "ite" and a.op != "num" and numtree(b):
        return bite(b.args[0], blt(a, b.args[1]), blt(a, b.args[2]))
    if a.op == "ite" and b.op != "num" and numtree(a):
        return bite(a.args[0], blt(a.args[1], b), blt(a.args[2], b))
    return atom("lt", a, b)


def ble(a, b):
    if a is NAN or b is NAN:
        return FALSE
    if a.op == "ite" and maybenan(a):
        return bite(a.args[0], ble(a.args[1], b), ble(a.args[2], b))
    if b.op == "ite" and maybenan(b):
        return bite(b.args[0], ble(a, b.args[1]), ble(a, b.args[2]))
    return bnot(blt(b, a))


def beq(a, b):
    if a is NAN or b is NAN:
        return FALSE
    if a.op == "ite" and maybenan(a):
        return bite(a.args[0], beq(a.args[1], b), beq(a.args[2], b))
    if b.op == "ite" and maybenan(b):
        return bite(b.args[0], beq(a, b.args[1]), beq(a, b.args[2]))
    if a is b:
        return TRUE
    if isnum(a) and isnum(b):
        return TRUE if nv(a) == nv(b) else FALSE
    if a.op == "ite" and isnum(b):
        return bite(a.args[0], beq(a.args[1], b), beq(a.args[2], b))
    if b.op == "ite" and isnum(a):
        return bite(b.args[0], beq(a, b.args[1]), beq(a, b.args[2]))
    for d, k in ((a, b), (b, a)):
        if d.op == "discr" and isnum(k) and len(DISCR.get(d.id, ())) == 2 and nv(k) == min(DISCR[d.id]):
            # of two variants, not the first means the second
            return bnot(beq(d, num(max(DISCR[d.id]))))
    if a.id > b.id:
        a, b = b, a
    return atom("eq", a, b)


def feasible(g, d, k):
    """g & (d == k), dropping the (impossible) alternatives d == j, j != k."""
    at = beq(d, k)
    if at is FALSE:
        return FALSE
    g = g & at
    if at is TRUE or g is FALSE:
        return g
    for v in bvars(g):
        a = ATOMS[v]
        if a[0] == "eq":
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if x is d and isnum(y) and isnum(k) and y is not k:
                    # d == k holds, so d == y is false
                    g = cofactor(g, v, False)
                    if g is FALSE:
                        return g
                    break
    return g & at


PI = mk("pi")
INF = mk("inf")
NAN = mk("nan")
ZERO = mk("num", Fraction(0))
ONE = mk("num", Fraction(1))


# ------------------------------------------------------------------ printing
def show(e, depth=0):
    if isinstance(e, B):
        return showb(e, depth)
    if not isinstance(e, E):
        return str(e)
    if depth > 12:
        return "…"
    o, a = e.op, e.args
    d = depth + 1
    if o == "num":
        f = a[0]
        if f.denominator == 1 and abs(f) < 10**9:
            return str(f)
        return repr(float(f))
    if o == "pi":
        return "π"
    if o in ("inf", "nan"):
        return o
    if o == "sym":
        return a[0]
    if o == "fld":
        return f"{show(a[0], d)}.{a[1]}"
    if o == "idx":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if o == "len":
        return f"len({show(a[0], d)})"
    if o == "discr":
        return f"variant({show(a[0], d)})"
    if o == "bv":
        return f"i{a[0]}"
    if o == "add":
        return f"({show(a[0], d)} + {show(a[1], d)})"
    if o == "mul":
        if isnum(a[0]) and nv(a[0]) == -1:
            return f"-{show(a[1], d)}"
        return f"{show(a[0], d)}*{show(a[1], d)}"
    if o == "div":
        return f"{show(a[0], d)}/({show(a[1], d)})"
    if o == "powi":
        return f"{show(a[0], d)}^{a[1]}"
    if o == "ite":
        return f"if {showb(a[0], d)} then {show(a[1], d)} else {show(a[2], d)}"
    if o == "sum":
        return f"Σ_i{a[0]}<{show(a[1], d)} ({show(a[2], d)})"
    if o == "app":
        return f"{a[0]}({', '.join(show(x, d) for x in a[1:])})"
    if o == "agg":
        return f"{a[0]}{{{', '.join(show(x, d) for x in a[1:])}}}"
    return f"{o}({', '.join(show(x, d) for x in a)})"


def showatom(k, depth=0):
    if k[0] == "lt":
        return f"{show(k[1], depth)} < {show(k[2], depth)}"
    if k[0] == "eq":
        return f"{show(k[1], depth)} == {show(k[2], depth)}"
    return f"{k[0]}({', '.join(show(x, depth) for x in k[1:])})"


def showb(b, depth=0):
    if b is TRUE:
        return "true"
    if b is FALSE:
        return "false"
    if depth > 12:
        return "…"
    a = showatom(ATOMS[b.var], depth + 1)
    if b.hi is TRUE and b.lo is FALSE:
        return a
    if b.hi is FALSE and b.lo is TRUE:
        return f"!({a})"
    if b.lo is FALSE:
        return f"({a} && {showb(b.hi, depth + 1)})"
    if b.hi is FALSE:
        return f"(!({a}) && {showb(b.lo, depth + 1)})"
    if b.hi is TRUE:
        return f"({a} || {showb(b.lo, depth + 1)})"
    return f"({a} ? {showb(b.hi, depth + 1)} : {showb(b.lo, depth + 1)})"


# ------------------------------------------------------------------ aggregates
class Agg:
    """Struct / tuple / array / matrix / closure / enum value of known variant."""
    __slots__ = ("kind", "ty", "variant", "fs", "meta")

    def __init__(self, kind, fs, ty=None, variant=0, meta=None):
        self.kind, self.fs, self.ty, self.variant, self.meta = kind, tuple(fs), ty, variant, meta

    def with_fs(self, fs):
        return Agg(self.kind, fs, self.ty, self.variant, self.meta)

    def __repr__(self):
        return f"{self.kind}#{self.variant}({', '.join(map(repr, self.fs))})"


def mat(r, c, elems):
    return Agg("mat", elems, meta=(r, c))


class SymV:
    """Lazily expanded symbolic value of type ty, named by the E node base."""
    __slots__ = ("base", "ty", "variant")

    def __init__(self, base, ty, variant=None):
        self.base, self.ty, self.variant = base, ty, variant

    def __repr__(self):
        return f"<{show(self.base)}>"


class SymSeq:
    """Symbolic sequence (Vec / slice) named base with elements of type ety."""
    __slots__ = ("base", "ety", "lo", "hi")

    def __init__(self, base, ety, lo=None, hi=None):
        self.base, self.ety = base, ety
        self.lo = lo        # E offset or None
        self.hi = hi

    def __repr__(self):
        return f"<seq {show(self.base)}>"

    def len(self):
        full = mk("len", self.base) if self.hi is None else self.hi
        return full if self.lo is None else sub(full, self.lo)


class Ref:
    __slots__ = ("root", "path", "mut")

    def __init__(self, root, path=(), mut=False):
        self.root, self.path, self.mut = root, path, mut

    def __repr__(self):
        return f"&{self.root}{''.join(str(x) for x in self.path)}"

    def key(self):
        return (self.root, self.path)


class Choice:
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "choice{" + ", ".join(f"{g}: {v}" for g, v in self.alts) + "}"


class FnV:
    __slots__ = ("ty",)

    def __init__(self, ty):
        self.ty = ty


class Opq:
    """Opaque non-scalar value (strings, formatters, library handles)."""
    __slots__ = ("base", "ty")

    def __init__(self, base, ty=None):
        self.base, self.ty = base, ty

    def __repr__(self):
        return f"opq({show(self.base)})"


class Iter:
    """Model of an iterator: kind + parameters (immutable)."""
    __slots__ = ("kind", "a")

    def __init__(self, kind, *a):
        self.kind, self.a = kind, a

    def __repr__(self):
        return f"iter:{self.kind}{self.a}"
