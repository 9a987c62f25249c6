"""Canonical normal form of value-flow expressions and the comparison of two of them.

A scalar is normalised to a Laurent polynomial with rational coefficients over
atoms (program inputs, roots, trigonometric terms, opaque applications, ...).
Gated values are compared case by case: the guards of both sides are reduced to
signs of normalised polynomials, and a case is explored only if it is
consistent with the signs already assumed and with the domain assumptions.

`equal(a, b)` returns
  ("equal", cases)         every case has the same normal form on both sides
  ("differs", witness)     some case has different normal forms, confirmed by an
                           identity test of the two closed forms
  ("undecided", reason)    neither could be established
"""
from fractions import Fraction
import cmath
import hashlib
import math
import random
import time
from vals import *

TOL = 1e-10


class Split(Exception):
    def __init__(self, kind, key, payload=None):
        self.kind, self.key, self.payload = kind, key, payload


class Undecided(Exception):
    pass


# ------------------------------------------------------------------ polynomials
class Poly:
    __slots__ = ("t", "_fp")

    def __init__(self, t):
        self.t = t          # mono -> (Fraction, mass)
        self._fp = None

    def __bool__(self):
        return bool(self.t)


def _c(c, m):
    return None if c == 0 or abs(float(c)) <= TOL * m else (c, m)


def pconst(c):
    c = Fraction(c)
    return Poly({(): (c, abs(float(c)))} if c else {})


def padd(a, b, k=1):
    t = dict(a.t)
    for m, (c, w) in b.t.items():
        if k != 1:
            c = c * k
            w = w * abs(float(k))
        if m in t:
            c0, w0 = t[m]
            r = _c(c0 + c, w0 + w)
            if r is None:
                del t[m]
            else:
                t[m] = r
        else:
            t[m] = (c, w)
    return Poly(t)


def pscale(a, k):
    k = Fraction(k)
    if k == 0:
        return Poly({})
    fk = abs(float(k))
    return Poly({m: (c * k, w * fk) for m, (c, w) in a.t.items()})


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        n = d.get(x, 0) + e
        if n:
            d[x] = n
        else:
            d.pop(x, None)
    return tuple(sorted(d.items()))


class NF:
    """atom table + normalisation; one instance per comparison family"""

    def __init__(self):
        self.atoms = []            # (kind, args)
        self.fp = []               # numeric fingerprint (complex)
        self.index = {}            # exact key -> id
        self.bykind = {}
        self.pos = set()           # atom ids known > 0
        self.nonneg = set()
        self.disc = set()          # discrete atoms (enum tags, integers)
        self.memo = {}
        self.rnd = random.Random(20240611)
        self.pos_e = None          # callable E -> "pos" | "nonneg" | None
        self.limit = 60000

    # ---------------------------------------------------------- atoms
    def atom(self, kind, args, fpv, key=None):
        k = (kind, key if key is not None else args)
        i = self.index.get(k)
        if i is not None:
            return i
        cands = self.bykind.setdefault(kind, [])
        if key is None:
            for j in cands:
                ja = self.atoms[j][1]
                if len(ja) == len(args) and abs(self.fp[j] - fpv) <= 1e-7 * (1 + abs(fpv)) and \
                        all(self.same_arg(x, y) for x, y in zip(ja, args)):
                    return j
        i = len(self.atoms)
        self.atoms.append((kind, args))
        self.fp.append(fpv)
        self.index[k] = i
        cands.append(i)
        return i

    def same_arg(self, x, y):
        if isinstance(x, Poly) and isinstance(y, Poly):
            return self.is_zero(padd(x, y, -1))
        return x == y

    def var(self, i, e=1):
        return Poly({((i, e),): (Fraction(1), 1.0)})

    def rndfp(self, tag):
        h = hashlib.md5(str(tag).encode()).digest()
        u = int.from_bytes(h[:6], "big") / 2**48
        return complex(0.6 + 0.8 * u)

    def pfp(self, p):
        if p._fp is None:
            s = 0j
            for m, (c, w) in p.t.items():
                v = complex(float(c))
                for a, e in m:
                    x = self.fp[a]
                    v *= x ** e if x != 0 or e > 0 else 1e30
                s += v
            p._fp = s
        return p._fp

    def sym(self, key, label):
        i = self.index.get(("sym", key))
        if i is None:
            i = self.atom("sym", label, self.rndfp(key), key=key)
        return i

    def is_pos(self, a):
        """atom known positive"""
        if a in self.pos:
            return True
        k, args = self.atoms[a]
        if k == "exp":
            return True
        if k in ("sqrt", "inv"):
            return self.sign(args[0]) == 1
        return False

    def is_nonneg(self, a):
        if a in self.pos or a in self.nonneg:
            return True
        k = self.atoms[a][0]
        return k in ("exp", "sqrt") or self.is_pos(a)

    def monosign(self, m):
        """1: >0, 0: >=0, None: unknown"""
        s = 1
        for a, e in m:
            if self.is_pos(a):
                continue
            if self.is_nonneg(a):
                s = 0
                continue
            if e % 2 == 0:
                s = 0
                continue
            return None
        return s

    def sign(self, p):
        """1 if provably > 0, -1 if provably < 0, 0 if zero, 2: >= 0, -2: <= 0, None unknown"""
        if not p.t:
            return 0
        allp = alln = True
        strict = False
        for m, (c, w) in p.t.items():
            s = self.monosign(m)
            if s is None:
                return None
            if c > 0:
                alln = False
            else:
                allp = False
            if s == 1:
                strict = True
        if allp:
            return 1 if strict else 2
        if alln:
            return -1 if strict else -2
        return None

    # ---------------------------------------------------------- arithmetic
    def mul(self, a, b):
        if len(a.t) * len(b.t) > self.limit:
            raise Undecided("polynomial too large")
        t = {}
        for m1, (c1, w1) in a.t.items():
            for m2, (c2, w2) in b.t.items():
                m = mmul(m1, m2)
                c, w = c1 * c2, w1 * w2
                if m in t:
                    c0, w0 = t[m]
                    t[m] = (c0 + c, w0 + w)
                else:
                    t[m] = (c, w)
        r = Poly({m: v for m, v in ((m, _c(*v)) for m, v in t.items()) if v is not None})
        return self.reduce(r)

    def reduce(self, p):
        """sqrt^n, sin^n and inv/atom clean-up"""
        for _ in range(60):
            hit = None
            for m in p.t:
                for a, e in m:
                    k = self.atoms[a][0]
                    if k == "sqrt" and (e >= 2 or e < 0):
                        hit = (m, a, e, k)
                        break
                    if k == "sin" and e >= 2:
                        hit = (m, a, e, k)
                        break
                    if k == "inv" and e < 0:
                        hit = (m, a, e, k)
                        break
                if hit:
                    break
            if not hit:
                return p
            # rewrite every monomial having this atom out of range
            _, a, _, k = hit
            base = self.atoms[a][1][0]
            out = Poly({})
            keep = {}
            for m, (c, w) in p.t.items():
                e = dict(m).get(a, 0)
                if k == "sqrt" and (e >= 2 or e < 0):
                    q, r = divmod(e, 2)
                    others = tuple(x for x in m if x[0] != a)
                    for a2, e2 in m if q > 0 else ():
                        if e2 > 0 and self.atoms[a2][0] == "inv" and self.samepoly(self.atoms[a2][1][0], base):
                            n = min(q, e2)
                            q -= n
                            others = mmul(others, ((a2, -n),))
                    rest = mmul(others, ((a, r),) if r else ())
                    f = self.ppow(base, q)
                elif k == "sin" and e >= 2:
                    q, r = divmod(e, 2)
                    rest = mmul(tuple(x for x in m if x[0] != a), ((a, r),) if r else ())
                    ca = self.trig("cos", base)
                    f = self.ppow(padd(pconst(1), self.mul(ca, ca), -1), q)
                elif k == "inv" and e < 0:
                    rest = tuple(x for x in m if x[0] != a)
                    f = self.ppow(base, -e)
                else:
                    keep[m] = (c, w)
                    continue
                out = padd(out, self.rawmul(f, Poly({rest: (c, w)})))
            p = padd(Poly(keep), out)
        return p

    def samepoly(self, p, q):
        return p is q or (p.t.keys() == q.t.keys() and all(abs(float(p.t[m][0] - q.t[m][0])) <= TOL for m in p.t))

    def divide(self, p, d):
        """p / d for polynomials when the division is exact, else None"""
        atoms = sorted({a for m in list(p.t) + list(d.t) for a, _ in m})
        def lex(m):
            x = dict(m)
            return tuple(x.get(a, 0) for a in atoms)
        ld = max(d.t, key=lex)
        cd = d.t[ld][0]
        q = {}
        for _ in range(400):
            if not p.t:
                return Poly(q)
            lp = max(p.t, key=lex)
            m = mmul(lp, tuple((a, -e) for a, e in ld))
            if any(e < 0 for _, e in m):
                return None
            c = p.t[lp][0] / cd
            q[m] = (c, abs(float(c)))
            p = padd(p, self.rawmul(d, Poly({m: q[m]})), -1)
            if lp in p.t:
                return None
        return None

    def cancel(self, p):
        """cancel common factors between numerators and inv atoms"""
        for a in sorted({a for m in p.t for a, e in m if self.atoms[a][0] == "inv" and e > 0}):
            for _ in range(8):
                e = max(dict(m).get(a, 0) for m in p.t) if p.t else 0
                if e <= 0:
                    break
                top, low = {}, {}
                for m, v in p.t.items():
                    if dict(m).get(a, 0) == e:
                        top[tuple(x for x in m if x[0] != a)] = v
                    else:
                        low[m] = v
                q = self.divide(Poly(top), self.atoms[a][1][0]) if len(top) > 1 else None
                if q is None:
                    break
                p = padd(self.rawmul(q, self.var(a, e - 1)) if e > 1 else q, Poly(low))
        return p

    def rawmul(self, a, b):
        t = {}
        for m1, (c1, w1) in a.t.items():
            for m2, (c2, w2) in b.t.items():
                m = mmul(m1, m2)
                c, w = c1 * c2, w1 * w2
                if m in t:
                    c0, w0 = t[m]
                    t[m] = (c0 + c, w0 + w)
                else:
                    t[m] = (c, w)
        return Poly({m: v for m, v in ((m, _c(*v)) for m, v in t.items()) if v is not None})

    def ppow(self, p, n):
        if n < 0:
            return self.ppow(self.inv(p), -n)
        r = pconst(1)
        b = p
        while n:
            if n & 1:
                r = self.mul(r, b)
            n >>= 1
            if n:
                b = self.mul(b, b)
        return r

    def lead(self, p):
        return min(p.t, key=lambda m: (-sum(abs(e) for _, e in m), m))

    def inv(self, p):
        if not p.t:
            raise Undecided("division by zero")
        if len(p.t) == 1:
            (m, (c, w)), = p.t.items()
            f = 1 / c
            r = Poly({tuple((a, -e) for a, e in m): (f, abs(float(f)))})
            return self.reduce(r)
        c = p.t[self.lead(p)][0]
        q = pscale(p, 1 / c)
        fpv = self.pfp(q)
        i = self.atom("inv", (q,), 1 / fpv if fpv else 1e30 + 0j)
        return pscale(self.var(i), 1 / c)

    def content(self, p):
        """(positive rational k, poly) with p = k * poly and |leading coef| = 1"""
        c = abs(p.t[self.lead(p)][0])
        return c, pscale(p, 1 / c)

    def sqrt(self, p):
        if not p.t:
            return p
        if len(p.t) == 1:
            (m, (c, w)), = p.t.items()
            if c > 0:
                out = pconst(self.nsqrt(c))
                rest = []
                for a, e in m:
                    if e % 2 == 0 and (self.is_nonneg(a) or e % 4 == 0):
                        out = self.mul(out, self.ppow(self.var(a), e // 2))
                    elif self.is_nonneg(a):
                        q = e // 2
                        if q:
                            out = self.mul(out, self.ppow(self.var(a), q))
                        rest.append((a, e - 2 * q))
                    else:
                        rest.append((a, e))
                if not rest:
                    return out
                q = Poly({tuple(rest): (Fraction(1), 1.0)})
                i = self.atom("sqrt", (q,), cmath.sqrt(self.pfp(q)))
                return self.mul(out, self.var(i))
        # sqrt(n/d) = sqrt(n)·sqrt(d)/d for positive denominators d
        p = self.cancel(p)
        if len(p.t) < 2:
            return self.sqrt(p)
        for m in p.t:
            for a, e in m:
                if self.atoms[a][0] == "inv" and e > 0 and self.sign(self.atoms[a][1][0]) in (1, 2):
                    e = max(dict(mm).get(a, 0) for mm in p.t)
                    n = self.reduce(self.mul_clear(p, a, e))
                    out = self.mul(self.sqrt(n), self.var(a, (e + 1) // 2))
                    return self.mul(out, self.sqrt(self.atoms[a][1][0])) if e % 2 else out
                if e < 0 and self.is_nonneg(a):
                    e = -min(dict(mm).get(a, 0) for mm in p.t)
                    n = self.reduce(self.rawmul(p, self.var(a, e)))
                    out = self.mul(self.sqrt(n), self.var(a, -((e + 1) // 2)))
                    return self.mul(out, self.sqrt(self.var(a))) if e % 2 else out
        common = None
        for m in p.t:
            d = {a: e for a, e in m if e > 1 and self.is_nonneg(a)}
            common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d}
        common = {a: e - e % 2 for a, e in common.items()}
        if common:
            f = Poly({tuple(sorted((a, -e) for a, e in common.items())): (Fraction(1), 1.0)})
            g = Poly({tuple(sorted((a, e // 2) for a, e in common.items())): (Fraction(1), 1.0)})
            return self.mul(g, self.sqrt(self.rawmul(p, f)))
        c, q = self.content(p)
        i = self.atom("sqrt", (q,), cmath.sqrt(self.pfp(q)))
        return pscale(self.var(i), self.nsqrt(c))

    def nsqrt(self, c):
        c = Fraction(c)
        n, d = c.numerator, c.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return Fraction(rn, rd)
        return self.num(math.sqrt(c))

    def num(self, x):
        return Fraction(x).limit_denominator(10**24) if x else Fraction(0)

    # ---------------------------------------------------------- functions
    def pi(self):
        i = self.sym("π", "π")
        self.fp[i] = complex(math.pi)
        self.pos.add(i)
        return i

    def negative_lead(self, p):
        # sign decided by a representation-independent order
        m = min(p.t, key=lambda m: m)
        return p.t[m][0] < 0

    def trig(self, f, p):
        if not p.t:
            return pconst(0 if f == "sin" else 1)
        pi = self.pi()
        pm = ((pi, 1),)
        # shift by multiples of pi/2
        if pm in p.t:
            c, w = p.t[pm]
            k = round(c * 2)
            if k != 0:
                rest = Poly({m: v for m, v in p.t.items() if m != pm})
                r = _c(c - Fraction(k, 2), w)
                if r is not None:
                    rest.t[pm] = r
                k %= 4
                if f == "sin":
                    return [lambda: self.trig("sin", rest), lambda: self.trig("cos", rest),
                            lambda: pscale(self.trig("sin", rest), -1), lambda: pscale(self.trig("cos", rest), -1)][k]()
                return [lambda: self.trig("cos", rest), lambda: pscale(self.trig("sin", rest), -1),
                        lambda: pscale(self.trig("cos", rest), -1), lambda: self.trig("sin", rest)][k]()
        if len(p.t) == 1:
            (m, (c, w)), = p.t.items()
            if m == pm:
                tab = {Fraction(1, 6): (Fraction(1, 2), None), Fraction(1, 3): (None, Fraction(1, 2))}
                if abs(c) in tab:
                    s, co = tab[abs(c)]
                    v = s if f == "sin" else co
                    if v is not None:
                        return pconst(v if f == "cos" or c > 0 else -v)
                if abs(c) == Fraction(1, 4):
                    v = self.nsqrt(Fraction(1, 2))
                    return pconst(v if f == "cos" or c > 0 else -v)
            if not m:
                v = math.sin(c) if f == "sin" else math.cos(c)
                return pconst(self.num(v))
            # inverse functions
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
                k, args = self.atoms[m[0][0]]
                sg = 1 if c > 0 else -1
                if k == "asin":
                    q = args[0]
                    if f == "sin":
                        return pscale(q, sg)
                    return self.sqrt(padd(pconst(1), self.mul(q, q), -1))
                if k == "atan":
                    q = args[0]
                    d = self.inv(self.sqrt(padd(pconst(1), self.mul(q, q))))
                    if f == "sin":
                        return pscale(self.mul(q, d), sg)
                    return d
            if c.denominator == 1 and 1 < abs(c) <= 4 and m != pm:
                x = Poly({m: (Fraction(1), 1.0)})
                n = abs(int(c))
                s1, c1 = self.trig("sin", x), self.trig("cos", x)
                s, co = s1, c1
                for _ in range(n - 1):
                    s, co = padd(self.mul(s, c1), self.mul(co, s1)), padd(self.mul(co, c1), self.mul(s, s1), -1)
                return pscale(s, 1 if c > 0 else -1) if f == "sin" else co
            if c < 0:
                r = self.trig_atom(f, pscale(p, -1))
                return pscale(r, -1) if f == "sin" else r
            return self.trig_atom(f, p)
        if len(p.t) <= 3:
            ms = sorted(p.t)
            a = Poly({ms[0]: p.t[ms[0]]})
            b = Poly({m: p.t[m] for m in ms[1:]})
            sa, ca, sb, cb = self.trig("sin", a), self.trig("cos", a), self.trig("sin", b), self.trig("cos", b)
            if f == "sin":
                return padd(self.mul(sa, cb), self.mul(ca, sb))
            return padd(self.mul(ca, cb), self.mul(sa, sb), -1)
        if self.negative_lead(p):
            r = self.trig_atom(f, pscale(p, -1))
            return pscale(r, -1) if f == "sin" else r
        return self.trig_atom(f, p)

    def trig_atom(self, f, p):
        # the pair (sin x, cos x) shares its argument
        x = self.pfp(p)
        try:
            v = cmath.sin(x) if f == "sin" else cmath.cos(x)
        except OverflowError:
            v = self.rndfp((f, "ovf"))
        return self.var(self.atom(f, (p,), v))

    def ln(self, p):
        if len(p.t) == 1:
            (m, (c, w)), = p.t.items()
            if c > 0:
                r = pconst(self.num(math.log(c))) if c != 1 else pconst(0)
                for a, e in m:
                    k, args = self.atoms[a]
                    if k == "exp":
                        r = padd(r, args[0], e)
                    elif k == "inv":
                        r = padd(r, self.ln(args[0]), -e)
                    elif k == "sqrt":
                        r = padd(r, self.ln(args[0]), Fraction(e, 2))
                    else:
                        r = padd(r, self.var(self.atom("ln", (self.var(a),), self.cln(self.fp[a]))), e)
                return r
        # pull out a positive power product so that ln(a/b) = ln a - ln b when recognisable
        num_, den = self.fraction(p)
        if den is not None:
            if all(v[0] < 0 for v in num_.t.values()) or all(v[0] < 0 for v in den.t.values()):
                num_, den = pscale(num_, -1), pscale(den, -1)
            return padd(self.ln(num_), self.ln(den), -1)
        c, q = self.content(p)
        if next(iter(q.t.values()))[0] < 0 and all(v[0] < 0 for v in q.t.values()):
            raise Undecided("log of negative")
        i = self.atom("ln", (q,), self.cln(self.pfp(q)))
        r = self.var(i)
        if c != 1:
            r = padd(r, pconst(self.num(math.log(c))))
        return r

    def fraction(self, p):
        """p = num/den with den a product of inv bases / negative powers shared by all terms, or (p, None)"""
        neg = {}
        for m in p.t:
            d = dict(m)
            for a, e in d.items():
                if self.atoms[a][0] == "inv" and e > 0:
                    neg.setdefault(a, []).append(e)
                elif e < 0:
                    neg.setdefault(a, []).append(e)
        if not neg:
            return p, None
        n = p
        den = pconst(1)
        for a in list(neg):
            k, args = self.atoms[a]
            if k == "inv":
                e = max(dict(m).get(a, 0) for m in p.t)
                n = self.mul_clear(n, a, e)
                den = self.mul(den, self.ppow(args[0], e))
            else:
                e = -min(dict(m).get(a, 0) for m in p.t)
                n = self.rawmul(n, self.var(a, e))
                den = self.mul(den, self.ppow(self.var(a), e))
        return n, den

    def cln(self, x):
        return cmath.log(x) if x != 0 else -700 + 0j

    def exp(self, p):
        if not p.t:
            return pconst(1)
        c = p.t.get((), None)
        k = pconst(1)
        if c is not None:
            p = Poly({m: v for m, v in p.t.items() if m != ()})
            k = pconst(self.num(math.exp(c[0])))
            if not p.t:
                return k
        # exp(n ln x) = x^n
        r = k
        rest = {}
        for m, (c, w) in p.t.items():
            if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] == "ln" and c.denominator == 1 and abs(c) < 40:
                r = self.mul(r, self.ppow(self.atoms[m[0][0]][1][0], int(c)))
            else:
                rest[m] = (c, w)
        p = Poly(rest)
        if not p.t:
            return r
        s = 1
        if self.negative_lead(p):
            p, s = pscale(p, -1), -1
        try:
            v = cmath.exp(self.pfp(p))
        except OverflowError:
            v = 1e30 + 0j
        i = self.atom("exp", (p,), v)
        return self.mul(r, self.var(i, s))

    def fun(self, name, ps):
        p = ps[0]
        if name in ("sin", "cos"):
            return self.trig(name, p)
        if name == "tan":
            return self.mul(self.trig("sin", p), self.inv(self.trig("cos", p)))
        if name == "sqrt":
            return self.sqrt(p)
        if name == "exp":
            return self.exp(p)
        if name == "ln":
            return self.ln(p)
        if name == "pow":
            return self.exp(self.mul(ps[1], self.ln(p)))
        if name == "acos":
            if not p.t:
                return pscale(self.var(self.pi()), Fraction(1, 2))
            return padd(pscale(self.var(self.pi()), Fraction(1, 2)), self.fun("asin", [p]), -1)
        if name in ("asin", "atan"):
            if not p.t:
                return p
            if name == "atan" and len(p.t) == 1 and () in p.t and abs(p.t[()][0]) == 1:
                return pscale(self.var(self.pi()), Fraction(1, 4) * p.t[()][0])
            if name == "asin" and len(p.t) == 1 and () in p.t and abs(p.t[()][0]) == 1:
                return pscale(self.var(self.pi()), Fraction(1, 2) * p.t[()][0])
            s = 1
            if self.negative_lead(p):
                p, s = pscale(p, -1), -1
            # odd functions: reuse an atom of the negated argument if present
            x = self.pfp(p)
            f = cmath.asin if name == "asin" else cmath.atan
            try:
                v = f(x)
            except (ValueError, OverflowError):
                v = 1e3 + 0j
            n0 = len(self.atoms)
            for j in self.bykind.get(name, []):
                if abs(self.fp[j] + v) <= 1e-7 * (1 + abs(v)) and self.is_zero(padd(self.atoms[j][1][0], p)):
                    return pscale(self.var(j), -s)
            return pscale(self.var(self.atom(name, (p,), v)), s)
        # uninterpreted
        v = self.rndfp((name,) + tuple(round(self.pfp(q).real, 7) for q in ps))
        return self.var(self.atom(name, tuple(ps), v))

    # ---------------------------------------------------------- zero test
    def mul_clear(self, p, a, e):
        """p * base(a)^e for an inv atom a, cancelling a"""
        base = self.atoms[a][1][0]
        groups = {}
        for m, v in p.t.items():
            d = dict(m)
            k = d.pop(a, 0)
            groups.setdefault(k, {})[tuple(sorted(d.items()))] = v
        out = Poly({})
        for k, t in groups.items():
            out = padd(out, self.mul(Poly(t), self.ppow(base, e - k)) if e != k else Poly(t))
        return out

    def clear(self, p):
        for _ in range(40):
            if not p.t:
                return p
            inv = None
            mins = {}
            for m in p.t:
                for a, e in m:
                    k = self.atoms[a][0]
                    if k == "inv":
                        inv = a if inv is None or a > inv else inv
                    elif e < 0:
                        mins[a] = min(mins.get(a, 0), e)
            if inv is not None:
                e = max(dict(m).get(inv, 0) for m in p.t)
                p = self.reduce(self.mul_clear(p, inv, e))
                continue
            if mins:
                f = Poly({tuple(sorted((a, -e) for a, e in mins.items())): (Fraction(1), 1.0)})
                p = self.reduce(self.rawmul(p, f))
                continue
            return p
        raise Undecided("denominators do not clear")

    def is_zero(self, p):
        if not p.t:
            return True
        mass = sum(abs(float(c)) for c, w in p.t.values())
        # fingerprint refutes quickly
        v = self.pfp(p)
        scale = 0.0
        for m, (c, w) in p.t.items():
            x = abs(float(c))
            for a, e in m:
                y = abs(self.fp[a])
                x *= y ** e if y else 1
            scale += x
        if abs(v) > 1e-6 * scale and scale > 0:
            return False
        return not self.clear(p).t


# ------------------------------------------------------------------ contexts
class Ctx:
    """signs assumed so far"""

    def __init__(self, nf, facts=(), bools=None, excl=None, vals=None):
        self.nf = nf
        self.facts = list(facts)       # (Poly, strict): poly > 0 / >= 0
        self.bools = dict(bools or {})
        self.eqs = dict(vals or {})    # atom id -> Poly substitution
        self.excl = {k: set(v) for k, v in (excl or {}).items()}
        self.memo = {}
        self.trail = []

    def child(self):
        c = Ctx(self.nf, self.facts, self.bools, self.excl, self.eqs)
        c.trail = list(self.trail)
        return c

    # -------------------------------------------------- normalisation
    def norm(self, e):
        late()
        r = self.memo.get(e.id)
        if r is None:
            r = self._norm(e)
            self.memo[e.id] = r
        return r

    def leaf(self, e):
        nf = self.nf
        i = nf.sym(e.id, show(e))
        if nf.pos_e is not None and i not in nf.pos:
            s = nf.pos_e(e)
            if s == "pos":
                nf.pos.add(i)
            elif s == "nonneg":
                nf.nonneg.add(i)
        if e.op == "discr":
            nf.disc.add(i)
        if i in self.eqs:
            return self.eqs[i]
        return nf.var(i)

    def _norm(self, e):
        nf = self.nf
        o, a = e.op, e.args
        if o == "num":
            return pconst(a[0])
        if o == "pi":
            return nf.var(nf.pi())
        if o in ("sym", "fld", "idx", "len", "discr", "bv", "str", "bytes"):
            if o == "idx" and not (isnum(a[1])):
                # index expression is part of the name
                return nf.fun("idx:" + show(a[0]), [self.norm(a[1])])
            return self.leaf(e)
        if o == "unknown":
            return self.leaf(e)
        if o in ("inf", "nan"):
            return self.leaf(e)
        if o == "add":
            return padd(self.norm(a[0]), self.norm(a[1]))
        if o == "mul":
            x, y = self.norm(a[0]), self.norm(a[1])
            return nf.mul(x, y)
        if o == "div":
            return nf.mul(self.norm(a[0]), nf.inv(self.norm(a[1])))
        if o == "powi":
            return nf.ppow(self.norm(a[0]), a[1])
        if o == "ite":
            return self.norm(a[1] if self.decide(a[0]) else a[2])
        if o == "cond":
            return pconst(1 if self.decide(a[0]) else 0)
        if o == "agg":
            # structured argument of an opaque function
            ps = [self.norm(x) if isinstance(x, E) else x for x in a[1:]]
            if all(isinstance(x, Poly) for x in ps):
                if not ps:
                    return nf.var(nf.sym(("agg", a[0]), a[0]))
                return nf.fun("agg:" + a[0], ps)
            raise Undecided("aggregate")
        if o == "app":
            return nf.fun("app:" + a[0], [self.norm(x) for x in a[1:]])
        if o == "sum":
            raise Undecided("symbolic sum")
        if o == "atan2":
            y, x = self.norm(a[0]), self.norm(a[1])
            s = self.signof(x)
            if s in (1,):
                return nf.fun("atan", [nf.mul(y, nf.inv(x))])
            return nf.fun("atan2", [y, x])
        if all(isinstance(x, E) for x in a) and a:
            return nf.fun(o, [self.norm(x) for x in a])
        raise Undecided("expression " + o)

    # -------------------------------------------------- decisions
    def decide(self, b):
        """truth value of a guard; raises Split on an undetermined atom"""
        while b is not TRUE and b is not FALSE:
            b = b.hi if self.atomval(ATOMS[b.var]) else b.lo
        return b is TRUE

    def atomval(self, at):
        k = at[0]
        if k in ("lt", "eq"):
            x, y = at[1], at[2]
            for u, v in ((x, y), (y, x)):
                if u.op == "nan":
                    return False
            if x.op == "inf" or y.op == "inf":
                # finite quantities are below infinity
                if k == "eq":
                    return x is y
                if y.op == "inf":
                    return x.op != "inf"
                return False
            p = padd(self.norm(y), self.norm(x), -1)     # y - x
            if k == "lt":
                return self.sgn(p) == 1
            return self.sgn(p) == 0
        # boolean atom
        key = (k,) + tuple(self.akey(x) for x in at[1:])
        if key in self.bools:
            return self.bools[key]
        raise Split("bool", key, at)

    def akey(self, x):
        if isinstance(x, E):
            p = self.norm(x)
            return tuple(sorted((m, round(float(c), 9)) for m, (c, w) in p.t.items()))
        if isinstance(x, B):
            return ("b", x.id)
        return x

    def canon(self, p):
        """(key poly, sign): p = positive * sign * key"""
        nf = self.nf
        # clear positive denominators
        for _ in range(20):
            f = None
            for m in p.t:
                for a, e in m:
                    if nf.atoms[a][0] == "inv" and e > 0:
                        f = ("inv", a)
                        break
                    if e < 0:
                        f = ("neg", a)
                        break
                if f:
                    break
            if not f:
                break
            a = f[1]
            if f[0] == "inv":
                base = nf.atoms[a][1][0]
                s = self.sgn_soft(base)
                e = max(dict(m).get(a, 0) for m in p.t)
                if s is None or s == 0:
                    if e % 2:
                        e += 1
                    if s == 0:
                        raise Undecided("zero denominator")
                    s = 1
                p = nf.reduce(nf.mul_clear(p, a, e))
                if s < 0 and e % 2:
                    p = pscale(p, -1)
            else:
                e = -min(dict(m).get(a, 0) for m in p.t)
                if not nf.is_pos(a):
                    s = self.sgn_soft(nf.var(a))
                    if s == -1 and e % 2:
                        p = pscale(p, -1)
                    elif s != 1 and e % 2:
                        e += 1
                p = nf.reduce(nf.rawmul(p, nf.var(a, e)))
        if not p.t:
            return p, 1
        # common positive monomial factor
        common = None
        for m in p.t:
            d = {a: e for a, e in m if nf.is_pos(a) and e > 0}
            if common is None:
                common = d
            else:
                common = {a: min(e, d[a]) for a, e in common.items() if a in d}
        if common and len(p.t) >= 1:
            f = Poly({tuple(sorted((a, -e) for a, e in common.items())): (Fraction(1), 1.0)})
            p = nf.rawmul(p, f)
        c, q = nf.content(p)
        lm = min(q.t)
        if q.t[lm][0] < 0:
            return pscale(q, -1), -1
        return q, 1

    def sgn_soft(self, p):
        s = self.nf.sign(p)
        if s in (1, -1, 0):
            return s
        try:
            return self.sgn(p, split=False)
        except (Split, Undecided):
            return None

    def signof(self, p):
        return self.sgn_soft(p)

    def sgn(self, p, split=True):
        """sign of p in this context"""
        nf = self.nf
        if not p.t:
            return 0
        if nf.is_zero(p):
            return 0
        s = nf.sign(p)
        if s in (1, -1):
            return s
        q, sg = self.canon(p)
        if not q.t:
            return 0
        s = nf.sign(q)
        if s in (1, -1):
            return s * sg
        # discrete atom against constant
        d = self.discrete(q)
        if d is not None:
            a, val = d
            if a in self.eqs:
                pass
            elif val in self.excl.get(a, ()):
                return 9        # known different from zero, sign irrelevant
            else:
                if not split:
                    return None
                raise Split("disc", (a, val))
        if self.prove(q, True):
            return sg
        if self.prove(pscale(q, -1), True):
            return -sg
        ge, le = self.prove(q, False), self.prove(pscale(q, -1), False)
        if ge and le:
            return 0
        if not split:
            return None
        cases = [1, -1, 0]
        if ge:
            cases.remove(-1)
        if le:
            cases.remove(1)
        # excluded zero
        for f in self.excl.get("zero", ()):
            pass
        raise Split("sign", (q, tuple(cases)))

    def discrete(self, q):
        if len(q.t) > 2:
            return None
        a = None
        c0 = Fraction(0)
        k = None
        for m, (c, w) in q.t.items():
            if m == ():
                c0 = c
            elif len(m) == 1 and m[0][1] == 1 and m[0][0] in self.nf.disc:
                a, k = m[0][0], c
            else:
                return None
        if a is None:
            return None
        return a, -c0 / k

    def prove(self, p, strict, depth=3, seen=None):
        """p > 0 (strict) or p >= 0 from the facts, by nonnegative combination"""
        nf = self.nf
        s = nf.sign(p)
        if s == 1 or (not strict and s in (0, 2)):
            return True
        if depth == 0 or not p.t:
            return False
        for i, (f, st) in enumerate(self.facts):
            # choose the multiple cancelling one of p's non-positive monomials
            done = set()
            for m, (c, w) in f.t.items():
                if m in p.t:
                    cp = p.t[m][0]
                    lam = cp / c
                    if lam <= 0 or lam in done:
                        continue
                    done.add(lam)
                    rest = padd(p, f, -lam)
                    if len(rest.t) > len(p.t) + 2:
                        continue
                    if not rest.t:
                        if st or not strict:
                            return True
                        continue
                    if self.prove(rest, strict and not st, depth - 1):
                        return True
        return False

    # -------------------------------------------------- branching
    def branches(self, sp):
        nf = self.nf
        if sp.kind == "bool":
            for v in (True, False):
                c = self.child()
                c.bools[sp.key] = v
                c.trail.append(("" if v else "not ") + showatom(sp.payload))
                yield c
        elif sp.kind == "disc":
            a, val = sp.key
            c = self.child()
            c.eqs[a] = pconst(val)
            c.trail.append(f"{nf.atoms[a][1]} = {val}")
            yield c
            c = self.child()
            c.excl.setdefault(a, set()).add(val)
            c.trail.append(f"{nf.atoms[a][1]} ≠ {val}")
            yield c
        else:
            q, cases = sp.key
            for s in cases:
                c = self.child()
                c.trail.append(f"{self.showp(q)} {'=><'[s]} 0")
                if s == 1:
                    c.facts.append((q, True))
                elif s == -1:
                    c.facts.append((pscale(q, -1), True))
                else:
                    c.facts.append((q, False))
                    c.facts.append((pscale(q, -1), False))
                    c.solve(q)
                yield c

    def solve(self, q):
        """use q = 0 to eliminate a program input"""
        nf = self.nf
        for m in sorted(q.t, reverse=True):
            if len(m) == 1 and m[0][1] == 1 and nf.atoms[m[0][0]][0] == "sym" and m[0][0] not in (nf.pi(),):
                a = m[0][0]
                if sum(1 for mm in q.t for x, _ in mm if x == a) != 1:
                    continue
                # atoms nested in other atoms would keep the old name: only if not used there
                c = q.t[m][0]
                rest = Poly({mm: v for mm, v in q.t.items() if mm != m})
                if any(self.mentions(x, a) for mm in rest.t for x, _ in mm):
                    continue
                self.eqs[a] = pscale(rest, -1 / c)
                # substitute in the existing equations
                for k in list(self.eqs):
                    if k != a:
                        self.eqs[k] = self.psub(self.eqs[k], a, self.eqs[a])
                nfacts = []
                for f, st in self.facts:
                    nfacts.append((self.psub(f, a, self.eqs[a]), st))
                self.facts = [(f, st) for f, st in nfacts if f.t]
                return

    def mentions(self, atom, a):
        if atom == a:
            return True
        k, args = self.nf.atoms[atom]
        if isinstance(args, tuple):
            return any(isinstance(p, Poly) and any(self.mentions(x, a) for m in p.t for x, _ in m) for p in args)
        return False

    def psub(self, p, a, v):
        nf = self.nf
        if not any(x == a for m in p.t for x, _ in m):
            return p
        out = Poly({})
        for m, (c, w) in p.t.items():
            d = dict(m)
            e = d.pop(a, 0)
            t = Poly({tuple(sorted(d.items())): (c, w)})
            if e:
                if e < 0 and not v.t:
                    return p
                t = nf.mul(t, nf.ppow(v, e))
            out = padd(out, t)
        return out

    def infeasible(self):
        """contradictory facts?"""
        nf = self.nf
        for i, (f, st) in enumerate(self.facts):
            s = nf.sign(f)
            if s == -1 or (st and s in (0, -2)):
                return True
            if not f.t and st:
                return True
        # newest fact against the rest
        if self.facts:
            f, st = self.facts[-1]
            others = self.facts[:-1]
            save = self.facts
            self.facts = others
            try:
                if self.prove(pscale(f, -1), not st):
                    return True
            finally:
                self.facts = save
        return False

    def showp(self, p):
        nf = self.nf
        out = []
        for m, (c, w) in sorted(p.t.items()):
            s = "·".join(self.showa(a) + (f"^{e}" if e != 1 else "") for a, e in m)
            cf = str(c) if c.denominator < 1000 and abs(c.numerator) < 10**6 else f"{float(c):.9g}"
            out.append(cf if not s else s if cf == "1" else "-" + s if cf == "-1" else cf + "·" + s)
        r = " + ".join(out) or "0"
        return r if len(r) < 600 else r[:600] + "…"

    def showa(self, a):
        k, args = self.nf.atoms[a]
        if k == "sym":
            return args
        return f"{k.replace('app:', '')}({', '.join(self.showp(x) if isinstance(x, Poly) else str(x) for x in args)})"


# ------------------------------------------------------------------ identity test
class Eval:
    """value of a closed form at one valuation (mpmath, 40 digits)"""
    zeros, salt = False, 0

    def __init__(self, seed, domain):
        import mpmath
        self.mp = mpmath
        mpmath.mp.dps = 40
        self.rnd = random.Random(seed)
        self.domain = domain
        self.leafs = {}
        self.memo = {}
        self.apps = {}
        self.salt = 0
        self.zeros = False       # whole groups of inputs (a vector, a list) may be zero together

    def vanishes(self, e):
        dom = getattr(self.domain, "__self__", None)
        rule = dom.rule(e) if hasattr(dom, "rule") else None
        if rule is None or rule[0] not in ("any", "nonneg") or not rule[1] <= 0 <= rule[2]:
            return False
        while e.op == "idx" or e.op == "fld" and str(e.args[1]).isdigit():
            e = e.args[0]
        return hashlib.md5(repr((show(e), self.salt)).encode()).digest()[0] % 3 == 0

    def leafv(self, e):
        k = e.id
        v = self.leafs.get(k)
        if v is None:
            if e.id in DISCR:
                v = self.rnd.choice(DISCR[e.id])
            else:
                v = self.domain(e, self.rnd) if self.domain else None
                if v is not None and self.zeros and self.vanishes(e):
                    v = 0
            if v is None:
                v = default_sample(e, self.rnd)
            v = self.real(v)
            self.leafs[k] = v
        return v

    def real(self, v):
        if isinstance(v, Fraction):
            return self.mp.mpf(v.numerator) / v.denominator
        return self.mp.mpf(v)

    def ev(self, e):
        r = self.memo.get(e.id)
        if r is None:
            r = self._ev(e)
            self.memo[e.id] = r
        return r

    def _ev(self, e):
        mp = self.mp
        o, a = e.op, e.args
        nan = mp.nan
        if o == "num":
            return mp.mpf(a[0].numerator) / a[0].denominator
        if o == "pi":
            return +mp.pi
        if o == "inf":
            return mp.inf
        if o == "nan":
            return nan
        if o in ("sym", "fld", "len", "discr", "str", "bytes", "unknown"):
            return self.leafv(e)
        if o == "idx":
            if isnum(a[1]):
                return self.leafv(e)
            return self.app("idx" + show(a[0]), [self.ev(a[1])])
        if o == "add":
            return self.ev(a[0]) + self.ev(a[1])
        if o == "mul":
            x, y = self.ev(a[0]), self.ev(a[1])
            try:
                return x * y
            except ZeroDivisionError:
                return nan
        if o == "div":
            x, y = self.ev(a[0]), self.ev(a[1])
            if y == 0:
                if mp.isnan(x) or x == 0:
                    return nan
                return mp.inf if x > 0 else -mp.inf
            return x / y
        if o == "powi":
            x = self.ev(a[0])
            if x == 0 and a[1] < 0:
                return mp.inf
            return x ** a[1]
        if o == "ite":
            return self.ev(a[1]) if self.bev(a[0]) else self.ev(a[2])
        if o == "cond":
            return mp.mpf(1 if self.bev(a[0]) else 0)
        if o == "app":
            return self.app(a[0], [self.ev(x) for x in a[1:]])
        if o == "agg":
            return self.app("agg" + a[0], [self.ev(x) for x in a[1:]])
        xs = [self.ev(x) for x in a if isinstance(x, E)]
        if any(mp.isnan(x) for x in xs):
            return nan
        x = xs[0] if xs else None
        try:
            if o == "sqrt":
                return mp.sqrt(x) if x >= 0 else nan
            if o in ("sin", "cos", "tan", "atan", "sinh", "cosh", "tanh", "exp", "floor", "ceil"):
                if mp.isinf(x):
                    if o == "exp":
                        return mp.inf if x > 0 else mp.mpf(0)
                    if o == "atan":
                        return mp.pi / 2 * (1 if x > 0 else -1)
                    return nan
                return getattr(mp, o)(x)
            if o in ("asin", "acos"):
                if abs(x) > 1 + mp.mpf(10) ** -30:
                    return nan
                x = max(mp.mpf(-1), min(mp.mpf(1), x))
                return getattr(mp, o)(x)
            if o == "ln":
                return mp.log(x) if x > 0 else (-mp.inf if x == 0 else nan)
            if o == "pow":
                b, q = xs
                if b < 0:
                    return nan
                if b == 0:
                    return mp.mpf(0) if q > 0 else (mp.mpf(1) if q == 0 else mp.inf)
                return mp.power(b, q)
            if o == "atan2":
                return mp.atan2(xs[0], xs[1])
            if o == "cbrt":
                return mp.cbrt(x) if x >= 0 else -mp.cbrt(-x)
            if o == "trunc":
                return mp.mpf(int(x))
            if o == "round":
                return mp.floor(x + mp.mpf(1) / 2) if x >= 0 else -mp.floor(-x + mp.mpf(1) / 2)
            if o == "rem":
                return xs[0] - xs[1] * mp.mpf(int(xs[0] / xs[1]))
            if o == "idiv":
                return mp.mpf(int(xs[0] / xs[1]))
            if o == "f32":
                import struct
                return mp.mpf(struct.unpack("f", struct.pack("f", float(x)))[0])
            if o == "exp_m1":
                return mp.expm1(x)
        except (ValueError, OverflowError, ZeroDivisionError, TypeError):
            return nan
        raise Undecided("identity test of " + o)

    def app(self, name, xs):
        key = (name, tuple(self.mp.nstr(x, 18) for x in xs))
        v = self.apps.get(key)
        if v is None:
            h = hashlib.md5(repr(key).encode()).digest()
            v = self.mp.mpf(int.from_bytes(h[:6], "big")) / 2**47 - 1
            r = self.domain(("app", name), random.Random(repr(key))) if self.domain else None
            if r is not None:
                v = self.real(r)
            self.apps[key] = v
        return v

    def bev(self, b):
        while b is not TRUE and b is not FALSE:
            b = b.hi if self.atomv(ATOMS[b.var]) else b.lo
        return b is TRUE

    def atomv(self, at):
        k = at[0]
        if k == "lt":
            x, y = self.ev(at[1]), self.ev(at[2])
            return bool(x < y)
        if k == "eq":
            x, y = self.ev(at[1]), self.ev(at[2])
            return bool(x == y)
        if k == "isnan":
            return bool(self.mp.isnan(self.ev(at[1])))
        if k == "isinf":
            return bool(self.mp.isinf(self.ev(at[1])))
        if k == "b":
            return bool(self.app("bool", [self.ev(at[1])]) > 0)
        raise Undecided("identity test of condition " + k)


def default_sample(e, rnd):
    if e.op == "discr":
        return rnd.randint(0, 3)
    if e.op == "len":
        return rnd.randint(0, 4)
    r = rnd.random()
    if r < 0.06:
        return 0
    if r < 0.12:
        return rnd.choice([1, -1, 2])
    if r < 0.6:
        return Fraction(rnd.randint(-3000, 3000), 1000)
    return rnd.choice([-1, 1]) * Fraction(int(10 ** rnd.uniform(2, 9)), 1000)


def mentions(x, y):
    return contains(x, None, y)


def contains(x, op, what=None):
    seen, stack = set(), [x]
    while stack:
        x = stack.pop()
        if isinstance(x, B):
            if x is TRUE or x is FALSE or ("b", x.id) in seen:
                continue
            seen.add(("b", x.id))
            stack += [y for y in ATOMS[x.var][1:] if isinstance(y, (E, B))] + [x.hi, x.lo]
        elif x.id not in seen:
            seen.add(x.id)
            if x.op == op or x is what:
                return True
            stack += [y for y in x.args if isinstance(y, (E, B))]
    return False


def collect_consts(x, acc, seen):
    if isinstance(x, B):
        if x is TRUE or x is FALSE or ("b", x.id) in seen:
            return
        seen.add(("b", x.id))
        at = ATOMS[x.var]
        for y in at[1:]:
            if isinstance(y, (E, B)):
                collect_consts(y, acc, seen)
        if at[0] in ("lt", "eq"):
            for u, v in ((at[1], at[2]), (at[2], at[1])):
                SPECIAL[u.id] = u
                if isnum(v):
                    acc.add((u.id, nv(v)))
                elif u.op in ("sym", "fld", "idx") and not v.hasite and not occurs(u, v):
                    acc.add((u.id, v))
        collect_consts(x.hi, acc, seen)
        collect_consts(x.lo, acc, seen)
        return
    if not isinstance(x, E) or x.id in seen:
        return
    seen.add(x.id)
    for a in x.args:
        if isinstance(a, (E, B)):
            collect_consts(a, acc, seen)


OCC = {}
SPECIAL = {}


def occurs(u, v):
    """does u occur in v"""
    k = (u.id, v.id)
    if k not in OCC:
        seen, st, r = set(), [v], False
        while st:
            x = st.pop()
            if x is u:
                r = True
                break
            if x.id in seen:
                continue
            seen.add(x.id)
            if len(seen) > 2000:
                r = True
                break
            for y in x.args:
                if isinstance(y, E):
                    st.append(y)
                elif isinstance(y, B):
                    r = True
                    st = []
                    break
        OCC[k] = r
    return OCC[k]


def unequal_at(x, y, tol):
    import mpmath as mp
    nx, ny = mp.isnan(x), mp.isnan(y)
    if nx or ny:
        return not (nx and ny)
    if mp.isinf(x) or mp.isinf(y):
        return not (x == y)
    return abs(x - y) > tol * max(abs(x), abs(y)) and abs(x - y) > 0


def identity_test(a, b, domain, n=160, tol=1e-7, nan_ok=True, assume=None):
    """(differing valuation or None, number of valuations tried)"""
    if contains(a, "f32") or contains(b, "f32"):
        tol = min(tol, 1e-10)          # a narrowed value differs from the value by less than the usual tolerance
    specials = set()
    collect_consts(a, specials, set())
    collect_consts(b, specials, set())
    specials = sorted(specials, key=lambda t: (t[0], str(t[1])))
    inner, new = branchings(a, b)
    heads = [x.args[0] for x in (a, b) if x.op in ("cond", "ite") and questions(x.args[0], {})] or inner
    tried = 0
    for k in range(n + (2 * n if new else 0)):
        if k % 8 == 7 and k > 40 and DEADLINE[0] is not None and time.time() > DEADLINE[0] + (6 if k < n else 0):
            break
        ev = Eval(1000 + k, domain)
        ev.zeros = k % 16 == 5
        if ev.zeros:
            ev.salt = k
        if k >= n:
            along(ev, inner[k % new], domain)
        elif heads and k % 4 == 2:
            along(ev, ev.rnd.choice(heads), domain)
        elif inner and k % 4 == 0 and k:
            along(ev, inner[k // 4 % len(inner)], domain)
        elif specials and k % 2:
            # put some guarded inputs onto or near their thresholds
            for _ in range(1 + k % 3):
                i, v = ev.rnd.choice(specials)
                if isinstance(v, E):
                    if ev.memo.get(i) is not None or i in ev.leafs:
                        continue       # already used by another threshold of this valuation
                    try:
                        v = ev.ev(v)
                    except Undecided:
                        continue
                    if not ev.mp.isfinite(v):
                        continue
                else:
                    v = ev.mp.mpf(v.numerator) / v.denominator
                dlt = ev.rnd.choice([0, 0, 1, -1]) * ev.mp.mpf(10) ** ev.rnd.choice([-9, -3, 0, 2])
                if i in DISCR:
                    if v in DISCR[i] and ev.memo.get(i) is None:
                        ev.leafs[i] = v
                    continue
                pos = pos0 = getattr(domain, "__self__", None)
                pos = pos.pos(SPECIAL[i]) if pos is not None and hasattr(pos, "pos") else None
                if pos == "pos" and v + dlt <= 0 or pos == "nonneg" and v + dlt < 0:
                    continue
                rule = getattr(pos0, "rule", lambda e: None)(SPECIAL[i]) if i in SPECIAL else None
                if rule is not None and rule[0] == "int":
                    v, dlt = ev.mp.floor(v), ev.rnd.choice([0, 0, 1, -1])
                if ev.memo.get(i) is None:
                    ev.leafs[i] = v + dlt
        try:
            if assume is not None and not assume(ev):
                continue
            x, y = ev.ev(a), ev.ev(b)
        except Undecided:
            return None, tried
        tried += 1
        if nan_ok and (ev.mp.isnan(x) and ev.mp.isnan(y)):
            continue
        if unequal_at(x, y, tol):
            return ev, tried
    if n:
        ev, more = directed(a, b, domain, tol, nan_ok, assume)
        return ev, tried + more
    return None, tried


def questions(b, memo):
    """comparisons a condition is made of, other than those of kinds"""
    out, st, seen = set(), [b], set()
    if b.id in memo:
        return memo[b.id]
    while st:
        x = st.pop()
        if x is TRUE or x is FALSE or x.id in seen:
            continue
        seen.add(x.id)
        at = ATOMS[x.var]
        if at[0] != "eq" or not any(isinstance(u, E) and u.id in DISCR for u in at[1:]):
            out.add(x.var)
        st += [x.hi, x.lo]
    memo[b.id] = out
    return out


def branchings(a, b, most=64):
    """conditions of alternatives in two closed forms; those that ask what the other does not, if there are any"""
    memo, found = {}, []
    for y in (a, b):
        out, seen, st = {}, set(), [y]
        while st:
            x = st.pop()
            if isinstance(x, B):
                if x is TRUE or x is FALSE or ("b", x.id) in seen:
                    continue
                seen.add(("b", x.id))
                st += [y for y in ATOMS[x.var][1:] if isinstance(y, (E, B))] + [x.hi, x.lo]
            elif isinstance(x, E) and x.id not in seen and x.hasite:
                seen.add(x.id)
                if x.op in ("cond", "ite") and x.args[0] is not TRUE and x.args[0] is not FALSE and questions(x.args[0], memo):
                    out[x.args[0].id] = x.args[0]
                st += [y for y in x.args if isinstance(y, (E, B))]
        found.append([out[k] for k in sorted(out)])
    asked = [set().union(*(questions(x, memo) for x in xs)) if xs else set() for xs in found]
    new = asked[0] ^ asked[1]
    seen = set()
    both = [x for x in found[0] + found[1] if not (x.id in seen or seen.add(x.id)) and any(within_reach(v) for v in questions(x, memo))]
    first = [x for x in both if questions(x, memo) & new]
    return (first + [x for x in both if x not in first])[:most], len(first)


def within_reach(v):
    """a comparison that choosing inputs can decide"""
    at = ATOMS[v]
    if at[0] not in ("lt", "eq"):
        return False
    for u, w in ((at[1], at[2]), (at[2], at[1])):
        if isinstance(u, E) and (u.op in LEAF or u.op == "idx" and isnum(u.args[1])):
            return not (isinstance(w, E) and (w.hasite or occurs(u, w)))
        if isinstance(u, E) and u.op in ("add", "mul", "div") and not u.hasite and isnum(w):
            return any(isinstance(y, E) and (y.op in LEAF or y.op in ("add", "mul", "div", "idx")) and not isnum(y) for y in u.args)
    return False


def reach(ev, u, x, fits, depth=0):
    """choose a free input so that the closed form u has the value x"""
    mp = ev.mp
    if depth > 12 or ev.memo.get(u.id) is not None or not mp.isfinite(x):
        return False
    if u.op in LEAF or u.op == "idx" and isnum(u.args[1]):
        if u.id in ev.leafs or u.id in DISCR or not fits(u, x):
            return False
        ev.leafs[u.id] = x
        return True
    if u.op not in ("add", "mul", "div"):
        return False
    for i in ev.rnd.sample((0, 1), 2):
        v, w = u.args[i], u.args[1 - i]
        if isnum(v):
            continue
        y = ev.ev(w)
        if not mp.isfinite(y) or u.op != "add" and y == 0:
            continue
        if u.op == "div" and i == 1:
            if x == 0:
                continue
            z = y / x
        else:
            z = x - y if u.op == "add" else x / y if u.op == "mul" else x * y
        if reach(ev, v, z, fits, depth + 1):
            return True
    return False


def squares(u):
    """the numbers a sum of squares (or the root of one) is made of"""
    if u.op == "sqrt":
        return squares(u.args[0])
    if u.op == "add":
        x, y = squares(u.args[0]), squares(u.args[1])
        return x + y if x and y else None
    if u.op == "powi" and u.args[1] == 2:
        return [u.args[0]]
    if u.op == "mul" and u.args[0] is u.args[1]:
        return [u.args[0]]
    return None


def shrink(ev, u, bound, fits):
    """choose inputs so that a sum of squares, or its root, lies below a bound"""
    ys = squares(u)
    if not ys or bound <= 0:
        return False
    r = (bound if u.op == "sqrt" else ev.mp.sqrt(bound)) / (2 * ev.mp.sqrt(len(ys)))
    done = [reach(ev, y, r * ev.rnd.choice([1, -1]) * ev.rnd.random(), fits) for y in ys if not isnum(y)]
    return all(done)


def along(ev, b, domain):
    """choose inputs so that a random path of the condition is taken, as far as its comparisons are with single inputs"""
    mp = ev.mp
    dom = getattr(domain, "__self__", None)
    n = 0
    lazy = ev.rnd.choice([0., 0., 0.5])

    def fits(u, x):
        kind = dom.pos(u) if dom is not None and hasattr(dom, "pos") else None
        return not (kind == "pos" and x <= 0 or kind == "nonneg" and x < 0 or u.op == "len" and x < 0)
    while b is not TRUE and b is not FALSE and n < 200:
        n += 1
        at = ATOMS[b.var]
        likely = at[0] == "eq" and not any(isinstance(u, E) and u.id in DISCR for u in at[1:])     # of numbers: rarely by chance
        go = b.hi if b.lo is FALSE else b.lo if b.hi is FALSE else ev.rnd.choice([b.hi, b.hi, b.hi, b.lo] if likely else [b.hi, b.lo])
        want = go is b.hi
        b = go
        if at[0] not in ("lt", "eq"):
            continue
        for side, (u, v) in enumerate(((at[1], at[2]), (at[2], at[1]))):
            if not isinstance(u, E) or not (u.op in LEAF or u.op == "idx" and isnum(u.args[1])):
                if isinstance(u, E) and u.op in ("sqrt", "add") and isnum(v) and at[0] == "lt" and (side == 0) == want and not u.hasite:
                    try:
                        if shrink(ev, u, ev.real(v.args[0]), fits):
                            break
                    except (Undecided, ZeroDivisionError):
                        pass
                if isinstance(u, E) and u.op in ("add", "mul", "div") and not u.hasite and isnum(v) and (want or at[0] == "lt"):
                    x, step = ev.real(v.args[0]), mp.mpf(10) ** ev.rnd.randint(-5, 2)
                    if at[0] == "lt":
                        x = x - step if (side == 0) == want else x + step
                    if ev.rnd.random() >= lazy:
                        try:
                            reach(ev, u, x, fits)
                        except (Undecided, ZeroDivisionError):
                            pass
                    break
                continue
            if u.id in ev.leafs or ev.memo.get(u.id) is not None or not isnum(v) and (v.hasite or occurs(u, v)):
                continue
            try:
                x = ev.ev(v)
            except Undecided:
                continue
            if not mp.isfinite(x):
                continue
            if u.id in DISCR:
                ks = [d for d in DISCR[u.id] if (d == x) == want] if at[0] == "eq" else DISCR[u.id]
                if ks:
                    ev.leafs[u.id] = mp.mpf(ev.rnd.choice(ks))
                break
            if at[0] == "eq":
                if not want:
                    break
            else:
                step = mp.mpf(1) if u.op == "len" else mp.mpf(10) ** ev.rnd.randint(-3, 2)
                if ev.rnd.random() < lazy:
                    break
                x = x - step if (side == 0) == want else x + step
            if fits(u, x):
                ev.leafs[u.id] = x
            break


# A region that only one of two closed forms tells apart may be missed by the valuations above.  From a few of them, single inputs are
# moved until one of its bounding comparisons changes, and both sides of that point are tried.
class Floats:
    inf, nan, pi = math.inf, math.nan, math.pi
    mpf = float
    isnan, isinf, isfinite = math.isnan, math.isinf, math.isfinite
    sqrt, sin, cos, tan, atan, sinh, cosh, tanh, exp = (math.sqrt, math.sin, math.cos, math.tan, math.atan, math.sinh, math.cosh,
                                                        math.tanh, math.exp)
    asin, acos, log, power, atan2, expm1 = math.asin, math.acos, math.log, math.pow, math.atan2, math.expm1

    @staticmethod
    def floor(x):
        return float(math.floor(x))

    @staticmethod
    def ceil(x):
        return float(math.ceil(x))

    @staticmethod
    def cbrt(x):
        return x ** (1 / 3)

    @staticmethod
    def nstr(x, _):
        return "%.11g" % x


class FEval(Eval):
    def __init__(self, domain, leafs, apps, seed):
        self.mp = Floats
        self.rnd = random.Random(seed)
        self.domain = domain
        self.leafs, self.apps, self.memo, self.keys = leafs, apps, {}, {}

    def real(self, v):
        return float(v)

    def _ev(self, e):
        if e.op == "app":
            xs = [self.ev(x) for x in e.args[1:]]
            self.keys[e.id] = (e.args[0], tuple("%.11g" % x for x in xs))
            return self.app(e.args[0], xs)
        return Eval._ev(self, e)


class MEval(Eval):
    """the same valuation with 40 digits"""

    def __init__(self, fe):
        Eval.__init__(self, 0, fe.domain)
        self.fe = fe
        self.leafs = {k: self.mp.mpf(v) for k, v in fe.leafs.items()}

    def app(self, name, xs):
        key = (name, tuple(self.mp.nstr(x, 18) for x in xs))
        v = self.apps.get(key)
        if v is None:
            v = self.mp.mpf(self.fe.app(name, [float(x) for x in xs]))
            self.apps[key] = v
        return v


LEAF = ("sym", "fld", "len", "discr", "str", "bytes", "unknown")


def survey(xs):
    """(atoms, leaves, applications) of closed forms"""
    atoms, leaves, apps, seen, st = {}, {}, {}, set(), list(xs)
    while st:
        x = st.pop()
        if isinstance(x, B):
            if x is TRUE or x is FALSE or ("b", x.id) in seen:
                continue
            seen.add(("b", x.id))
            atoms[x.var] = ATOMS[x.var]
            st += [y for y in ATOMS[x.var][1:] if isinstance(y, (E, B))] + [x.hi, x.lo]
            continue
        if not isinstance(x, E) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op in LEAF or x.op == "idx" and isnum(x.args[1]):
            leaves[x.id] = x
            continue
        if x.op == "app":
            apps[x.id] = x
        st += [y for y in x.args if isinstance(y, (E, B))]
    return atoms, leaves, apps


FACTORS = [0.5, 2., 0.1, 10., 0.01, 100., 1e-3, 1e3, 1e-4, 1e4, 1e-6, 1e6]
BUDGET = [30.]


def directed(a, b, domain, tol, nan_ok, assume, bases=6):
    import itertools
    aa, la, pa = survey([a])
    ab, lb, pb = survey([b])
    one = set(aa) ^ set(ab)
    own = [v for v in set(aa) | set(ab) if (aa.get(v) or ab[v])[0] == "lt"]
    if not own:
        return None, 0
    leaves = {**la, **lb}
    apps = {**pa, **pb}
    dom = getattr(domain, "__self__", None)

    def allowed(e, v):
        if v != 0 and not 1e-9 <= abs(v) <= 1e12:
            return False
        r = dom.rule(e) if dom is not None and hasattr(dom, "rule") else None
        if r is None:
            return e.op in ("sym", "fld", "idx")
        k, lo, hi = r
        if k == "pos":
            return v > 0
        if k == "nonneg":
            return v >= 0
        if k == "any":
            return True
        return k != "int" and lo <= v <= hi

    end = time.time() + min(BUDGET[0], 10.)
    t0 = time.time()
    tried = 0
    info = {}
    for v in own:
        at = aa.get(v) or ab[v]
        _, ls, ps = survey([at[1], at[2]])
        info[v] = (at, sorted(ls), sorted(ps))
    own.sort(key=lambda v: (v not in one, len(info[v][1]) + len(info[v][2]), v))

    def confirm(fe):
        nonlocal tried
        tried += 1
        try:
            x, y = fe.ev(a), fe.ev(b)
            if not unequal_at(x, y, tol):
                return None
            ev = MEval(fe)
            if assume is not None and not assume(ev):
                return None
            x, y = ev.ev(a), ev.ev(b)
        except (OverflowError, ValueError, ZeroDivisionError, TypeError):
            return None
        return ev if unequal_at(x, y, tol) else None

    def moved(fe, x, v):
        f2 = FEval(domain, dict(fe.leafs), dict(fe.apps), 0)
        f2.moved = getattr(fe, "moved", 0) + 1
        if isinstance(x, tuple):
            f2.apps[x] = v
        else:
            f2.leafs[x] = v
        return f2

    def gap(fe, at):
        try:
            x, y = fe.ev(at[1]), fe.ev(at[2])
        except (OverflowError, ValueError, ZeroDivisionError, TypeError):
            return None
        d = x - y
        if d != d:
            return None
        return d, abs(d) / (abs(x) + abs(y) + 1e-300) if abs(d) < math.inf else 1.

    def value(fe, x):
        return fe.apps[x] if isinstance(x, tuple) else fe.leafs[x]

    def closest(fe, x, w, at):
        """input x moved to where the two sides come closest, near w"""
        def f(z):
            if not isinstance(x, tuple) and not allowed(leaves[x], z):
                return math.inf
            g = gap(moved(fe, x, z), at)
            return math.inf if g is None else abs(g[0])
        v0 = value(fe, x)
        width = max(abs(w), abs(v0)) or 1.
        z, fz = w, f(w)
        for step in range(48):
            if time.time() > end:
                break
            for y in (z - width, z + width):
                fy = f(y)
                if fy < fz:
                    z, fz = y, fy
                    break
            else:
                width /= 3
        return moved(fe, x, z)

    def flips(fe, v):
        """valuations on the other side of the comparison, and next to it"""
        at, ls, ps = info[v]
        for depth in range(6):
            g0 = gap(fe, at)
            if g0 is None:
                return
            best = None
            handles = [x for x in ls if x not in DISCR and leaves[x].op in ("sym", "fld", "idx")]
            handles += [fe.keys[p] for p in ps if p in fe.keys and (domain is None or domain(("app", ""), random.Random(0)) is None)]
            found, near = 0, {}
            for x in handles:
                if time.time() > end:
                    return
                v0 = value(fe, x)
                e = None if isinstance(x, tuple) else leaves[x]
                cand = [v0 * k * s for k in FACTORS for s in (1, -1)] + [-v0, 0.]
                if v0 == 0 or abs(v0) < 1e-3:
                    cand += [s * k for k in (1e-3, 1., 1e3) for s in (1, -1)]
                hit = False
                for w in cand:
                    if isinstance(x, tuple) and abs(w) > 1e6 or e is not None and not allowed(e, w):
                        continue
                    f2 = moved(fe, x, w)
                    g = gap(f2, at)
                    if g is None:
                        continue
                    if (g[0] < 0) != (g0[0] < 0):
                        hit = True
                        found += 1
                        yield f2
                        lo, hi = v0, w
                        for _ in range(60):
                            mid = math.copysign(math.sqrt(lo * hi), lo) if lo * hi > 0 else (lo + hi) / 2
                            if mid in (lo, hi):
                                break
                            gm = gap(moved(fe, x, mid), at)
                            if gm is None:
                                break
                            if (gm[0] < 0) == (g0[0] < 0):
                                lo = mid
                            else:
                                hi = mid
                        for k in (1e-9, 1e-4, 0.1):
                            for q in (hi, lo):
                                z = q + (w - v0) * k * (1 if q == hi else -1)
                                if (e is None or allowed(e, z)) and min(v0, w) <= z <= max(v0, w):
                                    yield moved(fe, x, z)
                        break
                    if best is None or g[1] < best[0]:
                        best = (g[1], f2)
                    if x not in near or abs(g[0]) < near[x][0]:
                        near[x] = (abs(g[0]), w)
                if hit and found >= 3:
                    return
            if found or best is None:
                return
            for x in sorted(near, key=lambda x: near[x][0])[:4]:
                f2 = closest(fe, x, near[x][1], at)
                g = gap(f2, at)
                if g is not None and (g[0] < 0) != (g0[0] < 0):
                    yield f2
                if g is not None and g[1] < best[0]:
                    best = (g[1], f2)
            if best[0] >= g0[1] * (0.999 if depth < 3 else 0.9):
                return
            fe = best[1]

    for stage, k in itertools.product(range(3), range(bases)):
        # single changes of the comparisons only one side makes, then of the others, then pairs
        if time.time() > end:
            break
        fe = FEval(domain, {}, {}, 5000 + k)
        try:
            for x in sorted(leaves):
                fe.leafv(leaves[x])
            for x in sorted(apps):
                fe.ev(apps[x])
        except (OverflowError, ValueError, ZeroDivisionError, TypeError):
            continue
        except Undecided:
            break
        first = [v for v in own if v in one][:8] or own[:8]
        try:
            for v in first if stage != 1 else [v for v in own if v not in first][:16]:
                far = []
                for f2 in itertools.islice(flips(fe, v), 40):
                    r = confirm(f2) if stage < 2 else None
                    if r is not None:
                        return r, tried
                    far.append(f2)
                    if time.time() > end or stage == 2 and len(far) > 2:
                        break
                for f2 in far[:2] if stage == 2 else ():
                    for x in sorted(apps):
                        try:
                            f2.ev(apps[x])
                        except (OverflowError, ValueError, ZeroDivisionError, TypeError):
                            break
                    for u in own[:24]:
                        if u == v:
                            continue
                        for f3 in itertools.islice(flips(f2, u), 12):
                            r = confirm(f3)
                            if r is not None:
                                return r, tried
                        if time.time() > end:
                            break
        except Undecided:
            break
    BUDGET[0] -= time.time() - t0
    return None, tried


class Witness:
    def __init__(self, ev, a, b, trail, na, nb):
        self.vals = {}
        byid = {}
        stack = [a, b]
        seen = set()
        while stack:
            x = stack.pop()
            if isinstance(x, B):
                if x is TRUE or x is FALSE or ("b", x.id) in seen:
                    continue
                seen.add(("b", x.id))
                stack += [y for y in ATOMS[x.var][1:] if isinstance(y, (E, B))] + [x.hi, x.lo]
                continue
            if x.id in seen:
                continue
            seen.add(x.id)
            byid[x.id] = x
            stack += [y for y in x.args if isinstance(y, (E, B))]
        if ev is not None:
            for k, v in ev.leafs.items():
                if k in byid and byid[k].op in ("sym", "fld", "idx", "len", "discr"):
                    self.vals[show(byid[k])] = ev.mp.nstr(v, 10)
            self.va, self.vb = ev.mp.nstr(ev.ev(a), 12), ev.mp.nstr(ev.ev(b), 12)
        self.trail, self.na, self.nb = trail, na, nb

    def text(self):
        s = []
        if self.trail:
            s.append("  case: " + "; ".join(self.trail))
        s.append("  normal form in the code: " + self.na)
        s.append("  normal form required:    " + self.nb)
        s.append("  e.g. at " + ", ".join(f"{k}={v}" for k, v in sorted(self.vals.items())))
        s.append(f"  the code yields {self.va}, required {self.vb}")
        return "\n".join(s)


EPS = Fraction(1, 10**12)


def constants(e, out=None, seen=None):
    out = set() if out is None else out
    seen = set() if seen is None else seen
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, B):
            if x is TRUE or x is FALSE or ("b", x.id) in seen:
                continue
            seen.add(("b", x.id))
            st += [y for y in ATOMS[x.var][1:] if isinstance(y, (E, B))] + [x.hi, x.lo]
            continue
        if not isinstance(x, E) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "num":
            out.add(x.args[0])
        st += [y for y in x.args if isinstance(y, (E, B))]
    return out


def snapping(code, spec):
    """constants of code that equal a constant of spec up to rounding -> that constant"""
    a, b = constants(code), constants(spec)
    import bisect
    bs = sorted(b)
    m = {}
    for x in a:
        if x in b or x.denominator == 1 and abs(x) < 1000:
            continue
        i = bisect.bisect(bs, x)
        for y in bs[max(0, i - 1):i + 1]:
            if y and abs(x - y) <= EPS * abs(y):
                m[x] = y
    return m


def has_unknown(x):
    return x.unk


DEADLINE = [None]


def late():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise Undecided("time limit")


def equal(a, b, pos=None, domain=None, facts=None, maxcases=4000, tol=1e-7, assume=None, samples=160):
    """compare two closed forms; see module docstring"""
    if a is b:
        return ("equal", 1)
    if a.unk or b.unk:
        return ("undecided", "contains an unmodelled value")
    reason = None
    cases = 0
    bad = None
    try:
        nf = NF()
        nf.pos_e = pos
        root = Ctx(nf)
        for f, strict in (facts or []):
            try:
                root.facts.append((root.norm(f), strict))
            except Split:
                pass                   # a fact that itself depends on cases is not used
        stack = [root]
        while stack:
            c = stack.pop()
            cases += 1
            late()
            if cases > maxcases:
                reason = "too many cases"
                break
            try:
                d = padd(c.norm(a), c.norm(b), -1)
                if not nf.is_zero(d):
                    # equalities assumed on this case may still make it zero
                    bad = (c, d)
                    break
            except Split as sp:
                for ch in c.branches(sp):
                    if not ch.infeasible():
                        stack.append(ch)
    except Undecided as u:
        reason = str(u)
    except (RecursionError, OverflowError, ZeroDivisionError) as u:
        reason = type(u).__name__
    if reason is None and bad is None:
        return ("equal", cases)
    w, tried = identity_test(a, b, domain, n=samples, tol=tol, assume=assume)
    if w is None:
        return ("undecided", (reason or "normal forms differ") + f"; no differing valuation among {tried}")
    if bad is not None:
        c = bad[0]
        try:
            na, nb = c.showp(c.norm(a)), c.showp(c.norm(b))
        except Exception:
            na = nb = "?"
        return ("differs", Witness(w, a, b, c.trail, na, nb))
    return ("differs", Witness(w, a, b, [], show(a)[:400], show(b)[:400]))
