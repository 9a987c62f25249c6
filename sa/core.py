"""Obligation framework: analyse functions of the dumped program, compare the
value-flow summaries with the required ones, report."""
import json
import os
import re
import sys
import time
from fractions import Fraction

from vals import *
import interp
from interp import Program, Interp, State, Unsupported, Dead
import nf

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Overtime(Exception):
    """raised in the analysing thread by the watchdog"""


class Missing(Exception):
    """an anchor of the property cannot be located / analysed"""


# ------------------------------------------------------------------ naming
def path_of(e):
    """a.b.c / a[i] name of an input leaf"""
    if e.op == "sym":
        return str(e.args[0])
    if e.op == "fld":
        return path_of(e.args[0]) + "." + str(e.args[1])
    if e.op == "idx":
        return path_of(e.args[0]) + "[" + (str(nv(e.args[1])) if isnum(e.args[1]) else "?") + "]"
    if e.op in ("len", "discr"):
        return e.op + "(" + path_of(e.args[0]) + ")"
    return "?"


EARLIER = "earlier "
COUNT = "number of earlier calls"


class Domain:
    """value ranges of inputs: list of (regex on the input path, kind, lo, hi)
    kind: pos | nonneg | any | int | unit"""

    def __init__(self, *rules):
        self.rules = [(re.compile(r), k, lo, hi) for r, k, lo, hi in rules]
        self.memo = {}

    def rule(self, e):
        p = path_of(e).removeprefix(EARLIER)
        if p.startswith(COUNT):
            return "int", 0, 1000
        for r, k, lo, hi in self.rules:
            if r.fullmatch(p):
                return k, lo, hi
        return None

    def pos(self, e):
        r = self.rule(e) if isinstance(e, E) else None
        if r is None:
            return None
        if r[0] in ("pos", "nonneg"):
            return r[0]
        return None

    def sample(self, e, rnd):
        if isinstance(e, tuple):
            return None
        r = self.rule(e)
        if r is None:
            return None
        k, lo, hi = r
        if k == "int":
            return rnd.randint(lo, hi)
        if k == "nonneg" and rnd.random() < 0.1:
            return 0
        if k == "any" and lo <= 0 <= hi and rnd.random() < 0.08:
            return 0
        if k == "any" and (lo, hi) == (-50, 50) and rnd.random() < 0.1:
            # no declared range: other magnitudes now and then
            return Fraction(rnd.choice((-1, 1)) * 10 ** rnd.uniform(-4, 7)).limit_denominator(10**9)
        if k in ("pos", "nonneg") and lo > 0 and hi / lo > 1000:
            import math
            v = math.exp(rnd.uniform(math.log(lo), math.log(hi)))
            return Fraction(v).limit_denominator(10**9)
        return Fraction(rnd.uniform(lo, hi)).limit_denominator(10**9)


ANY = Domain()


# ------------------------------------------------------------------ check
class Records:
    """what the stand-ins of an analysis write down, to be forgotten"""

    def __init__(self, I):
        self.kept = []
        seen = set()
        for h in [*I.opaque.values(), *I.bypath.values()]:
            for x in [c.cell_contents for c in getattr(h, "__closure__", None) or () if self.filled(c)]:
                self.add(x, seen)
                if not isinstance(x, (Check, Interp)) and hasattr(x, "__dict__"):
                    for y in vars(x).values():
                        self.add(y, seen)

    @staticmethod
    def filled(c):
        try:
            c.cell_contents
            return True
        except ValueError:
            return False

    def add(self, x, seen):
        if type(x) in (list, dict, set) and id(x) not in seen:
            seen.add(id(x))
            self.kept.append((x, x.copy()))

    def restore(self):
        for x, old in self.kept:
            x.clear()
            (x.extend if isinstance(x, list) else x.update)(old)


def counted(y):
    """zero or one, depending on the call"""
    return y in (ZERO, ONE) or y.op == "ite" and counted(y.args[1]) and counted(y.args[2])


def bare(p, ty):
    """an enumeration whose values carry nothing but their name"""
    t = p.types[ty] if ty is not None else {}
    return bool(t.get("enum")) and len(t["vs"]) > 1 and not any(v["fields"] for v in t["vs"])


class Check:
    def __init__(self, pid, prog, tier="quick", post=None):
        self.pid, self.p, self.tier, self.post = pid, prog, tier, post
        self.obl = []            # (label, status, where, detail)
        self.analysed = set()
        self.callsites = 0
        self.assumptions = []
        self.rules = []
        self.thorough = tier == "thorough"
        self.samples = 1200 if self.thorough else 200
        self.running = []        # start times of the nested analysis steps
        self.stop = False

    # -------------------------------------------------- locating code
    def fn(self, name, ret=None, args=None, opt=False):
        c = self.p.find(name) if name else []
        if len(c) != 1 and ret is not None:
            c2 = self.p.find_sig(ret, args)
            if len(c) > 1:
                c2 = [b for b in c2 if b in c]
            if len(c2) == 1:
                c = c2
        if len(c) != 1:
            if opt:
                return None
            raise Missing(f"no unique function for {name}")
        return c[0]

    def where(self, b):
        return f"{b['span']} ({b['name']})"

    def interp(self, opaque=None, veclen=None):
        I = Interp(self.p, opaque=opaque)
        I.veclen = veclen
        return I

    def run(self, b, names, opaque=None, veclen=None, st=None, I=None):
        I = I or self.interp(opaque, veclen)
        records = Records(I)
        try:
            ret, out, args = I.run(b, names, st)
        except (Unsupported, Dead, interp.NeedSummary) as e:
            raise Missing(f"{b['name']}: {e}")
        if out is not None and I.cells and st is None:
            ret, out, args = self.used_before(I, b, names, ret, out, args, records)
        self.note(I)
        if out is not None and out.g.unk:
            raise Missing(f"{b['name']}: paths depend on an operation outside the analysed subset: "
                          + "; ".join(w for w, _ in I.unknowns[:2]))
        return Run(self, I, b, ret, out, args)

    def used_before(self, I, b, names, ret, out, args, records):
        """the function changes memory behind shared references: analysed again, after an earlier call with other inputs or none"""
        kept = [(r, q) for r, q in sorted(I.cells, key=str) if r[0] == "heap" and r in I.symheap]
        owners = set()
        for r, q in kept:
            e = r[1]
            while e.op in ("fld", "idx"):
                e = e.args[0]
            owners.add(str(e.args[0]))
        before = [I.read(I.start(), r, q) for r, q in kept]
        after = [I.read(out, r, q) for r, q in kept]
        if all(repr(x) == repr(y) for x, y in zip(before, after)):
            return ret, out, args

        def renamed(x):
            # other inputs, the same object
            return mk("sym", EARLIER + str(x.args[0])) if x.op == "sym" and str(x.args[0]) not in owners else None
        used = atom("b", mk("sym", "called before")) & interp.subst(out.g, renamed)
        records.restore()
        I.panics.clear()
        I.exits.clear()
        try:
            st = I.start()
            for n, ((r, q), x, y) in enumerate(zip(kept, before, after)):
                y = I.subst_val(y, renamed)
                if isinstance(x, E) and isinstance(y, E) and x is ZERO and y is not x and counted(y):
                    y = mk("sym", f"{COUNT} {n}")       # a counter: any number of earlier calls
                I.write(st, r, q, I.merge(used, y, x))
            return I.run(b, names, st)
        except (Unsupported, Dead, interp.NeedSummary) as e:
            raise Missing(f"{b['name']}: {e}")

    def note(self, I):
        self.analysed |= {self.p.insts[i]["name"] for i in I.inlined}
        self.callsites += I.callsites

    def flows(self, r, label, v, want, g=TRUE, dom=ANY, where=None):
        """under guard g the (possibly structured) value v is exactly the input (or the constant) want"""
        where = where or r.where
        pairs, bad, odd = [], [], []

        def go(v, want, g, path):
            v = r.D(v)
            if isinstance(v, Choice):
                for h, x in v.alts:
                    if (g & h) is not FALSE:
                        go(x, want, g & h, path)
                return
            if isinstance(want, (E, B)) and isinstance(v, (E, B)):
                if isinstance(v, B):
                    v = mk("cond", v)
                    want_ = want if isinstance(want, B) or want.op in ("num", "cond") else atom("b", want)
                    want = mk("cond", want_) if isinstance(want_, B) else want_
                pairs.append((path, v, want, g))
                return
            if isinstance(want, (list, tuple)):
                if isinstance(v, Agg) and len(v.fs) == len(want):
                    for i, (x, y) in enumerate(zip(v.fs, want)):
                        go(x, y, g, f"{path}[{i}]")
                else:
                    odd.append((path, f"shape of {str(v)[:60]}"))
                return
            if not isinstance(want, E):
                odd.append((path, f"no comparison for {type(want).__name__}"))
                return
            if isinstance(v, (SymV, Opq)) or isinstance(v, SymSeq):
                if getattr(v.base, "unk", False):
                    odd.append((path, "unmodelled value"))
                elif v.base is not want and isinstance(v, SymV) and bare(self.p, v.ty):
                    # one of several names without contents: the same name will do
                    d, e = mk("discr", v.base), mk("discr", want)
                    for x in (d, e):
                        DISCR.setdefault(x.id, [y["discr"] for y in self.p.types[v.ty]["vs"]])
                    pairs.append((path, d, e, g))
                elif v.base is not want:
                    bad.append((path, show(v.base), show(want), g))
                elif isinstance(v, SymSeq) and (v.lo is not None or v.hi is not None):
                    bad.append((path, "a part of " + show(v.base), show(want), g))
                return
            if isinstance(v, Agg):
                if v.kind == "adt" and v.ty is not None:
                    t = self.p.types[v.ty]
                    k = v.variant or 0
                    vs = t["vs"][k]
                    b = want
                    if t["enum"] and len(t["vs"]) > 1:
                        ts = kinds(self.p, want, {})
                        if ts is not None and not any(self.p.types[i].get("enum") for i in ts):
                            odd.append((path, "required value is kept in another form"))
                            return
                        d = mk("discr", want)
                        DISCR.setdefault(d.id, [x["discr"] for x in t["vs"]])
                        pairs.append((path, mk("cond", beq(d, num(vs["discr"]))), ONE, g))
                        g = g & beq(d, num(vs["discr"]))
                        if g is FALSE:
                            return
                    for i, f in enumerate(vs["fields"]):
                        n = f[0] if not (t["enum"] and len(t["vs"]) > 1) else vs["name"] + "." + f[0]
                        go(v.fs[i], F(b, n), g, f"{path}.{f[0]}")
                elif v.kind == "tuple":
                    for i, x in enumerate(v.fs):
                        go(x, F(want, str(i)), g, f"{path}.{i}")
                else:
                    if v.kind == "array" and (len(v.fs) == 0):
                        n = r.I.veclen(want, None) if r.I.veclen else None
                        if n is None:
                            odd.append((path, "empty"))
                        elif n:
                            bad.append((path, "an empty list", show(want), g))
                        else:
                            pairs.append((path, ZERO, ZERO, g))
                        return
                    n = r.I.veclen(want, None) if r.I.veclen and v.kind == "array" else None
                    if n is not None and n != len(v.fs):
                        bad.append((path, f"a list of {len(v.fs)}", f"{show(want)} of {n}", g))
                        return
                    for i, x in enumerate(v.fs):
                        go(x, F(want, i), g, f"{path}[{i}]")
                return
            odd.append((path, f"no comparison for {str(v)[:60]}"))
        go(v, want, g, "")
        for path, x, y, gg in bad:
            if gg.unk:
                odd.append((path, "guard outside the analysed subset"))
                continue
            if foreign(want, False) is not None or foreign(gg) is not None:
                odd.append((path, "required value is not an input of this code"))
                continue
            w, n = nf.identity_test(mk("cond", gg), ZERO, dom.sample, n=self.samples)
            if w is not None:
                return self.bad(label + path, where, f"is {x} instead of {y}\nwhen {show(mk('cond', gg))[:500]}")
            r = nf.equal(mk("cond", gg), ZERO, pos=dom.pos, domain=dom.sample, samples=0)
            if r[0] != "equal":
                odd.append((path, f"another value under a condition that may not occur: {r[1]}"))
        if odd:
            return self.und(label + odd[0][0], where, odd[0][1])
        before = len(self.obl)
        for path, x, y, gg in pairs:
            # a constant that has to equal an input fails only where the guard holds
            self.eq(label + path, mk("cond", x) if isinstance(x, B) else x, mk("cond", y) if isinstance(y, B) else y,
                    where, dom, assume=None if gg is TRUE else gg)
        mine = self.obl[before:]
        if all(o[1] == "discharged" for o in mine):
            self.obl[before:] = [(label, "discharged", where, f"{len(mine)} leaves")]

    def sizes_near(self, ty, lo, hi, p=None, narrow=False):
        """k-1, k, k+1 of the whole numbers lo < k <= hi written in functions that handle values of a type: lengths at which such a
        function may change its behaviour"""
        p = p or self.p
        out = set()

        def ints(x):
            if isinstance(x, dict):
                if x.get("k") == "int" and isinstance(x.get("v"), int):
                    if lo < x["v"] <= hi:
                        out.update((x["v"] - 1, x["v"], x["v"] + 1))
                    return
                if x.get("k") in ("array", "str", "fn", "adt", "tuple", "unk"):
                    return
                for y in x.values():
                    ints(y)
            elif isinstance(x, list):
                for y in x:
                    ints(y)
        for b in p.insts:
            if not b or not b.get("local") or b.get("derived") or "blocks" not in b or "serde" in b["name"]:
                continue
            if any(re.search(ty, p.types[t]["n"]) for t in set(b["locals"])):
                for t in set(b["locals"]):
                    m = re.search(r"; (\d+)\]$", p.types[t]["n"])
                    if m and lo < int(m[1]) <= hi and p.types[t]["k"] == "array":
                        out.update((int(m[1]) - 1, int(m[1]), int(m[1]) + 1))
                    if narrow and p.types[t]["n"] in ("u8", "i8") and hi >= 129:
                        out.update((129, 257) if hi >= 257 else (129,))
                for blk in b["blocks"]:
                    ints(blk["s"])
                    t = blk.get("t") or {}
                    ints(t.get("a"))
                    o = t.get("o") or {}
                    pl = (o.get("mv") or o.get("cp")) if t.get("t") == "switch" and isinstance(o, dict) else None
                    if pl and len(pl) == 1 and p.types[b["locals"][pl[0]]]["n"] == "usize":
                        for v, _ in t["cases"]:
                            if lo < v <= hi:
                                out.update((v - 1, v, v + 1))
        return sorted(k for k in out if k > lo)

    # -------------------------------------------------- obligations
    def add(self, label, status, where, detail=""):
        self.obl.append((label, status, where, detail))

    def ok(self, label, where="", detail=""):
        self.add(label, "discharged", where, detail)

    def bad(self, label, where, detail):
        self.add(label, "violated", where, detail)

    def und(self, label, where, detail):
        self.add(label, "undecided", where, detail)

    def holds(self, label, cond, where, detail, about=()):
        """a decided fact; about: the inputs it speaks of"""
        x = None if cond else foreign(list(about), False)
        if x is not None:
            return self.und(label, where, f"the code has no input {path_of(x)}")
        (self.ok if cond else self.bad)(label, where, "" if cond else detail)

    def eq(self, label, code, spec, where, dom=ANY, facts=None, assume=None, cuts=None, tol=1e-7):
        """code and spec are the same function of the inputs"""
        asked, given = spec, code
        if isinstance(code, (B,)):
            code = mk("cond", code)
        if isinstance(spec, (B,)):
            spec = mk("cond", spec)
        if not isinstance(code, E) or not isinstance(spec, E):
            self.und(label, where, f"not scalar: {str(code)[:80]}")
            return False
        m = nf.snapping(code, spec)
        if m:
            code = interp.subst(code, lambda x: num(m[x.args[0]]) if x.op == "num" and x.args[0] in m else None)
            if cuts:
                cuts = {k: interp.subst(v, lambda x: num(m[x.args[0]]) if x.op == "num" and x.args[0] in m else None)
                        for k, v in cuts.items()}
                # the required value is written over the same nodes
                spec = interp.subst(spec, lambda x: num(m[x.args[0]]) if x.op == "num" and x.args[0] in m else None)
        kw = dict(pos=dom.pos, domain=dom.sample, facts=facts, tol=tol, samples=self.samples)
        if assume is not None:
            code, spec = ite(assume, code, ZERO), ite(assume, spec, ZERO)
        if any(r[1] == "int" for r in dom.rules):
            sb = integers(dom)
            code, spec = sb(code), sb(spec)
        nf.DEADLINE[0] = time.time() + (60 if self.thorough else 6)
        if cuts:
            c1, s1 = cut(code, cuts), cut(spec, cuts)
            r = compare(c1, s1, dict(kw, samples=0))
            if r[0] != "equal":
                why = r[1] if r[0] == "undecided" else "normal forms differ"
                nf.DEADLINE[0] = time.time() + (60 if self.thorough else 6)
                w, tried = nf.identity_test(code, spec, kw["domain"], n=kw["samples"], tol=tol)
                if w is not None:
                    r = ("differs", nf.Witness(w, code, spec, [], show(c1)[:600], show(s1)[:600]))
                else:
                    r = ("undecided", f"{why}; no differing valuation among {tried}")
        else:
            r = compare(code, spec, kw)
        if r[0] == "equal":
            self.ok(label, where, f"{r[1]} case(s)")
            return True
        if r[0] == "differs":
            x = foreign([asked, assume, given])
            if x is not None:
                self.und(label, where, f"the code has no input {path_of(x)} of the expected kind")
            else:
                self.bad(label, where, r[1].text())
        else:
            self.und(label, where, r[1])
        return False

    def always(self, label, cond, where, dom=ANY, facts=None, assume=None):
        """the guard is true for every input"""
        return self.eq(label, cond, TRUE, where, dom, facts, assume)

    def mat(self, label, code, spec, where, dom=ANY, names="xyz", **kw):
        if not isinstance(code, Agg) or len(code.fs) != len(spec.fs):
            self.und(label, where, "shape")
            return
        for i, (c, s) in enumerate(zip(code.fs, spec.fs)):
            n = names[i] if i < len(names) and len(code.fs) <= len(names) else str(i)
            self.eq(f"{label}[{n}]", c, s, where, dom, **kw)

    def guard(self, f, label, where=""):
        """run an analysis step; anchors that vanished are recorded, not alarmed"""
        if self.stop:
            return self.und(label, where, "time budget of the check used up")
        depth = len(self.running)
        try:
            self.running.append(time.time())
            r = f()
            del self.running[depth:]
            return r
        except Overtime:
            self.und(label, where, "time budget used up")
        except (Missing, Unsupported, Dead, interp.NeedSummary) as e:
            self.und(label, where, f"{type(e).__name__}: {e}")
        except Exception as e:
            import traceback
            self.und(label, where, f"{type(e).__name__}: {e} @ " + traceback.format_exc().strip().splitlines()[-3].strip())
        finally:
            del self.running[depth:]
        return None


def kinds(p, e, memo):
    """types of an input, from the types its root was created with: None if unknown, else a set of type numbers (may be empty)"""
    r = memo.get(e.id, 0)
    if r != 0:
        return r
    known = {ty for (q, ty), prog in interp.INPUTS.get(e.id, {}).items() if prog is p}
    if known:
        r = known
    elif e.op in ("fld", "idx"):
        up = kinds(p, e.args[0], memo)
        r = None if up is None else set().union(*[part(p, t, e) for t in up])
    else:
        r = None
    memo[e.id] = r
    return r


def part(p, ty, e):
    t = p.types[ty]
    while t["k"] in ("ref", "ptr"):
        ty = t["e"]
        t = p.types[ty]
    if t["k"] == "adt" and t["def"] in ("std::boxed::Box",):
        return part(p, t["args"][0], e)
    x = e.args[1]
    if e.op == "fld":
        if t["k"] == "tuple":
            return {t["es"][int(x)]} if x.isdigit() and int(x) < len(t["es"]) else set()
        if t["k"] == "adt":
            vs = t["vs"]
            if t.get("enum"):
                v, _, f = x.partition(".")
                vs = [w for w in vs if w["name"] == v]
                if not f:
                    return set()
                x = f
            for w in vs:
                for n, ft in w["fields"]:
                    if n == x:
                        return {ft}
            return set()
        return set()
    if t["k"] in ("array", "slice"):
        return {t["e"]}
    if t["k"] == "adt":
        if t["def"] == "std::vec::Vec":
            return {t["args"][0]}
        if t["def"] in ("nalgebra::Matrix", "nalgebra::Rotation"):
            return {t["args"][0]}
    return set()


ABOUT = {}          # id of a named quantity -> the inputs its name speaks of


def about(name, *inputs):
    """a named quantity that stands for something computed from inputs"""
    e = mk("sym", name)
    ABOUT[e.id] = inputs
    return e


def foreign(x, scalar=True):
    """an input the required value mentions although the program has no such (number-valued) input: a setting that is stored
    in another form or under another name"""
    programs = {id(p): p for d in interp.INPUTS.values() for p in d.values()}
    seen, todo = set(), [(x, scalar)]
    while todo:
        y, s = todo.pop()
        if isinstance(y, (list, tuple)):
            todo += [(z, s) for z in y]
            continue
        if not isinstance(y, (E, B)) or y is TRUE or y is FALSE:
            continue
        k = (isinstance(y, B), y.id, s)
        if k in seen:
            continue
        seen.add(k)
        if isinstance(y, B):
            a = ATOMS[y.var]
            todo += [(z, True) for z in a[1:]] + [(y.hi, True), (y.lo, True)]
        elif y.op in ("fld", "idx"):
            ts = [(p, kinds(p, y, {})) for p in programs.values()]
            ts = [(p, t) for p, t in ts if t is not None]
            if ts and not any(t and (not s or any(p.types[i]["k"] in ("float", "int", "uint", "bool", "char") for i in t)) for p, t in ts):
                return y
        elif y.op in ("discr", "len"):
            todo.append((y.args[0], False))
        elif y.id in ABOUT:
            todo += [(z, False) for z in ABOUT[y.id]]
        else:
            todo += [(z, True) for z in y.args if isinstance(z, (E, B))]
    return None


def thresholds(*es):
    """{x: set of constants x is compared with}"""
    seen, out, st = set(), {}, list(es)
    while st:
        x = st.pop()
        if isinstance(x, B):
            if x is TRUE or x is FALSE or ("b", x.id) in seen:
                continue
            seen.add(("b", x.id))
            a = ATOMS[x.var]
            if a[0] in ("lt", "eq"):
                for u, v in ((a[1], a[2]), (a[2], a[1])):
                    if isnum(v):
                        out.setdefault(u, set()).add(nv(v))
            st += [y for y in a[1:] if isinstance(y, (E, B))] + [x.hi, x.lo]
        elif isinstance(x, E) and x.id not in seen:
            seen.add(x.id)
            st += [y for y in x.args if isinstance(y, (E, B))]
    return out


def on_region(x, lo, hi):
    """substitution deciding comparisons of x with constants on the region lo..hi (lo == hi: the point)"""
    def val(a):
        if a[0] == "lt" and a[1] is x and isnum(a[2]):
            t = nv(a[2])
            return lo < t if lo == hi else (hi is not None and hi <= t)
        if a[0] == "lt" and a[2] is x and isnum(a[1]):
            t = nv(a[1])
            return t < lo if lo == hi and lo is not None else (lo is not None and t <= lo)
        if a[0] == "eq":
            for u, v in ((a[1], a[2]), (a[2], a[1])):
                if u is x and isnum(v):
                    return lo == hi == nv(v)
        return None

    memo = {}

    def sb(y):
        if isinstance(y, B):
            if y is TRUE or y is FALSE:
                return y
            k = ("b", y.id)
            r = memo.get(k)
            if r is None:
                a = ATOMS[y.var]
                t = val(a)
                if t is None:
                    c = _atom(a, sb)
                    r = bite(c, sb(y.hi), sb(y.lo))
                else:
                    r = sb(y.hi if t else y.lo)
                memo[k] = r
            return r
        if not isinstance(y, E):
            return y
        r = memo.get(y.id)
        if r is None:
            if not y.hasite:
                r = y
            else:
                na = tuple(sb(z) for z in y.args)
                r = y if all(p is q for p, q in zip(na, y.args)) else interp.rebuild(y.op, na)
            memo[y.id] = r
        return r
    return sb


def integers(dom):
    """substitution writing every comparison of an integer input (domain kind int) with a constant as `input < n`"""
    import math

    def peel(e):
        """(input, k): e = input + k"""
        k = Fraction(0)
        while e.op == "add" and len(e.args) == 2 and (isnum(e.args[0]) or isnum(e.args[1])):
            e, n = (e.args[1], e.args[0]) if isnum(e.args[0]) else e.args
            k += nv(n)
        return e, k

    def is_int(e):
        r = dom.rule(e) if e.op in ("sym", "fld", "idx") else None
        return r is not None and r[0] == "int"

    def below(x, n):
        lo = dom.rule(x)[1]
        return FALSE if n <= lo == 0 else blt(x, num(n))

    def val(a):
        if a[0] not in ("lt", "eq") or not all(isinstance(z, E) for z in a[1:]):
            return None
        for i, (u, v) in enumerate(((a[1], a[2]), (a[2], a[1]))):
            if not isnum(v):
                continue
            x, k = peel(u)
            if not is_int(x) or k.denominator != 1:
                continue
            t = nv(v) - k
            if a[0] == "eq":
                return below(x, int(t) + 1) & bnot(below(x, int(t))) if t.denominator == 1 else FALSE
            return below(x, math.ceil(t)) if i == 0 else bnot(below(x, math.floor(t) + 1))
        return None

    memo = {}

    def sb(y):
        if isinstance(y, B):
            if y is TRUE or y is FALSE:
                return y
            k = ("b", y.id)
            r = memo.get(k)
            if r is None:
                a = ATOMS[y.var]
                t = val(a)
                r = memo[k] = bite(_atom(a, sb) if t is None else t, sb(y.hi), sb(y.lo))
            return r
        if not isinstance(y, E):
            return y
        r = memo.get(y.id)
        if r is None:
            if not y.hasite:
                r = y
            else:
                na = tuple(sb(z) for z in y.args)
                r = y if all(p is q for p, q in zip(na, y.args)) else interp.rebuild(y.op, na)
            memo[y.id] = r
        return r
    return sb


def _atom(a, sb):
    na = tuple(sb(y) for y in a[1:])
    if all(p is q for p, q in zip(na, a[1:])):
        return atom(*a)
    return {"lt": blt, "eq": beq}[a[0]](*na) if a[0] in ("lt", "eq") else atom(a[0], *na)


def compare(code, spec, kw, budget=3000):
    """nf.equal, after partitioning the values of enum tags and of inputs compared with many constants"""
    if code is spec:
        return ("equal", 1)
    if code.unk or spec.unk:
        return ("undecided", "contains an unmodelled value")
    th = thresholds(code, spec)
    tags = [x for x in th if x.id in DISCR and len(DISCR[x.id]) <= budget]
    lines = sorted((x for x in th if x.id not in DISCR and len(th[x]) >= 4 and 2 * len(th[x]) < budget),
                   key=lambda x: -len(th[x]))
    if tags:
        x = min(tags, key=lambda x: len(DISCR[x.id]))
        regions = [(Fraction(k), Fraction(k)) for k in DISCR[x.id]]
    elif lines:
        x = lines[0]
        ts = sorted(th[x])
        regions = [(None, ts[0])]
        for i, t in enumerate(ts):
            regions.append((t, t))
            regions.append((t, ts[i + 1] if i + 1 < len(ts) else None))
    else:
        return nf.equal(code, spec, **kw)
    budget //= len(regions)
    n = 0
    parts, und = [], None
    for lo, hi in regions:
        sb = on_region(x, lo, hi)
        c1, s1 = sb(code), sb(spec)
        if tags:
            if not any(p[2] is c1 and p[3] is s1 for p in parts):
                parts.append((lo, hi, c1, s1))
        elif parts and parts[-1][2] is c1 and parts[-1][3] is s1:
            # the same functions on neighbouring regions: one region
            parts[-1] = (parts[-1][0], hi, c1, s1)
        else:
            parts.append((lo, hi, c1, s1))
    for lo, hi, c1, s1 in parts:
        facts = list(kw.get("facts") or [])
        if tags:
            pass
        elif lo == hi and lo is not None:
            facts += [(sub(x, num(lo)), False), (sub(num(lo), x), False)]
        elif lo is not None:
            facts.append((sub(x, num(lo)), False))
        if hi is not None and lo != hi and not tags:
            facts.append((sub(num(hi), x), False))
        if c1 is s1:
            n += 1
            continue
        r = compare(c1, s1, dict(kw, facts=facts, samples=0), budget)
        if r[0] != "equal":
            # a point may agree although its formula differs only in form
            und = und or r
            continue
        n += r[1]
    if und is None:
        return ("equal", n)
    w, tried = nf.identity_test(code, spec, kw.get("domain"), n=kw.get("samples", 160), tol=kw.get("tol", 1e-7))
    if w is None:
        return ("undecided", f"{und[1]}; no differing valuation among {tried}")
    return ("differs", nf.Witness(w, code, spec, [], show(code)[:400], show(spec)[:400]))


class Run:
    """summary of one analysed function"""

    def __init__(self, chk, I, b, ret, st, args):
        self.chk, self.I, self.b, self.ret, self.st, self.args = chk, I, b, ret, st, args
        self.where = chk.where(b)

    def D(self, v):
        n = 0
        while isinstance(v, Ref) and n < 10:
            v = self.I.read(self.st, v.root, v.path)
            n += 1
        return v

    def get(self, v, *path):
        """field by name / index, through references"""
        for x in path:
            v = self.D(v)
            v = field(self.I, self.st, v, x)
        return self.D(v)

    def events(self, kind=None):
        return [e for e in self.st.eff if kind is None or e.kind == kind]


def field(I, st, v, x):
    p = I.p
    if isinstance(v, Choice):
        return I.map_choice(st, v, lambda y: field(I, st, y, x))
    if isinstance(x, str):
        if isinstance(v, (SymV, Agg)) and v.ty is not None:
            vs = p.types[v.ty]["vs"][v.variant or 0]
            for i, f in enumerate(vs["fields"]):
                if f[0] == x:
                    return I.proj(st, v, ("f", i))
            raise Missing(f"no field {x} in {p.types[v.ty]['n']}")
        if isinstance(v, Agg) and v.kind == "mat":
            return v.fs["xyzw".index(x)]
        raise Missing(f"field {x} of {str(v)[:60]}")
    if isinstance(v, Agg):
        return v.fs[x]
    return I.proj(st, v, ("f", x))


def cut(e, nodes):
    """replace the given sub-expressions by fresh inputs"""
    m = {n.id: mk("sym", "cut·" + k) for k, n in nodes.items()}
    return interp.subst(e, lambda x: m.get(x.id))


# ------------------------------------------------------------------ spec helpers
def S(name):
    return mk("sym", name)


def F(base, *fs):
    for f in fs:
        base = mk("fld", base, f) if isinstance(f, str) else mk("idx", base, num(f))
    return base


def V(*xs):
    return mat(len(xs), 1, xs)


def vec(base, n=3):
    return mat(n, 1, [mk("idx", base, num(i)) for i in range(n)])


def sq(x):
    return mul(x, x)


def total(xs):
    r = ZERO
    for x in xs:
        r = add(r, x)
    return r


def dot(a, b):
    return total([mul(x, y) for x, y in zip(a.fs, b.fs)])


def norm(a):
    return fn("sqrt", dot(a, a))


def vadd(a, b):
    return V(*[add(x, y) for x, y in zip(a.fs, b.fs)])


def vsub(a, b):
    return V(*[sub(x, y) for x, y in zip(a.fs, b.fs)])


def vscale(k, a):
    return V(*[mul(k, x) for x in a.fs])


def cross(a, b):
    (a1, a2, a3), (b1, b2, b3) = a.fs, b.fs
    return V(sub(mul(a2, b3), mul(a3, b2)), sub(mul(a3, b1), mul(a1, b3)), sub(mul(a1, b2), mul(a2, b1)))


class M3:
    """3x3 matrix, row major rows"""

    def __init__(self, rows):
        self.r = rows

    def __matmul__(self, o):
        if isinstance(o, M3):
            return M3([[total([mul(self.r[i][k], o.r[k][j]) for k in range(3)]) for j in range(3)] for i in range(3)])
        return V(*[total([mul(self.r[i][k], o.fs[k]) for k in range(3)]) for i in range(3)])

    def T(self):
        return M3([[self.r[j][i] for j in range(3)] for i in range(3)])

    def cols(self):
        """nalgebra storage order"""
        return mat(3, 3, [self.r[i][j] for j in range(3) for i in range(3)])


def m3(v):
    """M3 of an interpreter matrix (column major)"""
    return M3([[v.fs[j * 3 + i] for j in range(3)] for i in range(3)])


def sin(x):
    return fn("sin", x)


def cos(x):
    return fn("cos", x)


def sqrt(x):
    return fn("sqrt", x)


def deg(x):
    return div(mul(x, PI), num(180))


def nanprop(e, leaves, memo=None):
    """e with the given leaves not-a-number and everything else a number"""
    memo = {} if memo is None else memo

    def at(a):
        if a[0] == "isnan":
            x = go(a[1])
            return TRUE if x is NAN else FALSE
        xs = [go(x) if isinstance(x, (E, B)) else x for x in a[1:]]
        if any(x is NAN for x in xs):
            return FALSE
        if a[0] in ("lt", "eq"):
            return {"lt": blt, "eq": beq}[a[0]](*xs)
        return atom(a[0], *xs)

    def go(x):
        if isinstance(x, B):
            if x is TRUE or x is FALSE:
                return x
            k = ("b", x.id)
            if k not in memo:
                c = at(ATOMS[x.var])
                memo[k] = bite(c, go(x.hi), go(x.lo))
            return memo[k]
        if not isinstance(x, E):
            return x
        if x.id in memo:
            return memo[x.id]
        if x in leaves:
            r = NAN
        elif x.op == "ite":
            c = go(x.args[0])
            r = go(x.args[1]) if c is TRUE else go(x.args[2]) if c is FALSE else ite(c, go(x.args[1]), go(x.args[2]))
        elif x.op in ("sym", "fld", "idx", "num", "discr", "len", "nan"):
            r = x
        else:
            na = tuple(go(y) for y in x.args)
            if any(y is NAN for y in na):
                r = NAN
            elif all(p is q for p, q in zip(na, x.args)):
                r = x
            else:
                r = interp.rebuild(x.op, na)
        memo[x.id] = r
        return r
    if isinstance(e, Agg):
        return e.with_fs([go(x) for x in e.fs])
    return go(e)


# ------------------------------------------------------------------ reporting
def load_known():
    f = os.path.join(ROOT, "known-findings.txt")
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("known:"):
                m = re.match(r"known: property=(\S+) obligation=(\S.*?) :: (.*)", l)
                if m:
                    out.append(m.groups())
    return out


def report(chk, meta, t0, seed):
    pid = chk.pid
    known = [(o, d) for p, o, d in load_known() if p == pid]
    ev = os.path.join(ROOT, "evidence")
    os.makedirs(ev, exist_ok=True)
    vio = [o for o in chk.obl if o[1] == "violated"]
    new = []
    for o in vio:
        k = [d for lab, d in known if lab == o[0]]
        if k:
            print(f"KNOWN-FINDING: property={pid} {k[0]}")
        else:
            new.append(o)
    und = [o for o in chk.obl if o[1] == "undecided"]
    done = [o for o in chk.obl if o[1] == "discharged"]
    cov = {
        "obligations": len(chk.obl),
        "discharged": len(done),
        "undecided": len(und),
        "functions": sorted(chk.analysed),
        "call_sites": chk.callsites,
        "rule": meta.get("rule", ""),
        "explanation": meta.get("rule", ""),
        "obligation_list": [{"label": a, "status": b, "where": c, "detail": d[:300]} for a, b, c, d in chk.obl][:400],
    }
    doc = {"property": pid, "tier": chk.tier, "seed": seed, "level": meta.get("level", "other"), "coverage": cov,
           "wall_s": round(time.time() - t0, 3), "assumptions": chk.assumptions + meta.get("assumptions", []),
           "violations": len(new)}
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
    print(f"{pid}: {len(done)} obligations discharged, {len(und)} undecided, {len(new)} violated; "
          f"{len(chk.analysed)} functions analysed in {time.time() - t0:.1f} s")
    for a, b, c, d in und[:12]:
        print(f"  undecided: {a} at {c}: {d[:200]}")
    if new:
        rp = os.path.join(ev, pid + ".violation.txt")
        with open(rp, "w") as f:
            for a, b, c, d in new:
                f.write(f"property {pid}: obligation `{a}` violated\n  at {c}\n{d}\n\n")
        for a, b, c, d in new[:8]:
            print(f"  violated: {a} at {c}")
            print("\n".join("    " + l for l in d.splitlines()[:8]))
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0


def diff(e, v, memo=None):
    """symbolic derivative of a smooth closed form"""
    memo = {} if memo is None else memo
    if e.id in memo:
        return memo[e.id]
    o, a = e.op, e.args
    d = lambda x: diff(x, v, memo)
    if e is v:
        r = ONE
    elif o in ("num", "pi", "sym", "fld", "idx"):
        r = ZERO
    elif o == "add":
        r = add(d(a[0]), d(a[1]))
    elif o == "mul":
        r = add(mul(d(a[0]), a[1]), mul(a[0], d(a[1])))
    elif o == "div":
        r = div(sub(mul(d(a[0]), a[1]), mul(a[0], d(a[1]))), mul(a[1], a[1]))
    elif o == "powi":
        r = mul(mul(num(a[1]), powi(a[0], a[1] - 1)), d(a[0]))
    elif o == "sqrt":
        r = div(d(a[0]), mul(num(2), e))
    else:
        raise ValueError(o)
    memo[e.id] = r
    return r


def fold_guard(x, g):
    """x knowing the guard g holds: decided branches are folded"""
    memo = {}

    def go(y):
        if isinstance(y, B):
            return restrict(y, g)
        if not isinstance(y, E) or not y.hasite:
            return y
        r = memo.get(y.id)
        if r is None:
            if y.op == "ite":
                c = y.args[0]
                if (c & g) is FALSE:
                    r = go(y.args[2])
                elif (bnot(c) & g) is FALSE:
                    r = go(y.args[1])
                else:
                    r = ite(restrict(c, g), go(y.args[1]), go(y.args[2]))
            else:
                na = tuple(go(z) for z in y.args)
                r = y if all(p is q for p, q in zip(na, y.args)) else interp.rebuild(y.op, na)
            memo[y.id] = r
        return r
    return go(x)
