"""Transfer functions for library code (core, alloc, nalgebra).

Every model is keyed by the resolved path of the callee.  `None` means "not
modelled": the analysis then inlines the library's own MIR, or treats the
result as unknown.
"""
import re
from fractions import Fraction
from vals import *


def strip(p):
    p = re.sub(r"\b(core|std|alloc)::", "", p)
    return p


class Models:
    def __init__(self, it):
        self.it = it
        from interp import Unsupported
        self.Uns = Unsupported

    # ------------------------------------------------------------ helpers
    def uns(self, why):
        raise self.Uns(why)

    def tmpref(self, st, v, mut=False):
        if isinstance(v, Ref):
            return v
        self.it.nframes += 1
        root = ("tmp", self.it.nframes)
        st.mem[root] = v
        return Ref(root, (), mut)

    def D(self, st, v):
        return self.it.deref(st, v)

    def scal(self, st, v):
        v = self.D(st, v)
        if isinstance(v, Agg) and v.kind == "mat" and len(v.fs) == 1:
            v = v.fs[0]
        if not isinstance(v, E):
            self.uns("scalar expected, got " + type(v).__name__)
        return v

    def asmat(self, st, v):
        v = self.D(st, v)
        if isinstance(v, Choice):
            v = self.it.map_choice(st, v, lambda x: x)
        if isinstance(v, Agg) and v.kind == "mat":
            return v
        if isinstance(v, Agg) and v.kind == "view":
            return self.asmat(st, v.fs[0])
        self.uns("matrix expected, got " + type(v).__name__)

    # enum construction ------------------------------------------------
    def variant(self, ty, name):
        t = self.it.p.types[ty]
        for i, v in enumerate(t["vs"]):
            if v["name"] == name:
                return i
        self.uns("no variant " + name)

    def enum(self, ty, name, *fs):
        if ty is None:
            # type unknown: std Option / Result variant order
            i = {"None": 0, "Some": 1, "Ok": 0, "Err": 1, "Continue": 0, "Break": 1, "Less": 0, "Equal": 1,
                 "Greater": 2}[name]
            return Agg("adt", fs, None, i)
        return Agg("adt", fs, ty, self.variant(ty, name))

    def is_ty(self, ty, d):
        return ty is not None and self.it.p.types[ty].get("def") == d

    def opt(self, dty, c, val):
        """Option: Some(val) if c"""
        some = self.enum(dty, "Some", val)
        none = self.enum(dty, "None")
        return self.it.merge(c, some, none)

    def cases(self, st, v):
        return self.it.enum_cases(st, v)

    def payload(self, st, v, i=0):
        return self.it.proj(st, v, ("f", i, None))

    def app(self, f, args, st, dty=None):
        """call of a closure whose value is needed: a call that never returns ends the path"""
        v, s = self.it.apply(f, args, st, dty)
        if s is None:
            raise self._dead()
        return v, s

    def branch(self, st, alts):
        """alts: [(guard, fn(state) -> (value, state))]; runs each under its guard, merges"""
        outs = []
        vals = []
        for g, f in alts:
            if (g & st.g) is FALSE:
                continue
            s = st.copy()
            s.g = st.g & g
            try:
                v, s2 = f(s)
            except self._dead():
                continue
            if s2 is None or s2.g is FALSE:
                continue
            vals.append((s2.g, v))
            outs.append(s2)
        if not outs:
            return None, None
        if len(outs) == 1:
            return vals[0][1], outs[0]
        m = self.it.merge_states(outs)
        r = vals[-1][1]
        acc = vals[-1][0]
        for g, v in reversed(vals[:-1]):
            c = restrict(g, g | acc)
            r = self.it.merge(c, v, r)
            acc = acc | g
        return r, m

    def _dead(self):
        from interp import Dead
        return Dead

    def ordering(self, ty, a, b):
        L, Q, G = (self.enum(ty, n) for n in ("Less", "Equal", "Greater"))
        return self.it.merge(blt(a, b), L, self.it.merge(beq(a, b), Q, G))

    def order(self, st, v):
        """conditions under which an ordering is less, equal, greater"""
        out = [FALSE, FALSE, FALSE]
        v = self.D(st, v)
        for g, x in v.alts if isinstance(v, Choice) else [(TRUE, v)]:
            if not isinstance(x, Agg) or x.variant is None:
                self.uns("ordering " + type(x).__name__)
            out[x.variant] = out[x.variant] | g
        return out

    def orders(self, seg, args, st, dty):
        if not re.fullmatch(r"is_(lt|le|gt|ge|eq|ne)|reverse|then|then_with", seg):
            return None
        lt, eq, gt = self.order(st, args[0])
        if seg.startswith("is_"):
            return {"is_lt": lt, "is_le": bnot(gt), "is_gt": gt, "is_ge": bnot(lt), "is_eq": eq, "is_ne": bnot(eq)}[seg], st
        L, Q, G = (self.enum(dty, n) for n in ("Less", "Equal", "Greater"))
        if seg == "reverse":
            return self.it.merge(lt, G, self.it.merge(eq, Q, L)), st
        if seg == "then":
            return self.it.merge(lt, L, self.it.merge(gt, G, args[1])), st
        if eq is FALSE:
            return self.D(st, args[0]), st
        v, st = self.app(args[1], [], st)
        return self.it.merge(lt, L, self.it.merge(gt, G, v)), st

    # ------------------------------------------------------------ entry
    def call(self, f, args, st, dty, aty):
        path = f["path"]
        rpath = f.get("rpath") or path
        p = strip(path)
        seg = p.split("::")[-1]
        r = None
        if f.get("rlocal") and not rpath.startswith(("core", "std", "alloc", "nalgebra")):
            # user code: only derived Clone is shortcut (identity)
            j = self.it.p.insts[f["inst"]] if f.get("inst") is not None else None
            if j is not None and j.get("derived") and path.endswith("Clone::clone"):
                return self.D1(st, args[0]), st
            if j is not None and j.get("derived") and path in ("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne"):
                try:
                    b = self.eq(st, args[0], args[1])
                    return (b if seg == "eq" else bnot(b)), st
                except self.Uns:
                    return None
            return None
        # nalgebra
        if path.startswith(("std::iter::", "core::iter::")) and "nalgebra::iter" in rpath:
            # iterators over matrix entries behave as any other
            r = self.generic(p, "slice::Iter", seg, args, st, dty, aty, f)
            if r is not None:
                return r
        if "nalgebra" in rpath or "nalgebra" in path:
            return self.nalgebra(f, path, rpath, seg, args, st, dty, aty)
        m = getattr(self, "m_" + seg, None)
        if seg == "total_cmp" and len(args) == 2:
            a, b = self.scal(st, args[0]), self.scal(st, args[1])
            if maybenan(a) or maybenan(b):
                return None
            return self.ordering(dty, a, b), st
        if p.startswith(("std::cmp::Ordering::", "core::cmp::Ordering::")) and args:
            r = self.orders(seg, args, st, dty)
            if r is not None:
                return r
        # f64
        if "<impl f64>" in path or (rpath and "<impl f64>" in rpath):
            r = self.f64(seg, args, st)
            if r is not None:
                return r, st
            return None
        if "<impl usize>" in p or re.search(r"<impl [iu](8|16|32|64|size)>", p):
            r = self.ints(seg, args, st, dty)
            if r is not None:
                return r, st
            return None
        r = self.generic(p, strip(rpath), seg, args, st, dty, aty, f)
        return r

    # ------------------------------------------------------------ f64
    def f64(self, seg, args, st):
        a = [self.scal(st, x) for x in args]
        x = a[0]
        if seg in ("sin", "cos", "tan", "asin", "acos", "atan", "sqrt", "exp", "ln", "sinh", "cosh", "tanh", "cbrt",
                   "floor", "ceil", "round", "trunc", "exp_m1", "ln_1p"):
            return fn(seg, x)
        if seg == "log10":
            return div(fn("ln", x), fn("ln", num(10)))
        if seg == "log2":
            return div(fn("ln", x), fn("ln", num(2)))
        if seg == "exp2":
            return fn("pow", num(2), x)
        if seg == "atan2":
            return fn("atan2", x, a[1])
        if seg == "hypot":
            return fn("sqrt", add(powi(x, 2), powi(a[1], 2)))
        if seg == "powi":
            if isnum(a[1]):
                return powi(x, int(nv(a[1])))
            return fn("pow", x, a[1])
        if seg == "powf":
            if isnum(a[1]):
                q = nv(a[1])
                if q.denominator == 1 and abs(q) < 64:
                    return powi(x, int(q))
                if q == Fraction(1, 2):
                    return fn("sqrt", x)
            return fn("pow", x, a[1])
        if seg == "abs":
            return ite(blt(x, ZERO), neg(x), x)
        if seg == "signum":
            # +0 -> 1, -0 -> -1: zero treated as positive
            return ite(blt(x, ZERO), num(-1), ONE)
        if seg in ("max", "min") and (x is NAN or a[1] is NAN):
            return a[1] if x is NAN else x
        if seg == "max":
            return ite(blt(x, a[1]), a[1], x)
        if seg == "min":
            return ite(blt(a[1], x), a[1], x)
        if seg == "clamp":
            bad = st.g & (blt(a[2], a[1]) | self.isnan(a[1]) | self.isnan(a[2]))
            if bad is not FALSE:
                self.it.event(st, "panic", ("call", "clamp", None), bad)     # empty range
            return ite(blt(x, a[1]), a[1], ite(blt(a[2], x), a[2], x))
        if seg == "is_nan":
            return self.isnan(x)
        if seg == "is_infinite":
            return self.isinf(x)
        if seg == "is_finite":
            return bnot(self.isnan(x)) & bnot(self.isinf(x))
        if seg in ("is_sign_negative", "is_sign_positive"):
            c = blt(x, ZERO)
            return c if seg == "is_sign_negative" else bnot(c)
        if seg == "to_radians":
            return mul(x, mk("mul", num(Fraction(1, 180)), PI))
        if seg == "to_degrees":
            return mul(x, mk("mul", num(180), mk("div", ONE, PI)))
        if seg == "mul_add":
            return add(mul(x, a[1]), a[2])
        if seg == "recip":
            return div(ONE, x)
        if seg == "sin_cos":
            return Agg("tuple", [fn("sin", x), fn("cos", x)])
        if seg == "copysign":
            ax = ite(blt(x, ZERO), neg(x), x)
            return ite(blt(a[1], ZERO), neg(ax), ax)
        if seg == "total_cmp":
            return None
        if seg == "rem_euclid":
            return fn("app", "rem_euclid", x, a[1])
        return None

    def isinf(self, x):
        if isnum(x) or x is PI or x is NAN:
            return FALSE
        if x is INF or x.op == "mul" and x.args[0] is num(-1) and x.args[1] is INF:
            return TRUE
        if x.op == "ite":
            return bite(x.args[0], self.isinf(x.args[1]), self.isinf(x.args[2]))
        return atom("isinf", x)

    def isnan(self, x):
        if x is NAN:
            return TRUE
        if not maybenan(x) and x.op == "ite" and numtree(x):
            return FALSE
        if isnum(x) or x is PI or x is INF:
            return FALSE
        if x.op == "ite":
            return bite(x.args[0], self.isnan(x.args[1]), self.isnan(x.args[2]))
        return atom("isnan", x)

    def ints(self, seg, args, st, dty):
        a = [self.scal(st, x) for x in args]
        if seg in ("wrapping_add", "unchecked_add", "saturating_add"):
            return add(a[0], a[1])
        if seg in ("wrapping_sub", "unchecked_sub"):
            return sub(a[0], a[1])
        if seg == "saturating_sub":
            return ite(blt(a[0], a[1]), ZERO, sub(a[0], a[1]))
        if seg == "checked_sub":
            return self.opt(dty, bnot(blt(a[0], a[1])), sub(a[0], a[1]))
        if seg == "checked_add":
            return self.opt(dty, TRUE, add(a[0], a[1]))
        if seg in ("max", "min", "clamp"):
            return self.f64(seg, args, st)
        if seg == "pow" and isnum(a[1]):
            return powi(a[0], int(nv(a[1])))
        if seg == "abs_diff":
            return ite(blt(a[0], a[1]), sub(a[1], a[0]), sub(a[0], a[1]))
        return None

    # ------------------------------------------------------------ generic
    def D1(self, st, v):
        """one dereference"""
        if isinstance(v, Ref):
            return self.it.read(st, v.root, v.path)
        if isinstance(v, Choice):
            return self.it.map_choice(st, v, lambda x: self.D1(st, x))
        return v

    def eq(self, st, a, b):
        a, b = self.D(st, a), self.D(st, b)
        if isinstance(a, E) and isinstance(b, E):
            return beq(a, b)
        if isinstance(a, B) and isinstance(b, B):
            return bite(a, b, bnot(b))
        if isinstance(a, SymV) and not self.it.is_multi(a):
            a = self.it.expand(a)
        if isinstance(b, SymV) and not self.it.is_multi(b):
            b = self.it.expand(b)
        if isinstance(a, Agg) and isinstance(b, Agg) and a.kind == b.kind and a.kind in ("array", "tuple", "mat"):
            if len(a.fs) != len(b.fs):
                return FALSE
            r = TRUE
            for x, y in zip(a.fs, b.fs):
                r = r & self.eq(st, x, y)
            return r
        if isinstance(a, SymSeq) and isinstance(b, SymSeq):
            if a.base is b.base and a.lo is b.lo and a.hi is b.hi:
                return TRUE
            return beq(a.len(), b.len()) & atom("b", mk("app", "same elements", a.base, b.base))
        if isinstance(b, SymSeq):
            a, b = b, a
        if isinstance(a, SymSeq) and isinstance(b, Agg) and b.kind in ("array", "vec", "tuple"):
            r = beq(self.it.seqlen(st, a), num(len(b.fs)))
            for i, y in enumerate(b.fs):
                r = r & self.eq(st, self.it.seq_elem(a, num(i)), y) if r is not FALSE else r
            return r
        if isinstance(a, SymV) and isinstance(b, SymV) and a.ty == b.ty and all(not v["fields"] for v in self.it.p.types[a.ty]["vs"]):
            return beq(self.it.discr(st, a), self.it.discr(st, b))
        if self.isenumlike(a) and self.isenumlike(b):
            r = FALSE
            for g, i, x in self.cases(st, a):
                for h, j, y in self.cases(st, b):
                    if i != j:
                        continue
                    c = g & h
                    n = self.nfields(x)
                    for k in range(n):
                        c = c & self.eq(st, self.payload(st, x, k), self.payload(st, y, k))
                    r = r | c
            return r
        if isinstance(a, Opq) and isinstance(b, Opq):
            return TRUE if a.base is b.base else atom("eq", mk("str", str(a.base)), mk("str", str(b.base)))
        self.uns(f"equality of {type(a).__name__} and {type(b).__name__}")

    def isenumlike(self, a):
        return isinstance(a, (SymV, Choice)) or (isinstance(a, Agg) and a.kind == "adt")

    def nfields(self, v):
        if isinstance(v, Agg):
            return len(v.fs)
        t = self.it.p.types[v.ty]
        return len(t["vs"][v.variant or 0]["fields"])

    def generic(self, p, rp, seg, args, st, dty, aty, f):
        it = self.it
        D = self.D
        if "cell::" in rp:
            r = self.cell(rp, seg, args, st, dty, aty)
            if r is not None:
                return r
        # --- arithmetic operator traits on primitives
        if p.startswith("ops::") or p.startswith("cmp::"):
            r = self.ops(p, rp, seg, args, st, dty, aty)
            if r is not None:
                return r
        if seg == "clone" and p.startswith("clone::"):
            return self.D1(st, args[0]), st
        if seg == "clone_from" and p.startswith("clone::"):
            v = D(st, args[1]) if False else self.D1(st, args[1])
            for g, r, pth in it.deref_locs(st, args[0]):
                it.write(st, r, pth, v, g)
            return Agg("tuple", []), st
        if p.startswith("clone::") or rp.startswith("slice::") and seg == "clone_from_slice":
            pass
        # --- conversions
        if seg in ("into", "from") and p.startswith("convert::") or p == "convert::identity":
            return self.convert(f, args, st, dty)
        if seg in ("try_into", "try_from") and p.startswith("convert::"):
            v = D(st, args[0])
            if isinstance(v, E):
                t = it.p.types[dty]["args"][0] if dty is not None and it.p.types[dty].get("args") else None
                m = re.fullmatch(r"([iu])(8|16|32)", it.p.types[t]["n"]) if isinstance(t, int) else None
                good = self.enum(dty, "Ok", v)
                if m and (isnum(v) or m[2] != "32"):
                    # a narrower integer holds only so many values
                    k = int(m[2])
                    lo, hi = (0, 1 << k) if m[1] == "u" else (-(1 << k - 1), 1 << k - 1)
                    c = blt(v, num(hi)) & bnot(blt(v, num(lo)))
                    if c is not TRUE:
                        return it.merge(c, good, self.enum(dty, "Err", mk("unknown", "number out of range"))), st
                return good, st
            if isinstance(v, Agg) and v.kind == "array":
                t = it.p.types[dty]["args"][0] if dty is not None else None
                if t is not None and it.p.types[t]["k"] == "array" and it.p.types[t]["len"] == len(v.fs):
                    return self.enum(dty, "Ok", v), st
            return None
        if p.startswith("borrow::") or seg in ("as_ref", "as_mut", "borrow", "borrow_mut", "deref", "deref_mut", "as_slice",
                                               "as_mut_slice", "by_ref", "as_deref", "as_deref_mut"):
            r = self.asref(p, seg, args, st, dty)
            if r is not None:
                return r
        if seg == "default" and p.startswith("default::Default") and dty is not None:
            t = it.p.types[dty]
            if t["k"] in ("float", "int", "uint"):
                return ZERO, st
            if t["k"] == "bool":
                return FALSE, st
            if t["k"] == "array" and it.p.types[t["e"]]["k"] == "float":
                return Agg("array", [ZERO] * t["len"]), st
            if t.get("def") == "std::vec::Vec":
                return Agg("array", []), st
            if t.get("def") == "std::boxed::Box" and it.p.types[t["args"][0]]["k"] == "slice":
                return self.tmpref(st, Agg("array", [])), st
            if t.get("def") == "std::option::Option":
                return self.enum(dty, "None"), st
            return None
        if seg in ("swap", "replace", "take") and p.startswith("mem::"):
            a = args[0]
            if not isinstance(a, Ref):
                return None
            old = it.read(st, a.root, a.path)
            if seg == "replace":
                it.write(st, a.root, a.path, args[1])
                return old, st
            if seg == "swap":
                b = args[1]
                new = it.read(st, b.root, b.path)
                it.write(st, a.root, a.path, new)
                it.write(st, b.root, b.path, old)
                return Agg("tuple", []), st
            return None
        if seg in ("black_box", "drop", "forget", "must_use"):
            return (args[0] if seg in ("black_box", "must_use") else Agg("tuple", [])), st
        # --- Option / Result
        if "option::Option" in p or "result::Result" in p:
            r = self.optres(p, seg, args, st, dty, aty)
            if r is not None:
                return r
        if p.endswith("bool>::then") or p.endswith("bool>::then_some"):
            c = D(st, args[0])
            if isinstance(c, B):
                if seg == "then_some":
                    return self.opt(dty, c, args[1]), st
                return self.branch(st, [
                    (c, lambda s: self.wrap(it.apply(args[1], [], s, None), lambda v: self.enum(dty, "Some", v))),
                    (bnot(c), lambda s: (self.enum(dty, "None"), s))])
        # --- formatting, printing, io: effects
        if p.startswith("fmt::") or p.startswith("fmt::rt::") or "fmt::rt::" in p or "fmt::Arguments" in p:
            return self.fmt(p, seg, args, st, dty)
        if p in ("io::_print", "io::_eprint"):
            it.event(st, "print" if p == "io::_print" else "eprint", self.snapshot(st, args[0]))
            return Agg("tuple", []), st
        if p.startswith("panicking::") or p.startswith("rt::panic") or p.startswith("rt::begin_panic"):
            it.event(st, "panic", ("call", p, None))
            return None, None
        if p in ("process::exit", "process::abort"):
            it.event(st, "exit", ("exit", args))
            return None, None
        # --- slices / vec / arrays / iterators
        return self.seqs(p, rp, seg, args, st, dty, aty, f)

    def cell(self, rp, seg, args, st, dty, aty):
        """memory changed through shared references: the address of the contents (that a RefCell is borrowed twice is not followed)"""
        it = self.it
        if re.match(r"<cell::(Ref|RefMut)<.*> as ", rp) and seg in ("deref", "deref_mut") and isinstance(args[0], Ref):
            return self.it.read(st, args[0].root, args[0].path), st
        m = re.match(r"cell::(UnsafeCell|RefCell)::<.*>::(\w+)$", rp)
        if not m or not args:
            return None
        a = args[0]
        while isinstance(a, Ref) and isinstance(it.read(st, a.root, a.path), Ref):
            a = it.read(st, a.root, a.path)
        if not isinstance(a, Ref):
            return None
        if m[1] == "UnsafeCell" and seg in ("get", "raw_get", "get_mut"):
            r = Ref(a.root, a.path + (("f", 0),), True)
        elif m[1] == "RefCell" and seg in ("borrow", "borrow_mut", "try_borrow", "try_borrow_mut", "get_mut", "as_ptr"):
            t = it.p.types[it.p.peel(aty[0])] if aty and aty[0] is not None else None
            k = [i for i, f in enumerate(t["vs"][0]["fields"]) if f[0] == "value"] if t and t.get("vs") else []
            if len(k) != 1:
                return None
            r = Ref(a.root, a.path + (("f", k[0]), ("f", 0)), True)
        else:
            return None
        it.cells.add((r.root, r.path))
        return (self.enum(dty, "Ok", r) if seg.startswith("try_") else r), st

    def snapshot(self, st, v):
        if isinstance(v, Ref):
            return self.snapshot(st, self.it.read(st, v.root, v.path))
        if isinstance(v, Agg):
            return v.with_fs([self.snapshot(st, x) for x in v.fs])
        return v

    def wrap(self, vs, f):
        v, s = vs
        if s is None:
            return v, s
        return f(v), s

    def convert(self, f, args, st, dty):
        it = self.it
        v = args[0]
        if dty is None:
            return v, st
        t = it.p.types[dty]
        if t["k"] in ("float", "int", "uint"):
            x = self.D(st, v)
            if isinstance(x, B):
                x = ite(x, ONE, ZERO)
            if isinstance(x, E):
                return x, st
            return None
        if t["k"] == "array":
            x = v
            if isinstance(x, Agg) and x.kind in ("array", "mat", "tuple"):
                return Agg("array", x.fs), st
        if it.matdim(t) and isinstance(v, Agg):
            if v.kind in ("mat", "array"):
                r, c = it.matdim(t)
                if len(v.fs) == r * c:
                    return mat(r, c, v.fs), st
        if t.get("def") == "std::boxed::Box":
            e = it.p.types[t["args"][0]]
            if e["k"] == "slice":
                x = self.D(st, v)
                if isinstance(x, Agg) and x.kind == "array":
                    return self.tmpref(st, x), st
            return None
        if t.get("def") == "std::vec::Vec":
            x = self.D(st, v)
            if isinstance(x, Agg) and x.kind == "array":
                return x, st
        if t.get("def") == "std::option::Option":
            return self.enum(dty, "Some", v), st
        sty = f.get("args") or []
        if f.get("path", "").endswith("into") and len(sty) >= 2 and sty[0] == sty[1]:
            return v, st
        return None

    def asref(self, p, seg, args, st, dty):
        it = self.it
        if "Option" in p and seg in ("as_ref", "as_mut", "as_deref", "as_deref_mut"):
            out = []
            a = args[0]
            for g, r, path in it.deref_locs(st, a):
                v = it.read(st, r, path)
                gg = TRUE if g is None else g
                for h, i, x in self.cases(st, v):
                    if i == 0:
                        out.append((gg & h, self.enum(dty, "None")))
                    else:
                        rr = Ref(r, path + (("v", 1), ("f", 0, None)), seg.endswith("mut"))
                        if "deref" in seg:
                            inner = it.read(st, rr.root, rr.path)
                            if isinstance(inner, Ref):
                                rr = inner
                        out.append((gg & h, self.enum(dty, "Some", rr)))
            r = out[-1][1]
            for g, v in reversed(out[:-1]):
                r = it.merge(g, v, r)
            return r, st
        if "Result" in p and seg in ("as_ref", "as_mut"):
            return None
        a = args[0]
        if isinstance(a, Ref):
            v = it.read(st, a.root, a.path)
            if isinstance(v, Ref):      # Box<T> / &T
                return v, st
            return a, st
        if isinstance(a, (Choice, Opq)):
            return a, st
        return None

    def ops(self, p, rp, seg, args, st, dty, aty):
        it = self.it
        tr = p.split("::")[1] if "::" in p else ""
        names = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "eq": "Eq", "ne": "Ne",
                 "lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge", "bitand": "BitAnd", "bitor": "BitOr",
                 "bitxor": "BitXor"}
        asg = {"add_assign": "Add", "sub_assign": "Sub", "mul_assign": "Mul", "div_assign": "Div", "rem_assign": "Rem",
               "bitand_assign": "BitAnd", "bitor_assign": "BitOr"}
        if seg in names and len(args) == 2:
            a, b = self.D(st, args[0]), self.D(st, args[1])
            isint = self.isint(args, aty)
            if isinstance(a, (E, B)) and isinstance(b, (E, B)):
                return it.bin(names[seg], a, b, isint), st
            if seg in ("eq", "ne"):
                r = self.eq(st, a, b)
                return (r if seg == "eq" else bnot(r)), st
            return None
        if seg in asg and len(args) == 2:
            b = self.D(st, args[1])
            if isinstance(args[0], Ref):
                a = it.read(st, args[0].root, args[0].path)
                if isinstance(a, (E, B)) and isinstance(b, (E, B)):
                    it.write(st, args[0].root, args[0].path, it.bin(asg[seg], a, b, False))
                    return Agg("tuple", []), st
            return None
        if seg == "neg":
            a = self.D(st, args[0])
            if isinstance(a, E):
                return neg(a), st
            return None
        if seg == "not":
            a = self.D(st, args[0])
            if isinstance(a, B):
                return bnot(a), st
            return None
        if seg == "partial_cmp" or seg == "cmp":
            a, b = self.D(st, args[0]), self.D(st, args[1])
            if isinstance(a, E) and isinstance(b, E):
                oty = dty
                if seg == "partial_cmp":
                    oty = it.p.types[dty]["args"][0] if dty is not None else None
                r = self.ordering(oty, a, b)
                if seg == "partial_cmp":
                    r = self.enum(dty, "Some", r)
                    nan = self.isnan(a) | self.isnan(b)
                    nan = TRUE if nan is TRUE else FALSE if not (maybenan(a) or maybenan(b)) else nan
                    r = it.merge(nan, self.enum(dty, "None"), r)
                return r, st
            return None
        if seg == "branch" and "Try" in p:
            out = []
            v = args[0]
            for g, i, x in self.cases(st, v):
                n = self.it.p.types[x.ty]["vs"][i]["name"] if x.ty is not None else {0: "Ok", 1: "Err"}[i]
                if n in ("Ok", "Some"):
                    out.append((g, self.enum(dty, "Continue", self.payload(st, x))))
                elif n == "Err":
                    rt = None
                    if dty is not None:
                        rt = self.it.p.types[dty]["args"][0]
                    out.append((g, self.enum(dty, "Break", self.enum(rt, "Err", self.payload(st, x)))))
                else:
                    rt = self.it.p.types[dty]["args"][0] if dty is not None else None
                    out.append((g, self.enum(dty, "Break", self.enum(rt, "None"))))
            r = out[-1][1]
            for g, v in reversed(out[:-1]):
                r = it.merge(g, v, r)
            return r, st
        if seg == "from_residual":
            v = args[0]
            r = None
            for g, i, x in self.cases(st, v):
                t = it.p.types[x.ty]["vs"][i]["name"] if x.ty is not None else None
                if t == "Err":
                    e = self.payload(st, x)
                    y = self.enum(dty, "Err", self.liberr(e, dty))
                elif t == "None":
                    y = self.enum(dty, "None")
                else:
                    continue
                r = y if r is None else it.merge(g, y, r)
            return r, st
        if p.startswith("ops::Index"):
            return self.index_op(seg, args, st, dty)
        if seg == "deref" or seg == "deref_mut":
            return self.asref(p, seg, args, st, dty)
        if seg == "contains":
            # RangeInclusive / Range::contains
            r = self.D(st, args[0])
            x = self.scal(st, args[1])
            if isinstance(r, Agg) and r.kind == "adt" and r.ty is not None:
                d = it.p.types[r.ty]["def"]
                if d.endswith("RangeInclusive"):
                    return bnot(blt(x, r.fs[0])) & bnot(blt(r.fs[1], x)), st
                if d.endswith("ops::Range"):
                    return bnot(blt(x, r.fs[0])) & blt(x, r.fs[1]), st
            return None
        if seg == "new" and "RangeInclusive" in p:
            return Agg("adt", [args[0], args[1], FALSE], dty, 0), st
        if seg in ("max", "min", "clamp") and p.startswith("cmp::"):
            a = [self.scal(st, x) for x in args]
            return self.f64(seg, a, st), st
        if seg in ("is_lt", "is_gt", "is_le", "is_ge", "is_eq", "is_ne"):
            r = FALSE
            for g, i, x in self.cases(st, args[0]):
                ok = {"is_lt": i == 0, "is_gt": i == 2, "is_le": i < 2, "is_ge": i > 0, "is_eq": i == 1,
                      "is_ne": i != 1}[seg]
                if ok:
                    r = r | g
            return r, st
        return None

    def liberr(self, e, dty):
        return e

    def isint(self, args, aty):
        for t in aty or []:
            if t is None:
                continue
            t = self.it.p.peel(t)
            if self.it.p.types[t]["k"] in ("int", "uint"):
                return True
        return False

    # ------------------------------------------------------------ Option / Result
    def optres(self, p, seg, args, st, dty, aty):
        it = self.it
        self0 = args[0] if args else None
        isopt = "option::Option" in p

        def name(x, i):
            if x.ty is not None:
                return it.p.types[x.ty]["vs"][i]["name"]
            return ("None", "Some")[i] if isopt else ("Ok", "Err")[i]

        def get():
            v = self0
            while isinstance(v, Ref):
                v = it.read(st, v.root, v.path)
            return self.cases(st, v)
        if seg in ("is_some", "is_none", "is_ok", "is_err"):
            r = FALSE
            for g, i, x in get():
                if name(x, i) == {"is_some": "Some", "is_none": "None", "is_ok": "Ok", "is_err": "Err"}[seg]:
                    r = r | g
            return r, st
        if seg in ("unwrap", "expect", "unwrap_unchecked"):
            r, good = None, FALSE
            for g, i, x in get():
                if name(x, i) in ("Some", "Ok"):
                    v = self.payload(st, x)
                    r = v if r is None else it.merge(g, v, r)
                    good = good | g
            bad = st.g & bnot(good)
            if bad is not FALSE:
                it.event(st, "panic", ("call", seg, None), bad)
            st.g = st.g & good
            if st.g is FALSE:
                return None, None
            return r, st
        if seg in ("unwrap_or", "unwrap_or_default", "unwrap_or_else", "map_or", "map_or_else", "map", "and_then",
                   "ok_or", "ok", "err", "ok_or_else", "map_err", "or", "or_else", "filter", "copied", "cloned",
                   "is_some_and", "is_ok_and", "is_none_or", "inspect", "flatten", "unwrap_err", "expect_err"):
            alts = []
            for g, i, x in get():
                n = name(x, i)
                good = n in ("Some", "Ok")

                def mkf(x=x, n=n, good=good):
                    def f(s):
                        pl = self.payload(s, x) if n != "None" else None
                        if seg == "unwrap_or":
                            return (pl if good else args[1]), s
                        if seg == "unwrap_or_default":
                            if good:
                                return pl, s
                            t = it.p.types[dty]
                            if t["k"] in ("float", "int", "uint"):
                                return ZERO, s
                            if t["k"] == "bool":
                                return FALSE, s
                            self.uns("default")
                        if seg == "unwrap_or_else":
                            return (pl, s) if good else it.apply(args[1], [] if n == "None" else [pl], s, dty)
                        if seg == "map_or":
                            return it.apply(args[2], [pl], s, dty) if good else (args[1], s)
                        if seg == "map_or_else":
                            return it.apply(args[2], [pl], s, dty) if good else it.apply(
                                args[1], [] if n == "None" else [pl], s, dty)
                        if seg == "map":
                            if good:
                                return self.wrap(it.apply(args[1], [pl], s), lambda v: self.enum(dty, n, v))
                            return (self.enum(dty, n) if n == "None" else self.enum(dty, n, pl)), s
                        if seg in ("and_then",):
                            if good:
                                return it.apply(args[1], [pl], s, dty)
                            return (self.enum(dty, n) if n == "None" else self.enum(dty, n, pl)), s
                        if seg in ("is_some_and", "is_ok_and"):
                            return it.apply(args[1], [pl], s, dty) if good else (FALSE, s)
                        if seg == "is_none_or":
                            return it.apply(args[1], [pl], s, dty) if good else (TRUE, s)
                        if seg == "ok_or":
                            return (self.enum(dty, "Ok", pl) if good else self.enum(dty, "Err", args[1])), s
                        if seg == "ok_or_else":
                            if good:
                                return self.enum(dty, "Ok", pl), s
                            return self.wrap(it.apply(args[1], [], s), lambda v: self.enum(dty, "Err", v))
                        if seg == "ok":
                            return (self.enum(dty, "Some", pl) if good else self.enum(dty, "None")), s
                        if seg == "err":
                            return (self.enum(dty, "None") if good else self.enum(dty, "Some", pl)), s
                        if seg == "map_err":
                            if good:
                                return self.enum(dty, "Ok", pl), s
                            return self.wrap(it.apply(args[1], [pl], s), lambda v: self.enum(dty, "Err", v))
                        if seg == "or":
                            if good:
                                return self.enum(dty, n, pl), s
                            return args[1], s
                        if seg == "or_else":
                            if good:
                                return self.enum(dty, n, pl), s
                            return it.apply(args[1], [] if n == "None" else [pl], s, dty)
                        if seg == "inspect":
                            if good:
                                s = it.apply(args[1], [self.tmpref_always(s, pl)], s)[1]
                            return (self.enum(dty, n) if n == "None" else self.enum(dty, n, pl)), s
                        if seg == "filter":
                            if not good:
                                return self.enum(dty, "None"), s
                            c, s2 = it.apply(args[1], [self.tmpref_always(s, pl)], s)
                            return self.opt(dty, c, pl), s2
                        if seg in ("copied", "cloned"):
                            if not good:
                                return (self.enum(dty, n) if n == "None" else self.enum(dty, n, pl)), s
                            return self.enum(dty, n, self.D1(s, pl)), s
                        self.uns(seg)
                    return f
                alts.append((g, mkf()))
            return self.branch(st, alts)
        if seg == "take" and isopt and isinstance(self0, Ref):
            old = it.read(st, self0.root, self0.path)
            t = dty
            it.write(st, self0.root, self0.path, self.enum(t, "None"))
            return old, st
        if seg in ("replace", "insert") and isopt and isinstance(self0, Ref):
            old = it.read(st, self0.root, self0.path)
            ty = dty if seg == "replace" else (it.p.peel(aty[0]) if aty and aty[0] is not None else None)
            it.write(st, self0.root, self0.path, self.enum(ty, "Some", args[1]))
            if seg == "replace":
                return old, st
            return Ref(self0.root, self0.path + (("v", 1), ("f", 0, None)), True), st
        return None

    # ------------------------------------------------------------ formatting
    def fmt(self, p, seg, args, st, dty):
        it = self.it
        if seg.startswith("new_") and "Argument" in p and args:
            return Agg("fmtarg", [self.snap_ref(st, args[0])], meta=seg), st
        if "Arguments" in p and seg in ("new", "new_v1", "new_v1_formatted", "from_str", "new_const", "from_str_nonconst"):
            return Agg("fmtargs", [self.snap_ref(st, a) for a in args], meta=seg), st
        if seg in ("write_fmt", "write_str", "pad"):
            it.event(st, "write", Agg("fmtargs", [self.snap_ref(st, a) for a in args[1:]], meta="w"))
            return self.it.fresh(mk("sym", "fmt_result"), dty) if dty is not None else None, st
        return None

    def snap_ref(self, st, v):
        try:
            return self.snapshot(st, v)
        except self.Uns:
            return v

    # ------------------------------------------------------------ sequences
    def rngvals(self, st, r):
        """(lo, hi) of a range value or None"""
        r = self.D(st, r)
        if isinstance(r, Iter) and r.kind == "range":
            return r.a
        if isinstance(r, Agg) and r.kind == "adt" and r.ty is not None:
            d = self.it.p.types[r.ty]["def"]
            d = d.split("::")[-1]
            if d == "Range":
                return r.fs[0], r.fs[1]
            if d == "RangeInclusive":
                return r.fs[0], add(r.fs[1], ONE)
            if d == "RangeFrom":
                return r.fs[0], None
            if d == "RangeTo":
                return None, r.fs[0]
            if d == "RangeToInclusive":
                return None, add(r.fs[0], ONE)
            if d == "RangeFull":
                return None, None
        return None

    def index_op(self, seg, args, st, dty):
        it = self.it
        idx = self.D(st, args[1])
        base = args[0]
        out = []
        for g, root, path in it.deref_locs(st, base):
            v = it.read(st, root, path)
            if isinstance(v, Ref):
                root, path = v.root, v.path
                v = it.read(st, root, path)
            n = it.seqlen(st, v)
            if isinstance(idx, E):
                bad = bnot(blt(idx, n)) if not idx.unk and not n.unk else FALSE
                gg = st.g if g is None else st.g & g
                if bad is not FALSE and (bad & gg) is not FALSE:
                    it.event(st, "panic", ("assert", "index"), bad & gg)
                    st.g = st.g & (bnot(bad) if g is None else bnot(bad & g))
                out.append((g, Ref(root, path + (("i", idx),), seg == "index_mut")))
                continue
            rg = self.rngvals(st, idx)
            if rg is None:
                self.uns("index with " + type(idx).__name__)
            lo, hi = rg
            l = lo if lo is not None else ZERO
            h = hi if hi is not None else n
            bad = blt(h, l) | blt(n, h)
            gg = st.g if g is None else st.g & g
            if (bad & gg) is not FALSE:
                it.event(st, "panic", ("assert", "slice"), bad & gg)
                st.g = st.g & bnot(bad)
            out.append((g, Ref(root, path + (("sub", l, h),), seg == "index_mut")))
        if st.g is FALSE:
            return None, None
        if len(out) == 1:
            return out[0][1], st
        return Choice([(g, r) for g, r in out]), st

    def seq_target(self, st, v):
        """(Ref to sequence, sequence value) for a slice / Vec / array argument"""
        it = self.it
        if isinstance(v, (Agg, SymSeq)):
            r = self.tmpref(st, v)
            return r, v
        if isinstance(v, Choice):
            vals = [x for _, x in v.alts]
            if all(isinstance(x, Ref) for x in vals):
                # merge the targets by value (shared access only)
                m = it.map_choice(st, v, lambda x: self.D(st, x))
                return self.tmpref(st, m), m
        r = v
        while isinstance(r, Ref):
            x = it.read(st, r.root, r.path)
            if isinstance(x, Ref):
                r = x
                continue
            if isinstance(x, (Agg, SymSeq)):
                return r, x
            break
        self.uns("sequence expected")

    def optional(self, v):
        if isinstance(v, Choice):
            return all(self.optional(x) for _, x in v.alts)
        return isinstance(v, (Agg, SymV)) and (not isinstance(v, Agg) or v.kind == "adt") and v.ty is not None and \
            self.is_ty(v.ty, "std::option::Option")

    def optiter(self, st, v):
        """iterator over the value of an option"""
        out = []
        for g, i, y in self.cases(st, v):
            if i == 1 and g is not FALSE:
                pl = self.payload(st, y)
                out.append(pl if g is TRUE else Maybe(g, pl))
        return Iter("list", tuple(out), 0)

    def items_of(self, st, ref, seq, mut=False):
        n = len(seq.fs)
        return [Ref(ref.root, ref.path + (("i", num(i)),), mut) for i in range(n)]

    def seqs(self, p, rp, seg, args, st, dty, aty, f):
        it = self.it
        D = self.D
        a0 = args[0] if args else None
        # ---- creation of iterators
        if seg in ("iter", "iter_mut") and len(args) == 1 and ("slice" in p or "array" in p or "vec" in p or "option" in p):
            return self.mkiter(st, a0, seg == "iter_mut"), st
        if seg == "into_iter" and len(args) == 1:
            v = a0
            if isinstance(v, Iter):
                return v, st
            rg = self.rngvals(st, v) if isinstance(v, Agg) else None
            if rg is not None and rg[0] is not None:
                return Iter("range", rg[0], rg[1]), st
            if isinstance(v, Agg) and v.kind == "array":
                return Iter("list", tuple(v.fs), 0), st
            if self.optional(v):
                return self.optiter(st, v), st
            if isinstance(v, SymSeq):
                return Iter("sym", v, None), st
            if isinstance(v, Ref):
                t = it.p.types[aty[0]] if aty and aty[0] is not None else {}
                tgt = it.read(st, v.root, v.path)
                if isinstance(tgt, Iter):
                    return v, st
                return self.mkiter(st, v, t.get("mut", False)), st
            return None
        if seg == "map" and len(args) == 2 and "array" in p and "iter" not in p:
            v = D(st, a0)
            if isinstance(v, Agg) and v.kind == "array":
                out = []
                for x in v.fs:
                    y, st = self.app(args[1], [x], st)
                    if st is None:
                        return None, None
                    out.append(y)
                return Agg("array", out), st
            return None
        if seg == "from_fn" and "array" in p and dty is not None and it.p.types[dty]["k"] == "array":
            out = []
            for i in range(it.p.types[dty]["len"]):
                y, st = self.app(args[0], [num(i)], st)
                if st is None:
                    return None, None
                out.append(y)
            return Agg("array", out), st
        if seg in ("each_ref", "each_mut") and "array" in p:
            ref, s = self.seq_target(st, a0)
            if isinstance(s, Agg):
                return Agg("array", self.items_of(st, ref, s, seg == "each_mut")), st
            return None
        if seg in ("windows", "chunks", "chunks_exact"):
            n = self.scal(st, args[1])
            ref, s = self.seq_target(st, a0)
            if isinstance(s, Agg) and isnum(n):
                k = int(nv(n))
                step = 1 if seg == "windows" else k
                L = len(s.fs)
                r = [Ref(ref.root, ref.path + (("sub", num(i), num(i + k)),)) for i in range(0, L - k + 1, step)]
                if seg == "chunks" and L % k:
                    r.append(Ref(ref.root, ref.path + (("sub", num(L - L % k), num(L)),)))
                return Iter("list", tuple(r), 0), st
            return None
        if seg in ("len", "is_empty") and ("slice" in p or "vec" in p or "Vec" in p):
            v = D(st, a0)
            n = it.seqlen(st, v)
            return (n if seg == "len" else beq(n, ZERO)), st
        if seg in ("first", "last", "get", "first_mut", "last_mut", "get_mut", "get_unchecked") and "slice" in p:
            ref, s = self.seq_target(st, a0)
            n = it.seqlen(st, s)
            if seg.startswith("first"):
                i = ZERO
            elif seg.startswith("last"):
                i = sub(n, ONE)
            else:
                i = D(st, args[1])
                if not isinstance(i, E):
                    return None
            r = Ref(ref.root, ref.path + (("i", i),), seg.endswith("mut"))
            if seg == "get_unchecked":
                return r, st
            return self.opt(dty, blt(ZERO, n) if not seg.startswith("get") else blt(i, n), r), st
        if seg == "split_at":
            ref, s = self.seq_target(st, a0)
            i = self.scal(st, args[1])
            n = it.seqlen(st, s)
            return Agg("tuple", [Ref(ref.root, ref.path + (("sub", ZERO, i),)),
                                 Ref(ref.root, ref.path + (("sub", i, n),))]), st
        if seg in ("copy_from_slice", "clone_from_slice"):
            ref, s = self.seq_target(st, a0)
            _, src = self.seq_target(st, args[1])
            n, m = it.seqlen(st, s), it.seqlen(st, src)
            bad = bnot(beq(n, m))
            if (bad & st.g) is not FALSE:
                it.event(st, "panic", ("call", "copy_from_slice length", None), bad & st.g)
                st.g = st.g & bnot(bad)
                if st.g is FALSE:
                    return None, None
            it.write(st, ref.root, ref.path, Agg("array", src.fs) if isinstance(src, Agg) else src)
            return Agg("tuple", []), st
        if seg == "fill":
            ref, s = self.seq_target(st, a0)
            it.write(st, ref.root, ref.path, s.with_fs([args[1]] * len(s.fs)))
            return Agg("tuple", []), st
        if seg in ("swap",) and "slice" in p:
            ref, s = self.seq_target(st, a0)
            i, j = self.scal(st, args[1]), self.scal(st, args[2])
            if isnum(i) and isnum(j):
                fs = list(s.fs)
                fs[int(nv(i))], fs[int(nv(j))] = fs[int(nv(j))], fs[int(nv(i))]
                it.write(st, ref.root, ref.path, s.with_fs(fs))
                return Agg("tuple", []), st
            return None
        if seg in ("to_vec", "into_boxed_slice", "to_owned", "into_vec") and len(args) == 1:
            v = D(st, a0)
            if isinstance(v, (Agg, SymSeq)):
                if seg == "into_boxed_slice":
                    return self.tmpref(st, v), st
                return v, st
            return None
        if seg in ("is_sorted",) and "slice" in p:
            _, s = self.seq_target(st, a0)
            if isinstance(s, Agg):
                r = TRUE
                for x, y in zip(s.fs, s.fs[1:]):
                    r = r & bnot(blt(y, x))
                return r, st
            return None
        if seg == "is_sorted_by" and "slice" in p:
            ref, s = self.seq_target(st, a0)
            if isinstance(s, Agg):
                refs = self.items_of(st, ref, s)
                r = TRUE
                for x, y in zip(refs, refs[1:]):
                    c, st = self.app(args[1], [x, y], st)
                    r = r & c
                return r, st
            return None
        if seg == "contains" and "slice" in p:
            _, s = self.seq_target(st, a0)
            if isinstance(s, Agg):
                r = FALSE
                for x in s.fs:
                    r = r | self.eq(st, x, args[1])
                return r, st
            return None
        if seg == "partition_point":
            ref, s = self.seq_target(st, a0)
            if not isinstance(s, Agg):
                return None
            # on a partitioned slice: the first index whose predicate is false
            r = num(len(s.fs))
            cs = []
            for x in self.items_of(st, ref, s):
                c, st = self.app(args[1], [x], st)
                cs.append(c)
            for i in range(len(cs) - 1, -1, -1):
                r = ite(cs[i], r, num(i))
            return r, st
        if seg in ("binary_search_by", "binary_search_by_key", "binary_search"):
            ref, s = self.seq_target(st, a0)
            if not isinstance(s, Agg):
                return None
            # on a sorted slice: the index of an equal element, else of the place for it
            below, r = [], None
            hits = []
            for i, x in enumerate(self.items_of(st, ref, s)):
                if seg == "binary_search_by":
                    v, st = self.app(args[1], [x], st)
                    lt, eq, _ = self.order(st, v)
                else:
                    y = x
                    if seg == "binary_search_by_key":
                        y, st = self.app(args[2], [x], st)
                    y, z = self.D(st, y), self.D(st, args[1])
                    if not isinstance(y, E) or not isinstance(z, E):
                        return None
                    lt, eq = blt(y, z), beq(y, z)
                below.append(lt)
                hits.append(eq)
            n = num(len(below))
            for i in range(len(below) - 1, -1, -1):
                n = ite(below[i], n, num(i))
            r = self.enum(dty, "Err", n)
            for i in range(len(hits) - 1, -1, -1):
                r = it.merge(hits[i], self.enum(dty, "Ok", num(i)), r)
            return r, st
        if seg in ("push",) and ("vec" in p or "Vec" in p):
            if isinstance(a0, Ref):
                v = it.read(st, a0.root, a0.path)
                if isinstance(v, Agg) and v.kind == "array":
                    it.write(st, a0.root, a0.path, v.with_fs(v.fs + (args[1],)))
                    return Agg("tuple", []), st
            return None
        if "Vec" in p or "slice" in p and seg == "reverse":
            r = self.vecs(seg, args, st, dty)
            if r is not None:
                return r
        if seg in ("new", "with_capacity") and "Vec" in p:
            return Agg("array", []), st
        if p.endswith("boxed::Box::<T>::new") or (seg == "new" and "boxed::Box" in p):
            return self.tmpref(st, a0), st
        if "boxed" in p and seg in ("box_new",):
            return self.tmpref(st, a0), st
        # ---- iterator methods
        if "iter" in p or "Iterator" in p or "slice::Iter" in rp:
            return self.iters(p, rp, seg, args, st, dty, aty)
        return None

    def vecs(self, seg, args, st, dty):
        """methods that change a vector of known length"""
        it = self.it
        if seg not in ("pop", "truncate", "clear", "insert", "remove", "swap_remove", "reverse", "append", "extend_from_slice", "extend",
                       "retain", "split_off", "resize", "dedup", "dedup_by", "dedup_by_key") or not args or not isinstance(args[0], Ref):
            return None
        ref, s = self.seq_target(st, args[0])
        if not isinstance(s, Agg) or s.kind != "array":
            return None
        fs, unit = list(s.fs), Agg("tuple", [])

        def put(fs, r=unit):
            it.write(st, ref.root, ref.path, s.with_fs(tuple(fs)))
            return r, st

        def at(k):
            i = self.scal(st, args[k])
            return int(nv(i)) if isnum(i) else None
        if seg == "pop":
            if not fs:
                return self.enum(dty, "None"), st
            return put(fs[:-1], self.enum(dty, "Some", fs[-1]))
        if seg == "clear":
            return put([])
        if seg == "reverse":
            return put(fs[::-1])
        if seg in ("truncate", "insert", "remove", "swap_remove", "split_off", "resize"):
            i = at(1)
            if i is None or i > len(fs) and seg not in ("truncate", "resize") or i == len(fs) and seg in ("remove", "swap_remove"):
                return None
            if seg == "truncate":
                return put(fs[:i])
            if seg == "resize":
                return put((fs + [args[2]] * max(0, i - len(fs)))[:i])
            if seg == "insert":
                return put(fs[:i] + [args[2]] + fs[i:])
            if seg == "remove":
                return put(fs[:i] + fs[i + 1:], fs[i])
            if seg == "swap_remove":
                x, fs[i] = fs[i], fs[-1]
                return put(fs[:-1], x)
            return put(fs[:i], s.with_fs(tuple(fs[i:])))
        if seg in ("append", "extend_from_slice"):
            r2, o = self.seq_target(st, args[1])
            if not isinstance(o, Agg) or o.kind != "array":
                return None
            if seg == "append":
                it.write(st, r2.root, r2.path, o.with_fs(()))
            return put(fs + list(o.fs))
        if seg == "extend":
            v = args[1]
            if isinstance(v, Agg) and v.kind == "array":
                return put(fs + list(v.fs))
            v = self.D(st, v)
            items = self.force(v, st) if isinstance(v, Iter) else None
            if items is None or any(isinstance(x, Maybe) for x in items[0]):
                return None
            st = items[1]
            return put(fs + [self.D1(st, x) if isinstance(x, Ref) else x for x in items[0]])
        if seg in ("retain", "dedup", "dedup_by", "dedup_by_key"):
            alts = [(TRUE, ())]
            for i, x in enumerate(fs):
                nxt = []
                if seg == "retain":
                    c, st = self.app(args[1], [Ref(ref.root, ref.path + (("i", num(i)),))], st)
                for g, ys in alts:
                    if seg.startswith("dedup"):
                        c = TRUE
                        if ys and seg == "dedup":
                            c = bnot(self.eq(st, ys[-1], x))
                        elif ys:
                            a, b = (self.tmpref_always(st, self.D1(st, y) if isinstance(y, Ref) else y) for y in (x, ys[-1]))
                            if seg == "dedup_by":
                                same, st = self.app(args[1], [a, b], st)
                            else:
                                a, st = self.app(args[1], [a], st)
                                b, st = self.app(args[1], [b], st)
                                same = self.eq(st, a, b)
                            c = bnot(same)
                    if (g & c) is not FALSE:
                        nxt.append((g & c, ys + (x,)))
                    if (g & bnot(c)) is not FALSE:
                        nxt.append((g & bnot(c), ys))
                alts = nxt
                if len(alts) > 16:
                    return None
            if len(alts) == 1:
                return put(alts[0][1])
            it.write(st, ref.root, ref.path, Choice([(g, s.with_fs(ys)) for g, ys in alts]))
            return unit, st
        return None

    def mkiter(self, st, v, mut):
        ref, s = self.seq_target(st, v)
        if isinstance(s, Agg) and s.kind in ("array", "mat"):
            return Iter("list", tuple(self.items_of(st, ref, s, mut)), 0)
        if isinstance(s, SymSeq):
            return Iter("sym", s, Ref(ref.root, ref.path, mut))
        self.uns("iterator over " + type(s).__name__)

    def iters(self, p, rp, seg, args, st, dty, aty):
        it = self.it
        a0 = args[0] if args else None
        holder = a0
        ref = None
        while isinstance(holder, Ref):
            ref = holder
            holder = it.read(st, holder.root, holder.path)
        if isinstance(holder, Agg):
            rg = self.rngvals(st, holder) if holder.kind == "adt" and holder.ty is not None and \
                "ops::Range" in it.p.types[holder.ty].get("def", "") else None
            if rg is not None and rg[0] is not None:
                holder = Iter("range", rg[0], rg[1])
        if not isinstance(holder, Iter):
            return None
        if seg == "next":
            return self.next(ref, holder, st, dty)
        if seg == "next_back":
            items = self.force(holder, st)
            if items is None or ref is None:
                self.uns("next_back")
            items, st = items
            if not items:
                it.write(st, ref.root, ref.path, Iter("list", (), 0))
                return self.enum(dty, "None"), st
            it.write(st, ref.root, ref.path, Iter("list", tuple(items[:-1]), 0))
            return self.enum(dty, "Some", items[-1]), st
        byref = ref is not None
        if seg in ("map", "filter", "enumerate", "zip", "rev", "cloned", "copied", "skip", "take", "chain", "step_by",
                   "take_while", "skip_while", "filter_map", "flat_map", "inspect", "peekable", "by_ref", "scan",
                   "fuse", "flatten"):
            if byref:
                if seg == "by_ref":
                    return a0, st
                self.uns("adaptor on borrowed iterator")
            if seg in ("map", "filter", "take_while", "skip_while", "filter_map", "inspect", "flat_map"):
                return Iter(seg, holder, args[1]), st
            if seg in ("enumerate", "rev", "cloned", "copied", "flatten"):
                return Iter(seg, holder), st
            if seg == "fuse":
                return holder, st
            if seg in ("skip", "take", "step_by"):
                return Iter(seg, holder, self.scal(st, args[1])), st
            if seg in ("zip", "chain"):
                b = args[1]
                if not isinstance(b, Iter):
                    if isinstance(b, Agg) and b.kind == "array":
                        b = Iter("list", tuple(b.fs), 0)
                    elif self.optional(b):
                        b = self.optiter(st, b)
                    elif isinstance(b, Agg):
                        rg = self.rngvals(st, b)
                        if rg is None or rg[0] is None:
                            self.uns("zip")
                        b = Iter("range", *rg)
                    elif isinstance(b, Ref):
                        b = self.mkiter(st, b, False)
                    else:
                        self.uns("zip")
                return Iter(seg, holder, b), st
            self.uns("iterator adaptor " + seg)
        if seg in ("sum", "product", "count", "fold", "for_each", "all", "any", "find", "position", "last", "nth",
                   "collect", "max_by", "min_by", "find_map", "reduce", "rposition", "len", "try_for_each", "max",
                   "min", "partition_point", "eq", "try_fold", "is_sorted", "is_sorted_by", "is_sorted_by_key"):
            done = self.force(holder, st)
            if done is not None:
                items, st = done
                if ref is not None and seg not in ("len",):
                    # consumed through a reference: exhausted afterwards (early exits not tracked)
                    # where a short-circuiting consumer stopped is not tracked: later uses are unsupported
                    short = seg in ("find", "position", "any", "all", "nth", "find_map", "try_fold", "try_for_each")
                    it.write(st, ref.root, ref.path, Iter("poison") if short else Iter("list", (), 0))
                return self.reduce(seg, items, args, st, dty)
            return self.reduce_sym(seg, holder, args, st, dty)
        return None

    def next(self, ref, itv, st, dty):
        from interp import NeedSummary
        it = self.it
        if itv.kind == "bound":
            return self.enum(dty, "Some", itv.a[0]), st
        if itv.kind == "list" and not any(isinstance(x, Maybe) for x in itv.a[0]):
            items, pos = itv.a
            if pos >= len(items):
                return self.enum(dty, "None"), st
            it.write(st, ref.root, ref.path, Iter("list", items, pos + 1))
            return self.enum(dty, "Some", items[pos]), st
        if itv.kind == "range":
            lo, hi = itv.a
            if hi is None:
                it.write(st, ref.root, ref.path, Iter("range", add(lo, ONE), None))
                return self.enum(dty, "Some", lo), st
            c = blt(lo, hi)
            if c is TRUE:
                it.write(st, ref.root, ref.path, Iter("range", add(lo, ONE), hi))
                return self.enum(dty, "Some", lo), st
            if c is FALSE:
                return self.enum(dty, "None"), st
            if isnum(lo) and not hi.unk and hi.op == "ite" or isnum(hi) and not lo.unk and it.unroll:
                # bounded by a choice of constants: step under the guard
                it.write(st, ref.root, ref.path, Iter("range", add(lo, ONE), hi))
                return self.opt(dty, c, lo), st
            raise NeedSummary(ref.root, ref.path, itv)
        # adaptors: lazily step when concrete
        r = self.step(itv, st)
        if r is None:
            raise NeedSummary(ref.root, ref.path, itv)
        some, item, new, st = r
        it.write(st, ref.root, ref.path, new)
        if some is FALSE:
            return self.enum(dty, "None"), st
        return self.opt(dty, some, item), st

    def step(self, itv, st):
        """one step of a concrete iterator: (has item, item, rest, state) or None if symbolic.
        filter-like adaptors with symbolic predicates are not stepped one by one."""
        it = self.it
        k = itv.kind
        if k == "poison":
            self.uns("iterator after a short-circuiting consumer")
        if k == "list":
            items, pos = itv.a
            return self.pop(st, items[pos:], itv)
        if k == "range":
            lo, hi = itv.a
            if hi is None:
                return TRUE, lo, Iter("range", add(lo, ONE), None), st
            c = blt(lo, hi)
            if c is TRUE:
                return TRUE, lo, Iter("range", add(lo, ONE), hi), st
            if c is FALSE:
                return FALSE, None, itv, st
            return None
        if k == "map":
            r = self.step(itv.a[0], st)
            if r is None:
                return None
            s, x, rest, st = r
            if s is FALSE:
                return FALSE, None, Iter("map", rest, itv.a[1]), st
            v, st = self.app(itv.a[1], [x], st)
            if st is None:
                self.uns("diverging closure")
            return s, v, Iter("map", rest, itv.a[1]), st
        if k in ("cloned", "copied"):
            r = self.step(itv.a[0], st)
            if r is None:
                return None
            s, x, rest, st = r
            return s, (None if s is FALSE else self.D1(st, x)), Iter(k, rest), st
        if k == "enumerate":
            inner = itv.a[0]
            i = itv.a[1] if len(itv.a) > 1 else ZERO
            r = self.step(inner, st)
            if r is None:
                return None
            s, x, rest, st = r
            return s, (None if s is FALSE else Agg("tuple", [i, x])), Iter("enumerate", rest, add(i, ONE)), st
        if k == "zip":
            r = self.step(itv.a[0], st)
            if r is None:
                return None
            s, x, rest, st = r
            if s is FALSE:
                return FALSE, None, itv, st
            r2 = self.step(itv.a[1], st)
            if r2 is None:
                return None
            s2, y, rest2, st = r2
            if s2 is FALSE:
                return FALSE, None, itv, st
            return s & s2, Agg("tuple", [x, y]), Iter("zip", rest, rest2), st
        if k in ("rev", "skip", "take", "chain", "step_by", "filter", "take_while", "skip_while", "filter_map",
                 "flat_map", "flatten", "inspect"):
            r = self.force(itv, st)
            if r is None:
                return None
            items, st = r
            return self.pop(st, items, itv)
        return None

    def pop(self, st, items, itv):
        """first item that is present, and those left after it"""
        if not items:
            return FALSE, None, Iter("list", (), 0), st
        if not any(isinstance(x, Maybe) for x in items):
            return TRUE, items[0], Iter("list", tuple(items), 1), st
        some, alts, rest = FALSE, [], []
        for x in items:
            c, v = (x.c, x.v) if isinstance(x, Maybe) else (TRUE, x)
            first = c & bnot(some)
            if first is not FALSE:
                alts.append((first, v))
            left = c & some
            if left is not FALSE:
                rest.append(v if left is TRUE else Maybe(left, v))
            some = some | c
        r = alts[-1][1]
        for g, v in reversed(alts[:-1]):
            r = self.it.merge(g, v, r)
        return some, r, Iter("list", tuple(rest), 0), st

    def force(self, itv, st):
        """all items of a concrete iterator ([values], state) or None.  Items filtered by a
        symbolic predicate are represented by Cond pairs only in `reduce`."""
        it = self.it
        k = itv.kind
        if k == "poison":
            self.uns("iterator after a short-circuiting consumer")
        if k == "list":
            return list(itv.a[0][itv.a[1]:]), st
        if k == "range":
            lo, hi = itv.a
            if hi is not None and isnum(lo) and isnum(hi) and nv(hi) - nv(lo) < 4000:
                return [num(i) for i in range(int(nv(lo)), int(nv(hi)))], st
            return None
        if k in ("map", "cloned", "copied", "enumerate"):
            r = self.force(itv.a[0], st)
            if r is None:
                return None
            items, st = r
            out = []
            base = itv.a[1] if k == "enumerate" and len(itv.a) > 1 else ZERO
            for i, x in enumerate(items):
                if isinstance(x, Maybe):
                    if k == "enumerate":
                        self.uns("enumerate after filter")
                    s = st.copy()
                    s.g = st.g & x.c
                    if k == "map":
                        v, s2 = it.apply(itv.a[1], [x.v], s)
                        if s2 is None:
                            self.uns("diverging closure")
                        o = st.copy()
                        o.g = st.g & bnot(x.c)
                        st = it.merge_states([s2, o])
                    else:
                        v = self.D1(st, x.v)
                    out.append(Maybe(x.c, v))
                    continue
                if k == "map":
                    v, st = self.app(itv.a[1], [x], st)
                    if st is None:
                        self.uns("diverging closure")
                elif k == "enumerate":
                    v = Agg("tuple", [add(base, num(i)), x])
                else:
                    v = self.D1(st, x)
                out.append(v)
            return out, st
        if k in ("rev", "chain", "zip", "skip", "take", "step_by"):
            r = self.force(itv.a[0], st)
            if r is None:
                if k == "zip":
                    r2 = self.force(itv.a[1], st)
                    if r2 is not None and itv.a[0].kind == "range" and itv.a[0].a[1] is None:
                        b, st = r2
                        return [Agg("tuple", [add(itv.a[0].a[0], num(i)), y]) for i, y in enumerate(b)], st
                if k == "take" and itv.a[0].kind == "range" and itv.a[0].a[1] is None and isnum(itv.a[1]):
                    return [add(itv.a[0].a[0], num(i)) for i in range(int(nv(itv.a[1])))], st
                return None
            items, st = r
            if any(isinstance(x, Maybe) for x in items) and k != "chain" and k != "rev":
                self.uns(k + " after filter")
            if k == "rev":
                return items[::-1], st
            if k in ("skip", "take", "step_by"):
                if not isnum(itv.a[1]):
                    return None
                n = int(nv(itv.a[1]))
                return (items[n:] if k == "skip" else items[:n] if k == "take" else items[::n]), st
            b = itv.a[1]
            if k == "zip" and b.kind == "range" and b.a[1] is None:
                return [Agg("tuple", [x, add(b.a[0], num(i))]) for i, x in enumerate(items)], st
            r2 = self.force(b, st)
            if r2 is None:
                return None
            b, st = r2
            if k == "chain":
                return items + b, st
            return [Agg("tuple", [x, y]) for x, y in zip(items, b)], st
        if k in ("filter", "take_while", "skip_while"):
            r = self.force(itv.a[0], st)
            if r is None:
                return None
            items, st = r
            out = []
            run = TRUE
            for x in items:
                c0 = TRUE
                if isinstance(x, Maybe):
                    c0, x = x.c, x.v
                c, st = self.app(itv.a[1], [self.tmpref_always(st, x)], st)
                if not isinstance(c, B):
                    self.uns("predicate")
                if k == "filter":
                    cc = c0 & c
                elif k == "take_while":
                    run = run & (bnot(c0) | c)
                    cc = run & c0
                else:
                    run = run & c
                    cc = c0 & bnot(run)
                cc = restrict(cc, st.g) if (cc & st.g) is not FALSE else FALSE
                if cc is FALSE:
                    continue
                out.append(x if cc is TRUE else Maybe(cc, x))
            return out, st
        if k == "filter_map":
            r = self.force(itv.a[0], st)
            if r is None:
                return None
            items, st = r
            out = []
            for x in items:
                if isinstance(x, Maybe):
                    self.uns("filter_map after filter")
                v, st = self.app(itv.a[1], [x], st)
                for g, i, y in self.cases(st, v):
                    if i == 1:
                        pl = self.payload(st, y)
                        out.append(pl if g is TRUE else Maybe(g, pl))
            return out, st
        if k in ("flat_map", "flatten"):
            r = self.force(itv.a[0], st)
            if r is None:
                return None
            items, st = r
            out = []
            for x in items:
                if isinstance(x, Maybe):
                    self.uns("flatten after filter")
                if k == "flat_map":
                    x, st = self.app(itv.a[1], [x], st)
                if isinstance(x, Iter):
                    r = self.force(x, st)
                    if r is None:
                        return None
                    out += r[0]
                    st = r[1]
                elif isinstance(x, Agg) and x.kind == "array":
                    out += list(x.fs)
                elif isinstance(x, Ref):
                    i2 = self.mkiter(st, x, False)
                    r = self.force(i2, st)
                    if r is None:
                        return None
                    out += r[0]
                elif self.isenumlike(x):
                    for g, i, y in self.cases(st, x):
                        if i == 1:
                            pl = self.payload(st, y)
                            out.append(pl if g is TRUE else Maybe(g, pl))
                else:
                    self.uns("flatten")
            return out, st
        if k == "inspect":
            r = self.force(itv.a[0], st)
            if r is None:
                return None
            items, st = r
            for x in items:
                if isinstance(x, Maybe):
                    self.uns("inspect after filter")
                _, st = self.app(itv.a[1], [self.tmpref_always(st, x)], st)
            return items, st
        return None

    def tmpref_always(self, st, v):
        self.it.nframes += 1
        root = ("tmp", self.it.nframes)
        st.mem[root] = v
        return Ref(root, ())

    def zero_of(self, dty, v):
        if isinstance(v, Agg) and v.kind == "mat":
            return mat(v.meta[0], v.meta[1], [ZERO] * len(v.fs))
        if dty is not None:
            d = self.it.matdim(self.it.p.types[dty]) if self.it.p.types[dty]["k"] == "adt" else None
            if d:
                return mat(d[0], d[1], [ZERO] * (d[0] * d[1]))
        return ZERO

    def reduce(self, seg, items, args, st, dty):
        it = self.it
        D = self.D

        def guarded(c, f, st):
            """run f under guard c; returns state"""
            if c is TRUE:
                return f(st)
            s = st.copy()
            s.g = st.g & c
            if s.g is FALSE:
                return st
            o = st.copy()
            o.g = st.g & bnot(c)
            try:
                s2 = f(s)
            except self._dead():
                s2 = None
            return it.merge_states([x for x in (s2, o) if x is not None and x.g is not FALSE])

        if seg == "sum" or seg == "product":
            acc = None
            for x in items:
                c, v = (x.c, x.v) if isinstance(x, Maybe) else (TRUE, x)
                v = D(st, v)
                if acc is None:
                    acc = self.zero_of(dty, v) if seg == "sum" else ONE
                if isinstance(v, Agg) and v.kind == "mat":
                    nx = mat(v.meta[0], v.meta[1], [add(p, q) for p, q in zip(acc.fs, v.fs)])
                elif isinstance(v, E):
                    nx = add(acc, v) if seg == "sum" else mul(acc, v)
                else:
                    self.uns("sum")
                acc = it.merge(c, nx, acc)
            if acc is None:
                acc = self.zero_of(dty, None) if seg == "sum" else ONE
            return acc, st
        if seg in ("count", "len"):
            n = ZERO
            for x in items:
                n = add(n, ite(x.c, ONE, ZERO) if isinstance(x, Maybe) else ONE)
            return n, st
        if seg == "for_each":
            for x in items:
                c, v = (x.c, x.v) if isinstance(x, Maybe) else (TRUE, x)
                st = guarded(c, lambda s: it.apply(args[1], [v], s)[1], st)
                if st is None:
                    return None, None
            return Agg("tuple", []), st
        if seg in ("fold",):
            acc = args[1]
            for x in items:
                c, v = (x.c, x.v) if isinstance(x, Maybe) else (TRUE, x)
                if c is TRUE:
                    acc, st = self.app(args[2], [acc, v], st)
                    if st is None:
                        return None, None
                else:
                    s = st.copy()
                    s.g = st.g & c
                    a2, s2 = it.apply(args[2], [acc, v], s)
                    o = st.copy()
                    o.g = st.g & bnot(c)
                    st = it.merge_states([s2, o])
                    acc = it.merge(c, a2, acc)
            return acc, st
        if seg in ("min_by", "max_by"):
            if not items:
                return self.enum(dty, "None"), st
            if any(isinstance(x, Maybe) for x in items):
                self.uns(seg + " after filter")
            acc = items[0]
            for x in items[1:]:
                r, st = self.app(args[1], [self.tmpref_always(st, acc), self.tmpref_always(st, x)], st)
                gt = self.order(st, r)[2]
                # the first of equal least elements, the last of equal greatest ones
                acc = it.merge(gt, x, acc) if seg == "min_by" else it.merge(gt, acc, x)
            return self.enum(dty, "Some", acc), st
        if seg == "reduce":
            if not items:
                return self.enum(dty, "None"), st
            if any(isinstance(x, Maybe) for x in items):
                self.uns("reduce after filter")
            acc = items[0]
            for x in items[1:]:
                acc, st = self.app(args[1], [acc, x], st)
            return self.enum(dty, "Some", acc), st
        if seg in ("all", "any"):
            r = TRUE if seg == "all" else FALSE
            for x in items:
                c, v = (x.c, x.v) if isinstance(x, Maybe) else (TRUE, x)
                # short circuit: the predicate runs only while undecided
                live = r if seg == "all" else bnot(r)
                box = []

                def f(s):
                    b, s2 = it.apply(args[1], [v], s)
                    box.append(b)
                    return s2
                st = guarded(c & live, f, st)
                if st is None:
                    return None, None
                if not box:
                    continue
                b = box[0]
                if not isinstance(b, B):
                    self.uns("predicate")
                r = r & (bnot(c) | b) if seg == "all" else r | (c & b)
            return r, st
        if seg in ("try_for_each", "try_fold"):
            return self.tries(seg, items, args, st, dty)
        if seg in ("find", "position", "find_map"):
            alts = []
            rest = TRUE
            for i, x in enumerate(items):
                c, v = (x.c, x.v) if isinstance(x, Maybe) else (TRUE, x)
                if isinstance(x, Maybe) and seg == "position":
                    self.uns("position after filter")
                # the predicate runs only while nothing was found
                box = []

                def f(s):
                    b, s2 = it.apply(args[1], [self.tmpref_always(s, v) if seg == "find" else v], s)
                    box.append(b)
                    return s2
                st = guarded(rest & c, f, st)
                if st is None:
                    return None, None
                if not box:
                    continue
                b = box[0]
                if b is None:
                    rest = rest & bnot(c)
                    continue
                if seg == "find_map":
                    for g, vi, y in self.cases(st, b):
                        if vi == 1:
                            alts.append((rest & c & g, self.enum(dty, "Some", self.payload(st, y))))
                            rest = rest & bnot(c & g)
                    continue
                if not isinstance(b, B):
                    self.uns("predicate")
                alts.append((rest & c & b, self.enum(dty, "Some", v if seg == "find" else num(i))))
                rest = rest & bnot(c & b)
            r = self.enum(dty, "None")
            for g, v in reversed(alts):
                r = it.merge(g, v, r)
            return r, st
        if seg == "last":
            if any(isinstance(x, Maybe) for x in items):
                self.uns("last after filter")
            return (self.enum(dty, "Some", items[-1]) if items else self.enum(dty, "None")), st
        if seg == "nth":
            n = self.scal(st, args[1])
            if isnum(n) and not any(isinstance(x, Maybe) for x in items):
                i = int(nv(n))
                return (self.enum(dty, "Some", items[i]) if i < len(items) else self.enum(dty, "None")), st
            self.uns("nth")
        if seg == "collect":
            if any(isinstance(x, Maybe) for x in items):
                self.uns("collect after filter")
            t = it.p.types[dty] if dty is not None else {}
            if t.get("def") == "std::vec::Vec":
                return Agg("array", items), st
            if t.get("def") == "std::boxed::Box":
                return self.tmpref(st, Agg("array", items)), st
            self.uns("collect")
        if seg in ("max", "min") and items and not any(isinstance(x, Maybe) for x in items):
            acc = self.scal(st, items[0])
            for x in items[1:]:
                acc = self.f64(seg, [acc, self.scal(st, x)], st)
            return self.enum(dty, "Some", acc), st
        if seg in ("is_sorted",):
            r = TRUE
            for x, y in zip(items, items[1:]):
                r = r & bnot(blt(self.scal(st, y), self.scal(st, x)))
            return r, st
        self.uns("iterator " + seg)

    def tries(self, seg, items, args, st, dty):
        """try_for_each / try_fold: the closure runs on an item only where all before it succeeded"""
        it = self.it
        acc = Agg("tuple", []) if seg == "try_for_each" else args[1]
        fn = args[-1]
        live, stops = TRUE, []
        for x in items:
            c, v = (x.c, x.v) if isinstance(x, Maybe) else (TRUE, x)
            run = live & c
            if (run & st.g) is FALSE:
                continue
            s, o = st.copy(), st.copy()
            s.g, o.g = st.g & run, st.g & bnot(run)
            r, s2 = it.apply(fn, [v] if seg == "try_for_each" else [acc, v], s)
            if s2 is None:
                if o.g is FALSE:
                    return None, None
                st = o
                live = live & bnot(c)
                continue
            st = it.merge_states([y for y in (s2, o) if y.g is not FALSE])
            good = FALSE
            for g, i, y in self.cases(st, r):
                n = it.p.types[y.ty]["vs"][i]["name"] if y.ty is not None else ("Ok", "Err")[i]
                if n in ("Ok", "Some", "Continue"):
                    good = good | g
                    acc = it.merge(run & g, self.payload(st, y), acc)
                else:
                    stops.append((run & g, y))
            live = live & (bnot(c) | good)
        t = it.p.types[dty] if dty is not None else None
        if t is None or t["k"] != "adt":
            self.uns(seg)
        names = [v["name"] for v in t["vs"]]
        r = self.enum(dty, next(n for n in ("Ok", "Some", "Continue") if n in names), acc)
        for g, y in reversed(stops):
            r = it.merge(g, y, r)
        return r, st

    def reduce_sym(self, seg, itv, args, st, dty):
        it = self.it
        bv = it.bvdepth
        it.bvdepth += 1
        try:
            n, flt, item, st = self.sym_items(itv, st, bv)
            if seg == "sum":
                v = self.D(st, item)
                if isinstance(v, Agg) and v.kind == "mat":
                    from interp import mksum
                    return mat(v.meta[0], v.meta[1], [mksum(bv, n, ite(flt, x, ZERO)) for x in v.fs]), st
                from interp import mksum
                return mksum(bv, n, ite(flt, v, ZERO)), st
            if seg in ("all", "any"):
                from interp import exists
                c, st = self.app(args[1], [item], st)
                if seg == "any":
                    return exists(bv, n, flt & c), st
                return bnot(exists(bv, n, flt & bnot(c))), st
            if seg in ("count", "len"):
                from interp import mksum
                return mksum(bv, n, ite(flt, ONE, ZERO)), st
        finally:
            it.bvdepth -= 1
        self.uns("symbolic iterator " + seg)

    def sym_items(self, itv, st, bv):
        it = self.it
        k = itv.kind
        i = mk("bv", bv)
        if k == "sym":
            s, ref = itv.a
            if ref is None:
                return s.len(), TRUE, it.seq_elem(s, i), st
            return s.len(), TRUE, Ref(ref.root, ref.path + (("i", i),), ref.mut), st
        if k == "range":
            lo, hi = itv.a
            return sub(hi, lo), TRUE, add(lo, i), st
        if k == "map":
            n, c, x, st = self.sym_items(itv.a[0], st, bv)
            v, st = self.app(itv.a[1], [x], st)
            if st is None:
                self.uns("diverging closure")
            return n, c, v, st
        if k == "filter":
            n, c, x, st = self.sym_items(itv.a[0], st, bv)
            b, st = self.app(itv.a[1], [self.tmpref_always(st, x)], st)
            return n, c & b, x, st
        if k in ("cloned", "copied"):
            n, c, x, st = self.sym_items(itv.a[0], st, bv)
            return n, c, self.D1(st, x), st
        if k == "enumerate":
            n, c, x, st = self.sym_items(itv.a[0], st, bv)
            if c is not TRUE:
                self.uns("enumerate after filter")
            return n, c, Agg("tuple", [i, x]), st
        self.uns("symbolic iterator " + k)

    def consume(self, itv, st, bvid):
        r = self.force(itv, st)
        if r is not None:
            return ("list", r[0], r[1])
        n, c, x, st = self.sym_items(itv, st, bvid)
        return ("sym", n, c, x, st)

    # ------------------------------------------------------------ constructors
    def ctor(self, t, args, st, dty):
        """tuple struct / variant constructor used as a function"""
        ty = t.get("ctor_ty", dty)
        if ty is None:
            self.uns("constructor type")
        tt = self.it.p.types[ty]
        name = t["path"].split("::")[-1]
        for i, v in enumerate(tt["vs"]):
            if v["name"] == name:
                return Agg("adt", list(args), ty, i), st
        if len(tt["vs"]) == 1:
            return Agg("adt", list(args), ty, 0), st
        self.uns("constructor")

    # ------------------------------------------------------------ nalgebra
    def nalgebra(self, f, path, rpath, seg, args, st, dty, aty):
        it = self.it
        p = rpath
        M = lambda i: self.asmat(st, args[i])
        unit = Agg("tuple", [])
        dim = None
        if dty is not None and it.p.types[dty]["k"] == "adt":
            dim = it.matdim(it.p.types[dty])
        isrot = "Rotation" in p or "rotation" in p

        def ew(a, b, op):
            if a.meta != b.meta:
                self.uns("matrix dimensions")
            return mat(a.meta[0], a.meta[1], [op(x, y) for x, y in zip(a.fs, b.fs)])

        def matmul(a, b):
            (r, k), (k2, c) = a.meta, b.meta
            if k != k2:
                self.uns("matrix product dimensions")
            out = []
            for j in range(c):
                for i in range(r):
                    s = ZERO
                    for q in range(k):
                        s = add(s, mul(a.fs[q * r + i], b.fs[j * k + q]))
                    out.append(s)
            return mat(r, c, out)

        def tr(a):
            r, c = a.meta
            return mat(c, r, [a.fs[j * r + i] for i in range(r) for j in range(c)])

        def nrm2(a):
            s = ZERO
            for x in a.fs:
                s = add(s, mul(x, x))
            return s

        # trait ops
        if path.startswith("std::ops::"):
            if seg in ("add", "sub", "mul", "div", "neg"):
                a = self.D(st, args[0])
                b = self.D(st, args[1]) if len(args) > 1 else None
                if seg == "neg":
                    m = self.asmat(st, a)
                    return mat(m.meta[0], m.meta[1], [neg(x) for x in m.fs]), st
                if isinstance(a, E):
                    m = self.asmat(st, b)
                    if seg == "mul":
                        return mat(m.meta[0], m.meta[1], [mul(a, x) for x in m.fs]), st
                    self.uns("scalar op matrix")
                m = self.asmat(st, a)
                if isinstance(b, E):
                    op = {"mul": mul, "div": div}[seg]
                    return mat(m.meta[0], m.meta[1], [op(x, b) for x in m.fs]), st
                n = self.asmat(st, b)
                if seg == "add":
                    return ew(m, n, add), st
                if seg == "sub":
                    return ew(m, n, sub), st
                if seg == "mul":
                    return matmul(m, n), st
                if seg == "div" and isrot:
                    return matmul(m, tr(n)), st
                self.uns("matrix op")
            if seg in ("add_assign", "sub_assign", "mul_assign", "div_assign"):
                r = args[0]
                m = self.asmat(st, r)
                b = self.D(st, args[1])
                if isinstance(b, E):
                    op = {"mul_assign": mul, "div_assign": div}[seg]
                    v = mat(m.meta[0], m.meta[1], [op(x, b) for x in m.fs])
                else:
                    n = self.asmat(st, b)
                    if seg == "mul_assign":
                        v = matmul(m, n)
                    else:
                        v = ew(m, n, add if seg == "add_assign" else sub)
                self.store(st, r, v)
                return unit, st
            if seg in ("index", "index_mut"):
                r = args[0]
                m = self.asmat(st, r)
                idx = self.D(st, args[1])
                if isinstance(idx, Agg) and len(idx.fs) == 2:
                    i, j = idx.fs
                    idx = add(i, mul(j, num(m.meta[0])))
                if not isinstance(idx, E):
                    self.uns("matrix index")
                n = num(len(m.fs))
                bad = bnot(blt(idx, n))
                if bad is not FALSE and (bad & st.g) is not FALSE:
                    it.event(st, "panic", ("assert", "matrix index"), bad & st.g)
                    st.g = st.g & bnot(bad)
                    if st.g is FALSE:
                        return None, None
                base = self.loc(st, r)
                if base is None:
                    return self.tmpref(st, it.index(st, m, idx)), st
                return Ref(base.root, base.path + (("i", idx),), seg == "index_mut"), st
            if seg in ("deref", "deref_mut"):
                base = self.loc(st, args[0])
                if base is None:
                    return self.tmpref(st, M(0)), st
                return base, st
            return None
        if path.startswith("std::cmp::"):
            if seg in ("eq", "ne"):
                a, b = M(0), M(1)
                r = TRUE if a.meta == b.meta else FALSE
                for x, y in zip(a.fs, b.fs):
                    r = r & beq(x, y)
                return (r if seg == "eq" else bnot(r)), st
            if seg == "partial_cmp":
                return None
            return None
        if seg == "clone":
            return self.asmat(st, args[0]), st
        if seg == "default" and dim:
            if isrot or it.p.types[dty]["def"].endswith("Rotation"):
                return self.eye(dim), st
            return mat(dim[0], dim[1], [ZERO] * (dim[0] * dim[1])), st
        if seg == "from_array_storage":
            v = self.D(st, args[0])
            out = []

            def walk(x):
                if isinstance(x, E):
                    out.append(x)
                elif isinstance(x, Agg):
                    for y in x.fs:
                        walk(y)
                else:
                    self.uns("array storage")
            walk(v)
            if dim is None:
                dim = (len(out), 1)
            if len(out) != dim[0] * dim[1]:
                self.uns("array storage size")
            return mat(dim[0], dim[1], out), st
        if seg in ("zeros",) and dim:
            return mat(dim[0], dim[1], [ZERO] * (dim[0] * dim[1])), st
        if seg == "zero" and dim:
            return mat(dim[0], dim[1], [ZERO] * (dim[0] * dim[1])), st
        if seg in ("repeat", "from_element") and dim:
            return mat(dim[0], dim[1], [self.scal(st, args[0])] * (dim[0] * dim[1])), st
        if seg == "identity" and dim:
            return self.eye(dim), st
        if seg in ("x", "y", "z") and len(args) == 0 and dim and dim[1] == 1 and not isrot:
            return mat(dim[0], 1, [ONE if i == "xyz".index(seg) else ZERO for i in range(dim[0])]), st
        if seg == "new" and dim and not isrot and len(args) == dim[0] * dim[1]:
            # row-major arguments
            r, c = dim
            v = [self.scal(st, x) for x in args]
            return mat(r, c, [v[i * c + j] for j in range(c) for i in range(r)]), st
        if seg in ("from_column_slice", "from_row_slice", "from_iterator", "from_vec") and dim:
            if isinstance(args[0], Iter):
                fr = self.force(args[0], st)
                if fr is None:
                    self.uns("from_iterator")
                items, st = fr
                vs = [self.scal(st, x) for x in items]
            else:
                _, s = self.seq_target(st, args[0])
                vs = [self.scal(st, x) for x in s.fs]
            r, c = dim
            if len(vs) < r * c:
                self.uns("slice length")
            if seg == "from_row_slice":
                return mat(r, c, [vs[i * c + j] for j in range(c) for i in range(r)]), st
            return mat(r, c, vs[:r * c]), st
        if seg == "from_columns" and dim:
            _, s = self.seq_target(st, args[0])
            fs = []
            for x in s.fs:
                fs += self.asmat(st, x).fs
            return mat(dim[0], dim[1], fs), st
        if seg == "from_rows" and dim:
            _, s = self.seq_target(st, args[0])
            rows = [self.asmat(st, x).fs for x in s.fs]
            return mat(dim[0], dim[1], [rows[i][j] for j in range(dim[1]) for i in range(dim[0])]), st
        if seg == "from_diagonal" and dim:
            d = M(0)
            r = dim[0]
            return mat(r, r, [d.fs[i] if i == j else ZERO for j in range(r) for i in range(r)]), st
        if seg in ("norm", "magnitude"):
            return fn("sqrt", nrm2(M(0))), st
        if seg in ("norm_squared", "magnitude_squared"):
            return nrm2(M(0)), st
        if seg in ("normalize",):
            m = M(0)
            n = fn("sqrt", nrm2(m))
            return mat(m.meta[0], m.meta[1], [div(x, n) for x in m.fs]), st
        if seg == "dot":
            a, b = M(0), M(1)
            s = ZERO
            for x, y in zip(a.fs, b.fs):
                s = add(s, mul(x, y))
            return s, st
        if seg == "cross":
            a, b = M(0).fs, M(1).fs
            return mat(3, 1, [sub(mul(a[1], b[2]), mul(a[2], b[1])), sub(mul(a[2], b[0]), mul(a[0], b[2])),
                              sub(mul(a[0], b[1]), mul(a[1], b[0]))]), st
        if seg == "angle" and not isrot:
            a, b = M(0), M(1)
            n1, n2 = fn("sqrt", nrm2(a)), fn("sqrt", nrm2(b))
            s = ZERO
            for x, y in zip(a.fs, b.fs):
                s = add(s, mul(x, y))
            # nalgebra: zero vectors enclose the angle 0; the cosine is clamped to [-1, 1]
            return ite(beq(nrm2(a), ZERO) | beq(nrm2(b), ZERO), ZERO, fn("acos", div(s, mul(n1, n2)))), st
        if seg == "add_scalar":
            m = M(0)
            x = self.scal(st, args[1])
            return mat(m.meta[0], m.meta[1], [add(y, x) for y in m.fs]), st
        if seg in ("scale",):
            m = M(0)
            x = self.scal(st, args[1])
            return mat(m.meta[0], m.meta[1], [mul(y, x) for y in m.fs]), st
        if seg in ("component_mul", "component_div"):
            return ew(M(0), M(1), mul if seg == "component_mul" else div), st
        if seg in ("sum",) and len(args) == 1 and "Iterator" not in path and "Sum" not in path:
            m = M(0)
            s = ZERO
            for x in m.fs:
                s = add(s, x)
            return s, st
        if seg == "abs":
            m = M(0)
            return mat(m.meta[0], m.meta[1], [ite(blt(x, ZERO), neg(x), x) for x in m.fs]), st
        if seg in ("max", "min", "amax", "amin", "camax", "camin", "imax", "imin", "iamax", "iamin") and len(args) == 1:
            m = M(0)
            es = [ite(blt(x, ZERO), neg(x), x) for x in m.fs] if "am" in seg else list(m.fs)
            acc, at = es[0], ZERO
            for i, x in enumerate(es[1:]):
                better = blt(acc, x) if seg.endswith("max") else blt(x, acc)
                acc, at = ite(better, x, acc), ite(better, num(i + 1), at)
            return (at if seg[0] == "i" else acc), st
        if seg == "transpose":
            return tr(M(0)), st
        if seg in ("inverse",) and isrot:
            return tr(M(0)), st
        if seg in ("map",) and "Matrix" in p and not isrot:
            m = M(0)
            out = []
            for x in m.fs:
                v, st = self.app(args[1], [x], st)
                out.append(v)
            return mat(m.meta[0], m.meta[1], out), st
        if seg == "apply":
            base = self.loc(st, args[0])
            m = M(0)
            for i in range(len(m.fs)):
                _, st = self.app(args[1], [Ref(base.root, base.path + (("i", num(i)),), True)], st)
            return unit, st
        if seg == "zip_map":
            a, b = M(0), M(1)
            out = []
            for x, y in zip(a.fs, b.fs):
                v, st = self.app(args[2], [x, y], st)
                out.append(v)
            return mat(a.meta[0], a.meta[1], out), st
        if seg in ("column", "column_mut", "row", "row_mut"):
            m = M(0)
            j = self.scal(st, args[1])
            if not isnum(j):
                self.uns("symbolic column")
            base = self.loc(st, args[0])
            el = ("col" if seg.startswith("col") else "row", int(nv(j)))
            if base is None:
                return it.proj(st, m, el), st
            if seg.endswith("_mut"):
                return Agg("view", [Ref(base.root, base.path + (el,), True)]), st
            return it.proj(st, m, el), st
        if seg == "set_column":
            m = M(0)
            j = self.scal(st, args[1])
            v = self.asmat(st, args[2])
            if not isnum(j):
                self.uns("symbolic column")
            r, c = m.meta
            j = int(nv(j))
            fs = list(m.fs)
            fs[j * r:(j + 1) * r] = list(v.fs)
            self.store(st, args[0], mat(r, c, fs))
            return unit, st
        if seg in ("fixed_rows", "rows", "fixed_view", "fixed_slice"):
            m = M(0)
            if seg in ("fixed_rows",) and dty is not None:
                k = self.scal(st, args[1])
                n = self.view_dim(dty)
                if n and isnum(k):
                    return it.proj(st, m, ("rows", int(nv(k)), n[0])), st
            self.uns(seg)
        if seg == "copy_from":
            v = self.asmat(st, args[1])
            self.store(st, args[0], v)
            return unit, st
        if seg in ("copy_from_slice",):
            m = M(0)
            _, s = self.seq_target(st, args[1])
            self.store(st, args[0], mat(m.meta[0], m.meta[1], s.fs))
            return unit, st
        if seg == "fill":
            m = M(0)
            self.store(st, args[0], mat(m.meta[0], m.meta[1], [self.scal(st, args[1])] * len(m.fs)))
            return unit, st
        if seg in ("iter", "iter_mut"):
            base = self.loc(st, args[0])
            m = M(0)
            if base is None:
                base = self.tmpref(st, m)
            return Iter("list", tuple(Ref(base.root, base.path + (("i", num(i)),), seg == "iter_mut")
                                      for i in range(len(m.fs))), 0), st
        if seg in ("len", "nrows", "ncols"):
            m = M(0)
            return num({"len": len(m.fs), "nrows": m.meta[0], "ncols": m.meta[1]}[seg]), st
        if seg in ("as_slice", "as_mut_slice", "as_ref", "as_mut", "data"):
            base = self.loc(st, args[0])
            return (base if base is not None else self.tmpref(st, M(0))), st
        if seg in ("into", "from"):
            v = self.D(st, args[0])
            if isinstance(v, Agg) and v.kind in ("array", "mat"):
                flat = []
                for x in v.fs:
                    if isinstance(x, Agg):
                        flat += list(x.fs)
                    else:
                        flat.append(x)
                if dim:
                    return mat(dim[0], dim[1], flat), st
                return Agg("array", flat), st
            return None
        if seg in ("into_owned", "clone_owned", "into_inner", "matrix", "into_matrix"):
            if seg == "matrix":
                base = self.loc(st, args[0])
                return (base if base is not None else self.tmpref(st, M(0))), st
            return M(0), st
        if seg in ("to_scalar", "x", "y", "z") and len(args) == 1:
            m = M(0)
            return m.fs[{"to_scalar": 0, "x": 0, "y": 1, "z": 2}[seg]], st
        if seg in ("from_matrix", "from_matrix_unchecked") and dim:
            return M(0), st
        if seg in ("transform_vector", "transform_point"):
            return matmul(M(0), M(1)), st
        if seg in ("inverse_transform_vector", "inverse_transform_point"):
            return matmul(tr(M(0)), M(1)), st
        if seg == "tr_mul":
            return matmul(tr(M(0)), M(1)), st
        if seg == "outer" or seg == "kronecker":
            return None
        if seg == "determinant":
            m = M(0)
            if m.meta == (3, 3):
                a = m.fs
                return add(sub(mul(a[0], sub(mul(a[4], a[8]), mul(a[7], a[5]))),
                               mul(a[3], sub(mul(a[1], a[8]), mul(a[7], a[2])))),
                           mul(a[6], sub(mul(a[1], a[5]), mul(a[4], a[2])))), st
        if seg in ("x_axis", "y_axis", "z_axis") and dim:
            i = "xyz".index(seg[0])
            return mat(3, 1, [ONE if k == i else ZERO for k in range(3)]), st
        if seg == "new_normalize" or seg == "new_unchecked" and "Unit" in p:
            m = M(0)
            if seg == "new_unchecked":
                return m, st
            n = fn("sqrt", nrm2(m))
            return mat(m.meta[0], m.meta[1], [div(x, n) for x in m.fs]), st
        if seg == "from_axis_angle" and dim == (3, 3):
            ax = self.asmat(st, args[0]).fs
            th = self.scal(st, args[1])
            c, s = fn("cos", th), fn("sin", th)
            oc = sub(ONE, c)
            x, y, z = ax
            rows = [[add(c, mul(mul(x, x), oc)), sub(mul(mul(x, y), oc), mul(z, s)), add(mul(mul(x, z), oc), mul(y, s))],
                    [add(mul(mul(x, y), oc), mul(z, s)), add(c, mul(mul(y, y), oc)), sub(mul(mul(y, z), oc), mul(x, s))],
                    [sub(mul(mul(x, z), oc), mul(y, s)), add(mul(mul(y, z), oc), mul(x, s)), add(c, mul(mul(z, z), oc))]]
            return mat(3, 3, [rows[i][j] for j in range(3) for i in range(3)]), st
        if seg == "from_euler_angles" and dim == (3, 3):
            r, pch, y = [self.scal(st, x) for x in args]
            sr, cr, sp, cp, sy, cy = (fn("sin", r), fn("cos", r), fn("sin", pch), fn("cos", pch), fn("sin", y), fn("cos", y))
            rows = [[mul(cy, cp), sub(mul(mul(cy, sp), sr), mul(sy, cr)), add(mul(mul(cy, sp), cr), mul(sy, sr))],
                    [mul(sy, cp), add(mul(mul(sy, sp), sr), mul(cy, cr)), sub(mul(mul(sy, sp), cr), mul(cy, sr))],
                    [neg(sp), mul(cp, sr), mul(cp, cr)]]
            return mat(3, 3, [rows[i][j] for j in range(3) for i in range(3)]), st
        if seg == "sum" and dim:
            return None
        return None

    def eye(self, dim):
        r, c = dim
        return mat(r, c, [ONE if i == j else ZERO for j in range(c) for i in range(r)])

    def view_dim(self, dty):
        t = self.it.p.types[dty]
        if t.get("def") != "nalgebra::Matrix":
            return None
        out = []
        for a in t["args"][1:3]:
            m = re.fullmatch(r"nalgebra::Const<(\d+)>", self.it.p.types[a]["n"])
            if not m:
                return None
            out.append(int(m.group(1)))
        return tuple(out)

    def loc(self, st, v):
        """Ref to the matrix object itself, if v is a reference to one"""
        if isinstance(v, Agg) and v.kind == "view":
            return self.loc(st, v.fs[0])
        r = None
        while isinstance(v, Ref):
            r = v
            v = self.it.read(st, v.root, v.path)
        if isinstance(v, Agg) and v.kind == "view":
            return self.loc(st, v.fs[0])
        if r is not None and isinstance(v, Agg) and v.kind == "mat":
            return r
        return None

    def store(self, st, r, v):
        b = self.loc(st, r)
        if b is None:
            self.uns("store to matrix value")
        self.it.write(st, b.root, b.path, v)


class Maybe:
    """item present only if c holds"""
    __slots__ = ("c", "v")

    def __init__(self, c, v):
        self.c, self.v = c, v
