"""Value-flow analysis of MIR.

An abstract interpretation of the type-checked program over the value domain of
vals.py: one abstract state per program point, joined at control-flow merges
(gated values), loops with a syntactically constant trip count unrolled, loops
over symbolic collections summarised (sums, exists/forall, first).  Local
functions are inlined, library functions are either modelled (models.py) or
inlined from their own MIR, and anything else becomes an `unknown` value, which
no check ever turns into a violation.
"""
import copy
import json
import re
from collections import defaultdict
from vals import *
import derive


class Unsupported(Exception):
    pass


class NeedSummary(Exception):
    def __init__(self, root, path, it):
        self.root, self.path, self.it = root, path, it


# ------------------------------------------------------------------ program
class Program:
    def __init__(self, fname):
        d = json.load(open(fname))
        self.crate = d["crate"]
        self.types = d["types"]
        self.insts = d["insts"]
        self.statics = d["statics"]
        self.adts = d["adts"]
        self.by_name = {}
        for i, b in enumerate(self.insts):
            if b is not None:
                b["id"] = i
                self.by_name.setdefault(b["name"], i)

    def ty(self, i):
        return self.types[i]

    def adt_path(self, t):
        t = self.types[t] if isinstance(t, int) else t
        return t.get("def") if t["k"] == "adt" else None

    def peel(self, t):
        """type index without references / boxes"""
        while True:
            d = self.types[t]
            if d["k"] in ("ref", "ptr"):
                t = d["e"]
            elif d["k"] == "adt" and d["def"] == "std::boxed::Box":
                t = d["args"][0]
            else:
                return t

    def local_fns(self, derived=False):
        for b in self.insts:
            if b is not None and b["local"] and (derived or not b.get("derived")):
                yield b

    def sig(self, b):
        """(return type name, [argument type names])"""
        l = b["locals"]
        return self.types[l[0]]["n"], [self.types[t]["n"] for t in l[1:1 + b["argc"]]]

    def find(self, suffix):
        r = [b for b in self.local_fns() if b["name"] == suffix or b["name"].endswith("::" + suffix)]
        return r

    def find_sig(self, ret, args):
        out = []
        for b in self.local_fns():
            if b["kind"] == "Closure" or b["poly"]:
                continue
            r, a = self.sig(b)
            if re.fullmatch(ret, r) and len(a) == len(args) and all(re.fullmatch(x, y) for x, y in zip(args, a)):
                out.append(b)
        return out


# ------------------------------------------------------------------ CFG
class Body:
    """CFG of one instance with its loop nest."""

    def __init__(self, j):
        self.j = j
        self.blocks = j["blocks"]
        n = len(self.blocks)
        self.succ = []
        for b in self.blocks:
            self.succ.append([] if b["cl"] else [x for x in self._succ(b["t"]) if not self.blocks[x]["cl"]])
        reach = set()
        st = [0]
        while st:
            x = st.pop()
            if x in reach:
                continue
            reach.add(x)
            st.extend(self.succ[x])
        self.order = self._nest(reach, 0)

    @staticmethod
    def _succ(t):
        k = t["t"]
        if k in ("goto", "drop", "assert"):
            return [t["to"]]
        if k == "call":
            return [] if t["to"] is None else [t["to"]]
        if k == "switch":
            r = []
            for _, b in t["cases"]:
                if b not in r:
                    r.append(b)
            if t["else"] not in r:
                r.append(t["else"])
            return r
        return []

    def _sccs(self, nodes, succ):
        index, low, on, stack, out = {}, {}, set(), [], []
        cnt = [0]

        def visit(v):
            work = [(v, iter(succ(v)))]
            index[v] = low[v] = cnt[0]
            cnt[0] += 1
            stack.append(v)
            on.add(v)
            while work:
                x, it = work[-1]
                adv = False
                for w in it:
                    if w not in nodes:
                        continue
                    if w not in index:
                        index[w] = low[w] = cnt[0]
                        cnt[0] += 1
                        stack.append(w)
                        on.add(w)
                        work.append((w, iter(succ(w))))
                        adv = True
                        break
                    elif w in on:
                        low[x] = min(low[x], index[w])
                if adv:
                    continue
                work.pop()
                if work:
                    p = work[-1][0]
                    low[p] = min(low[p], low[x])
                if low[x] == index[x]:
                    comp = []
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == x:
                            break
                    out.append(comp)

        for v in sorted(nodes):
            if v not in index:
                visit(v)
        return out[::-1]  # topological order

    def _nest(self, nodes, entry):
        """list of ('b', block) / ('l', header, [nested order], set(blocks))"""
        def succ(v):
            return self.succ[v]

        order = []
        for comp in self._sccs(nodes, succ):
            if len(comp) == 1 and comp[0] not in self.succ[comp[0]]:
                order.append(("b", comp[0]))
                continue
            cs = set(comp)
            heads = set()
            for v in nodes:
                if v not in cs:
                    for w in self.succ[v]:
                        if w in cs:
                            heads.add(w)
            if entry in cs:
                heads.add(entry)
            if len(heads) != 1:
                order.append(("x", sorted(heads), cs))
                continue
            h = heads.pop()
            order.append(("l", h, self._nest_loop(cs, h), cs))
        return order

    def _nest_loop(self, cs, h):
        # remove back edges to h
        saved = self.succ
        inner = [list(x) for x in saved]
        for v in cs:
            inner[v] = [w for w in inner[v] if w != h]
        self.succ = inner
        try:
            return self._nest(cs, h)
        finally:
            self.succ = saved


# ------------------------------------------------------------------ state
class State:
    __slots__ = ("mem", "g", "eff")

    def __init__(self, mem, g, eff):
        self.mem, self.g, self.eff = mem, g, eff

    def copy(self):
        return State(dict(self.mem), self.g, self.eff)


INPUTS = {}        # id of an input -> {(program, type number): program}, for what was created as an input of that type


class Interp:
    MAXUNROLL = 600

    def __init__(self, prog, opaque=None, max_depth=40):
        self.recut = {}
        self.p = prog
        self.nframes = 0
        self.symheap = {}
        self.bodies = {}
        self.depth = 0
        self.max_depth = max_depth
        self.bvdepth = 0
        self.unroll = False
        self.bypath = {}                 # path of an unresolved trait function -> callable
        self.opaque = opaque or {}       # inst id -> callable(interp, args, st, dest_ty) -> value
        self.unknowns = []               # reasons
        self.nunk = 0                    # names of unknown results are never reused
        self.callstack = []
        self.guards = []        # of the calls in it
        self.inlined = set()
        self.callsites = 0
        self.veclen = None               # callable(base, element type) -> concrete length | None
        self.lvn = 0
        self.exits = []                  # every exit of the program
        self.panics = []                 # every possible panic, with its guard
        self.plain = False               # fields of inputs are taken to be unrelated
        self.cells = set()               # contents of cells that were looked at or changed
        self.initial = {}                # contents of a cell of an input before its first use
        from models import Models
        self.models = Models(self)
        self.span = "?"

    # -------------------------------------------------------------- fresh
    def fresh(self, base, ty):
        t = self.p.types[ty]
        k = t["k"]
        if isinstance(base, E) and base.op in ("sym", "fld", "idx"):
            INPUTS.setdefault(base.id, {})[id(self.p), ty] = self.p
        if k in ("float", "int", "uint", "char"):
            return base
        if k == "bool":
            return atom("b", base)
        if k == "adt":
            d = t["def"]
            dim = self.matdim(t)
            if dim:
                r, c = dim
                return mat(r, c, [mk("idx", base, num(i)) for i in range(r * c)])
            if d == "std::vec::Vec":
                return self.fresh_seq(base, t["args"][0])
            if d == "std::boxed::Box":
                root = ("heap", base)
                self.symheap[root] = (base, t["args"][0])
                return Ref(root, (), True)
            if d in ("std::string::String",):
                return Opq(base, ty)
            if d == "std::cell::UnsafeCell" and not base.unk:
                return Agg("adt", [self.contents(base, t["args"][0])], ty, 0)
            if t["enum"] or t["vs"]:
                return SymV(base, ty)
            return Opq(base, ty)
        if k == "array" and isinstance(t["len"], int) and t["len"] <= 64:
            return Agg("array", [self.fresh(mk("idx", base, num(i)), t["e"]) for i in range(t["len"])], ty)
        if k == "tuple":
            return Agg("tuple", [self.fresh(mk("fld", base, str(i)), e) for i, e in enumerate(t["es"])], ty)
        if k in ("ref", "ptr"):
            et = self.p.types[t["e"]]
            if et["k"] in ("str", "dyn"):
                return Opq(base, ty)
            root = ("heap", base)
            self.symheap[root] = (base, t["e"])
            return Ref(root, (), t["mut"])
        if k == "slice":
            return self.fresh_seq(base, t["e"])
        return Opq(base, ty)

    def contents(self, base, ty):
        """what a cell in an input holds before the first use: what every constructor of the structure puts there"""
        if base.id in self.initial:
            return self.initial[base.id]
        self.initial[base.id] = mk("unknown", "contents of a cell")
        b, names = base, []
        owner = None
        while b.op == "fld":
            names.append(b.args[1])
            b = b.args[0]
            owner = next((self.p.types[q] for pid, q in INPUTS.get(b.id, {}) if pid == id(self.p)), None)
            if owner is not None and owner["k"] == "adt" and owner.get("local") and not owner["enum"]:
                break
            owner = None
        if owner is None:
            self.initial[base.id] = self.unknown("contents of a cell", ty)
            return self.initial[base.id]
        k = [i for i, f in enumerate(owner["vs"][0]["fields"]) if f[0] == names[-1]]
        tid = self.p.types.index(owner)
        got = []
        for f in self.p.insts:
            if not (f and f.get("blocks") and f["local"]):
                continue
            for bl in f["blocks"]:
                for s in bl["s"]:
                    r = s[1] if len(s) > 1 else None
                    if isinstance(r, dict) and r.get("r") == "agg" and r.get("k") == "adt" and r.get("ty") == tid and k:
                        got.append(self.put_there(f, r["es"][k[0]]))
        got = [g for g in got if g != "kept"]
        vals = []
        for v in got:
            try:
                for n in range(8):
                    if isinstance(v, Agg) and v.kind == "adt" and v.ty is not None and self.p.types[v.ty]["def"] == "std::cell::UnsafeCell":
                        break
                    t = self.p.types[v.ty]
                    i = [i for i, f in enumerate(t["vs"][0]["fields"]) if f[0] in names or f[0] in ("value", "inner")]
                    v = v.fs[i[0]]
                vals.append(v.fs[0])
            except (AttributeError, IndexError, KeyError, TypeError):
                vals.append(mk("unknown", f"{len(vals)}"))
        if vals and not any(isinstance(v, E) and v.unk for v in vals) and all(repr(v) == repr(vals[0]) for v in vals):
            self.initial[base.id] = vals[0]
        else:
            self.initial[base.id] = self.unknown("contents of a cell", ty)
        return self.initial[base.id]

    def put_there(self, f, o):
        """the constant put somewhere by operand o of function f; "kept": taken over from elsewhere; None: not known"""
        st = self.start()
        if "c" in o:
            return self.const(o["c"], st)
        pl = o.get("mv") or o.get("cp")
        if not pl or len(pl) != 1:
            return "kept"
        for bl in f["blocks"]:
            t = bl["t"]
            if t["t"] == "call" and t["d"] == pl:
                g = t["f"].get("c") or {}
                if (g.get("path") or "").endswith("Clone::clone"):
                    return "kept"
                args = [self.put_there(f, a) for a in t["a"]]
                if any(a is None or isinstance(a, str) for a in args) or g.get("k") != "fn":
                    return None
                try:
                    return self.invoke(g, args, st, f["locals"][pl[0]], [None] * len(args))[0]
                except (Unsupported, Dead, NeedSummary):
                    return None
            for s in bl["s"]:
                if len(s) > 1 and s[0] == pl and isinstance(s[1], dict):
                    if s[1].get("r") == "use":
                        return self.put_there(f, s[1]["o"])
                    if s[1].get("r") == "agg" and s[1].get("k") == "adt":
                        es = [self.put_there(f, x) for x in s[1]["es"]]
                        if any(e is None or isinstance(e, str) for e in es):
                            return None
                        return Agg("adt", es, s[1]["ty"], s[1]["variant"])
        return None

    def fresh_seq(self, base, ety):
        n = self.veclen(base, ety) if self.veclen else None
        if n is None:
            return SymSeq(base, ety)
        return Agg("array", [self.fresh(mk("idx", base, num(i)), ety) for i in range(n)])

    def matdim(self, t):
        """(rows, cols) of an nalgebra matrix/vector/rotation type"""
        d = t.get("def")
        if d == "nalgebra::Matrix":
            def dim(a):
                n = self.p.types[a]["n"]
                m = re.fullmatch(r"nalgebra::Const<(\d+)>", n)
                return int(m.group(1)) if m else None
            if isinstance(t["args"][0], dict) or self.p.types[t["args"][0]]["k"] != "float":
                return None
            r, c = dim(t["args"][1]), dim(t["args"][2])
            return (r, c) if r and c else None
        if d == "nalgebra::Rotation":
            n = t["args"][1]
            if isinstance(n, dict) and isinstance(n["c"], int):
                return (n["c"], n["c"])
        return None

    def unknown(self, why, ty=None, st=None):
        self.unknowns.append((why, self.span))
        self.nunk += 1
        e = mk("unknown", f"{why}#{self.nunk}")
        if ty is None:
            return e
        return self.fresh(e, ty)

    # -------------------------------------------------------------- constants
    def const(self, c, st):
        k = c["k"]
        if k == "f64":
            v = c["v"]
            if v == "NaN":
                return NAN
            if v == "inf":
                return INF
            if v == "-inf":
                return neg(INF)
            return cnum(float(v))
        if k == "int":
            return num(c["v"])
        if k == "bool":
            return TRUE if c["v"] else FALSE
        if k in ("char", "bits"):
            return num(c["v"])
        if k == "str":
            return Opq(mk("str", c["v"]))
        if k == "bytes":
            return Opq(mk("bytes", bytes(c["v"])))
        if k == "tuple":
            return Agg("tuple", [self.const(x, st) for x in c["es"]])
        if k == "array":
            return Agg("array", [self.const(x, st) for x in c["es"]])
        if k == "adt":
            t = self.p.types[c["ty"]]
            dim = self.matdim(t)
            if dim:
                return self.const_mat(c, dim, st)
            return Agg("adt", [self.const(x, st) for x in c["es"]], c["ty"], c["variant"])
        if k == "ref":
            v = self.const(c["v"], st)
            root = ("const", id(c))
            if root not in self.symheap:
                self.symheap[root] = ("val", v, c)
            return Ref(root, ())
        if k in ("fn", "zst"):
            return FnV(c["ty"])
        return self.unknown("const:" + str(c.get("dbg", k))[:60], c.get("ty"))

    def const_mat(self, c, dim, st):
        out = []

        def walk(x):
            if x["k"] == "f64":
                out.append(self.const(x, st))
            else:
                for y in x.get("es", []):
                    walk(y)
        walk(c)
        if len(out) != dim[0] * dim[1]:
            return self.unknown("matrix constant")
        return mat(dim[0], dim[1], out)

    # -------------------------------------------------------------- memory
    def root(self, st, r):
        v = st.mem.get(r)
        if v is None:
            h = self.symheap.get(r)
            if h is None:
                raise Unsupported(f"uninitialised {r}")
            v = self.heapval(r)
            st.mem[r] = v
        return v

    def heapval(self, r):
        """value behind a root nothing has written to yet"""
        h = self.symheap[r]
        return h[1] if h[0] == "val" else self.fresh(h[0], h[1])

    def expand(self, v):
        """SymV struct -> Agg of fresh fields"""
        t = self.p.types[v.ty]
        if t["enum"] and v.variant is None:
            if len(t["vs"]) == 1:
                return self.expand(SymV(v.base, v.ty, 0))
            raise Unsupported("expand enum")
        vi = v.variant or 0
        vs = t["vs"][vi]
        fs = [self.held(v, i, f[1]) for i, f in enumerate(vs["fields"])]
        return Agg("adt", fs, v.ty, vi)

    def held(self, v, i, ty):
        """field i of an input"""
        r = derive.value(self, v, i) if len(self.p.types[v.ty]["vs"]) == 1 else None
        return self.fresh(self.fldname(v, i), ty) if r is None else r

    def fldname(self, v, i):
        t = self.p.types[v.ty]
        vs = t["vs"][v.variant or 0]
        n = vs["fields"][i][0]
        if t["enum"] and len(t["vs"]) > 1:
            n = vs["name"] + "." + n
        return mk("fld", v.base, n)

    def proj(self, st, v, el):
        if isinstance(v, Choice):
            return self.map_choice(st, v, lambda x: self.proj(st, x, el))
        k = el[0]
        if isinstance(v, E) and v.unk:
            return v
        if isinstance(v, B) and v.unk:
            return mk("unknown", "field of unknown")
        if isinstance(v, Opq) and v.base.unk:
            return v
        if k == "f":
            i = el[1]
            if isinstance(v, Agg):
                if v.kind == "mat":
                    r, c = v.meta
                    if c == 1 and i < len(v.fs) and r <= 6:
                        return v.fs[i]
                    if i == 0:
                        return v
                    raise Unsupported("field of matrix")
                if i >= len(v.fs):
                    raise Unsupported("field index")
                return v.fs[i]
            if isinstance(v, SymV):
                vs = self.p.types[v.ty]["vs"][v.variant or 0]
                return self.held(v, i, vs["fields"][i][1])
            if isinstance(v, Ref):       # Box / Unique / NonNull internals
                return v
            if isinstance(v, Opq):
                if len(el) > 2 and el[2] is not None:
                    return self.fresh(mk("fld", v.base, str(i)), el[2])
                return Opq(mk("fld", v.base, str(i)))
            raise Unsupported(f"field of {type(v).__name__}")
        if k == "v":
            if isinstance(v, Agg):
                if v.variant != el[1]:
                    raise Dead()
                return v
            if isinstance(v, SymV):
                return SymV(v.base, v.ty, el[1])
            if isinstance(v, Opq):
                return Opq(mk("fld", v.base, f"v{el[1]}"))
            raise Unsupported(f"downcast of {type(v).__name__}")
        if k == "i":
            return self.index(st, v, el[1])
        if k == "sub":
            return self.subslice(v, el[1], el[2])
        if k == "col":
            r, c = v.meta
            j = el[1]
            return mat(r, 1, v.fs[j * r:(j + 1) * r])
        if k == "row":
            r, c = v.meta
            return mat(1, c, [v.fs[j * r + el[1]] for j in range(c)])
        if k == "rows":
            r, c = v.meta
            return mat(el[2], c, [v.fs[j * r + el[1] + i] for j in range(c) for i in range(el[2])])
        raise Unsupported(f"projection {el}")

    def subslice(self, v, lo, hi):
        """lo, hi: E or None"""
        if isinstance(v, Agg) and v.kind in ("array", "mat"):
            n = len(v.fs)
            l = 0 if lo is None else (int(nv(lo)) if isnum(lo) else None)
            h = n if hi is None else (int(nv(hi)) if isnum(hi) else None)
            if l is None or h is None or not (0 <= l <= h <= n):
                raise Unsupported("subslice bounds")
            return Agg("array", v.fs[l:h])
        if isinstance(v, SymSeq):
            base_lo = v.lo
            nlo = lo if base_lo is None else (base_lo if lo is None else add(base_lo, lo))
            nhi = v.hi if hi is None else (hi if base_lo is None else add(base_lo, hi))
            return SymSeq(v.base, v.ety, nlo, nhi)
        raise Unsupported("subslice of " + type(v).__name__)

    def seq_elem(self, v, idx):
        i = idx if v.lo is None else add(v.lo, idx)
        return self.fresh(mk("idx", v.base, i), v.ety)

    def index(self, st, v, idx, g=None):
        if isinstance(v, Choice):
            return self.map_choice(st, v, lambda x: self.index(st, x, idx, g))
        if isinstance(v, SymSeq):
            return self.seq_elem(v, idx)
        if isinstance(v, Agg) and v.kind in ("array", "mat"):
            if isnum(idx):
                i = int(nv(idx))
                if not 0 <= i < len(v.fs):
                    raise Dead()
                return v.fs[i]
            if idx.op == "ite":
                # only the alternatives that the path allows
                g = st.g if g is None else g
                c = idx.args[0]
                if (g & c) is FALSE:
                    return self.index(st, v, idx.args[2], g)
                if (g & bnot(c)) is FALSE:
                    return self.index(st, v, idx.args[1], g)
                return self.merge(restrict(c, g), self.index(st, v, idx.args[1], g & c),
                                  self.index(st, v, idx.args[2], g & bnot(c)))
            if len(v.fs) > 128 or not v.fs:
                raise Unsupported("symbolic index into large array")
            r = v.fs[-1]
            for i in range(len(v.fs) - 2, -1, -1):
                r = self.merge(beq(idx, num(i)), v.fs[i], r)
            return r
        if isinstance(v, E) and v.unk:
            return v
        raise Unsupported(f"index of {type(v).__name__}")

    def map_choice(self, st, ch, f):
        """apply f to each feasible alternative under the current guard"""
        res = []
        for g, x in ch.alts:
            gg = restrict(g, st.g)
            if (g & st.g) is FALSE:
                continue
            try:
                res.append((gg, f(x)))
            except Dead:
                continue
        if not res:
            raise Dead()
        r = res[-1][1]
        for g, x in reversed(res[:-1]):
            r = self.merge(g, x, r)
        return r

    def read(self, st, root, path):
        v = self.root(st, root)
        for el in path:
            v = self.proj(st, v, el)
        return v

    def named(self, val):
        """values given a name of their own for this run (self.recut: value -> name)"""
        if isinstance(val, E):
            return self.recut.get(val.id, val)
        if isinstance(val, Agg) and len(val.fs) <= 16 and any(isinstance(x, (E, Agg)) for x in val.fs):
            fs = [self.named(x) for x in val.fs]
            if any(x is not y for x, y in zip(fs, val.fs)):
                v = copy.copy(val)
                v.fs = tuple(fs) if isinstance(val.fs, tuple) else fs
                return v
        return val

    def write(self, st, root, path, val, g=None):
        if self.recut:
            val = self.named(val)
        if not path:
            old = st.mem.get(root)
            if g is not None and g is not TRUE and old is not None:
                val = self.merge(g, val, old)
            st.mem[root] = val
            return
        v = self.root(st, root)
        st.mem[root] = self.upd(st, v, path, val, g)

    def upd(self, st, v, path, val, g):
        if not path:
            if g is not None and g is not TRUE:
                return self.merge(g, val, v)
            return val
        el, rest = path[0], path[1:]
        k = el[0]
        if isinstance(v, Choice):
            alts = []
            for cg, x in v.alts:
                if (cg & st.g) is FALSE:
                    alts.append((cg, x))
                    continue
                try:
                    alts.append((cg, self.upd(st, x, path, val, g)))
                except Dead:
                    alts.append((cg, x))
            return Choice(alts)
        if isinstance(v, SymV):
            if k == "v":
                v = SymV(v.base, v.ty, el[1])
                return self.upd(st, self.expand(v), rest, val, g)
            v = self.expand(v)
        if k == "v":
            if isinstance(v, Agg) and v.variant != el[1]:
                raise Dead()
            return self.upd(st, v, rest, val, g)
        if isinstance(v, Agg):
            fs = list(v.fs)
            if k == "f":
                if v.kind == "mat" and v.meta[1] != 1:
                    raise Unsupported("field write to matrix")
                fs[el[1]] = self.upd(st, fs[el[1]], rest, val, g)
                return v.with_fs(fs)
            if k == "i":
                idx = el[1]
                if isnum(idx):
                    i = int(nv(idx))
                    if not 0 <= i < len(fs):
                        raise Dead()
                    fs[i] = self.upd(st, fs[i], rest, val, g)
                else:
                    for i in range(len(fs)):
                        c = beq(idx, num(i))
                        c = c if g is None else (c & g)
                        if c is not FALSE:
                            fs[i] = self.upd(st, fs[i], rest, val, c)
                return v.with_fs(fs)
            if k == "sub":
                l = 0 if el[1] is None else int(nv(el[1]))
                h = len(fs) if el[2] is None else int(nv(el[2]))
                part = self.upd(st, Agg("array", fs[l:h]), rest, val, g)
                fs[l:h] = list(part.fs)
                return v.with_fs(fs)
            if k == "col":
                r, c = v.meta
                j = el[1]
                part = self.upd(st, mat(r, 1, fs[j * r:(j + 1) * r]), rest, val, g)
                fs[j * r:(j + 1) * r] = list(part.fs)
                return v.with_fs(fs)
            if k == "rows":
                r, c = v.meta
                part = self.upd(st, self.proj(st, v, el), rest, val, g)
                n = el[2]
                for j in range(c):
                    for i in range(n):
                        fs[j * r + el[1] + i] = part.fs[j * n + i]
                return v.with_fs(fs)
        raise Unsupported(f"write to {type(v).__name__} {el}")

    # -------------------------------------------------------------- merge
    def merge(self, c, a, b):
        if c is TRUE or a is b:
            return a
        if c is FALSE:
            return b
        if isinstance(a, E) and isinstance(b, E):
            return ite(c, a, b)
        if isinstance(a, B) and isinstance(b, B):
            return bite(c, a, b)
        if isinstance(a, Agg) and isinstance(b, Agg) and a.kind == b.kind and a.variant == b.variant \
                and len(a.fs) == len(b.fs) and a.meta == b.meta and (a.ty == b.ty or a.kind != "closure"):
            return Agg(a.kind, [self.merge(c, x, y) for x, y in zip(a.fs, b.fs)], a.ty if a.ty is not None else b.ty,
                       a.variant, a.meta)
        if isinstance(a, SymV) and isinstance(b, SymV) and a.base is b.base and a.variant == b.variant:
            return a
        if isinstance(a, Ref) and isinstance(b, Ref) and a.key() == b.key():
            return a
        if isinstance(a, SymSeq) and isinstance(b, SymSeq) and a.base is b.base and a.lo is b.lo and a.hi is b.hi:
            return a
        if isinstance(a, Opq) and isinstance(b, Opq) and a.base is b.base:
            return a
        if isinstance(a, FnV) and isinstance(b, FnV) and a.ty == b.ty:
            return a
        if isinstance(a, SymV) and isinstance(b, Agg) and not self.is_multi(a):
            return self.merge(c, self.expand(a), b)
        if isinstance(b, SymV) and isinstance(a, Agg) and not self.is_multi(b):
            return self.merge(c, a, self.expand(b))
        if isinstance(a, SymV) and isinstance(b, SymV) and not self.is_multi(a) and not self.is_multi(b):
            return self.merge(c, self.expand(a), self.expand(b))
        alts = []
        for g, v in (((c, a), (bnot(c), b))):
            if isinstance(v, Choice):
                for g2, v2 in v.alts:
                    gg = g & g2
                    if gg is not FALSE:
                        self.add_alt(alts, gg, v2)
            else:
                self.add_alt(alts, g, v)
        if len(alts) == 1:
            return alts[0][1]
        return Choice(alts)

    def add_alt(self, alts, g, v):
        for i, (h, w) in enumerate(alts):
            if self.same_shape(v, w):
                alts[i] = (h | g, self.merge(g, v, w))
                return
        alts.append((g, v))

    def same_shape(self, a, b):
        if isinstance(a, Agg) and isinstance(b, Agg):
            return a.kind == b.kind and a.variant == b.variant and len(a.fs) == len(b.fs) and a.meta == b.meta \
                and (a.kind != "closure" or a.ty == b.ty)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.key() == b.key()
        if isinstance(a, E) and isinstance(b, E):
            return True
        if isinstance(a, B) and isinstance(b, B):
            return True
        if isinstance(a, SymV) and isinstance(b, SymV):
            return a.base is b.base and a.variant == b.variant
        if isinstance(a, Opq) and isinstance(b, Opq):
            return a.base is b.base
        if isinstance(a, SymSeq) and isinstance(b, SymSeq):
            return a.base is b.base and a.lo is b.lo and a.hi is b.hi
        return a is b

    def is_multi(self, v):
        t = self.p.types[v.ty]
        return t["enum"] and v.variant is None and len(t["vs"]) > 1

    def merge_states(self, sts):
        sts = [s for s in sts if s is not None and s.g is not FALSE]
        if not sts:
            return None
        if len(sts) == 1:
            return sts[0]
        tot = FALSE
        for s in sts:
            tot = tot | s.g
        acc = sts[-1].copy()
        for s in reversed(sts[:-1]):
            c = restrict(s.g, s.g | acc.g)
            if c is TRUE and acc.g is not FALSE:
                # overlapping guards (cannot happen for disjoint edges); keep s under its guard
                c = s.g
            mem = dict(acc.mem)
            for r, v in s.mem.items():
                w = mem.get(r)
                if w is None and r in self.symheap:
                    # not touched on the other path: still what the caller passed
                    w = self.heapval(r)
                if w is None:
                    mem[r] = v
                elif w is not v:
                    mem[r] = self.merge(c, v, w)
            for r, w in acc.mem.items():
                if r not in s.mem and r in self.symheap:
                    mem[r] = self.merge(c, self.heapval(r), w)
            # effects: common prefix + both suffixes (events carry their own guards)
            e1, e2 = s.eff, acc.eff
            n = 0
            m = min(len(e1), len(e2))
            while n < m and e1[n] is e2[n]:
                n += 1
            acc = State(mem, s.g | acc.g, e1 + e2[n:])
        return acc

    # -------------------------------------------------------------- places
    def place(self, st, fid, pl):
        """-> list of (guard or None, root, path)"""
        locs = [(None, ("L", fid, pl[0]), ())]
        for el in pl[1:]:
            out = []
            for g, r, p in locs:
                if el == "*":
                    v = self.read(st, r, p)
                    out.extend(self.deref_locs(st, v, g))
                elif el == "?":
                    raise Unsupported("projection")
                elif "f" in el:
                    out.append((g, r, p + (("f", el["f"], el["t"]),)))
                elif "i" in el:
                    idx = self.read(st, ("L", fid, el["i"]), ())
                    out.append((g, r, p + (("i", idx),)))
                elif "ci" in el:
                    if el["end"]:
                        v = self.read(st, r, p)
                        n = self.seqlen(st, v)
                        out.append((g, r, p + (("i", sub(n, num(el["ci"]))),)))
                    else:
                        out.append((g, r, p + (("i", num(el["ci"])),)))
                elif "sub" in el:
                    hi = num(el["to"])
                    if el["end"]:
                        v = self.read(st, r, p)
                        hi = sub(self.seqlen(st, v), num(el["to"]))
                    out.append((g, r, p + (("sub", num(el["sub"]), hi),)))
                elif "v" in el:
                    out.append((g, r, p + (("v", el["v"]),)))
                else:
                    raise Unsupported("projection")
            locs = out
        return locs

    def deref_locs(self, st, v, g=None):
        if isinstance(v, Ref):
            return [(g, v.root, v.path)]
        if isinstance(v, Choice):
            out = []
            for h, x in v.alts:
                gg = h if g is None else (g & h)
                if (gg & st.g) is FALSE:
                    continue
                out.extend(self.deref_locs(st, x, restrict(gg, st.g)))
            return out
        if isinstance(v, Opq):
            root = ("opq", v.base)
            if root not in self.symheap:
                t = None
                if v.ty is not None:
                    tt = self.p.types[v.ty]
                    if tt["k"] in ("ref", "ptr"):
                        t = tt["e"]
                self.symheap[root] = ("val", Opq(v.base, t), v)
            return [(g, root, ())]
        if isinstance(v, E) and v.unk:
            root = ("unk", v)
            self.symheap[root] = ("val", v, v)
            return [(g, root, ())]
        raise Unsupported(f"deref of {type(v).__name__}")

    def seqlen(self, st, v):
        if isinstance(v, Agg):
            return num(len(v.fs))
        if isinstance(v, SymSeq):
            return v.len()
        if isinstance(v, Choice):
            return self.map_choice(st, v, lambda x: self.seqlen(st, x))
        if isinstance(v, E) and v.unk:
            return mk("unknown", "len of unknown")
        if isinstance(v, Opq):
            return mk("len", v.base)
        raise Unsupported(f"len of {type(v).__name__}")

    def rd(self, st, fid, pl):
        locs = self.place(st, fid, pl)
        if len(locs) == 1:
            return self.read(st, locs[0][1], locs[0][2])
        r = None
        for g, root, path in reversed(locs):
            try:
                v = self.read(st, root, path)
            except Dead:
                continue
            r = v if r is None else self.merge(g, v, r)
        if r is None:
            raise Dead()
        return r

    def wr(self, st, fid, pl, val):
        locs = self.place(st, fid, pl)
        for g, root, path in locs:
            self.write(st, root, path, val, None if len(locs) == 1 else g)

    def deref(self, st, v):
        """fully dereferenced value"""
        for _ in range(64):
            if isinstance(v, Ref):
                v = self.read(st, v.root, v.path)
            elif isinstance(v, Choice) and all(isinstance(x, (Ref, Choice)) for _, x in v.alts):
                v = self.map_choice(st, v, lambda x: self.deref(st, x))
            else:
                return v
        raise Unsupported("cyclic reference")

    # -------------------------------------------------------------- operands
    def op(self, st, fid, o):
        if "cp" in o:
            return self.rd(st, fid, o["cp"])
        if "mv" in o:
            return self.rd(st, fid, o["mv"])
        return self.const(o["c"], st)

    # -------------------------------------------------------------- discriminants
    def discr(self, st, v):
        if isinstance(v, Agg):
            t = self.p.types[v.ty] if v.ty is not None else None
            if t is None:
                return num(v.variant)
            return num(t["vs"][v.variant]["discr"])
        if isinstance(v, SymV):
            t = self.p.types[v.ty]
            if v.variant is not None:
                return num(t["vs"][v.variant]["discr"])
            if len(t["vs"]) == 1:
                return num(t["vs"][0]["discr"])
            return self.symdiscr(v)
        if isinstance(v, Choice):
            return self.map_choice(st, v, lambda x: self.discr(st, x))
        if isinstance(v, E) and v.unk:
            return mk("unknown", "discr of unknown")
        if isinstance(v, Opq):
            return mk("discr", v.base)
        raise Unsupported(f"discriminant of {type(v).__name__}")

    def symdiscr(self, v):
        d = mk("discr", v.base)
        DISCR[d.id] = [x["discr"] for x in self.p.types[v.ty]["vs"]]
        return d

    def enum_cases(self, st, v):
        """[(guard, variant index, value)] of an enum value under st.g"""
        if isinstance(v, Agg):
            return [(TRUE, v.variant, v)]
        if isinstance(v, SymV):
            t = self.p.types[v.ty]
            if v.variant is not None or len(t["vs"]) == 1:
                return [(TRUE, v.variant or 0, SymV(v.base, v.ty, v.variant or 0))]
            d = self.symdiscr(v)
            out = []
            rest = TRUE
            n = len(t["vs"])
            for i, vs in enumerate(t["vs"]):
                c = beq(d, num(vs["discr"]))
                if n == 2:
                    c = beq(d, num(t["vs"][1]["discr"]))
                    c = bnot(c) if i == 0 else c
                out.append((c, i, SymV(v.base, v.ty, i)))
            return out
        if isinstance(v, Choice):
            out = []
            for g, x in v.alts:
                if (g & st.g) is FALSE:
                    continue
                for h, i, y in self.enum_cases(st, x):
                    if (g & h & st.g) is not FALSE:
                        out.append((restrict(g & h, st.g), i, y))
            return out
        raise Unsupported(f"enum cases of {type(v).__name__}")

    # -------------------------------------------------------------- rvalues
    def rvalue(self, st, fid, r, dty):
        k = r["r"]
        if k == "use":
            return self.op(st, fid, r["o"])
        if k == "ref":
            locs = self.place(st, fid, r["p"])
            alts = [(g, Ref(root, path, r.get("mut", False))) for g, root, path in locs]
            if len(alts) == 1:
                return alts[0][1]
            return Choice(alts)
        if k == "bin":
            return self.binop(st, fid, r, dty)
        if k == "un":
            v = self.op(st, fid, r["o"])
            o = r["op"]
            if o == "Neg":
                return self.lift1(st, v, neg)
            if o == "Not":
                if isinstance(v, B):
                    return bnot(v)
                return mk("app", "bitnot", v)
            if o == "PtrMetadata":
                if isinstance(v, (Ref, Choice)):
                    return self.seqlen(st, self.deref(st, v))
                if isinstance(v, Opq):
                    return mk("len", v.base)
            raise Unsupported("unary " + o)
        if k == "agg":
            es = [self.op(st, fid, x) for x in r["es"]]
            if r["k"] == "array":
                return Agg("array", es)
            if r["k"] == "tuple":
                return Agg("tuple", es)
            if r["k"] == "adt":
                if "union_field" in r:
                    raise Unsupported("union")
                t = self.p.types[r["ty"]]
                if t["def"] == "nalgebra::ArrayStorage":
                    return es[0]
                if t["def"] == "nalgebra::Matrix":
                    return es[0]
                return Agg("adt", es, r["ty"], r["variant"])
            if r["k"] == "closure":
                return Agg("closure", es, r["ty"])
            raise Unsupported("aggregate")
        if k == "discr":
            return self.discr(st, self.rd(st, fid, r["p"]))
        if k == "cast":
            v = self.op(st, fid, r["o"])
            kind = r["kind"]
            if kind.startswith("FloatToInt"):
                v = self.lift1(st, v, lambda x: num(int(nv(x))) if isnum(x) else mk("trunc", x))
            elif kind.startswith("FloatToFloat"):
                tn = self.p.types[r["t"]]["n"]
                if tn == "f32":
                    v = self.lift1(st, v, lambda x: mk("f32", x))
            elif kind.startswith("PtrToPtr") and isinstance(v, Ref):
                t = self.optype(fid, r["o"])
                t = self.p.types[self.p.types[t]["e"]] if t is not None and "e" in self.p.types[t] else {}
                if t.get("def") == "std::cell::UnsafeCell" and self.p.types[r["t"]].get("e") == t["args"][0]:
                    v = Ref(v.root, v.path + (("f", 0),), True)     # the address of the contents
                    self.cells.add((v.root, v.path))
            elif kind.startswith("IntToInt") or kind.startswith("IntToFloat"):
                if isinstance(v, B):
                    v = ite(v, ONE, ZERO)
                elif isinstance(v, E) and isnum(v):
                    t = self.p.types[r["t"]]["n"]
                    m = re.fullmatch(r"([ui])(8|16|32|64|128|size)", t)
                    if m:
                        bits = 64 if m.group(2) == "size" else int(m.group(2))
                        x = int(nv(v)) & ((1 << bits) - 1)
                        if m.group(1) == "i" and x >> (bits - 1):
                            x -= 1 << bits
                        v = num(x)
            return v
        if k == "repeat":
            v = self.op(st, fid, r["o"])
            if not isinstance(r["n"], int) or r["n"] > 4096:
                raise Unsupported("repeat")
            return Agg("array", [v] * r["n"])
        raise Unsupported("rvalue " + k + " " + str(r.get("dbg", ""))[:60])

    def lift1(self, st, v, f):
        if isinstance(v, E):
            return f(v)
        if isinstance(v, Choice):
            return self.map_choice(st, v, lambda x: self.lift1(st, x, f))
        raise Unsupported(f"scalar op on {type(v).__name__}")

    def binop(self, st, fid, r, dty):
        a = self.op(st, fid, r["a"])
        b = self.op(st, fid, r["b"])
        o = r["op"]
        if o == "Cmp" and isinstance(a, E) and isinstance(b, E):
            return self.models.ordering(dty, a, b)
        isint = False
        for x in ("a", "b"):
            t = self.optype(fid, r[x])
            if t is not None and self.p.types[t]["k"] in ("int", "uint"):
                isint = True
        return self.bin(o, a, b, isint)

    def optype(self, fid, o):
        if "c" in o:
            return None
        pl = o.get("cp") or o.get("mv")
        if len(pl) == 1:
            return self.frame_body[fid].j["locals"][pl[0]]
        last = pl[-1]
        if isinstance(last, dict) and "t" in last:
            return last["t"]
        return None

    def bin(self, o, a, b, isint=False):
        if isinstance(a, B) and isinstance(b, B):
            if o == "Eq":
                return bite(a, b, bnot(b))
            if o in ("Ne", "BitXor"):
                return bite(a, bnot(b), b)
            if o == "BitAnd":
                return a & b
            if o == "BitOr":
                return a | b
            if o == "Lt":
                return bnot(a) & b
            raise Unsupported("bool op " + o)
        if isinstance(a, Ref) and isinstance(b, Ref) and o in ("Eq", "Ne"):
            r = TRUE if a.key() == b.key() else FALSE
            return r if o == "Eq" else bnot(r)
        if isinstance(a, Ref) and isinstance(b, E):
            # the checks of an address: aligned, not null
            if o == "BitAnd":
                return ZERO
            if o in ("Eq", "Ne") and b is ZERO:
                return FALSE if o == "Eq" else TRUE
        if not isinstance(a, E) or not isinstance(b, E):
            raise Unsupported(f"binary {o} on {type(a).__name__},{type(b).__name__}")
        if a.unk or b.unk:
            # do not let special operators crash on unknowns
            pass
        if o == "Add" or o == "AddUnchecked":
            return add(a, b)
        if o == "Sub" or o == "SubUnchecked":
            return sub(a, b)
        if o == "Mul" or o == "MulUnchecked":
            return mul(a, b)
        if o == "Div":
            if isint:
                if isnum(a) and isnum(b) and nv(b) != 0:
                    q = abs(nv(a)) // abs(nv(b))
                    return num(q if (nv(a) >= 0) == (nv(b) >= 0) else -q)
                return mk("idiv", a, b)
            return div(a, b)
        if o == "Rem":
            if isnum(a) and isnum(b) and nv(b) != 0 and nv(a) >= 0 and nv(b) > 0:
                return num(nv(a) % nv(b))
            return mk("rem", a, b)
        if o == "AddWithOverflow":
            return Agg("tuple", [add(a, b), FALSE])
        if o == "MulWithOverflow":
            return Agg("tuple", [mul(a, b), FALSE])
        if o == "SubWithOverflow":
            return Agg("tuple", [sub(a, b), blt(a, b)])
        if o == "Lt":
            return blt(a, b)
        if o == "Le":
            return ble(a, b)
        if o == "Gt":
            return blt(b, a)
        if o == "Ge":
            return ble(b, a)
        if o == "Eq":
            return beq(a, b)
        if o == "Ne":
            return bnot(beq(a, b))
        if o == "Cmp":
            raise Unsupported("three-way compare")
        if isnum(a) and isnum(b):
            x, y = int(nv(a)), int(nv(b))
            if o == "BitAnd":
                return num(x & y)
            if o == "BitOr":
                return num(x | y)
            if o == "BitXor":
                return num(x ^ y)
            if o in ("Shl", "ShlUnchecked"):
                return num(x << y)
            if o in ("Shr", "ShrUnchecked"):
                return num(x >> y)
        return mk("app", "bin" + o, a, b)

    # -------------------------------------------------------------- bodies
    frame_body = None

    def body(self, iid):
        b = self.bodies.get(iid)
        if b is None:
            b = Body(self.p.insts[iid])
            self.bodies[iid] = b
        return b

    def call_inst(self, iid, args, st):
        """Inline one instance: returns (value, state) or (None, None) if it never returns."""
        j = self.p.insts[iid]
        deep = [g for i, g in zip(self.callstack, self.guards) if i == iid]
        # decided recursion is followed further than one that goes on under more and more conditions
        decided = len(deep) > 3 and deep[-3] is st.g
        if self.depth > (4 if decided else 1) * self.max_depth or len(deep) > (40 if decided else 3):
            raise Unsupported("call depth " + j["name"])
        body = self.body(iid)
        self.inlined.add(iid)
        if self.frame_body is None:
            self.frame_body = {}
        self.nframes += 1
        fid = self.nframes
        self.frame_body[fid] = body
        st = st.copy()
        if len(args) != j["argc"]:
            # closure bodies called through Fn*: (self, (args...))
            raise Unsupported(f"arity of {j['name']}")
        for i, a in enumerate(args):
            st.mem[("L", fid, i + 1)] = a
        st.mem[("L", fid, 0)] = Agg("tuple", [])
        self.depth += 1
        self.callstack.append(iid)
        self.guards.append(st.g)
        sp = self.span
        try:
            rets = []
            fr = Frame(fid, body, rets)
            self.region(fr, body.order, 0, st, None)
            out = self.merge_states(rets)
        finally:
            self.depth -= 1
            self.callstack.pop()
            self.guards.pop()
            self.span = sp
        if out is None:
            return None, None
        ret = out.mem[("L", fid, 0)]
        out = out.copy()
        for k in [k for k in out.mem if k[0] == "L" and k[1] == fid]:
            del out.mem[k]
        return ret, out

    def region(self, fr, order, entry, st, header):
        """Process an acyclic order of blocks/loops. Returns (exits, back) where
        exits: list of (target block, state) leaving the region, back: states
        returning to `header`."""
        pend = defaultdict(list)
        pend[entry].append(st)
        members = set()
        for it in order:
            if it[0] == "b":
                members.add(it[1])
            else:
                members |= it[2] if it[0] == "x" else it[3]
        exits, back = [], []

        def emit(t, s):
            if s is None or s.g is FALSE:
                return
            if header is not None and t == header:
                back.append(s)
            elif t in members:
                pend[t].append(s)
            else:
                exits.append((t, s))

        for it in order:
            if it[0] == "b":
                ss = pend.pop(it[1], None)
                if not ss:
                    continue
                s = self.merge_states(ss)
                if s is None:
                    continue
                for t, s2 in self.block(fr, it[1], s.copy()):
                    emit(t, s2)
            elif it[0] == "x":
                if any(h in pend for h in it[1]):
                    raise Unsupported("irreducible control flow")
            else:
                h = it[1]
                ss = pend.pop(h, None)
                if not ss:
                    continue
                s = self.merge_states(ss)
                if s is None:
                    continue
                for t, s2 in self.loop(fr, it, s):
                    emit(t, s2)
        return exits, back

    # -------------------------------------------------------------- loops
    def loop(self, fr, it, st):
        _, h, order, blocks = it
        exits = []
        cur = st
        n = 0
        while True:
            n += 1
            if n > self.MAXUNROLL:
                raise Unsupported("loop does not unroll")
            saved_nu = len(self.unknowns)
            try:
                # every item of `order` starts at h; h itself is a plain block
                ex, back = self.region(fr, order, h, cur.copy(), None if False else h)
            except NeedSummary as ns:
                del self.unknowns[saved_nu:]
                return exits + self.summarise(fr, it, cur, ns)
            b = self.merge_states(back)
            if b is None or b.g is FALSE:
                exits += ex
                break
            if self.unroll and n < 60:
                pass                     # driven by a finite script of calls
            elif n == 1 and not self.progress(fr, cur, b) or (n > 60 and b.g is not cur.g):
                if n == 1:
                    return exits + self.while_summary(fr, it, cur)
            exits += ex
            cur = b
        return exits

    def progress(self, fr, a, b):
        """did a concrete iterator or integer counter advance?"""
        for k, v in b.mem.items():
            w = a.mem.get(k)
            if w is None or w is v:
                continue
            if self._adv(w, v):
                return True
        return False

    def _adv(self, w, v):
        if isinstance(w, E) and isinstance(v, E):
            return isnum(w) and isnum(v) and nv(w) != nv(v)
        if isinstance(w, Iter) and isinstance(v, Iter):
            return w is not v
        if isinstance(w, Agg) and isinstance(v, Agg) and len(w.fs) == len(v.fs):
            return any(x is not y and self._adv(x, y) for x, y in zip(w.fs, v.fs))
        return False

    def leaves(self, v, path=()):
        if isinstance(v, (E, B)):
            yield path, v
        elif isinstance(v, Agg):
            for i, x in enumerate(v.fs):
                yield from self.leaves(x, path + (i,))
        elif isinstance(v, SymV) and not self.is_multi(v):
            yield from self.leaves(self.expand(v), path)
        else:
            yield path, v

    def setleaf(self, v, path, x):
        if not path:
            return x
        if isinstance(v, SymV):
            v = self.expand(v)
        fs = list(v.fs)
        fs[path[0]] = self.setleaf(fs[path[0]], path[1:], x)
        return v.with_fs(fs)

    def changed(self, a, b, roots):
        """leaf locations whose value differs between memories a and b"""
        out = []
        for r in roots:
            v, w = a.get(r), b.get(r)
            if v is None or w is None or v is w:
                continue
            if isinstance(v, Iter) or isinstance(w, Iter):
                continue
            lv, lw = dict(self.leaves(v)), dict(self.leaves(w))
            if set(lv) != set(lw):
                out.append((r, None))
                continue
            for p in lv:
                x, y = lv[p], lw[p]
                if x is y:
                    continue
                if isinstance(x, Ref) and isinstance(y, Ref) and x.key() == y.key():
                    continue
                if isinstance(x, SymSeq) and isinstance(y, SymSeq) and x.base is y.base:
                    continue
                if isinstance(x, SymV) and isinstance(y, SymV) and x.base is y.base:
                    continue
                if isinstance(x, (Opq,)) and isinstance(y, Opq) and x.base is y.base:
                    continue
                if isinstance(x, FnV) or isinstance(x, Iter):
                    continue
                out.append((r, p))
        return out

    def live_roots(self, fr, cur, it):
        """roots that survive a loop iteration: everything but locals assigned before use in it;
        approximated by all roots present at loop entry"""
        return list(cur.mem)

    def generic_iteration(self, fr, it, cur, setup):
        """run the body once from a state in which every location the loop changes is a
        loop-carried symbol; returns (entry state, exits, back state, {loc: symbol})"""
        _, h, order, blocks = it
        sym = {}
        temps = self.loop_temps(fr, it)
        for _round in range(6):
            s = cur.copy()
            setup(s)
            for (r, p), e in sym.items():
                s.mem[r] = self.setleaf(self.root(s, r), p, e)
            ent = s.copy()
            ex, back = self.region(fr, order, h, s, h)
            b = self.merge_states(back)
            if b is None:
                return ent, ex, None, sym
            new = False
            for r, p in self.changed(ent.mem, b.mem, [k for k in ent.mem if k not in temps]):
                if p is None:
                    raise Unsupported("loop changes the shape of a value")
                if (r, p) not in sym:
                    old = dict(self.leaves(ent.mem[r]))[p]
                    self.lvn += 1
                    e = mk("sym", f"ν{self.lvn}")
                    if isinstance(old, B):
                        sym[(r, p)] = atom("b", e)
                    elif isinstance(old, E):
                        sym[(r, p)] = e
                    else:
                        raise Unsupported("loop-carried " + type(old).__name__)
                    new = True
            if not new:
                return ent, ex, b, sym
        raise Unsupported("loop-carried values do not stabilise")

    def loop_temps(self, fr, it):
        """locals written in the loop before being read on every iteration (temporaries)"""
        blocks = it[3]
        J = fr.body.blocks
        # liveness at header within the loop + after it
        live = self.liveness(fr.body)
        h = it[1]
        dead = set()
        for l in range(len(fr.body.j["locals"])):
            if l not in live[h]:
                dead.add(("L", fr.fid, l))
        return dead

    def liveness(self, body):
        if hasattr(body, "_live"):
            return body._live
        J = body.blocks
        use, defs = [], []

        def opl(o):
            if "cp" in o:
                return pl_use(o["cp"])
            if "mv" in o:
                return pl_use(o["mv"])
            return set()

        def pl_use(p):
            r = {p[0]}
            for e in p[1:]:
                if isinstance(e, dict) and "i" in e:
                    r.add(e["i"])
            return r

        addr = set()
        for b in J:
            for s in b["s"]:
                if s[1]["r"] == "ref" and (len(s[1]["p"]) < 2 or s[1]["p"][1] != "*"):
                    addr.add(s[1]["p"][0])
        for b in J:
            u, d = set(), set()

            def rd(x):
                nonlocal u
                u |= {y for y in x if y not in d}
            for s in b["s"]:
                r = s[1]
                for key in ("o", "a", "b"):
                    if key in r and isinstance(r[key], dict):
                        rd(opl(r[key]))
                for x in r.get("es", []):
                    rd(opl(x))
                if "p" in r:
                    rd(pl_use(r["p"]))
                if len(s[0]) == 1:
                    d.add(s[0][0])
                else:
                    rd(pl_use(s[0]))
            t = b["t"]
            if "o" in t:
                rd(opl(t["o"]))
            if t["t"] == "call":
                for x in t["a"]:
                    rd(opl(x))
                if len(t["d"]) == 1:
                    d.add(t["d"][0])
                else:
                    rd(pl_use(t["d"]))
            if t["t"] == "return":
                rd({0})
            use.append(u)
            defs.append(d)
        n = len(J)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s2 in body._succ(J[i]["t"]):
                    o |= live[s2]
                x = use[i] | (o - defs[i])
                if x != live[i]:
                    live[i] = x
                    ch = True
        # address-taken locals: live where a reference may be live; keep only if live-in by use of
        # themselves or of any local (conservative when they hold loop state)
        body._live = live
        body._addr = addr
        return live

    def subst(self, x, f):
        return subst(x, f)

    def summarise(self, fr, it, cur, ns):
        """loop driven by an iterator over a symbolic collection"""
        bv = self.bvdepth
        self.bvdepth += 1
        try:
            kind, *rest = self.models.consume(ns.it, cur.copy(), bvid=bv)
            if kind != "sym":
                raise Unsupported("summary of concrete iterator")
            n, flt, item, _st = rest
            dty = ns.it

            def setup(s):
                self.write(s, ns.root, ns.path, Iter("bound", item))
                s.g = s.g
            ent, ex, back, sym = self.generic_iteration(fr, it, cur, setup)
        finally:
            self.bvdepth -= 1
        g0 = cur.g
        # early exits
        early = FALSE
        for t, s in ex:
            early = early | restrict(s.g, g0)
        if early is not FALSE:
            early = early & flt
        symset = set()
        for e in sym.values():
            symset |= {e} if isinstance(e, E) else {ATOMS[e.var][1]}

        def dep_sym(x):
            return depends(x, symset)
        # normal exit: run header with exhausted iterator, loop-carried values at their final values
        fin = cur.copy()
        self.write(fin, ns.root, ns.path, Iter("list", (), 0))
        if back is not None:
            for (r, p), e in sym.items():
                out = dict(self.leaves(back.mem[r]))[p]
                init = dict(self.leaves(self.root(cur, r)))[p]
                v = self.recur(e, out, init, bv, n, flt, symset, early)
                fin.mem[r] = self.setleaf(self.root(fin, r), p, v)
        # events inside the loop
        evs = []
        seen = set()
        for s in ([back] if back is not None else []) + [s for _, s in ex]:
            for ev in s.eff[len(cur.eff):]:
                if id(ev) in seen:
                    continue
                seen.add(id(ev))
                g = restrict(ev.g, g0) & flt
                if bv in g.bvs:
                    g = atom("any", bv, n, g)
                evs.append(Event(g0 & g, ev.kind, ev.data, ev.span, ev.fn))
        res = []
        anyc = FALSE
        if early is not FALSE:
            if depends(early, symset):
                raise Unsupported("early exit depends on loop state")
            anyc = atom("any", bv, n, early) if bv in early.bvs else (early & blt(ZERO, n))
            firste = mk("first", bv, n, mk("cond", early))

            def sb(x):
                if isinstance(x, E) and x.op == "bv" and x.args[0] == bv:
                    return firste
                return None
            for t, s in ex:
                s2 = s.copy()
                gi = restrict(s.g, g0)
                if restrict(gi, early) is TRUE:
                    s2.g = g0 & anyc
                else:
                    s2.g = g0 & anyc & subst(gi, sb)
                for r in list(s2.mem):
                    v = s2.mem[r]
                    if any(isinstance(x, (E, B)) and depends(x, symset) for _, x in self.leaves(v)) \
                            and r not in self.loop_temps(fr, it):
                        s2.mem[r] = self.havoc(v, "value at early loop exit")
                    else:
                        s2.mem[r] = self.subst_val(v, sb)
                s2.eff = cur.eff + tuple(evs)
                res.append((t, s2))
        fin.g = g0 & bnot(anyc)
        fin.eff = cur.eff + tuple(evs)
        if fin.g is not FALSE:
            ex2, back2 = self.region(fr, it[2], it[1], fin, it[1])
            if self.merge_states(back2) is not None:
                raise Unsupported("loop continues after its iterator is exhausted")
            res += ex2
        return res

    def havoc(self, v, why):
        u = self.unknown(why)
        def f(x):
            if isinstance(x, E):
                return u
            if isinstance(x, B):
                return atom("b", u)
            return x
        return self.map_leaves(v, f, True)

    def map_leaves(self, v, f, lazy=False):
        """lazy: also values that are not expanded yet"""
        if isinstance(v, (E, B)):
            return f(v)
        if isinstance(v, Agg):
            return v.with_fs([self.map_leaves(x, f, lazy) for x in v.fs])
        if isinstance(v, Choice):
            return Choice([(g, self.map_leaves(x, f, lazy)) for g, x in v.alts])
        if lazy:
            if isinstance(v, SymV):
                return SymV(f(v.base), v.ty)
            if isinstance(v, SymSeq):
                return SymSeq(f(v.base), v.ety)
            if isinstance(v, Opq) and isinstance(v.base, E):
                return Opq(f(v.base), v.ty)
        return v

    def subst_val(self, v, sb):
        if isinstance(v, (E, B)):
            return subst(v, sb)
        if isinstance(v, Agg):
            fs = [self.subst_val(x, sb) for x in v.fs]
            if all(x is y for x, y in zip(fs, v.fs)):
                return v
            return v.with_fs(fs)
        if isinstance(v, SymV):
            return SymV(subst(v.base, sb), v.ty, v.variant)
        if isinstance(v, SymSeq):
            return SymSeq(subst(v.base, sb), v.ety, v.lo and subst(v.lo, sb), v.hi and subst(v.hi, sb))
        if isinstance(v, Choice):
            return Choice([(subst(g, sb), self.subst_val(x, sb)) for g, x in v.alts])
        if isinstance(v, Opq):
            return Opq(subst(v.base, sb), v.ty)
        return v

    def recur(self, e, out, init, bv, n, flt, symset, early):
        """closed form of a loop-carried value: e (symbol at iteration start) -> out"""
        if out is e:
            return init
        if early is not FALSE:
            # values after a loop with early exits: only valid on the no-exit path, where the
            # recurrence ran for every element; conditions on early are false there
            out = restrict_val(out, bnot(early))
        if isinstance(e, B):
            x = cofactor(out, e.var, True)
            y = cofactor(out, e.var, False)
            if depends(x, symset) or depends(y, symset):
                return atom("b", self.unknown("loop-carried bool"))
            if x is TRUE:
                return init | exists(bv, n, y & flt)
            if y is FALSE:
                return init & bnot(exists(bv, n, bnot(x) & flt))
            return atom("b", self.unknown("loop-carried bool"))
        d = delta(out, e)
        if d is not None and not depends(d, symset):
            return add(init, mksum(bv, n, ite(flt, d, ZERO)))
        return self.unknown("loop-carried value")

    def while_summary(self, fr, it, cur):
        """loop with a symbolic condition and no iterator: effects of one generic iteration are
        recorded; values changed by it are unknown-but-named afterwards"""
        ent, ex, back, sym = self.generic_iteration(fr, it, cur, lambda s: None)
        info = {"entry": cur, "ent": ent, "exits": ex, "back": back, "sym": sym}
        evs = []
        seen = set()
        for s in ([back] if back is not None else []) + [s for _, s in ex]:
            for ev in s.eff[len(cur.eff):]:
                if id(ev) not in seen:
                    seen.add(id(ev))
                    evs.append(ev)
        info["events"] = evs
        le = Event(cur.g, "loop", info, self.span, self.callstack[-1] if self.callstack else None)
        res = []
        for t, s in ex:
            s2 = s.copy()
            # on exit the guard of the exit iteration holds for the loop symbols
            s2.eff = cur.eff + (le,)
            res.append((t, s2))
        return res

    # -------------------------------------------------------------- blocks
    def block(self, fr, bi, st):
        fid = fr.fid
        blk = fr.body.blocks[bi]
        try:
            for pl, rv, sp in blk["s"]:
                self.span = sp
                if rv["r"] == "setdiscr":
                    raise Unsupported("set discriminant")
                v = self.rvalue_guarded(st, fid, pl, rv)
                self.wr(st, fid, pl, v)
            self.span = blk["sp"]
            return self.terminator(fr, blk, st)
        except Dead:
            return []

    def rvalue_guarded(self, st, fid, pl, rv):
        try:
            return self.rvalue(st, fid, rv, None)
        except Unsupported as e:
            ty = self.frame_body[fid].j["locals"][pl[0]] if len(pl) == 1 else None
            if len(pl) > 1 and isinstance(pl[-1], dict) and "t" in pl[-1]:
                ty = pl[-1]["t"]
            return self.unknown(str(e), ty)

    def event(self, st, kind, data, g=None):
        ev = Event(st.g if g is None else g, kind, data, self.span, self.callstack[-1] if self.callstack else None)
        st.eff = st.eff + (ev,)
        if kind == "exit":
            self.exits.append(ev)
        if kind == "panic":
            ev_list = self.panics
            ev_list.append((ev, self.bvdepth))

    def terminator(self, fr, blk, st):
        fid = fr.fid
        t = blk["t"]
        k = t["t"]
        if k == "goto" or k == "drop":
            return [(t["to"], st)]
        if k == "return":
            fr.rets.append(st)
            return []
        if k == "switch":
            v = self.op(st, fid, t["o"])
            out = []
            if isinstance(v, B):
                v_e = None
                rest = st.g
                for val, tgt in t["cases"]:
                    c = v if val == 1 else bnot(v)
                    g = rest & c
                    rest = rest & bnot(c)
                    if g is not FALSE:
                        s = st.copy()
                        s.g = g
                        out.append((tgt, s))
                if rest is not FALSE:
                    s = st.copy()
                    s.g = rest
                    out.append((t["else"], s))
                return out
            if not isinstance(v, E):
                raise Unsupported(f"switch on {type(v).__name__}")
            rest = st.g
            for val, tgt in t["cases"]:
                kk = num(val)
                g = feasible(st.g, v, kk) & rest if not isnum(v) else (st.g if nv(v) == val else FALSE)
                if isnum(v):
                    if nv(v) == val:
                        s = st.copy()
                        return [(tgt, s)]
                    continue
                rest = rest & bnot(beq(v, kk))
                if g is not FALSE:
                    s = st.copy()
                    s.g = g
                    out.append((tgt, s))
            if rest is not FALSE and fr.body.blocks[t["else"]]["t"]["t"] != "unreachable":
                s = st.copy()
                s.g = rest
                out.append((t["else"], s))
            elif out and not isnum(v) and fr.body.blocks[t["else"]]["t"]["t"] == "unreachable":
                # exhaustive match: the last case needs no condition of its own
                g = st.g
                for tgt, s in out[:-1]:
                    g = g & bnot(s.g)
                # only when all earlier guards are exactly (st.g and v == k)
                out[-1][1].g = g & out[-1][1].g if len(out) == 1 and len(t["cases"]) == 1 else out[-1][1].g
                if len(out) == len(t["cases"]) and len(out) > 1:
                    r = st.g
                    for val, _ in t["cases"][:-1]:
                        r = r & bnot(beq(v, num(val)))
                    out[-1][1].g = r
            return out
        if k == "assert":
            c = self.op(st, fid, t["o"])
            if not isinstance(c, B):
                raise Unsupported("assert on non-bool")
            ok = c if t["exp"] else bnot(c)
            bad = st.g & bnot(ok)
            if bad is not FALSE:
                self.event(st, "panic", ("assert", t["msg"]), bad)
            st.g = st.g & ok
            if st.g is FALSE:
                fr.dead.append(st)
                return []
            return [(t["to"], st)]
        if k == "call":
            return self.do_call(fr, blk, st)
        if k in ("unreachable", "resume"):
            return []
        raise Unsupported("terminator " + k)

    # -------------------------------------------------------------- calls
    def do_call(self, fr, blk, st):
        fid = fr.fid
        t = blk["t"]
        self.callsites += 1
        f = t["f"].get("c")
        args = [self.op(st, fid, a) for a in t["a"]]
        dty = None
        d = t["d"]
        if len(d) == 1:
            dty = fr.body.j["locals"][d[0]]
        elif isinstance(d[-1], dict) and "t" in d[-1]:
            dty = d[-1]["t"]
        aty = [self.argty(fid, a) for a in t["a"]]
        if f is None or f.get("k") != "fn":
            fv = self.op(st, fid, t["f"])
            v, st2 = self.apply(fv, args, st, dty)
        else:
            v, st2 = self.invoke(f, args, st, dty, aty, t["to"] is None)
        self.span = blk["sp"]
        if st2 is None or t["to"] is None:
            return []
        self.wr(st2, fid, d, v)
        if st2.g is FALSE:
            return []
        return [(t["to"], st2)]

    def argty(self, fid, o):
        if "c" in o:
            return o["c"].get("ty")
        return self.optype(fid, o)

    def invoke(self, f, args, st, dty, aty, diverges=False):
        """call of a known function; returns (value, state)"""
        path = f["path"]
        iid = f.get("inst")
        by = self.bypath.get(path) or self.bypath.get(f.get("rpath"))
        if by:
            try:
                return by(self, f, args, st, dty)
            except Unsupported as e:
                return self.unknown(str(e), dty), st
        if iid is not None and iid in self.opaque:
            try:
                return self.opaque[iid](self, args, st, dty)
            except Unsupported as e:
                return self.unknown(str(e), dty), st
        try:
            r = self.models.call(f, args, st, dty, aty)
        except Unsupported as e:
            r = None
            why = str(e)
            if not (iid is not None and self.p.insts[iid] is not None):
                return self.opaque_call(f, args, st, dty, why), st
        if r is not None:
            return r
        if diverges and not (iid is not None and self.p.insts[iid]["local"]):
            self.event(st, "panic", ("call", path, args))
            return None, None
        if path.startswith("std::ops::Fn") and path.split("::")[-1] in ("call", "call_mut", "call_once"):
            try:
                return self.apply(args[0], list(self.untuple(args[1])), st, dty)
            except Unsupported as e:
                if iid is not None and self.p.insts[iid] is not None:
                    raise
                return self.opaque_call(f, args, st, dty, str(e)), st
        if iid is not None and self.p.insts[iid] is not None:
            j = self.p.insts[iid]
            local = j["local"]
            cargs = args
            nu, ns = len(self.unknowns), st
            try:
                return self.call_inst(iid, cargs, st)
            except (Unsupported, NeedSummary) as e:
                if isinstance(e, NeedSummary) and local:
                    raise
                del self.unknowns[nu:]
                return self.opaque_call(f, args, ns, dty, str(e)), ns
        return self.opaque_call(f, args, st, dty, "no body"), st

    def untuple(self, v):
        if isinstance(v, Agg):
            return v.fs
        raise Unsupported("argument tuple")

    def opaque_call(self, f, args, st, dty, why):
        name = f.get("rpath") or f["path"]
        self.unknowns.append((f"call {name}: {why}", self.span))
        self.nunk += 1
        u = mk("unknown", f"{name}#{self.nunk}")
        for a in args:
            for r in self.mut_refs(a):
                try:
                    old = self.read(st, r.root, r.path)
                    self.write(st, r.root, r.path, self.havoc_all(old, u))
                except (Unsupported, Dead):
                    pass
        if dty is None:
            return u
        return self.fresh(u, dty)

    def havoc_all(self, v, u):
        n = [0]

        def f(x):
            n[0] += 1
            e = mk("idx", u, num(1000 + n[0]))
            if isinstance(x, E):
                return e
            if isinstance(x, B):
                return atom("b", e)
            return x
        if isinstance(v, SymV):
            return SymV(mk("fld", u, "havoc"), v.ty, v.variant)
        if isinstance(v, (Iter,)):
            return Opq(u)
        return self.map_leaves(v, f, True)

    def mut_refs(self, v):
        if isinstance(v, Ref):
            if v.mut:
                yield v
        elif isinstance(v, Agg):
            for x in v.fs:
                yield from self.mut_refs(x)
        elif isinstance(v, Choice):
            for _, x in v.alts:
                yield from self.mut_refs(x)

    def apply_each(self, fv, args, st, dty):
        """call of one of several functions, each under its own condition"""
        outs = []
        for g, one in fv.alts:
            s = st.copy()
            s.g = st.g & g
            if s.g is FALSE:
                continue
            v, s = self.apply(one, args, s, dty)
            if s is not None and s.g is not FALSE:
                outs.append((v, s))
        if not outs:
            return None, None
        self.nframes += 1
        root = ("tmp", self.nframes)
        for v, s in outs:
            s.mem[root] = v
        out = self.merge_states([s for _, s in outs])
        return out.mem[root], out

    def apply(self, fv, args, st, dty=None):
        """call a closure / function value"""
        if isinstance(fv, Choice):
            return self.apply_each(fv, args, st, dty)
        holder = fv
        hops = 0
        while isinstance(holder, Ref):
            holder = self.read(st, holder.root, holder.path)
            hops += 1
        if isinstance(holder, Agg) and holder.kind == "closure":
            t = self.p.types[holder.ty]
            iid = t.get("inst")
            if iid is None or self.p.insts[iid] is None:
                raise Unsupported("closure body")
            j = self.p.insts[iid]
            selfty = self.p.types[j["locals"][1]]
            if selfty["k"] == "ref":
                if isinstance(fv, Ref):
                    # innermost reference to the closure object
                    r = fv
                    while isinstance(self.read(st, r.root, r.path), Ref):
                        r = self.read(st, r.root, r.path)
                    selfv = r
                else:
                    self.nframes += 1
                    root = ("tmp", self.nframes)
                    st.mem[root] = holder
                    selfv = Ref(root, (), selfty["mut"])
            else:
                selfv = holder
            return self.call_inst(iid, [selfv] + list(args), st)
        if isinstance(holder, FnV):
            t = self.p.types[holder.ty]
            if t["k"] == "closure":      # capture-less closure constant
                return self.apply(Agg("closure", [], holder.ty), args, st, dty)
            if t["k"] == "fndef":
                if t.get("ctor"):
                    return self.models.ctor(t, args, st, dty)
                f = {"path": t["path"], "args": t["args"], "inst": t.get("inst"), "rpath": t.get("rpath"), "ty": holder.ty}
                if f["inst"] is None:
                    del f["inst"]
                if dty is None and "inst" in f:
                    dty = self.p.insts[f["inst"]]["locals"][0]
                return self.invoke(f, list(args), st, dty, [None] * len(args))
        raise Unsupported("call of unknown function value")

    # -------------------------------------------------------------- entry
    def start(self):
        return State({}, TRUE, ())

    def param(self, name, ty):
        return self.fresh(mk("sym", name), ty)

    def run(self, b, names=None, st=None):
        """analyse function instance b with symbolic parameters; returns (ret, state, params)"""
        st = st or self.start()
        args = []
        for i in range(b["argc"]):
            nm = names[i] if names else f"a{i}"
            if not isinstance(nm, str):
                args.append(nm)
            else:
                args.append(self.param(nm, b["locals"][1 + i]))
        ret, out = self.call_inst(b["id"], args, st)
        return ret, out, args

    # -------------------------------------------------------------- reify
    def reify(self, v, st):
        """value -> E (structural), for use as argument of uninterpreted functions"""
        if isinstance(v, E):
            return v
        if isinstance(v, B):
            return mk("cond", v)
        if isinstance(v, SymV):
            if not self.is_multi(v):
                return self.reify(self.expand(v), st)
            return mk("agg", "sym", v.base)
        if isinstance(v, Agg):
            tag = v.kind if v.ty is None else self.p.types[v.ty]["n"]
            if v.kind in ("array", "tuple", "mat"):
                tag = v.kind
            return mk("agg", f"{tag}#{v.variant}", *[self.reify(x, st) for x in v.fs])
        if isinstance(v, Ref):
            return self.reify(self.read(st, v.root, v.path), st)
        if isinstance(v, SymSeq):
            if v.lo is None and v.hi is None:
                return mk("agg", "seq", v.base)
            return mk("agg", "seq", v.base, v.lo or ZERO, v.hi or mk("len", v.base))
        if isinstance(v, Opq):
            return v.base
        if isinstance(v, Choice):
            r = self.reify(v.alts[-1][1], st)
            for g, x in reversed(v.alts[:-1]):
                r = ite(g, self.reify(x, st), r)
            return r
        if isinstance(v, FnV):
            return mk("agg", "fn", mk("str", self.p.types[v.ty]["n"]))
        raise Unsupported("reify " + type(v).__name__)


class Dead(Exception):
    """no feasible value: the path cannot be reached"""


class Frame:
    def __init__(self, fid, body, rets):
        self.fid, self.body, self.rets, self.dead = fid, body, rets, []


class Event:
    __slots__ = ("g", "kind", "data", "span", "fn")

    def __init__(self, g, kind, data, span, fn):
        self.g, self.kind, self.data, self.span, self.fn = g, kind, data, span, fn

    def __repr__(self):
        return f"[{self.kind} {self.data} if {self.g} at {self.span}]"


# ------------------------------------------------------------------ expression utilities
def subst(x, f, memo=None):
    """replace sub-expressions: f(e) -> replacement or None"""
    if memo is None:
        memo = {}
    if isinstance(x, B):
        if x is TRUE or x is FALSE:
            return x
        k = ("b", x.id)
        r = memo.get(k)
        if r is None:
            a = ATOMS[x.var]
            na = subst_atom(a, f, memo)
            r = bite(na, subst(x.hi, f, memo), subst(x.lo, f, memo))
            memo[k] = r
        return r
    if not isinstance(x, E):
        return x
    r = memo.get(x.id)
    if r is not None:
        return r
    r = f(x)
    if r is None:
        if not x.args:
            r = x
        else:
            na = tuple(subst(a, f, memo) for a in x.args)
            if all(p is q for p, q in zip(na, x.args)):
                r = x
            else:
                r = rebuild(x.op, na)
    memo[x.id] = r
    return r


def subst_atom(a, f, memo):
    na = tuple(subst(y, f, memo) for y in a[1:])
    if all(p is q for p, q in zip(na, a[1:])):
        return atom(*a)
    if a[0] == "lt":
        return blt(*na)
    if a[0] == "eq":
        return beq(*na)
    return atom(a[0], *na)


def rebuild(op, a):
    if op == "add":
        return add(*a)
    if op == "mul":
        return mul(*a)
    if op == "div":
        return div(*a)
    if op == "powi":
        return powi(*a)
    if op == "ite":
        return ite(*a)
    if op == "sum":
        return mksum(*a)
    return mk(op, *a)


def depends(x, syms, memo=None):
    if memo is None:
        memo = {}
    if isinstance(x, B):
        if x is TRUE or x is FALSE:
            return False
        k = ("b", x.id)
        if k not in memo:
            memo[k] = any(depends(y, syms, memo) for y in ATOMS[x.var][1:]) or depends(x.hi, syms, memo) \
                or depends(x.lo, syms, memo)
        return memo[k]
    if not isinstance(x, E):
        return False
    if x in syms:
        return True
    if x.id not in memo:
        memo[x.id] = any(depends(a, syms, memo) for a in x.args)
    return memo[x.id]


def delta(out, e):
    """d such that out == e + d, structurally"""
    if out is e:
        return ZERO
    if not isinstance(out, E):
        return None
    if out.op == "add":
        a, b = out.args
        if depends(a, {e}):
            if depends(b, {e}):
                return None
            d = delta(a, e)
            return None if d is None else add(d, b)
        if depends(b, {e}):
            d = delta(b, e)
            return None if d is None else add(a, d)
        return None
    if out.op == "ite":
        a, b = delta(out.args[1], e), delta(out.args[2], e)
        if a is None or b is None:
            return None
        return ite(out.args[0], a, b)
    return None


def restrict_val(x, c):
    if isinstance(x, B):
        return restrict(x, c)
    if isinstance(x, E) and x.op == "ite":
        g = restrict(x.args[0], c)
        return ite(g, restrict_val(x.args[1], c), restrict_val(x.args[2], c))
    if isinstance(x, E) and x.op in ("add", "mul") and x.hasite:
        return rebuild(x.op, tuple(restrict_val(a, c) for a in x.args))
    return x


def mksum(bv, n, body):
    if body is ZERO:
        return ZERO
    if isnum(n) and nv(n) == 0:
        return ZERO
    return mk("sum", bv, n, body)


def exists(bv, n, c):
    if c is FALSE:
        return FALSE
    return atom("any", bv, n, c)
