"""Fields that are kept in step with others: a field every configuration function of a structure computes from the data it puts in other
fields (and leaves alone when it leaves those alone) is, in any structure built that way, that function of the other fields.

Inferred from the functions taking a configuration: `&mut T, &Config` or `&Config -> T`; proved inductive by analysing them again on a
structure in which the relation holds; if that fails, the field is taken to hold anything."""
import re
from vals import *

OFF = [False]


class Rule:
    def __init__(self, name, i, fn, self_first, src, cond):
        self.name, self.i, self.fn, self.self_first = name, i, fn, self_first
        self.src = src              # path of the configuration -> field it is put in
        self.cond = cond
        self.memo = {}


def leaves(e, out):
    if isinstance(e, B):
        return out.add(None)
    if e.op in ("sym", "fld", "idx"):
        out.add(path(e))
        return
    if e.op == "discr" or e.op == "len":
        out.add(None)
        return
    for a in e.args:
        if isinstance(a, (E, B)):
            leaves(a, out)


def path(e):
    if e.op == "sym":
        return str(e.args[0])
    if e.op == "fld":
        return path(e.args[0]) + "." + str(e.args[1])
    if e.op == "idx":
        return path(e.args[0]) + "[]"
    return "?"


def base(v):
    if isinstance(v, E) and v.op in ("fld", "sym"):
        return path(v)
    b = getattr(v, "base", None)
    return path(b) if isinstance(b, E) and b.op in ("fld", "sym") and not isinstance(v, E) else None


def configure(p, ty):
    """(function, structure is its first parameter) configuring structures of type ty, if there is exactly one and nothing else changes them"""
    n = re.escape(p.types[ty]["n"])
    got = [(b, True) for b in p.find_sig(r"\(\)", [f"&mut {n}", r"&(.*::)?\w*Config"])] + \
          [(b, False) for b in p.find_sig(n, [r"&(.*::)?\w*Config"])]
    other = [b for b in p.local_fns() if b["kind"] != "Closure" and not b["poly"] and any(a == f"&mut {p.types[ty]['n']}" for a in p.sig(b)[1])]
    return got[0] if len(got) == 1 and all(b is got[0][0] for b in other) else None


def analyse(p, b, self_first, veclen, plain=True):
    from interp import Interp
    I = Interp(p)
    I.veclen = veclen
    I.plain = plain
    if self_first:
        ret, st, args = I.run(b, ["old", "new"])
        v = args[0]
    else:
        ret, st, args = I.run(b, ["new"])
        v = ret
    while isinstance(v, Ref):
        v = I.read(st, v.root, v.path)
    return I, st, v


def fields(I, st, v, n, case):
    """fields of the structure made, for the given values of the tags of the configuration"""
    from interp import subst

    def known(x):
        return subst(x, lambda e: num(case[e]) if e.op == "discr" and e in case else None)

    def narrow(x):
        for _ in range(8):
            if isinstance(x, Choice):
                left = [y for h, y in x.alts if known(h) is not FALSE]
                if len(left) != 1:
                    return None
                x = left[0]
            elif isinstance(x, Ref):
                x = I.read(st, x.root, x.path)
            else:
                break
        return known(x) if isinstance(x, E) else x
    v = narrow(v)
    return None if v is None else [narrow(I.proj(st, v, ("f", i))) for i in range(n)]


def conditions(p, b, self_first):
    """(case to learn from, all cases): values of the tags of the configuration"""
    ct = p.types[p.peel(b["locals"][2 if self_first else 1])]
    base_ = mk("sym", "new")
    if ct["enum"]:
        d = mk("discr", base_)
        all_ = [{d: v["discr"]} for v in ct["vs"]]
        return [c for c, v in zip(all_, ct["vs"]) if v["fields"]], all_
    return [{mk("discr", mk("fld", base_, n)): 1 for n, t in ct["vs"][0]["fields"]
             if p.types[t].get("def") == "std::option::Option"}], None


def rules(p, ty):
    memo = p.__dict__.setdefault("_derived", {})
    if ty in memo:
        return memo[ty]
    memo[ty] = {}
    t = p.types[ty]
    if OFF[0] or not t.get("local") or t["enum"] or len(t["vs"]) != 1:
        return {}
    from interp import Unsupported, Dead, NeedSummary
    try:
        memo[ty] = infer(p, ty, t)
    except (Unsupported, Dead, NeedSummary, KeyError, IndexError, AttributeError, TypeError, ValueError):
        memo[ty] = {}
    return memo[ty]


def infer(p, ty, t):
    u = configure(p, ty)
    if u is None:
        return {}
    b, self_first = u
    names = t["vs"][0]["fields"]
    I, st, v = analyse(p, b, self_first, None)
    learn, every = conditions(p, b, self_first)
    out = {}
    for g in learn:
        fs = fields(I, st, v, len(names), g)
        if fs is None:
            continue
        src = {}
        for (n, _), x in zip(names, fs):
            q = base(x)
            if q and q.split(".")[0] == "new":
                src[q] = n
        for i, ((n, ft), x) in enumerate(zip(names, fs)):
            if n in src.values() or p.types[ft]["k"] not in ("float", "int", "uint") or i in out:
                continue
            if isinstance(x, E) and x.op != "num":
                out[i] = Rule(n, i, b, self_first, src, g)
    good = {}
    for i, r in out.items():
        p.__dict__["_derived"][ty] = {i: r}
        if holds(p, ty, t, r, every):
            good[i] = r
    return good


def instance(p, r, base_, veclen):
    """the value of the field in the structure named base_"""
    def length(b, ety):
        q = path(b)
        for s, n in r.src.items():
            if q == s or q.startswith(s + ".") or q.startswith(s + "["):
                return veclen(interp_subst(b, r, base_), ety) if veclen else None
        return None
    I, st, v = analyse(p, r.fn, r.self_first, length)
    x = (fields(I, st, v, r.i + 1, r.cond) or [None] * (r.i + 1))[r.i]
    if not isinstance(x, E) or x.unk:
        return None
    y = interp_subst(x, r, base_)
    ls = set()
    leaves(y, ls)
    root = path(base_)
    if any(q is None or not (q == root or q.startswith(root + ".")) for q in ls):
        return None
    return y


def interp_subst(x, r, base_):
    from interp import subst
    return subst(x, lambda e: mk("fld", base_, r.src[path(e)]) if e.op in ("fld", "sym") and path(e) in r.src else None)


def value(I, v, i):
    """the value of field i of the input structure v, if it follows from the others"""
    if I.plain:
        return None
    rs = rules(I.p, v.ty)
    if i not in rs:
        return None
    r = rs[i]
    key = (v.base.id, getattr(I, "veclen", None))
    if key not in r.memo:
        from interp import Unsupported, Dead, NeedSummary
        r.memo[key] = None                      # while it is being worked out
        try:
            r.memo[key] = instance(I.p, r, v.base, I.veclen)
        except (Unsupported, Dead, NeedSummary, KeyError, IndexError, AttributeError, TypeError, ValueError):
            pass
    return r.memo[key]


def two(b, ety):
    return 2


def holds(p, ty, t, r, every):
    """configuring keeps the relation"""
    import nf
    from interp import subst
    names = t["vs"][0]["fields"]
    I, st, v = analyse(p, r.fn, r.self_first, two, False)
    if every is not None:
        cases = [(g, None) for g in every]
    else:
        opts = sorted({re.match(r"new\.(\w+)", s)[1] for s in used(p, r)})
        cases = [({mk("discr", mk("fld", mk("sym", "new"), o)): k >> j & 1 for j, o in enumerate(opts)},
                  {o for j, o in enumerate(opts) if not k >> j & 1}) for k in range(1 << len(opts))]
    want0 = instance(p, r, mk("sym", "made"), two)
    if want0 is None:
        return False
    for g, kept in cases:
        fs = fields(I, st, v, len(names), g)
        if fs is None or not isinstance(fs[r.i], E):
            return False

        def put(e):
            # the other fields as they are in the structure made
            if e.op == "fld" and e.args[0].op == "sym" and e.args[0].args[0] == "made":
                k = [j for j, f in enumerate(names) if f[0] == e.args[1]][0]
                x = fs[k]
                if isinstance(x, E):
                    return x
                if kept is not None:
                    s = [s for s, n in r.src.items() if n == e.args[1]][0]
                    return mk("fld", mk("sym", "old"), e.args[1]) if re.match(r"new\.(\w+)", s)[1] in kept else named(s)
            return None
        want = subst(want0, put)
        ls = set()
        leaves(fs[r.i], ls)
        leaves(want, ls)
        # numbers: as computed in double precision
        if nf.equal(fs[r.i], want, samples=0 if ls else 5, tol=1e-12)[0] not in (("equal",) if ls else ("equal", "undecided")):
            return False
    return True


def named(s):
    e = None
    for w in s.split("."):
        e = mk("sym", w) if e is None else mk("fld", e, w)
    # "Some.0" is one name
    return e if ".Some.0" not in s else mk("fld", named(s[:-len(".Some.0")]), "Some.0")


def used(p, r):
    """configuration entries the field is computed from"""
    y = instance(p, r, mk("sym", "made"), two)
    ls = set()
    if y is not None:
        leaves(y, ls)
    return [s for s, n in r.src.items() if any(q and re.match(r"made\." + re.escape(n) + r"(\W|$)", q) for q in ls)]
