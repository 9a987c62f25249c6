import itertools
from common import *

META = {"rule": "value-flow summary of the conversion from the unchecked form of a table of one to three dimensions, for concrete lengths of "
                "axes and rows (matching and mismatching in every single place) and symbolic contents: the guard of acceptance and the "
                "provenance of the contents; who-may-construct rule for tables over all function bodies"}
DOM = Domain((r".*", "any", -3, 3))


def run(c):
    for n in (1, 2, 3):
        c.guard(lambda: conversions(c, n), f"{n}D table")
        c.guard(lambda: constructed(c, n), f"{n}D table: who constructs it")
    c.guard(lambda: default(c), "table that is not given")


def shapes(n, thorough, more=()):
    """(axis lengths, nested row lengths, what is wrong or None)"""
    def full(ns):
        return [full(ns[1:]) for _ in range(ns[0])] if len(ns) > 1 else ns[0]

    def variants_of(rows, ns, path=""):
        """rows with one length changed, at every place"""
        if not isinstance(rows, list):
            for d in (-1, 1):
                if rows + d >= 0:
                    yield rows + d, f"data{path} has {rows + d} entries instead of {rows}"
            return
        yield rows + [full(ns[1:])], f"data{path} has one row too many"
        if rows:
            yield rows[:-1], f"data{path} has one row too few"
        for i, x in enumerate(rows):
            for y, w in variants_of(x, ns[1:], f"{path}[{i}]"):
                yield rows[:i] + [y] + rows[i + 1:], w
    def leaves(rows, at=()):
        if not isinstance(rows, list):
            return [at]
        return [y for i, x in enumerate(rows) for y in leaves(x, at + (i,))]

    def put(rows, at, d):
        if not at:
            return rows + d
        return rows[:at[0]] + [put(rows[at[0]], at[1:], d)] + rows[at[0] + 1:]

    def same_total(rows):
        """as many entries as needed in all, but not in their places"""
        ls = leaves(rows)
        for i in ls:
            for j in ls:
                if i != j and all(isinstance(rows, list) for _ in i):
                    y = put(rows, i, 1)
                    try:
                        y = put(y, j, -1)
                    except TypeError:
                        continue
                    if min(w(y)) >= 0:
                        yield y, "an entry of row " + ".".join(map(str, j)) + " stands in row " + ".".join(map(str, i))

    def w(rows):
        return [rows] if not isinstance(rows, list) else [z for x in rows for z in w(x)]
    if n == 1:
        sizes = [(k,) for k in range(0, 9 if thorough else 6)]
        sizes += [(k,) for k in more]
    elif n == 2:
        k = 5 if thorough else 4
        sizes = [(i, j) for i in range(k) for j in range(k)] + [(i, 2) for i in more if i < 20]
    else:
        k = 4 if thorough else 3
        sizes = [(i, j, l) for i in range(k) for j in range(k) for l in range(k)] + [(3, 1, 2), (1, 3, 2), (1, 2, 3)] * (not thorough)
    for ns in sizes:
        rows = full(ns)
        yield ns, rows, None
        for y, what in variants_of(rows, ns):
            yield ns, y, what
        if n > 1 and (n == 2 or sum(ns) < 7):
            for y, what in same_total(rows):
                yield ns, y, what
        if n > 1 and len(set(ns)) > 1:
            for m in sorted(set(itertools.permutations(ns)) - {ns}):
                if full(list(m)) != rows:
                    yield ns, full(list(m)), "data has the lengths " + "x".join(map(str, m))


def near(c):
    """and one more: neighbouring pairs of a long axis may be what is counted"""
    lo = 8 if c.thorough else 5
    ks = c.sizes_near(r"Vec<f64>|\[f64\]|Table", lo, 100)
    return sorted({*ks, *(k + 1 for k in ks)})


def conversions(c, n):
    b = c.fn(None, rf"std::result::Result<(?:\w+::)*Table{n}D, .*>", [rf"(?:\w+::)*Table{n}DUnchecked"])
    for ns, rows, wrong in shapes(n, c.thorough, near(c)):
        case = f"{n}D table {'x'.join(map(str, ns))}" + (f", {wrong}" if wrong else "")
        c.guard(lambda: one(c, b, n, ns, rows, wrong, case), case)


def rowlen(rows, idx):
    for i in idx:
        rows = rows[i]
    return len(rows) if isinstance(rows, list) else rows


def one(c, b, n, ns, rows, wrong, case):
    U = S("u")

    def length(base, ety):
        p = path_of(base)
        m = re.fullmatch(r"u\.([xyz])\.1", p)
        if m:
            return ns["xyz".index(m.group(1))]
        m = re.fullmatch(r"u\.data((?:\[\d+\])*)", p)
        if m:
            return rowlen(rows, [int(i) for i in re.findall(r"\d+", m.group(1))])
        return None
    r = c.run(b, ["u"], I=c.interp(None, length))
    if any(e.g is not FALSE for e, _ in r.I.panics):
        bad = FALSE
        for e, _ in r.I.panics:
            bad = bad | e.g
        c.eq(f"{case}: the check itself does not fail", bad, FALSE, r.where, DOM)
    if r.ret is None:
        c.bad(f"{case}: is read", r.where, "no path of the conversion returns")
        return
    okg = FALSE
    good = []
    for g, v in flat(r.D(r.ret)):
        if not isinstance(v, Agg) or v.ty is None:
            raise Missing("result of the conversion")
        if c.p.types[v.ty]["vs"][v.variant]["name"] == "Ok":
            okg = okg | g
            good.append((g, v.fs[0]))
    # which axes have a data row
    def used(rows, d):
        return d == 0 or (isinstance(rows, list) and any(used(x, d - 1) for x in rows))
    srt, free = TRUE, TRUE
    for i in range(n):
        s = TRUE
        for j in range(ns[i] - 1):
            s = s & blt(F(U, "xyz"[i], "1", j), F(U, "xyz"[i], "1", j + 1))
        if used(rows, i):
            srt = srt & s
        else:
            free = free & s

    def fits(rows, ns):
        if not isinstance(rows, list):
            return rows == ns[0]
        return len(rows) == ns[0] and all(fits(x, ns[1:]) for x in rows)
    want = srt if fits(rows, ns) else FALSE
    assume = None if free is TRUE else free
    c.eq(f"{case}: accepted exactly if well-formed", okg, want, r.where, DOM, assume=assume)
    if wrong or not good:
        return
    for g, t in good:
        for i in range(n):
            ax = "xyz"[i]
            c.flows(r, f"{case}: variable of {ax} kept", r.get(t, ax, 0), F(U, ax, "0"), g, DOM)
            contents(c, r, f"{case}: breakpoints of {ax} kept", r.get(t, ax, 1), F(U, ax, "1"), ns[i], g)
        contents(c, r, f"{case}: data kept", r.get(t, "data"), F(U, "data"), rows, g)


def contents(c, r, label, v, want, rows, g):
    v = r.D(v)
    if isinstance(v, Choice):
        for h, x in v.alts:
            if (g & h) is not FALSE:
                contents(c, r, label, x, want, rows, g & h)
        return
    n = len(rows) if isinstance(rows, list) else rows
    if isinstance(v, Agg):
        if len(v.fs) != n:
            c.bad(label, r.where, f"{len(v.fs)} entries instead of {n}")
            return
        for i, x in enumerate(v.fs):
            if isinstance(rows, list):
                contents(c, r, f"{label}[{i}]", x, F(want, i), rows[i], g)
            else:
                c.flows(r, f"{label}[{i}]", x, F(want, i), g, DOM)
        if not n:
            c.ok(label, r.where)
        return
    c.flows(r, label, v, want, g, DOM)


def constructed(c, n):
    """readers generated for the configuration must not build a table themselves"""
    tys = {i for i, t in enumerate(c.p.types) if t["k"] == "adt" and re.search(rf"(^|::)Table{n}D$", t.get("def", ""))}
    if not tys:
        raise Missing(f"type Table{n}D")
    sites = 0
    for b in c.p.insts:
        if not b or not b.get("blocks") or not b["local"]:
            continue
        for bl in b["blocks"]:
            for s in bl["s"]:
                if len(s) > 2 and isinstance(s[1], dict) and s[1].get("r") == "agg" and s[1].get("k") == "adt" and s[1].get("ty") in tys:
                    sites += 1
                    reader = "serde::de::Visitor" in b["name"] or "serde::Deserialize" in b["name"]
                    c.holds(f"{n}D table constructed in {b['name']}", not reader, s[2],
                            "a reader of the configuration builds the table without the validating conversion")
    c.holds(f"{n}D table: construction sites found", sites > 0, "", "no construction site")


def default(c):
    b = [x for x in c.p.insts if x and x.get("blocks") and x["local"] and re.fullmatch(
        r"<(?:\w+::)*Table as std::default::Default>::default", x["name"])]
    if len(b) != 1:
        raise Missing("default table")
    r = c.run(b[0], [])
    v = r.D(r.ret)
    vs = c.p.types[v.ty]["vs"][v.variant]["name"]
    t = v.fs[0]
    data = r.D(r.get(t, "data"))
    c.holds("a table that is not given has no data", isinstance(data, Agg) and len(data.fs) == 0, r.where, f"data is {str(data)[:100]}")
