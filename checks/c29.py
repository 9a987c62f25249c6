from common import *
import ast

META = {"rule": "decoding of the compiled format templates in MIR and value flow into their arguments, per step of a phase and per phase of "
                "a simulation: the text with the arguments as named numerals, read with the patterns of the plotting script, gives back "
                "the quantities of the current state under their labels"}
EXTRA = {"altitude": r"Altitude:\s*(-?\d+)", "mass": r"Prop mass:\s*(-?\d+)"}
NEED = {"time": [("time",)], "position": [("position_planet", i) for i in range(3)],
        "velocity": [("velocity", i) for i in range(3)], "altitude": [("altitude",)], "mass": [("propellant_mass",)]}


PLOT = "utils/plot/plot.py"


class Script:
    """what the plotting script reads where: provenance of the entries of its data frame, from its syntax tree"""

    def __init__(self, repo):
        self.tree = ast.parse(open(os.path.join(repo, PLOT), encoding="utf-8").read())
        self.named, self.entries, self.cuts = {}, {}, []
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and getattr(n.value.func, "attr", "") == "compile":
                if isinstance(n.targets[0], ast.Name) and n.targets[0].id.endswith("_pattern") and isinstance(n.value.args[0], ast.Constant):
                    self.named[n.targets[0].id[:-8]] = (n.value.args[0].value, n.lineno)
        env = {}
        try:
            self.body(self.tree.body, env)
            for f in self.tree.body:
                if isinstance(f, ast.FunctionDef) and f.name == "parse_test_output":
                    self.body(f.body, {**env, **{a.arg: [] for a in f.args.args}})
        except (KeyError, AttributeError, TypeError, IndexError):
            self.entries = {}

    def body(self, stmts, env):
        for s in stmts:
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                t = s.targets[0] if isinstance(s, ast.Assign) else s.target
                if isinstance(t, ast.Name):
                    env[t.id] = self.prov(s.value, env)
            elif isinstance(s, ast.Expr):
                self.prov(s.value, env)
            elif isinstance(s, ast.For):
                src = self.prov(s.iter, env)
                if isinstance(s.target, ast.Tuple):
                    for i, e in enumerate(s.target.elts):
                        env[e.id] = [("part", i, x) for x in src]
                elif isinstance(s.target, ast.Name):
                    env[s.target.id] = src
                self.body(s.body, env)
            elif isinstance(s, (ast.Return,)) and s.value is not None:
                self.prov(s.value, env)
            elif isinstance(s, (ast.With, ast.If)):
                self.body(s.body, env)

    def prov(self, e, env):
        """the patterns an expression is made of"""
        if isinstance(e, ast.Name):
            return env.get(e.id, [])
        if isinstance(e, ast.Call):
            f = getattr(e.func, "attr", None) or getattr(e.func, "id", "")
            if f == "compile" and isinstance(e.args[0], ast.Constant):
                return [("re", e.args[0].value, e.lineno)]
            if f in ("findall", "split", "finditer"):
                own = self.prov(e.func.value, env) if isinstance(e.func, ast.Attribute) else []
                if not own and isinstance(e.args[0], ast.Constant):
                    own = [("re", e.args[0].value, e.lineno)]
                return [(f, x) for x in own]
            kw = {k.arg: k.value for k in e.keywords}
            if f == "concat" and isinstance(kw.get("keys"), (ast.List, ast.Tuple)) and isinstance(e.args[0], (ast.List, ast.Tuple)):
                self.label(kw["keys"].elts, e.args[0].elts, env)
            if f == "from_product" and isinstance(kw.get("names"), (ast.List, ast.Tuple)) and isinstance(e.args[0], (ast.List, ast.Tuple)):
                self.label(kw["names"].elts, e.args[0].elts, env)
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
            p = self.prov(e.value, env)
            if any(x[0] == "split" for x in p):
                self.cuts.append((e.slice, e.lineno))
            return p
        out = []
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.keyword):
                c = c.value
            if isinstance(c, ast.expr):
                for x in self.prov(c, env):
                    if x not in out:
                        out.append(x)
        return out

    def label(self, keys, values, env):
        if len(keys) == len(values) and all(isinstance(k, ast.Constant) for k in keys):
            for k, v in zip(keys, values):
                self.entries[k.value] = (self.prov(v, env), v.lineno)


def patterns(c):
    """{quantity: pattern that the plotting script reads it with}"""
    s = Script(c.repo)
    out = {}
    for k in ("phase", "time", "position", "velocity"):
        got = s.entries.get(k.capitalize())
        if got is not None and len(got[0]) == 1:
            x, line = got
            x = x[0]
            if x[0] == ("findall" if k == "phase" else "part"):
                c.bad(f"plotting script: {k}", f"{PLOT}:{line}", "taken from the " + ("records" if k == "phase" else "announcement of the phase"))
            if k == "phase":
                ok = x[0] == "part" and x[2][0] == "split"
                if ok and x[1] != 0:
                    c.bad("plotting script: phase", f"{PLOT}:{line}", "the phase number is not taken from the announcement of the phase")
                x = x[2][1] if ok else None
            else:
                x = x[1] if x[0] == "findall" else None
            if x is not None and x[0] == "re":
                out[k] = x[1]
                continue
        if k not in s.named:
            raise Missing(f"pattern {k} of the plotting script")
        out[k] = s.named[k][0]
    import re as _re
    if _re.compile(out["phase"]).groups == 1 and len(s.cuts) == 1:
        lo, hi, st = (s.cuts[0][0].lower, s.cuts[0][0].upper, s.cuts[0][0].step)
        if isinstance(lo, ast.Constant) and hi is None and st is None:
            c.holds("plotting script: the phases start behind the text before the first announcement", lo.value == 1,
                    f"{PLOT}:{s.cuts[0][1]}", f"starts at part {lo.value} of the split text")
    return out


def template(bs):
    """literal texts and placeholders of a compiled format template"""
    i, arg, out = 0, 0, []

    def u16():
        nonlocal i
        i += 2
        return bs[i - 2] | bs[i - 1] << 8
    while True:
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(bytes(bs[i:i + b]).decode())
            i += b
        elif b == 0x80:
            n = u16()
            out.append(bytes(bs[i:i + n]).decode())
            i += n
        elif b >= 0xC0:
            flags, width, prec = 0xE0000020, None, None
            if b & 1:
                flags = bs[i] | bs[i + 1] << 8 | bs[i + 2] << 16 | bs[i + 3] << 24
                i += 4
            if b & 2:
                width = u16()
            if b & 4:
                prec = u16()
            if b & 8:
                arg = u16()
            out.append((arg, flags, width, prec, b))
            arg += 1
        else:
            raise Missing(f"format template byte {b:#x}")
    return out


WIDTH, PREC, ALT, PLUS, MINUS, ZEROPAD = 1 << 27, 1 << 28, 1 << 23, 1 << 21, 1 << 22, 1 << 24


class Text:
    """the printed text with every printed number replaced by a unique numeral"""

    def __init__(self, r, shape=(6, "")):
        self.r, self.s, self.vals, self.parts, self.shape = r, "", {}, [], shape

    def shaped(self, shape):
        """the same text with numerals of another length and sign"""
        x = Text(self.r, shape)
        for p in self.parts:
            x.add(*p)
        return x

    def number(self, v, flags, width, prec):
        digits, sign = self.shape
        n = (10 ** (digits - 1) if digits > 1 else 0) + 1 + len(self.vals)
        if len(str(n)) != digits:
            raise Missing("numerals")
        t = sign + str(n)
        self.vals[t] = v
        if flags & PLUS and not sign:
            t = "+" + t
        # without a precision the decimals would follow
        if not (flags & PREC and prec == 0):
            t += ".25"
        if flags & WIDTH and width and len(t) < width:
            k = width - len(t)
            a = flags >> 29 & 3
            l = 0 if a == 0 else k // 2 if a == 2 else k
            f = chr(flags & 0x1FFFFF) or " "
            t = f * l + t + f * (k - l)
        return t

    def add(self, g, data):
        r = self.r
        self.parts.append((g, data))
        if not (isinstance(data, Agg) and data.kind == "fmtargs" and data.fs):
            raise Missing("printed text")
        x = r.D(data.fs[0])
        if isinstance(x, Opq) and isinstance(x.base, E) and x.base.op == "str":
            x = x.base
        if isinstance(x, E) and x.op == "str":
            self.s += x.args[0][4:-1] if x.args[0].startswith("str(") else str(x.args[0])
            return
        if not isinstance(x, Agg):
            raise Missing("printed text")
        args = []
        if len(data.fs) > 1:
            a = r.D(data.fs[1])
            if not isinstance(a, Agg):
                raise Missing("printed arguments")
            args = [r.D(y) for y in a.fs]
        bs = []
        for y in x.fs:
            if not isnum(y):
                raise Missing("format template")
            bs.append(int(nv(y)))
        for part in template(bs):
            if isinstance(part, str):
                self.s += part
                continue
            k, flags, width, prec, b = part
            if k >= len(args) or not (isinstance(args[k], Agg) and args[k].kind == "fmtarg"):
                raise Missing("format argument")
            if b & 48:
                raise Missing("computed width or precision")
            self.s += self.value(r.D(args[k].fs[0]), args[k].meta, flags, width, prec)

    def value(self, v, meta, flags, width, prec):
        r = self.r
        if meta in ("new_lower_exp", "new_upper_exp") and isinstance(v, E) and v.op != "str":
            # scientific: digits and exponent
            t = self.number(v, 0, None, None).split(".")[0]
            return t[0] + "." + t[1:] + ("e" if meta == "new_lower_exp" else "E") + str(len(t) - 1)
        if meta not in ("new_display", "new_debug"):
            raise Missing(f"format {meta}")
        if isinstance(v, Opq) and isinstance(v.base, E) and v.base.op == "str":
            v = v.base
        if isinstance(v, E) and v.op == "str" and not flags & (WIDTH | PREC) and meta == "new_display":
            return str(v.args[0])[4:-1] if str(v.args[0]).startswith("str(") else str(v.args[0])
        if isinstance(v, E):
            return self.number(v, flags, width, prec)
        if isinstance(v, Agg) and v.kind == "mat":
            if meta == "new_display":
                rows = [self.number(x, flags, width, prec) for x in v.fs]
                w = max(map(len, rows))
                return "\n  ┌" + " " * (w + 2) + "┐\n" + "".join(f"  │ {x.rjust(w)} │\n" for x in rows) + "  └" + " " * (w + 2) + "┘\n\n"
            return "[[" + ", ".join(self.number(x, flags, width, prec) for x in v.fs) + "]]"
        if isinstance(v, Agg) and v.kind in ("tuple", "array"):
            return "(" + ", ".join(self.value(r.D(x), meta, flags, width, prec) for x in v.fs) + ")"
        raise Missing("printed value")


def run(c):
    pats = []
    c.guard(lambda: pats.append(patterns(c)), "patterns of the plotting script")
    if not pats:
        return
    pats = pats[0]
    for n in range(1, 5 if c.thorough else 4):
        c.guard(lambda: steps(c, n, pats), f"output of {n} steps")
    c.guard(lambda: onward(c), "output of any number of steps")
    for n in range(0, 13 if c.thorough else 4):
        c.guard(lambda: phases(c, n, pats), f"output of {n} phases")


def silent(c, names):
    """no output from the given functions and what they call"""
    from c27 import reachable
    for f in names:
        for i in reachable(c.p, c.fn(f)["id"]):
            b = c.p.insts[i]
            for bl in b.get("blocks") or []:
                t = bl["t"]
                if t["t"] == "call" and "c" in t["f"] and t["f"]["c"].get("path", "").endswith(("io::_print", "stdio::_print")):
                    return b["name"]
    return None


def other(s):
    """output by other means than print"""
    if any(k == "write" for k, *_ in s.log):
        raise Missing("text written by other means than print")
    for w, span in s.r.I.unknowns:
        if re.search(r"\bio::|stdout|Write", w):
            raise Missing(f"text written by other means than print: {w[:100]}")


def steps(c, n, pats):
    s = PhaseRun(c, n)
    T = f"{n} step(s)"
    who = silent(c, ["Phase::step", "Phase::system"])
    if who:
        return c.und(f"{T}: one record per step", s.where, f"{who} prints")
    other(s)
    recs, cur = [], None
    for kind, g, span, data in s.log:
        if kind == "step":
            cur = Text(s.r)
            recs.append((cur, span))
        elif kind == "print":
            s.always(f"{T}: printed on every step", g, span)
            if cur is None:
                x = Text(s.r)
                x.add(g, data)
                for k in ("phase", "time", "position", "velocity"):
                    c.holds(f"{T}: nothing else looks like a record", not re.search(pats[k], x.s), span, f"printed {x.s!r}")
                continue
            cur.add(g, data)
            cur.span = span
    c.holds(f"{T}: one record per step", len(recs) == n, s.where, f"{len(recs)} records")
    for k, (x, span) in enumerate(recs):
        span = getattr(x, "span", span)
        if re.search(pats["phase"], x.s):
            c.bad(f"{T}: record {k + 1}", span, "announces a phase")
        for shape in ((6, ""), (6, "-"), (1, "-"), (1, ""), (9, "-"), (9, "")) if k == 0 else ((6, ""),):
            try:
                y = x if shape == (6, "") else x.shaped(shape)
            except Missing:
                continue
            record(c, s, pats, f"{T}: record {k + 1}", y, k, span, shape)


def record(c, s, pats, T, x, k, span, shape):
    lab0 = "" if shape == (6, "") else f" ({shape[0]} digit{'s' * (shape[0] > 1)}{', negative' * bool(shape[1])})"
    for name, want in NEED.items():
        if name == "time" and shape[1]:
            continue                        # clocks do not run below zero
        lab = f"{T}: {name}{lab0}"
        pat = pats.get(name) or EXTRA[name]
        m = re.findall(pat, x.s)
        m = [y if isinstance(y, tuple) else (y,) for y in m]
        if len(m) != 1 or len(m[0]) != len(want):
            c.bad(lab, span, f"the pattern {pat} finds {len(m)} entries in a record\n{x.s[:800]}")
            continue
        for txt, path in zip(m[0], want):
            v = x.vals.get(txt)
            l2 = lab + (f"[{path[1]}]" if len(path) > 1 else "")
            if v is None:
                c.bad(l2, span, f"the pattern {pat} reads {txt!r}, which is not the printed quantity\n{x.s[:800]}")
                continue
            c.eq(l2, v, F(S(f"after{k + 1}"), *path), span, s.DOM, assume=bnot(s.was_ended))


def onward(c):
    """no counter that grows with the steps ever suppresses a record"""
    n = 6
    s = PhaseRun(c, n, ahead=True)
    T = "any number of steps: printed on every step"
    who = silent(c, ["Phase::step", "Phase::system"])
    if who:
        return c.und(T, s.where, f"{who} prints")
    other(s)
    k = 0
    for kind, g, span, data in s.log:
        if kind == "step":
            k += 1
        elif kind == "print" and k == n:
            s.anytime(T, g, span, "nothing is printed")


def phases(c, n, pats):
    s = SimRun(c, n)
    T = f"{n} phase(s)"
    who = silent(c, ["Phase::new", "Phase::reset"])
    if who:
        return c.und(f"{T}: announced", s.where, f"{who} prints")
    other(s)
    text = Text(s.r)
    seen = []
    for kind, g, span, data in s.log:
        if kind == "print":
            c.always(f"{T}: printed for every phase", g, span, PhaseRun.DOM)
            text.add(g, data)
            text.span = span
        elif kind == "run":
            seen.append((text, span))
            text = Text(s.r)
    c.holds(f"{T}: phases", len(seen) == n, s.where, f"{len(seen)} phases are run")
    for k, (x, span) in enumerate(seen):
        span = getattr(x, "span", span)
        m = re.findall(pats["phase"], x.s)
        if len(m) != 1:
            c.bad(f"{T}: phase {k + 1} announced", span, f"the pattern {pats['phase']} finds {len(m)} entries in {x.s!r}")
            continue
        v = x.vals.get(m[0])
        if v is None and m[0].isdigit():
            v = num(int(m[0]))
        if v is None:
            c.bad(f"{T}: phase {k + 1} announced", span, f"the pattern {pats['phase']} reads {m[0]!r} in {x.s!r}")
            continue
        c.eq(f"{T}: phase {k + 1} announced with its number", v, num(k + 1), span)
        for p in ("time", "position", "velocity"):
            if re.search(pats[p], x.s):
                c.bad(f"{T}: phase {k + 1}: nothing else looks like a record", span, f"printed {x.s!r}")
