from common import *
import c22
import c27
import c28

META = {"rule": "value-flow summaries over MIR of the equations of motion, the integration step, the phase loop, the simulation loop, the "
                "table look-ups, the validation of tables and the loader: every operation that can stop the program (panics, failed "
                "assertions, bounds and overflow checks, unwrapping, exits) with the guard under which it does; each guard lies within "
                "the documented conditions"}
INIT = Domain((r".*", "any", -50, 50))


def stops(c, label, I, allowed, dom, where, cuts=None, limit=None, **kw):
    """every operation that stops the program does so only under the documented condition"""
    sites, raw = {}, {}
    for e in [e for e, _ in I.panics] + I.exits:
        k = (e.span, e.fn and c.p.insts[e.fn]["name"] if isinstance(e.fn, int) else str(e.fn or ""))
        sites[k] = sites.get(k, FALSE) | (e.g & bnot(allowed))
        raw[k] = raw.get(k, FALSE) | e.g
    for k, g in sorted(sites.items(), key=lambda t: str(t[0])):
        span = k[0]
        c.callsites += 1
        if cuts:
            part = Check("part", c.p, c.tier)
            part.eq("", g, FALSE, "", dom, cuts=cuts, **kw)
            if part.obl[-1][1] == "discharged":
                c.ok(f"{label}: stops only as documented", span or where)
                continue
            if not nf.mentions(raw[k], limit):
                g = raw[k]         # has nothing to do with the limit
        c.eq(f"{label}: stops only as documented", g, FALSE, span or where, dom, **kw)
    if not sites:
        c.ok(f"{label}: nothing stops it", where)


def run(c):
    b = c.fn("Vehicle::auto_throttle", r"f64", [r"&vehicle::Vehicle", r"f64", r"f64", r"f64", V3], opt=True)
    cut = {} if b is None else {b["id"]: lambda I, args, st, dty: (S("throttle"), st)}

    def step(n):
        s = Step(c, n, cut)
        lim = mul(num("1.001"), F(s.ph, "max_acceleration"))
        T = f"equations of motion, {n} engine(s)"
        if s.r.ret is None:
            return c.bad(f"{T}: stops only as documented", s.where, "the evaluation always stops")
        # the limit is exceeded, or there is no throttle that meets it
        ok = blt(lim, norm(s.f["vehicle_acceleration_body"])) | atom("isnan", s.f["throttle"])
        stops(c, T, s.I, ok, STEP, s.where, cuts=s.cuts("vehicle_acceleration_body"), limit=F(s.ph, "max_acceleration"))

    def throttled(n):
        r = c.run(b, ["self", "limit", "mass", "pressure", "aero"], I=c.interp(None, lens(**{r"engines$": n})))
        stops(c, f"throttle of {n} engine(s)", r.I, FALSE, INIT, r.where)
    if b is not None:
        for n in (0, 1, 2, 4):
            c.guard(lambda: throttled(n), f"throttle of {n} engines")
    for n in (*((0, 1, 2, 3) if c.thorough else (0, 1, 2)), *c.sizes_near(r"\bEngine\b", 3 if c.thorough else 2, 24)):
        c.guard(lambda: step(n), f"equations of motion, {n} engines")

    def phasestep():
        s = PhaseStep(c)
        stops(c, "step of a phase", s.I, s.was_ended | blt(num(20), s.tries), s.DOM, s.where)
    c.guard(phasestep, "step of a phase")

    def loop(n):
        s = PhaseRun(c, n)
        stops(c, f"phase of {n} steps", s.r.I, FALSE, s.DOM, s.where)
    for n in (1, 2, 3, *c.sizes_near(r"::Phase\b", 3, 24)):
        c.guard(lambda: loop(n), f"phase of {n} steps")

    def mission(n):
        try:
            r = Mission(c, n, ENGINES).r
        except Unsupported as e:
            r = getattr(e, "run", None)
            if r is None:
                raise
        there, _ = some(F(S("sim"), "config", 0, "init"))
        stops(c, f"{n} phases", r.I, bnot(there), Mission.DOM, r.where)
    for n in (1, 2, *c.sizes_near(r"Simulation|Config|::Phase\b", 3, 64)):
        c.guard(lambda: mission(n), f"{n} phases")

    def many(n):
        s = SimRun(c, n)
        stops(c, f"{n} phases", s.r.I, FALSE, s.DOM if hasattr(s, "DOM") else INIT, s.where)
    for n in c.sizes_near(r"Simulation|Config|::Phase\b", 64, 300, narrow=True):
        c.guard(lambda: many(n), f"{n} phases")

    def none():
        I = c.interp(None, lens(**{r"config$": 0}))
        I.unroll = True
        r = c.run(c.fn("Simulation::run"), ["sim"], I=I)
        stops(c, "no phases", r.I, FALSE, INIT, r.where)
    c.guard(none, "no phases")

    def lookup(z):
        L = Lookup(c, z)
        T = "x".join(map(str, z)) + " table"
        if L.value is None:
            return c.bad(f"{T}: stops only as documented", L.where, "the look-up always stops")
        stops(c, T, L.r.I, FALSE, L.DOM, L.where)
    for z in [(0,), (1,), (2,), (3,), (5,), (0, 0), (0, 2), (2, 0), (1, 1), (2, 3), (0, 0, 0), (0, 2, 2), (2, 0, 2), (2, 2, 0), (1, 1, 1), (2, 2, 2)]:
        c.guard(lambda: lookup(z), "x".join(map(str, z)) + " table")

    def tables(n):
        b = c.fn(None, rf"std::result::Result<(?:\w+::)*Table{n}D, .*>", [rf"(?:\w+::)*Table{n}DUnchecked"])
        for ns, rows, wrong in c22.shapes(n, False, ()):
            def one():
                r = c.run(b, ["u"], I=c.interp(None, lambda base, ety: length(path_of(base), ns, rows)))
                stops(c, f"{n}D table {'x'.join(map(str, ns))}" + (f", {wrong}" if wrong else ""), r.I, FALSE, c22.DOM, r.where)
            c.guard(one, f"{n}D table {ns}")
    for n in (1, 2, 3):
        c.guard(lambda: tables(n), f"tables of {n} dimensions")

    def loader(n):
        r, _ = c28.summary(c, n)
        stops(c, f"loading {n} phases", r.I, FALSE, c28.DOM, r.where)
    for n in (0, 1, 3, *c.sizes_near(r"PhaseConfig|Simulation", 3, 64)):
        c.guard(lambda: loader(n), "loading")
    c.guard(lambda: rest(c), "remaining functions")


def length(p, ns, rows):
    m = re.fullmatch(r"u\.([xyz])\.1", p)
    if m:
        return ns["xyz".index(m.group(1))]
    m = re.fullmatch(r"u\.data((?:\[\d+\])*)", p)
    return c22.rowlen(rows, [int(i) for i in re.findall(r"\d+", m.group(1))]) if m else None


def rest(c):
    """operations that can stop the program in functions of a run that none of the summaries contains"""
    roots = [c.fn("Simulation::run")]
    out = set()
    for i in set().union(*[c27.reachable(c.p, b["id"]) for b in roots]):
        b = c.p.insts[i]
        if b["local"] and b.get("blocks") and not b.get("derived") and b["name"] not in c.analysed:
            out.add(b["name"])
    for n in sorted(out):
        c.und("functions of a run", "", f"{n} is not part of any summary")
    if not out:
        c.ok("functions of a run", "", "all are part of a summary")
