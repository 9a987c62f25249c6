from common import *

META = {"rule": "value-flow summaries of the phase loop (one to four steps until it ends) and of the simulation loop (no to three phases) "
                "over MIR with evaluating, stepping, building, resetting and running a phase uninterpreted: the sequence of these calls, "
                "the guard of each and the values passed between them"}
ORDER = ("new", "reset", "run")


def run(c):
    hi = 8 if c.thorough else 4
    for n in [*range(1, hi + 1), *(k for k in c.sizes_near(r"::Phase\b", hi, 24))]:
        c.guard(lambda: phase(c, n), f"phase of {n} steps")
    c.guard(lambda: onward(c), "phase of any number of steps")
    hi = 6 if c.thorough else 3
    for n in [*range(0, hi + 1), *(k for k in c.sizes_near(r"Simulation|Config", hi, 512, narrow=True))]:
        c.guard(lambda: simulation(c, n), f"simulation of {n} phases")


    c.guard(lambda: built(c), "phase built from its predecessor")


def onward(c):
    """a counter that grows with the steps never ends the phase"""
    n = 5
    s = PhaseRun(c, n, ahead=True)
    T = "phase of any number of steps: continues until it has ended"
    steps = [x for x in s.log if x[0] == "step"]
    if len(steps) != n:
        return c.und(T, s.where, f"{len(steps)} steps")
    s.anytime(T, steps[-1][1], steps[-1][2], "the phase is left although it has not ended")


def built(c):
    """not configurable: what a later phase takes from the one before, whatever its configuration says"""
    for s in starts(c):
        carried(s, PhaseRun.DOM)
        g, x = s.entry("stepsize")
        s.flows("its own configuration is used (step size)", s.get("base_stepsize"), x, PhaseRun.DOM, g)
        if s.mission is None:
            for n in ("propellant_mass", "euler_angles"):
                s.flows(f"{n} of the phase before", s.get("state", n), s.old("state", n), PhaseRun.DOM)


def phase(c, n):
    s = PhaseRun(c, n)
    T = f"phase of {n} step(s)"
    old = F(s.P, "state")
    evals = [x for x in s.log if x[0] == "eval"]
    steps = [x for x in s.log if x[0] == "step"]
    order = [x[0] for x in s.log if x[0] in ("eval", "step")]
    if s.evals == 0:
        rhs = c.fn("Phase::system", r"state::State", [r"&phase::Phase", r"state::State"])
        for f in ("Phase::reset", "Phase::new"):
            if rhs["id"] in reachable(c.p, c.fn(f)["id"]):
                return c.und(f"{T}: evaluated at its start", s.where, f"evaluated in {f}")
        c.bad(f"{T}: evaluated at its start", s.where, "the first step does not start from an evaluation of the initial state")
    elif order[0] != "eval":
        c.bad(f"{T}: evaluated at its start", steps[0][2], "the first step precedes the evaluation of the initial state")
    elif len(evals) > 1:
        c.und(f"{T}: evaluated at its start", s.where, f"{len(evals)} evaluations")
    else:
        _, g, span, (ph, st) = evals[0]
        s.always(f"{T}: evaluated at its start", g, span)
        for x in ("time", "time_since_event", "mass"):
            c.eq(f"{T}: {x} evaluated", s.r.get(st, x), F(old, x), span, s.DOM)
        for x in ("position", "velocity"):
            c.mat(f"{T}: {x} evaluated", s.r.get(st, x), vec(F(old, x)), span, s.DOM)
        for x in ("vehicle", "steering", "atmosphere", "planet", "launch", "max_acceleration"):
            c.flows(s.r, f"{T}: {x} evaluated", s.r.get(ph, x), F(s.P, x), dom=s.DOM, where=span)
        if steps:
            c.flows(s.r, f"{T}: first step starts from the evaluated state", s.r.get(steps[0][3], "state"), S("full1"),
                    bnot(s.was_ended), s.DOM, steps[0][2])
    c.holds(f"{T}: number of steps", len(steps) == n, s.where, f"{len(steps)} steps of a phase that ends with step {n}")
    stepping(c, s, T)


USED = ("vehicle", "steering", "atmosphere", "planet", "launch", "max_acceleration", "end_criterion", "stepsize", "base_stepsize",
        "integrator", "end_criterion_tries")


def stepping(c, s, T, used=USED):
    """a phase that ends with its n-th step is stepped n times, each step continuing from the one before"""
    steps = [x for x in s.log if x[0] == "step"]
    for k, (_, g, span, ph) in enumerate(steps):
        s.always(f"{T}: step {k + 1} is made", g, span)
        for x in used:
            c.flows(s.r, f"{T}: step {k + 1} uses {x}", s.r.get(ph, x), S(f"{x}_after{k}") if k and x in s.changed else F(s.P, x), bnot(s.was_ended), s.DOM, span)
        if k:
            c.flows(s.r, f"{T}: step {k + 1} continues", s.r.get(ph, "state"), S(f"after{k}"), bnot(s.was_ended), s.DOM, span)
    if len(steps) == s.n:
        c.flows(s.r, f"{T}: ends with the state of its last step", s.r.get(s.r.args[0], "state"), S(f"after{s.n}"),
                bnot(s.was_ended), s.DOM)


def until_ended(c, used=()):
    """the steps of a phase, for checks of what happens between them"""
    for n in (1, 2, 3, *c.sizes_near(r"::Phase\b", 3, 24)):
        def go():
            s = PhaseRun(c, n)
            T = f"phase of {n} step(s)"
            k = len([x for x in s.log if x[0] == "step"])
            c.holds(f"{T}: number of steps", k == n, s.where, f"{k} steps of a phase that ends with step {n}")
            stepping(c, s, T, used)
        c.guard(go, f"phase of {n} steps")
    c.guard(lambda: onward(c), "phase of any number of steps")


def reachable(p, root):
    seen, todo = set(), [root]
    while todo:
        i = todo.pop()
        if i in seen or i is None or p.insts[i] is None:
            continue
        seen.add(i)
        for bl in p.insts[i].get("blocks") or []:
            t = bl["t"]
            if t["t"] == "call" and "c" in t["f"]:
                todo.append(t["f"]["c"].get("inst"))
        todo += closures(p, i)
    return seen


def closures(p, i):
    n = p.insts[i]["name"] + "::{closure"
    return [b["id"] for b in p.insts if b and b["name"].startswith(n)]


def simulation(c, n):
    part = Check("part", c.p, c.tier)
    try:
        calls(part, n)
        odd = None
    except (Missing, Unsupported) as e:
        odd = str(e)
    fails = odd or [o for o in part.obl if o[1] == "violated"]
    try:
        m = Mission(c, n, ENGINES)
    except (Missing, Unsupported) as e:
        m = None
        if odd:
            return c.und(f"simulation of {n} phase(s)", "", f"{odd}; {e}")
    if m is None or not fails:
        c.obl += part.obl
    if m is not None:
        whole(c, m, n)


def whole(c, m, n):
    """the phases of a run, however building, resetting and running them are divided among functions"""
    T = f"run of {n} phase(s)"
    init = some(F(m.config(0), "init"))[0]
    for k in range(n):
        a = m.phase(k)
        c.always(f"{T}: phase {k + 1} is evaluated and stepped", bite(init, a.g & m.steps[k][0], TRUE), a.where, PhaseRun.DOM)
        g, x = some(F(m.config(k), "stepsize"))
        c.flows(m.r, f"{T}: phase {k + 1} follows its own configuration", a.get(a, "base_stepsize"), x, g, PhaseRun.DOM, a.where)
        c.flows(m.r, f"{T}: first step of phase {k + 1} starts from the evaluated state", m.r.get(a.ph, "state"), a.full, a.g,
                PhaseRun.DOM, a.where)
        if k:
            for x in ("time", "position", "velocity"):
                c.flows(m.r, f"{T}: phase {k + 1}: {x} of the phase before", a.get(a, "state", x), F(m.before(k), "state", x), a.g,
                        PhaseRun.DOM, a.where)
    if n:
        st = m.r.ret
        for x in ("time", "time_since_event", "position", "velocity", "altitude", "propellant_mass"):
            c.flows(m.r, f"{T}: result ({x})", m.r.get(st, x), F(S(f"after{n}"), "state", x), init, PhaseRun.DOM)


def calls(c, n):
    s = SimRun(c, n)
    T = f"simulation of {n} phase(s)"
    calls = [x for x in s.log if x[0] in ORDER]
    for k, (what, g, span, v) in enumerate(calls):
        c.always(f"{T}: call {k + 1} ({what}) is made", g, span, PhaseRun.DOM)
    want = []
    for k in range(1, n + 1):
        prev = "None" if k == 1 else ("Some", f"run(reset(built{k - 1}))")
        want += [("new", [prev, f"sim.config[{k - 1}]"]), ("reset", f"built{k}"), ("run", f"reset(built{k})")]
    got = [(x[0], x[3]) for x in calls]
    if any("?" in str(x[1]) or "choice" in str(x[1]) or x[1] is None or (isinstance(x[1], list) and None in x[1]) for x in got):
        return c.und(f"{T}: sequence of calls", s.where, f"{got}"[:600])
    if not any(x[0] == "reset" for x in got) and n:
        rs = c.fn("Phase::reset")["id"]
        for f in ("Phase::new", "Phase::run"):
            if rs in reachable(c.p, c.fn(f)["id"]):
                return c.und(f"{T}: sequence of calls", s.where, f"phases are reset in {f}")
    if len(got) < len(want) and s.r.I.unknowns:
        return c.und(f"{T}: sequence of calls", s.where, "not all of the run is modelled")
    for k in range(max(len(want), len(got))):
        w = want[k] if k < len(want) else None
        x = got[k] if k < len(got) else None
        if w != x:
            c.bad(f"{T}: sequence of calls", calls[k][2] if x else s.where, f"call {k + 1} is {x} instead of {w}")
            return
    c.ok(f"{T}: sequence of calls", s.where, f"{len(got)} calls in order")
    if n:
        c.flows(s.r, f"{T}: result", s.r.ret, F(S(f"run(reset(built{n}))"), "state"))
