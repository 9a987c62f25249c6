from common import *

META = {"rule": "value-flow summary of the event transition (end of a phase to the evaluation and first step of the next, however divided "
                "among functions): the event clock, the retry bookkeeping, the step size and the constant steering terms are "
                "re-initialised, every other quantity keeps its value (provenance of every leaf)"}
DOM = Domain((r".*", "any", -50, 50))


def run(c):
    c.guard(lambda: transition(c), "event transition")


def transition(c):
    for s in starts(c):
        if s.mission is None:
            return reset(c)
        started(s)
        carried(s, DOM)
        settings(s, DOM, taken=False)
        g, _ = some(F(s.C, "vehicle"))
        s.flows("mass carried over without new masses", s.get("state", "mass"), s.mass, DOM, bnot(g))
        for x in ("vehicle", "steering", "atmosphere", "planet", "launch", "max_acceleration"):
            same(s, x)
        attitude(s, DOM)
    for s in starts(c, later=False):
        if s.mission is not None:
            started(s)
    # and the steps between the events leave alone what carries over
    c.guard(lambda: PhaseStep(c).phase_intact({"state", "stepsize", "end_criterion_tries", "ended"}), "unchanged settings")


def started(s):
    s.eq("time since event restarts at zero", s.get("state", "time_since_event"), ZERO, DOM)
    g, x = s.entry("stepsize")
    s.eq("step size is the configured one", s.get("stepsize"), x, DOM, g)
    s.eq("step size is the configured one of the phase before", s.get("stepsize"), s.old("base_stepsize") if s.P is not None else ONE,
         DOM, bnot(g))
    s.eq("configured step size kept", s.get("base_stepsize"), s.old("base_stepsize") if s.P is not None else ONE, DOM, bnot(g))
    s.eq("phase not ended", s.get("ended"), FALSE, DOM)
    s.eq("retry counter cleared", s.get("end_criterion_tries"), ZERO, DOM)


def leaves(v, r):
    v = r.D(v)
    if isinstance(v, Agg) and v.fs:
        return [x for f in v.fs for x in leaves(f, r)]
    return [v]


def same(s, x):
    """the evaluation at the start uses the settings the steps use"""
    a, b = leaves(s.r.get(s.at.ev, x), s.r), leaves(s.r.get(s.at.ph, x), s.r)
    if len(a) != len(b):
        return s.c.und(f"{s.what}{x}: evaluated with the settings of the phase", s.where, "different shape")
    for i, (p, q) in enumerate(zip(a, b)):
        if isinstance(p, E) and isinstance(q, E):
            s.eq(f"{x}: evaluated with the settings of the phase ({i})", p, q, DOM)


def reset(c):
    """the two functions the transition is made of, where the whole cannot be analysed"""
    b = c.fn("Phase::reset", None)
    r = c.run(b, ["ph"], I=c.interp(None, lens()))
    P, v = S("ph"), r.args[0]
    c.eq("time since event restarts at zero", r.get(v, "state", "time_since_event"), ZERO, r.where, DOM)
    c.eq("step size back to the configured one", r.get(v, "stepsize"), F(P, "base_stepsize"), r.where, DOM)
    c.eq("configured step size kept", r.get(v, "base_stepsize"), F(P, "base_stepsize"), r.where, DOM)
    c.eq("phase not ended", r.get(v, "ended"), FALSE, r.where, DOM)
    c.eq("retry counter cleared", r.get(v, "end_criterion_tries"), ZERO, r.where, DOM)
    for i, a in enumerate(("roll", "yaw", "pitch")):
        ks = r.get(v, "steering", a, 1)
        c.eq(f"{a}: attitude is continuous (constant term in degrees)", ks.fs[0],
             div(mul(num(180), F(P, "state", "euler_angles", i)), PI), r.where, DOM)
        for k in range(1, 4):
            c.eq(f"{a}: coefficient {k} kept", ks.fs[k], F(P, "steering", a, "1", k), r.where, DOM)
        c.flows(r, f"{a}: variable kept", r.get(v, "steering", a, 0), F(P, "steering", a, "0"), dom=DOM)
    t = c.p.types[r.D(v).ty]
    for n in [f[0] for f in t["vs"][0]["fields"]]:
        if n not in ("state", "stepsize", "ended", "end_criterion_tries", "steering") and (n in SETTINGS or configured(c, n)):
            c.flows(r, f"{n} kept", r.get(v, n), F(P, n), dom=DOM)
    for s in starts(c):
        carried(s, DOM)
