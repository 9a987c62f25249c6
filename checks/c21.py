from common import *

META = {"rule": "value-flow summary of one evaluation of the equations of motion: the guard under which it stops the "
                "program is exactly 'sensed acceleration above the limit by more than 0.1 %', and configuration / defaults "
                "reach that limit"}


def run(c):
    b = c.fn("Vehicle::auto_throttle", r"f64", [r"&vehicle::Vehicle", r"f64", r"f64", r"f64", V3], opt=True)
    cut = {} if b is None else {b["id"]: lambda I, args, st, dty: (S("throttle"), st)}
    s = c.guard(lambda: Step(c, 1, cut), "equations of motion")
    if s is not None:
        def stop():
            bad = FALSE
            for e, d in s.I.panics:
                bad = bad | e.g
            a = norm(s.f["vehicle_acceleration_body"])
            lim = F(s.ph, "max_acceleration")
            c.eq("stops exactly above the acceleration limit", bad, blt(mul(num("1.001"), lim), a), s.where, STEP,
                 cuts=s.cuts("vehicle_acceleration_body"), assume=bnot(atom("isnan", s.f["throttle"])))
        c.guard(stop, "acceleration limit", s.where)
        c.guard(s.vehicle_acceleration_body, "vehicle_acceleration_body", s.where)

    def nothrottle():
        s = Step(c, 1, {b["id"]: lambda I, args, st, dty: (NAN, st)})
        bad = FALSE
        for e, d in s.I.panics:
            bad = bad | e.g
        c.eq("stops when no throttle meets the limit (not a number)", bad, TRUE, s.where, STEP)
    if b is not None:
        c.guard(nothrottle, "no throttle")

    def conf():
        for s in [*starts(c), *starts(c, later=False)]:
            lab = "later phase" if s.P is not None else "first phase"
            g, v = s.entry("max_acceleration")
            m = s.get("max_acceleration")
            s.eq(f"{lab}: limit of the configuration (-1: none)", m, ite(beq(v, num(-1)), INF, v), PhaseRun.DOM, g)
            if s.P is not None:
                s.eq("later phase: limit kept", m, s.old("max_acceleration"), PhaseRun.DOM, bnot(g))
            else:
                s.eq("first phase: no limit unless configured", m, INF, PhaseRun.DOM, bnot(g))
    c.guard(conf, "configuration of the limit")
