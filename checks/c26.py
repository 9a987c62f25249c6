from common import *
import c27

META = {"rule": "value-flow summary of a rejected step: the new step size is the secant estimate over the rejected step, "
                "the retry counter increases by exactly one and is bounded; accepted steps change neither, and nothing between the steps of a phase does"}


def run(c):
    s = c.guard(lambda: PhaseStep(c), "step")
    if s is None:
        return

    def secant():
        new = s.get("stepsize")
        want = div(mul(sub(s.target, s.y0), s.dt), sub(s.y1, s.y0))
        for lab, g in (("falling", blt(s.y1, s.y0)), ("rising", blt(s.y0, s.y1))):
            c.eq(f"step size of the retry, {lab} value", new, want, s.where, s.DOM, assume=s.running & s.over & g)
        c.eq("step size kept otherwise", new, s.dt, s.where, s.DOM, assume=s.running & bnot(s.over))
        t = s.get("end_criterion_tries")
        c.eq("retry counter increases", t, add(s.tries, ONE), s.where, s.DOM, assume=s.running & s.over)
        c.eq("retry counter kept otherwise", t, s.tries, s.where, s.DOM, assume=s.running & bnot(s.over))
        bad = FALSE
        for e, d in s.I.panics:
            bad = bad | e.g
        c.eq("gives up after the last retry, and only then", bad, s.over & blt(num(20), s.tries), s.where, s.DOM,
             assume=s.running)
        c.flows(s.r, "the retry starts from the same state", s.get("state"), F(s.P, "state"), s.running & s.over, s.DOM)
    c.guard(secant, "retry", s.where)
    c.guard(lambda: s.phase_intact({"state", "stepsize", "end_criterion_tries", "ended"}), "unchanged settings", s.where)
    c27.until_ended(c, ("stepsize", "end_criterion_tries"))
