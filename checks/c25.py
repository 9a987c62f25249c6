from common import *
import c27

META = {"rule": "value-flow summary of one step with the state-variable accessor left uninterpreted: the guards under "
                "which the phase ends, the step is accepted and the step is rejected, against the required conditions; summary of "
                "the phase loop: it goes on from step to step until the phase has ended"}


def run(c):
    s = c.guard(lambda: PhaseStep(c), "step")
    if s is None:
        return

    def end():
        c.eq("ends exactly when the monitored value is within 1e-3 of the target", s.get("ended"), s.hit, s.where, s.DOM,
             assume=s.running)
        new = s.get("state")
        s.kept("the state that hit the target is kept", s.running & s.hit)
        s.kept("a step short of the target is kept", s.running & bnot(s.hit) & bnot(s.over))
        c.flows(s.r, "a step beyond the target is discarded", new, F(s.P, "state"), s.running & s.over, s.DOM)
    c.guard(end, "end of phase", s.where)

    def panics():
        bad = FALSE
        for e, d in s.I.panics:
            bad = bad | e.g
        c.eq("stepping is possible exactly while running and retries are left",
             bad, s.was_ended | (s.over & blt(num(20), s.tries)), s.where, s.DOM)
    c.guard(panics, "panics", s.where)
    c.guard(lambda: s.phase_intact({"state", "stepsize", "end_criterion_tries", "ended"}), "unchanged settings", s.where)
    c27.until_ended(c, ("end_criterion",))
