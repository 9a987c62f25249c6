from common import *
import itertools

META = {"rule": "value-flow summary of one integration step with the right-hand side left uninterpreted: the arguments of "
                "every evaluation, their number, and the stored result are the classical fourth-order Runge-Kutta scheme"}


def run(c):
    s = c.guard(lambda: PhaseStep(c), "integration step")
    if s is None:
        return
    h, old = s.dt, F(s.P, "state")
    prim = [("position", i) for i in range(3)] + [("velocity", i) for i in range(3)] + [("mass", None)]

    def leaf(base, n, i):
        return F(base, n) if i is None else F(base, n, i)

    def rate(k, n, i):
        """derivative of a primary component, from the k-th evaluation"""
        b = S(f"rhs{k}")
        return F(b, "massflow") if n == "mass" else F(b, {"position": "velocity", "velocity": "acceleration"}[n], i)

    def scheme(c, calls, region=None):
        """calls: the numbers of the evaluations that make up the scheme, the last one that of the result"""
        weights = [(ZERO, []), (div(ONE, num(2)), [(1, div(ONE, num(2)))]), (div(ONE, num(2)), [(2, div(ONE, num(2)))]),
                   (ONE, [(3, ONE)]), (ONE, [(k, div(num(w), num(6))) for k, w in ((1, 1), (2, 2), (3, 2), (4, 1))])]
        for k, m in enumerate(calls):
            st, g, ph, span = s.calls[m - 1]
            cw, bs = weights[k]
            lab = f"evaluation {k + 1}" if k < 4 else "result"
            c.always(f"{lab}: made on every step", bite(s.was_ended, TRUE, g), span, s.DOM, assume=region)
            for n in ("time", "time_since_event"):
                c.eq(f"{lab}: {n}", s.r.get(st, n), add(F(old, n), mul(cw, h)), span, s.DOM, tol=1e-12, assume=region)
            for n, i in prim:
                v = s.r.get(st, n) if i is None else s.r.get(st, n, i)
                want = add(leaf(old, n, i), mul(h, total([mul(w, rate(calls[j - 1], n, i)) for j, w in bs])))
                c.eq(f"{lab}: {n}" + ("" if i is None else f"[{i}]"), v, want, span, s.DOM, assume=region)
            for n in ("vehicle", "steering", "atmosphere", "planet", "launch", "max_acceleration"):
                c.flows(s.r, f"{lab}: {n} of this phase", s.r.get(ph, n), F(s.P, n), TRUE if region is None else region, s.DOM, span)

    def args():
        for g, sel in s.regions:
            one(sel, None if len(s.regions) == 1 else g)

    def one(sel, region):
        n = len(sel)
        if n == 5:
            return scheme(c, sel, region)
        if n == 4:
            return c.und("five evaluations per step", s.where, "four evaluations of the equations of motion in one step")
        if n > 5 and n <= 8:
            for some in itertools.combinations(sel[:-1], 4):
                t = Check("part", c.p, c.tier)
                scheme(t, [*some, sel[-1]], region)
                if all(o[1] == "discharged" for o in t.obl):
                    c.obl += t.obl
                    return
        if region is None:
            return c.bad("five evaluations per step", s.where, f"{n} evaluations of the equations of motion in one step")
        c.eq(f"five evaluations per step, {n} are made", region, FALSE, s.where, s.DOM)

    def stored():
        new = s.get("state")
        s.kept("accepted step stores the state of the last evaluation", s.running & bnot(s.over))
        c.flows(s.r, "rejected step leaves the state", new, old, s.running & s.over, s.DOM)
    c.guard(stored, "stored state", s.where)
    c.guard(lambda: s.phase_intact({"state", "stepsize", "end_criterion_tries", "ended"}), "unchanged settings", s.where)

    def first():
        # the state recorded at the start of a phase is an evaluation at its primary state
        b = c.fn("State::to_primary_vec", opt=True)
        if b is not None:
            r = c.run(b, ["s"])
            c.mat("primary vector", r.ret, mat(7, 1, [leaf(S("s"), n, i) for n, i in prim]), r.where)
        b = c.fn("State::to_differentials_vector", opt=True)
        if b is not None:
            r = c.run(b, ["s"])
            q = S("s")
            c.mat("derivative vector", r.ret, mat(7, 1, [F(q, "velocity", i) for i in range(3)] +
                                                  [F(q, "acceleration", i) for i in range(3)] + [F(q, "massflow")]), r.where)
    backed(c, [lambda: c.guard(args, "Runge-Kutta scheme", s.where)], [lambda: c.guard(first, "state vectors")])
    e = c.guard(lambda: Step(c), "equations of motion")
    if e is not None:
        c.guard(e.primary, "an evaluation passes on the primary state", e.where)
