from common import *

META = {"rule": "value-flow summary of mass through a step, its derivative and the start of the next phase (end of a phase to the evaluation of the next): total "
                "mass is structure plus propellant under every combination of configured entries"}
DOM = Domain((r".*propellant_mass", "any", -1e3, 1e5), (r".*mass", "pos", 1e3, 1e6), (r".*", "any", -50, 50))


def run(c):
    def build():
        for s in [*starts(c), *starts(c, later=False)]:
            gs, s_ = s.entry("vehicle", "structure_mass")
            gp, p_ = s.entry("vehicle", "propellant_mass")
            m = s.get("state", "mass")
            first = "" if s.P is not None else "first phase, "
            prev_m, prev_p, prev_s = (s.mass, s.old("state", "propellant_mass"), s.old("vehicle", "structure_mass")) \
                if s.P is not None else (ZERO, ZERO, ZERO)
            s.eq(f"{first}neither mass configured: mass unchanged", m, prev_m, DOM, bnot(gs) & bnot(gp))
            s.eq(f"{first}new structure: remaining propellant kept", m, add(s_, prev_p), DOM, gs & bnot(gp))
            s.eq(f"{first}new propellant: structure kept", m, add(prev_s, p_), DOM, bnot(gs) & gp)
            s.eq(f"{first}both: their sum", m, add(s_, p_), DOM, gs & gp)
            sm = s.get("vehicle", "structure_mass")
            s.eq(f"{first}structure mass from the configuration", sm, s_, DOM, gs)
            s.eq(f"{first}structure mass kept", sm, prev_s, DOM, bnot(gs))
    c.guard(build, "start of a phase")
    for n in ((0, 1, 2, 3) if c.thorough else (0, 2)):
        s = c.guard(lambda: Step(c, n), "equations of motion")
        if s is None:
            continue
        c.guard(s.propellant_mass, "propellant mass", s.where)
        c.guard(s.massflow, "mass flow", s.where)
        c.guard(lambda: s.same("mass", F(s.s, "mass")), "mass", s.where)

    def d():
        b = c.fn("State::to_differentials_vector", opt=True)
        if b is not None:
            r = c.run(b, ["s"])
            c.eq("mass derivative is the mass flow", r.ret.fs[6], F(S("s"), "massflow"), r.where)
    def step():
        s = c.guard(lambda: PhaseStep(c), "integration step")
        if s is None:
            return
        def adv():
            for g, sel in s.regions:
                if len(sel) != 5:
                    c.und("mass after a step", s.where, f"{len(sel)} evaluations in one step")
                    continue
                ks = [F(S(f"rhs{k}"), "massflow") for k in sel]
                st, _, ph, span = s.calls[sel[-1] - 1]
                want = add(F(s.P, "state", "mass"),
                           mul(div(s.dt, num(6)), total([ks[0], mul(num(2), ks[1]), mul(num(2), ks[2]), ks[3]])))
                c.eq("mass after a step", s.r.get(st, "mass"), want, span, s.DOM, assume=None if len(s.regions) == 1 else g)
        c.guard(adv, "mass after a step", s.where)
    backed(c, [step], [lambda: c.guard(d, "mass derivative")])
