from common import *

META = {"rule": "value-flow normal forms of thrust vector and propellant flow of vehicles with 0 to 3 engines of arbitrary "
                "data: throttled sum over all engines, pressure-corrected, along each engine's incidence"}
DOM = Domain((r".*incidence\[\d\]", "any", -0.5, 0.5), (r".*thrust_vac", "nonneg", 1e5, 1e7), (r".*isp_vac", "pos", 200, 450),
             (r".*exit_area", "nonneg", 0.1, 20), (r"throttle", "any", 0, 1), (r"p", "nonneg", 10, 1.1e5),
             (r".*", "any", -50, 50))


def run(c):
    usual = range(0, 5 if c.thorough else 4)
    for n in [*usual, *c.sizes_near(r"\bEngine\b", usual[-1], 24)]:
        def go():
            s = Step(c, n)
            before = len(c.obl)
            s.massflow()
            s.thrust_force_body()
            c.obl[before:] = [(f"{n} engine(s): {a}", *x) for a, *x in c.obl[before:]]
        c.guard(go, f"vehicle with {n} engine(s)")

    def upd():
        for n in (0, 1, 2):
            ln = {r"^(after\d+|prev).*engines$": 3, r"^(sim\.)?config.*engines": n}
            for s in [*starts(c, ln=ln), *starts(c, later=False, ln=ln)]:
                g, v = s.entry("vehicle", "engines")
                es = s.get("vehicle", "engines")
                size = s.r.I.seqlen(s.r.st, s.r.D(es))
                s.eq(f"number of engines set by the configuration ({n})", size, num(n), DOM, g)
                s.eq(f"number of engines when not configured ({n})", size, num(3 if s.P is not None else 0), DOM, bnot(g))
                if n:
                    s.flows(f"engines set by the configuration ({n})", es, v, DOM, g)
                if s.P is not None:
                    s.flows(f"engines kept when not configured ({n})", es, s.old("vehicle", "engines"), DOM, bnot(g))
    c.guard(upd, "vehicle configuration")
