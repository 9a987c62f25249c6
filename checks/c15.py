from common import *

META = {"rule": "value-flow summaries: wind-relative velocity, Mach number and dynamic pressure in terms of the other "
                "quantities of the same instant; with the atmosphere disabled the thermodynamic quantities are zero "
                "(constant propagation on the disabled variant); the configuration switches exactly the model and the wind"}


def run(c):
    s = c.guard(lambda: Step(c, 1), "equations of motion")
    if s is not None:
        for m in ("velocity_planet", "velocity_atmosphere", "dynamic_pressure", "mach_number", "temperature",
                  "pressure", "density"):
            c.guard(getattr(s, m), m, s.where)

        def off():
            on = s.model_on()
            d = mk("discr", F(s.ph, "atmosphere", "model"))
            for o in DISCR[d.id]:
                if on is beq(d, num(o)):
                    continue
                sb = on_region(d, Fraction(o), Fraction(o))
                for n in ("temperature", "pressure", "density", "dynamic_pressure"):
                    c.eq(f"atmosphere off: {n} is zero", sb(s.f[n]), ZERO, s.where, STEP)
        c.guard(off, "atmosphere off", s.where)

    def upd():
        for v in [*starts(c), *starts(c, later=False)]:
            settings(v, PhaseRun.DOM, only=("wind", "model"))
    c.guard(upd, "atmosphere configuration")
