from common import *

META = {"rule": "value-flow normal form of the Euler angles: cubic polynomial (degrees) of the selected state variable, "
                "converted to radians, per axis; constant and configured terms followed from the configuration and from the "
                "end of the preceding phase to the start of the next"}


def run(c):
    def state():
        s = c.guard(lambda: Step(c, 0), "equations of motion")
        if s is not None:
            c.guard(s.euler_angles, "Euler angles", s.where)

    def poly():
        b = c.fn("Steering::calc_coeff", r"f64", [r"f64", r"\[f64; 4\]"], opt=True)
        if b is None:
            return
        r = c.run(b, ["y", "k"])
        y, k = S("y"), S("k")
        c.eq("steering polynomial", r.ret, total([mul(F(k, i), powi(y, i)) for i in range(4)]), r.where)
    backed(c, [state], [lambda: c.guard(poly, "steering polynomial")])

    def terms():
        for s in [*starts(c), *starts(c, later=False)]:
            settings(s, PhaseRun.DOM, only=("steering",))
            attitude(s, PhaseRun.DOM)
    c.guard(terms, "terms of the polynomials")
