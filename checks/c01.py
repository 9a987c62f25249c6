from common import *

META = {"rule": "value-flow summary of one evaluation of the equations of motion: the acceleration is the sensed "
                "acceleration rotated back from body to inertial axes plus gravity, the sensed acceleration is the sum "
                "of the aerodynamic and thrust forces over the mass, and the state derivative handed to the integrator "
                "is (velocity, acceleration, mass flow)"}


def run(c):
    def dyn():
        b = c.fn("State::to_differentials_vector", r"nalgebra::Matrix<f64, nalgebra::Const<7>, .*", [r"&state::State"])
        if b["name"].endswith("primary_vec"):
            raise Missing("derivative vector")
        r = c.run(b, ["s"])
        s = S("s")
        want = mat(7, 1, [F(s, "velocity", i) for i in range(3)] + [F(s, "acceleration", i) for i in range(3)] +
                   [F(s, "massflow")])
        c.mat("state derivative", r.ret, want, r.where)
    def rates():
        """a step advances each primary quantity by its own rate: at rates that are the same in all evaluations, by step size times rate"""
        s = PhaseStep(c)
        old = F(s.P, "state")

        def same(x):
            m = re.fullmatch(r"rhs\d+\.(velocity|acceleration|massflow)(\[\d\])?", path_of(x)) if x.op in ("fld", "idx") else None
            if m:
                y = F(S("rate"), m.group(1))
                return y if m.group(2) is None else F(y, int(m.group(2)[1]))
        for n, d in (("position", "velocity"), ("velocity", "acceleration"), ("mass", "massflow")):
            for i in range(3) if n != "mass" else (None,):
                r = F(S("rate"), d) if i is None else F(S("rate"), d, i)
                o = F(old, n) if i is None else F(old, n, i)
                for g, k in s.finals:
                    st, _, _, span = s.calls[k - 1]
                    x = s.r.get(st, n) if i is None else s.r.get(st, n, i)
                    c.eq(f"{n} changes by {d}" + ("" if i is None else f" [{i}]"), interp.subst(x, same), add(o, mul(s.dt, r)),
                         span, s.DOM, assume=None if len(s.finals) == 1 else g)

    def state():
        c.guard(rates, "rates of change")
        for n in ((0, 1, 2) if c.thorough else (1,)):
            s = c.guard(lambda: Step(c, n), "equations of motion")
            if s is None:
                return
            for m in ("primary", "vehicle_acceleration_body", "acceleration", "gravity_acceleration", "massflow",
                      "thrust_force_body", "aero_force_body"):
                c.guard(getattr(s, m), m, s.where)
    backed(c, [state], [lambda: c.guard(dyn, "state derivative")])
