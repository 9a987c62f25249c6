from common import *

META = {"rule": "value-flow normal form of the gravity routine, and of the gravity acceleration recorded in the state, "
                "compared component-wise with the symbolic gradient of the zonal potential (J2..J4)"}


def run(c):
    def go():
        b = c.fn("Planet::gravity", V3, [r"&planet::Planet", V3])
        r = c.run(b, ["planet", "position"])
        re_, rp, g, w = planet_of(S("planet"))
        c.mat("gravity = grad U", r.ret, gravity(re_, g, vec(S("position"))), r.where, GEO)
    def state():
        s = c.guard(lambda: Step(c, 0), "equations of motion")
        if s is not None:
            c.guard(s.gravity_acceleration, "gravity in the state", s.where)
    backed(c, [state], [lambda: c.guard(go, "gravity")])
