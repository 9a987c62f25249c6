from common import *

META = {"rule": "value-flow normal forms of temperature, pressure, density and speed of sound over the geopotential "
                "altitude, compared layer by layer with the published 1962 standard atmosphere"}
ALT = Domain((r"alt", "any", -4000, 7e5))


def run(c):
    def functions():
        for n in ("temperature", "pressure", "density", "speed_of_sound"):
            def go():
                b = c.fn("standard_atmosphere_1962::" + n)
                r = c.run(b, ["alt"])
                c.eq(n, r.ret, ATMOS[n](S("alt")), r.where, ALT)
            c.guard(go, n)

    def state():
        s = c.guard(lambda: Step(c, 0), "equations of motion")
        if s is not None:
            for m in ("altitude_geopotential", "temperature", "pressure", "density", "mach_number"):
                c.guard(getattr(s, m), m, s.where)
    backed(c, [state], [functions])
