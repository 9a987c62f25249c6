from common import *

META = {"rule": "value-flow normal forms of altitude, geopotential altitude and planet-relative velocity against the "
                "ellipsoid / rotating-frame formulas; planet constants folded at compile time against the published ones"}
FT = num("0.3048")
ANYP = Domain((r".*", "any", -1e-2, 1e7))


def run(c):
    P = S("planet")
    re_, rp, g, w = planet_of(P)
    pos, vel = vec(S("position")), vec(S("velocity"))

    def alt():
        b = c.fn("Planet::altitude")
        r = c.run(b, ["planet", "position"])
        c.eq("altitude above the ellipsoid", r.ret, altitude(re_, rp, pos), r.where, GEO)

    def geo():
        b = c.fn("Planet::geopotential_altitude")
        r = c.run(b, ["planet", "position"])
        h = altitude(re_, rp, pos)
        ra = div(add(re_, rp), num(2))
        c.eq("geopotential altitude", r.ret, div(mul(ra, h), add(ra, h)), r.where, GEO)

    def velo():
        b = c.fn("Planet::velocity_planet", V3, [r"&planet::Planet", V3, V3])
        r = c.run(b, ["planet", "position", "velocity"])
        c.mat("velocity - ω×r", r.ret, vsub(vel, cross(V(ZERO, ZERO, w), pos)), r.where, GEO)

    def constants():
        for s in [*starts(c), *starts(c, later=False)]:
            planet_models(c, s.r, lambda n: s.get("planet", n), ("planet_model",), ANYP, s.g, config=s.C)

    def default():
        for s in starts(c, later=False):
            default_planet(s, ANYP)

    def state():
        s = c.guard(lambda: Step(c, 0), "equations of motion")
        if s is not None:
            for m in ("altitude", "altitude_geopotential", "position_planet", "velocity_planet"):
                c.guard(getattr(s, m), m, s.where)
    backed(c, [state], [lambda f=f: c.guard(f, f.__name__) for f in (alt, geo, velo)])
    for f in (constants, default):
        c.guard(f, f.__name__)
