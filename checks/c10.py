from common import *

META = {"rule": "value-flow summary of a run up to the evaluation at the start of its first phase: launch frame from the configured angles, "
                "position on the ellipsoid plus altitude, velocity co-rotating with the planet, clocks at zero "
                "(symbolic planet and angles)"}
DOM = LAUNCH


def place(re_, rp, w, launch, h):
    """position at the launch latitude / longitude and h above the ellipsoid, and its co-rotating velocity"""
    gc, long = launch
    k = div(sq(re_), sq(rp))
    r = add(div(re_, sqrt(add(ONE, mul(sub(k, ONE), sq(sin(gc)))))), h)
    p = vscale(r, V(mul(cos(gc), cos(long)), mul(cos(gc), sin(long)), sin(gc)))
    return p, w


def run(c):
    c.guard(lambda: first(c), "first phase")
    c.guard(lambda: needed(c), "need of an initialisation")


def slots(c):
    """where the equations of motion look for the angles of the launch frame, if that is where they are kept"""
    k = launch_slots(c)
    if k != (0, 1, 2):
        t = Check("part", c.p, c.tier)
        t.guard(lambda: Step(t, 0).acceleration(), "equations of motion")
        if any(o[1] != "discharged" for o in t.obl):
            return 0, 1, 2
    return k


def first(c):
    for s in starts(c, later=False):
        gi, cfg = s.entry("init")
        re_, rp, w = [fold_guard(s.get("planet", n), s.g) for n in ("equatorial_radius", "polar_radius", "rotation_rate")]
        gc, long, az = launch_wanted(re_, rp, cfg)
        L = [s.get("launch", k) for k in slots(c)]
        for n, a, b in zip(("geocentric latitude", "longitude", "azimuth"), L, (gc, long, az)):
            s.eq(f"launch frame: {n}", a, b, DOM)
        p, _ = place(re_, rp, w, (gc, long), F(cfg, "altitude"))
        pos, vel = s.get("state", "position"), s.get("state", "velocity")
        for i in range(3):
            s.eq(f"initial position[{i}]", pos.fs[i], p.fs[i], DOM)
        rot = cross(V(ZERO, ZERO, w), V(*[fold_guard(x, s.g) for x in pos.fs]))
        for i in range(3):
            s.eq(f"initial velocity[{i}] co-rotates", vel.fs[i], rot.fs[i], DOM)
        for n in ("time", "time_since_event"):
            s.eq(f"{n} starts at zero", s.get("state", n), ZERO, DOM)


def needed(c):
    """a first phase without an initialisation is refused, a later one is not"""
    def panics(r):
        bad = FALSE
        for e, d in r.I.panics:
            bad = bad | e.g
        return bad
    T = "a first phase needs an initialisation, later phases do not"
    try:
        m = Mission(c, 2, ENGINES)
    except (Missing, Unsupported):
        b = c.fn("Phase::new", r"phase::Phase", [r"std::option::Option<&phase::Phase>", r"&config::PhaseConfig"])
        r = c.run(b, ["prev", "config"], I=c.interp(None, lens()))
        c.eq(T, panics(r), bnot(some(S("prev"))[0]) & bnot(some(F(S("config"), "init"))[0]), r.where, DOM)
    else:
        c.eq(T, panics(m.r), bnot(some(F(m.config(0), "init"))[0]), m.where, DOM)
