import itertools

import mpmath as mp

from common import *

META = {"rule": "value-flow normal forms of the angle of attack and of the aerodynamic force: body-axis force from the "
                "three looked-up coefficients rotated by the angle of attack, dynamic pressure times reference area; "
                "not-a-number propagation decides that a missing table counts as zero and leaves the other axes intact; without an atmosphere the extracted form is "
                "zero for finite, infinite and undefined coefficients"}
DOM = Domain((r"v\[\d\]", "any", -500, 500), (r".*alpha", "any", -1.6, 1.6), (r".*reference_area", "pos", 1, 100),
             (r"coefficient.*", "any", -2, 3), (r".*", "any", -50, 50))


def run(c):
    def state():
        s = c.guard(lambda: Step(c, 1), "equations of motion")
        if s is not None:
            for m in ("alpha", "aero_force_body"):
                c.guard(getattr(s, m), m, s.where)
            c.guard(lambda: tables(c, s), "states of the tables", s.where)
            c.guard(lambda: vacuum(c, s), "force without an atmosphere", s.where)

    def angle():
        b = c.fn("Vehicle::alpha", r"f64", [V3], opt=True)
        if b is None:
            return
        r = c.run(b, ["v"])
        c.eq("angle of attack", r.ret, alpha(vec(S("v"))), r.where, DOM)
    backed(c, [state], [lambda: c.guard(angle, "angle of attack")])

    def upd():
        for s in [*starts(c), *starts(c, later=False)]:
            settings(s, DOM, only=("aero",))
    c.guard(upd, "vehicle configuration")


def tables(c, s):
    """Mach number, dynamic pressure and angle of attack of this instant are what the tables are looked up with"""
    for p, st, span in s.log:
        for n in ("mach_number", "alpha", "dynamic_pressure", "altitude"):
            c.eq(f"state given to {p}: {n}", s.r.get(st, n), s.f[n], span, STEP)


def vacuum(c, s):
    """the extracted form of the force where the dynamic pressure is zero: zero for every kind of coefficient (at the infinite Mach
    number the tables extrapolate to an infinite or undefined one)"""
    cs = s.coefficients()
    if foreign(cs, False) is not None or len({p for p, _, _ in s.log}) != 3:
        return c.und("step: aero_force_body without an atmosphere", s.where, "table look-ups")
    on = s.model_on()
    d = mk("discr", F(s.ph, "atmosphere", "model"))
    off = next(x for x in DISCR[d.id] if on is not beq(d, num(x)))
    kinds = (mp.mpf(2) / 5, mp.inf, -mp.inf, mp.nan)
    bad = None
    for n, given in enumerate(itertools.product(kinds, repeat=3)):
        ev = nf.Eval(4000 + n, STEP.sample)
        ev.memo[d.id] = mp.mpf(off)
        ev.memo.update({e.id: v for e, v in zip(cs, given)})
        f = [ev.ev(x) for x in s.f["aero_force_body"].fs]
        if any(x != 0 for x in f) and bad is None:
            bad = f"drag, lift, side force coefficient {given}: force {[mp.nstr(x, 6) for x in f]}"
    c.holds("step: aero_force_body without an atmosphere is zero for every coefficient (64 kinds)", bad is None, s.where, bad or "")
