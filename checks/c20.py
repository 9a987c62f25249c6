from common import *

META = {"rule": "value-flow summary of the automatic throttle: full throttle without thrust, otherwise the smallest ratio "
                "clamped to 0..1 that closes the force triangle of aerodynamic force, thrust and acceleration limit "
                "(case distinction and algebraic form, compared by normal form and confirmed by an identity test)"}
DOM = Domain((r"[ab]", "pos", 1, 100), (r"al", "any", 0.01, 3.13), (r".*amax", "pos", 1, 60), (r".*mass|m", "pos", 1e3, 1e6),
             (r".*pressure.*|p", "nonneg", 10, 1e5), (r"aero\[\d\]", "any", -1e6, 1e6), (r"triangle", "any", -1e6, 8e6),
             (r".*incidence\[\d\]", "any", -0.5, 0.5), (r".*thrust_vac", "nonneg", 1e5, 1e7), (r".*isp_vac", "pos", 200, 450),
             (r".*exit_area", "nonneg", 0.1, 20), (r".*", "any", -50, 50))


def run(c):
    def triangle():
        """side x of the triangle with sides a, b where a lies opposite to the given angle"""
        b = c.fn("vehicle::side_side_angle", r"std::option::Option<f64>", [r"f64", r"f64", r"f64"], opt=True)
        if b is None:
            return
        r = c.run(b, ["a", "b", "al"])
        A, B_, al = S("a"), S("b"), S("al")
        none, tag = None, r.I.discr(r.st, r.D(r.ret))
        v = r.D(r.ret)
        x = payload(r, v)
        inner = bnot(beq(al, ZERO)) & bnot(beq(al, PI))
        reach = bnot(blt(A, mul(B_, sin(al))))
        c.eq("a solution exists exactly when the sides can meet", beq(tag, ONE), reach, r.where, DOM, assume=inner)
        root = sqrt(sub(sq(A), sq(mul(B_, sin(al)))))
        want = add(mul(B_, cos(al)), ite(blt(A, B_), neg(root), root))
        c.eq("length of the side", x, want, r.where, DOM, assume=inner & reach)
        c.eq("opposite forces: length", x, ite(blt(A, B_), sub(B_, A), add(A, B_)), r.where, DOM, assume=beq(al, ZERO))
        c.eq("aligned forces: length", x, sub(A, B_), r.where, DOM, assume=beq(al, PI))
        for w, g in (("opposite", beq(al, ZERO)), ("aligned", beq(al, PI))):
            c.eq(f"{w} forces: always a solution", tag, ONE, r.where, DOM, assume=g)
    c.guard(triangle, "force triangle")

    s = c.guard(lambda: Step(c, 1), "equations of motion")
    if s is not None:
        def step():
            t = s.f["throttle"]
            c.eq("throttle is never negative", ite(blt(t, ZERO), t, ZERO), ZERO, s.where, STEP)
            c.eq("throttle never exceeds one", ite(blt(ONE, t), t, ZERO), ZERO, s.where, STEP)
            whole(c, s)
        c.guard(step, "throttle", s.where)
        # the same setting reaches thrust and mass flow
        for m in ("thrust_force_body", "massflow", "vehicle_acceleration_body"):
            c.guard(getattr(s, m), m, s.where)
    z = c.guard(lambda: Step(c, 0), "vehicle without engines")
    if z is not None:
        c.guard(lambda: c.eq("full throttle without thrust", z.f["throttle"], ONE, z.where, STEP), "no thrust", z.where)


def payload(r, v):
    if isinstance(v, Choice):
        x = ZERO
        for g, y in v.alts:
            if isinstance(y, Agg) and y.variant == 1:
                x = ite(g, y.fs[0], x)
        return x
    if isinstance(v, Agg) and v.variant == 1:
        return v.fs[0]
    raise Unsupported("shape of the result")


def whole(c, s):
    """the throttle against the closed-form force triangle; the equality of the two forms is first tried in parts"""
    t = Check("part", c.p, c.tier)
    try:
        parts(t, s)
    except Exception as e:
        t.und("parts", "", str(e))
    if t.obl and all(o[1] == "discharged" for o in t.obl):
        c.analysed |= t.analysed
        c.obl += [("throttle by parts: " + o[0], *o[1:]) for o in t.obl]
    else:
        s.throttle()


def parts(c, s):
    tri = c.fn("vehicle::side_side_angle", r"std::option::Option<f64>", [r"f64", r"f64", r"f64"])
    b = c.fn("Vehicle::auto_throttle", r"f64", [r"&vehicle::Vehicle", r"f64", r"f64", r"f64", V3])
    log = []

    def h(I, args, st, dty):
        log.append((args, st.g))
        return I.fresh(S("side"), dty), st
    r = c.run(b, ["veh", "amax", "m", "p", "aero"], I=c.interp({tri["id"]: h}, lens(engines=1)))
    (a, b_, al), g = log[0]
    T = engine_thrust(F(S("veh"), "engines", 0), S("p"))
    A = vec(S("aero"))
    c.eq("largest force", a, mul(S("amax"), S("m")), r.where, DOM)
    c.eq("aerodynamic force", b_, norm(A), r.where, DOM)
    n = mul(norm(A), norm(T))
    angle = sub(PI, al)
    # a thrust that is not zero has a length that is not zero
    g = g & bnot(beq(dot(T, T), ZERO))
    some_aero = bnot(beq(dot(A, A), ZERO))
    c.eq("no aerodynamic force: angle", angle, ZERO, r.where, DOM, assume=g & bnot(some_aero))
    al = fold_guard(al, g & some_aero)
    found = []

    def walk(e):
        if isinstance(e, E):
            if e.op == "acos":
                found.append(e)
            else:
                for y in e.args:
                    walk(y)
    walk(al)
    if len(set(found)) != 1:
        raise Unsupported("form of the angle")
    c.eq("angle of the triangle", cut(al, {"angle": found[0]}), sub(PI, S("cut·angle")), r.where, DOM, assume=g & some_aero)
    c.eq("angle between aerodynamic force and thrust", mul(found[0].args[0], n), dot(A, T), r.where, DOM,
         assume=g & some_aero)
    zero = TRUE
    for x in T.fs:
        zero = zero & beq(x, ZERO)
    gs, x = some(S("side"))
    want = ite(zero, ONE, ite(gs, clamp01(div(x, norm(T))), ONE))
    c.eq("throttle of the required thrust", r.ret, want, r.where, DOM)
