"""domains and required formulas shared by the checks"""
from core import *

PLANET = [
    (r"planet\.equatorial_radius|.*\.planet\.equatorial_radius", "pos", 1e6, 1e7),
    (r"planet\.polar_radius|.*\.planet\.polar_radius", "pos", 1e6, 1e7),
    (r"(.*\.)?planet\.gravitational_parameters\[0\]", "pos", 1e13, 1e15),
    (r"(.*\.)?planet\.gravitational_parameters\[[123]\]", "any", -0.05, 0.05),
    (r"(.*\.)?planet\.rotation_rate", "any", -1e-3, 1e-3),
]
POSITION = [(r"position\[\d\]|.*state\.position\[\d\]", "any", -2e7, 2e7)]
VELOCITY = [(r"velocity\[\d\]|.*state\.velocity\[\d\]", "any", -9e3, 9e3)]
ANGLES = [(r".*(launch|euler|angle|lat|long|az|roll|yaw|pitch).*", "any", -3.2, 3.2)]
GEO = Domain(*PLANET, *POSITION, *VELOCITY, *ANGLES)


def planet_of(base):
    """(re, rp, [mu, J2, J3, J4], omega) leaves of a planet value"""
    return (F(base, "equatorial_radius"), F(base, "polar_radius"),
            [F(base, "gravitational_parameters", i) for i in range(4)], F(base, "rotation_rate"))


def surface_radius(re_, rp, pos):
    """distance centre - surface of the ellipsoid below pos"""
    x, y, z = pos.fs
    r = norm(pos)
    return div(r, sqrt(add(div(add(sq(x), sq(y)), sq(re_)), div(sq(z), sq(rp)))))


def altitude(re_, rp, pos):
    return sub(norm(pos), surface_radius(re_, rp, pos))


def potential(re_, g, pos):
    x, y, z = pos.fs
    mu, j2, j3, j4 = g
    r = norm(pos)
    s = div(z, r)
    q = div(re_, r)
    p2 = div(sub(mul(num(3), powi(s, 2)), ONE), num(2))
    p3 = div(sub(mul(num(5), powi(s, 3)), mul(num(3), s)), num(2))
    p4 = div(add(sub(mul(num(35), powi(s, 4)), mul(num(30), powi(s, 2))), num(3)), num(8))
    return mul(div(mu, r), sub(ONE, total([mul(j2, mul(powi(q, 2), p2)), mul(j3, mul(powi(q, 3), p3)),
                                          mul(j4, mul(powi(q, 4), p4))])))


def gravity(re_, g, pos):
    u = potential(re_, g, pos)
    return V(*[diff(u, c) for c in pos.fs])


def Rx(a):
    return M3([[ONE, ZERO, ZERO], [ZERO, cos(a), sin(a)], [ZERO, neg(sin(a)), cos(a)]])


def Ry(a):
    return M3([[cos(a), ZERO, neg(sin(a))], [ZERO, ONE, ZERO], [sin(a), ZERO, cos(a)]])


def Rz(a):
    return M3([[cos(a), sin(a), ZERO], [neg(sin(a)), cos(a), ZERO], [ZERO, ZERO, ONE]])


def launch_matrix(lat, long, az):
    up = [mul(cos(lat), cos(long)), mul(cos(lat), sin(long)), sin(lat)]
    east = [neg(sin(long)), cos(long), ZERO]
    north = [neg(mul(sin(lat), cos(long))), neg(mul(sin(lat), sin(long))), cos(lat)]
    return M3([up,
               [sub(mul(cos(az), e), mul(sin(az), n)) for e, n in zip(east, north)],
               [add(mul(sin(az), e), mul(cos(az), n)) for e, n in zip(east, north)]])


def body_matrix(roll, yaw, pitch):
    return Ry(pitch) @ (Rz(yaw) @ Rx(roll))


def planet_matrix(t, w):
    return Rz(mul(w, t))


V3 = r"nalgebra::Matrix<f64, nalgebra::Const<3>, nalgebra::Const<1>, .*"


# ------------------------------------------------------------------ whole-step summary
def lens(**kw):
    """container lengths by the last field name on the path; default 0"""
    def f(base, ety):
        p = path_of(base)
        for k, n in kw.items():
            if re.search(k, p):
                return n
        return None
    return f


def table_cut(c, log):
    """table look-ups become named inputs; the state given to them is recorded"""
    out = {}
    for b in c.p.local_fns():
        ret, args = c.p.sig(b)
        if b["name"].endswith("::at_state") and "Table::" in b["name"] and len(args) == 2:
            def h(I, args, st, dty, b=b):
                t = args[0]
                while isinstance(t, Ref):
                    t = I.read(st, t.root, t.path)
                s = args[1]
                while isinstance(s, Ref):
                    s = I.read(st, s.root, s.path)
                if not isinstance(t, SymV):
                    raise Unsupported("table argument")
                log.append((path_of(t.base), s, I.span))
                return mk("sym", f"coefficient({path_of(t.base)})"), st
            out[b["id"]] = h
    return out


STEP = Domain(
    (r"s\.position\[\d\]", "any", 3.3e6, 4.1e6), (r"s\.velocity\[\d\]", "any", -6e3, 6e3),
    (r"s\.mass", "pos", 1e4, 1e6), (r"s\.time(_since_event)?", "any", 0, 500),
    (r"(.*\.)?planet\.equatorial_radius", "pos", 6.2e6, 6.4e6), (r"(.*\.)?planet\.polar_radius", "pos", 6.1e6, 6.4e6),
    *PLANET[2:],
    (r"discr\(ph\.atmosphere\.model\)", "int", 0, 1), (r"discr\(ph\.steering\..*\)", "int", 0, 53),
    (r"ph\.steering\..*\[\d\]", "any", -0.02, 0.02), (r"ph\.launch\[\d\]", "any", -3.2, 3.2),
    (r"ph\.atmosphere\.wind\[\d\]", "any", -80, 80), (r"ph\.vehicle\.structure_mass", "pos", 1e3, 1e5),
    (r"ph\.vehicle\.reference_area", "pos", 1, 100), (r"coefficient\(.*\)", "any", -2, 3),
    (r"ph\.vehicle\.engines\[\d\]\.incidence\[\d\]", "any", -0.5, 0.5),
    (r"ph\.vehicle\.engines\[\d\]\.thrust_vac", "nonneg", 1e5, 1e7), (r"ph\.vehicle\.engines\[\d\]\.isp_vac", "pos", 200, 450),
    (r"ph\.vehicle\.engines\[\d\]\.exit_area", "nonneg", 0.1, 20), (r"ph\.max_acceleration", "pos", 5, 60),
    (r"s\..*", "any", -100, 100), (r"ph\..*", "any", -50, 50), (r"cut·mass", "pos", 1e4, 1e6),
    (r"cut·pressure", "unit", 0, 1.2e5), (r"cut·throttle", "unit", 0, 1), (r"cut·alpha", "unit", -1.57, 1.57),
    (r"cut·aero_force_body\[\d\]", "any", -1e6, 1e6), (r"cut·velocity_atmosphere\[\d\]", "any", -8e3, 8e3),
    (r"cut·dynamic_pressure", "unit", 0, 1e6),
    (r"cut·.*", "any", -100, 100),
)


def scalars(v):
    return [v] if isinstance(v, E) else [y for x in v.fs for y in scalars(x)]


def some(base):
    """(is given, the given value) of an optional input"""
    d = mk("discr", base)
    DISCR.setdefault(d.id, [0, 1])
    return beq(d, ONE), F(base, "Some.0")


def accessor(variant):
    """(state field, component | 'norm' | None) of a state variable, by its name"""
    names = {"Roll": 0, "Yaw": 1, "Pitch": 2}
    words = re.findall(r"[A-Z][a-z]*|\d", variant)
    if words[-1] in ("1", "2", "3"):
        return "_".join(w.lower() for w in words[:-1]), int(words[-1]) - 1
    if words[-1] == "Norm":
        return "_".join(w.lower() for w in words[:-1]), "norm"
    if words[:2] == ["Euler", "Angles"]:
        return "euler_angles", names[words[2]]
    return "_".join(w.lower() for w in words), None


# variables the manual lists, in the words of the JSON file
def documented(repo):
    tex = open(os.path.join(repo, "docs/user-manual/project.tex"), encoding="utf-8").read()
    part = tex[tex.index(r"\paragraph{Simulation Variables}"):]
    part = part[:part.index(r"\end{longtable}")]
    return re.findall(r'\\json\{"(\w+)"\}', part)


def words(v):
    return [w.lower() for w in re.findall(r"[A-Z][a-z]*|\d", v)]


def variants(p, suffix):
    for t in p.types:
        if t["k"] == "adt" and t.get("enum") and t["def"].endswith(suffix):
            return t, [v["name"] if "name" in v else v["n"] for v in t["vs"]]
    raise Missing("type " + suffix)


PLANET = ("equatorial_radius", "polar_radius", "gravitational_parameters", "rotation_rate")


def planet_models(c, r, get, entry, dom, g=TRUE, named=True, config=None):
    """every planet model a configuration can name yields its published constants, a custom one the given values;
    get: field -> value in the code, entry: path of the configuration entry"""
    ft3 = powi(FT, 3)
    re0, rp0 = mul(num("2.0925741e7"), FT), mul(num("2.0855590e7"), FT)
    w0 = num("7.29211e-5")
    mu1, mu2 = mul(num("1.4076539e16"), ft3), mul(num("1.407645794e16"), ft3)
    want = {
        "spherical": (re0, re0, [mu1, ZERO, ZERO, ZERO], w0),
        "fisher": (re0, rp0, [mu1, num("1.0823e-3"), ZERO, ZERO], w0),
        "smithsonian": (re0, rp0, [mu2, num("1.082639e-3"), num("-2.565e-6"), num("-1.608e-6")], w0),
    }
    C = config if config is not None else S("config")
    for e in entry:
        h, C = some(F(C, e))
        g = g & h
    t, vs = variants(c.p, "PlanetConfig")
    d = mk("discr", C)
    DISCR.setdefault(d.id, [v["discr"] for v in t["vs"]])
    for k, v in enumerate(vs):
        h = g & beq(d, num(t["vs"][k]["discr"]))
        key = [x for x in want if v.lower().startswith(x)]
        if key and named:
            wants = dict(zip(PLANET, want[key[0]]))
        elif v == "Custom":
            wants = {n: F(C, "Custom." + n) for n in PLANET}
        else:
            continue
        for n in PLANET:
            x = get(n)
            if isinstance(x, Choice):
                x = r.D(x)
            xs = x.fs if isinstance(x, Agg) else [x]
            ws = wants[n] if isinstance(wants[n], list) else [F(wants[n], i) for i in range(4)] \
                if isinstance(x, Agg) else [wants[n]]
            for i, (a, q) in enumerate(zip(xs, ws)):
                c.eq(f"{v}: {n}" + (f"[{i}]" if len(xs) > 1 else ""), fold_guard(a, h), q, r.where, dom, assume=h)


class Step:
    """summary of one evaluation of the equations of motion"""

    def __init__(self, c, engines=1, opaque=None, name="Phase::system", recut=None):
        self.c = c
        self.again = lambda m: Step(c, engines, opaque, name, m)
        self.log = []
        b = c.fn(name, r"state::State", [r"&phase::Phase", r"state::State"])
        I = c.interp({**table_cut(c, self.log), **(opaque or {})}, lens(**{r"engines$": engines}))
        I.recut = recut or {}
        self.r = c.run(b, ["ph", "s"], I=I)
        self.where = self.r.where
        self.I = I
        self.ph, self.s = S("ph"), S("s")
        self.f = {}
        if self.r.ret is None:
            return      # never returns
        t = c.p.types[self.r.ret.ty]
        self.names = [f[0] for f in t["vs"][0]["fields"]]
        self.f = {n: self.r.get(self.r.ret, n) for n in self.names}
        self.n = engines
        g = F(self.ph, "planet")
        self.re, self.rp, self.g, self.w = planet_of(g)

    def cuts(self, *names):
        out = {}
        for n in names:
            v = self.f[n]
            if isinstance(v, Agg):
                for i, x in enumerate(v.fs):
                    if x.op not in ("num", "sym", "fld", "idx", "pi"):
                        out[f"{n}[{i}]"] = x
            elif isinstance(v, E) and v.op not in ("num", "sym", "fld", "idx", "pi"):
                out[n] = v
        return out

    def same(self, name, spec, upstream=(), free=False, **kw):
        """free: the values upstream vary independently of each other and of the remaining inputs"""
        v = self.f[name]
        label = f"step: {name}"
        n = len(self.c.obl)
        self.same_as(v, label, spec, upstream, **kw)
        if free and all(o[1] == "undecided" for o in self.c.obl[n:] if o[1] != "discharged") and any(
                o[1] == "undecided" for o in self.c.obl[n:]):
            t = Check("part", self.c.p, self.c.tier)
            try:
                cs = self.cuts(*upstream)
                r, m = self, {}
                for k in upstream:
                    m.update({v.id: mk("sym", "cut·" + n) for n, v in r.cuts(k).items()})
                    r = self.again(m)
                code = scalars(r.f[name])
                spec = [cut(x, cs) for x in scalars(spec)]
                if len(code) == len(spec) and not set(nf.survey(code)[1]) - set(nf.survey(spec)[1]):
                    for i, (x, y) in enumerate(zip(code, spec)):
                        t.eq(label + (f"[{i}]" if len(code) > 1 else ""), x, y, self.where, STEP)
            except Exception as e:
                t.und(label, self.where, str(e))
            if t.obl and (all(o[1] == "discharged" for o in t.obl) or any(o[1] == "violated" for o in t.obl)):
                self.c.obl[n:] = t.obl

    def same_as(self, v, label, spec, upstream=(), **kw):
        if isinstance(v, Agg):
            self.c.mat(label, v, spec, self.where, STEP, cuts=self.cuts(*upstream), **kw)
        elif v is not None:
            self.c.eq(label, v, spec, self.where, STEP, cuts=self.cuts(*upstream), **kw)

    # ---- required value of each derived quantity in terms of the others of the same instant
    @property
    def pos(self):
        return vec(F(self.s, "position"))

    @property
    def vel(self):
        return vec(F(self.s, "velocity"))

    def model_on(self):
        t, vs = variants(self.c.p, "AtmosphereModel")
        k = [i for i, v in enumerate(vs) if "Standard" in v]
        if len(k) != 1 or len(vs) != 2:
            raise Missing("atmosphere model variants")
        d = mk("discr", F(self.ph, "atmosphere", "model"))
        DISCR.setdefault(d.id, [0, 1])
        return beq(d, num(k[0]))

    def primary(self):
        s = self.s
        for n in ("time", "time_since_event", "mass"):
            self.same(n, F(s, n))
        self.same("position", self.pos)
        self.same("velocity", self.vel)

    def position_planet(self):
        m = planet_matrix(F(self.s, "time"), self.w)
        self.same("position_planet", m @ self.pos)

    def velocity_planet(self):
        self.same("velocity_planet", vsub(self.vel, cross(V(ZERO, ZERO, self.w), self.pos)))

    def altitude(self):
        self.same("altitude", altitude(self.re, self.rp, self.pos))

    def altitude_geopotential(self):
        h = self.f["altitude"]
        ra = div(add(self.re, self.rp), num(2))
        self.same("altitude_geopotential", div(mul(ra, h), add(ra, h)), ["altitude"])

    def propellant_mass(self):
        self.same("propellant_mass", sub(F(self.s, "mass"), F(self.ph, "vehicle", "structure_mass")))

    def gravity_acceleration(self):
        self.same("gravity_acceleration", gravity(self.re, self.g, self.pos))

    def velocity_atmosphere(self):
        self.same("velocity_atmosphere", vsub(self.f["velocity_planet"], vec(F(self.ph, "atmosphere", "wind"))))

    def dynamic_pressure(self):
        va = self.f["velocity_atmosphere"]
        self.same("dynamic_pressure", mul(div(self.f["density"], num(2)), dot(va, va)),
                  ["density", "velocity_atmosphere"])

    def vehicle_acceleration_body(self):
        m = F(self.s, "mass")
        a = vscale(div(ONE, m), vadd(self.f["aero_force_body"], self.f["thrust_force_body"]))
        self.same("vehicle_acceleration_body", a, ["aero_force_body", "thrust_force_body"])

    def attitude(self):
        e = self.f["euler_angles"]
        L = [F(self.ph, "launch", k) for k in launch_slots(self.c)]
        return body_matrix(*e.fs) @ launch_matrix(*L)

    def acceleration(self):
        a = self.attitude().T() @ self.f["vehicle_acceleration_body"]
        self.same("acceleration", vadd(a, self.f["gravity_acceleration"]),
                  ["euler_angles", "vehicle_acceleration_body", "gravity_acceleration"])

    def atmosphere(self, name):
        h = self.f["altitude_geopotential"]
        self.same(name, ite(self.model_on(), ATMOS[name](h), ZERO), ["altitude_geopotential"])

    def temperature(self):
        self.atmosphere("temperature")

    def pressure(self):
        self.atmosphere("pressure")

    def density(self):
        self.atmosphere("density")

    def mach_number(self):
        a = ite(self.model_on(), sound(self.f["altitude_geopotential"]), ZERO)
        self.same("mach_number", div(norm(self.f["velocity_atmosphere"]), a),
                  ["altitude_geopotential", "velocity_atmosphere"])


    # ---- forces
    def engine(self, i):
        return F(self.ph, "vehicle", "engines", i)

    def full_thrust(self):
        t = V(ZERO, ZERO, ZERO)
        for i in range(self.n):
            t = vadd(t, engine_thrust(self.engine(i), self.f["pressure"]))
        return t

    def thrust_force_body(self):
        self.same("thrust_force_body", vscale(self.f["throttle"], self.full_thrust()), ["throttle", "pressure"], free=True)

    def massflow(self):
        m = total([engine_massflow(self.engine(i)) for i in range(self.n)])
        self.same("massflow", mul(self.f["throttle"], m), ["throttle"], free=True)

    def throttle(self):
        self.same("throttle", throttle(F(self.ph, "max_acceleration"), F(self.s, "mass"), self.f["aero_force_body"],
                                       self.full_thrust()), ["pressure", "aero_force_body"], free=True)

    def alpha(self):
        v = self.attitude() @ self.f["velocity_atmosphere"]
        self.same("alpha", alpha(v), ["velocity_atmosphere", "euler_angles"], free=True)

    def coefficients(self):
        return [about(f"coefficient(ph.vehicle.{n})", F(S("ph"), "vehicle", n)) for n in ("drag_coeff", "lift_coeff", "side_force_coeff")]

    def aero_force_body(self):
        cs = self.coefficients()
        seen = {p for p, _, _ in self.log}
        x = foreign(cs, False)
        if x is not None:
            return self.c.und("step: aero_force_body", self.where, f"no input {path_of(x)}")
        if len(seen) != 3:
            return self.c.und("step: aero_force_body", self.where, f"table look-ups {sorted(seen)}")
        for mask in range(8):
            nans = [cs[i] for i in range(3) if mask >> i & 1]
            code = nanprop(self.f["aero_force_body"], nans)
            spec = aero_force(nanprop(self.f["dynamic_pressure"], nans), F(self.ph, "vehicle", "reference_area"),
                              nanprop(self.f["alpha"], nans), *[ZERO if c in nans else c for c in cs])
            names = "".join("-" if cs[i] in nans else "+" for i in range(3))
            self.c.mat(f"step: aero_force_body ({names})", code, spec, self.where, STEP,
                       cuts={k: nanprop(v, []) for k, v in self.cuts("dynamic_pressure", "alpha").items()})

    # ---- attitude
    def variable_value(self, base, stage):
        """value of the state variable selected by base, over the quantities of this instant"""
        t, vs = variants(self.c.p, "state::StateVariable")
        d = mk("discr", base)
        DISCR.setdefault(d.id, [v["discr"] for v in t["vs"]])
        r, avail = ZERO, FALSE
        for k, v in enumerate(vs):
            f, comp = accessor(v)
            x = self.f.get(f)
            if x is None:
                continue
            if comp == "norm":
                x = norm(x)
            elif comp is not None:
                x = x.fs[comp]
            is_k = beq(d, num(t["vs"][k]["discr"]))
            r = ite(is_k, x, r)
            if words(v) in stage:
                avail = avail | is_k
        return r, avail

    def euler_angles(self):
        stage = [w for w in doc_words(self.c.repo) if w[0] not in ("alpha", "euler")]
        for i, axis in enumerate(("roll", "yaw", "pitch")):
            b = F(self.ph, "steering", axis)
            y, avail = self.variable_value(F(b, "0"), stage)
            cs = [F(b, "1", k) for k in range(4)]
            spec = deg(total([cs[0], mul(cs[1], y), mul(cs[2], powi(y, 2)), mul(cs[3], powi(y, 3))]))
            self.c.eq(f"step: euler_angles[{axis}]", self.f["euler_angles"].fs[i], spec, self.where, STEP,
                      assume=avail, cuts=self.cuts(*[n for n in self.names if n not in ("alpha", "euler_angles")]))

    def table_states(self):
        """the state handed to each coefficient table has every documented variable of this instant"""
        for p, s, span in self.log:
            done, bad = 0, None
            for w in doc_words(self.c.repo):
                pass
            for n in sorted({accessor(v)[0] for v in variants(self.c.p, "state::StateVariable")[1]
                             if words(v) in doc_words(self.c.repo)}):
                x = self.r.get(s, n)
                y = self.f[n]
                xs, ys = (x.fs, y.fs) if isinstance(x, Agg) else ([x], [y])
                for k, (a, b) in enumerate(zip(xs, ys)):
                    self.c.eq(f"state given to {p}: {n}" + (f"[{k}]" if len(xs) > 1 else ""), a, b, span, STEP)


def doc_words(repo):
    return [[x for x in re.findall(r"[a-z]+|\d", n)] for n in documented(repo)]


NEARLY_ZERO = num("0.000001")


def engine_thrust(e, p):
    pitch, yaw = F(e, "incidence", 0), F(e, "incidence", 1)
    f = sub(F(e, "thrust_vac"), mul(F(e, "exit_area"), p))
    return vscale(f, V(mul(cos(yaw), cos(pitch)), sin(yaw), mul(cos(yaw), sin(pitch))))


def engine_massflow(e):
    return neg(div(F(e, "thrust_vac"), mul(F(e, "isp_vac"), G0)))


def alpha(v):
    x, y, z = v.fs
    az = ite(blt(z, ZERO), neg(z), z)
    side = div(ite(blt(z, ZERO), neg(PI), PI), num(2))
    return ite(blt(x, NEARLY_ZERO), ite(blt(az, NEARLY_ZERO), ZERO, side), fn("atan", div(z, x)))


def aero_force(q, area, a, cd, cl, cy):
    ca = sub(mul(cos(a), cd), mul(sin(a), cl))
    cn = add(mul(sin(a), cd), mul(cos(a), cl))
    k = mul(q, area)
    return V(neg(mul(k, ca)), mul(k, cy), neg(mul(k, cn)))


def clamp01(x):
    return ite(blt(x, ZERO), ZERO, ite(blt(ONE, x), ONE, x))


def throttle(amax, m, aero, full):
    """setting that makes |aero + k·full| = m·amax, limited to 0..1; 1 when there is none"""
    t2 = dot(full, full)
    t = sqrt(t2)
    along = div(dot(aero, full), t)
    a2 = dot(aero, aero)
    force = mul(amax, m)
    cross2 = sub(a2, sq(along))
    root = sqrt(sub(sq(force), cross2))
    over = blt(sq(force), a2)
    x = sub(ite(over, neg(root), root), along)
    none = blt(sq(force), cross2)
    nothrust = TRUE
    for c in full.fs:
        nothrust = nothrust & beq(c, ZERO)
    return ite(nothrust, ONE, ite(none, ONE, clamp01(div(x, t))))


# ------------------------------------------------------------------ U.S. Standard Atmosphere 1962 (geopotential ft, psf, °R, °R/ft)
FT = num("0.3048")
LB = num("0.4535924")
G0 = num("9.80665")
RAIR = div(num("8314.32"), num("28.9644"))
KAPPA = num("1.4")
PSF = div(mul(LB, G0), mul(FT, FT))
RANKINE = div(ONE, num("1.8"))
LAYERS = [
    ("0", "2116.2166", "518.67", "-0.0035661600"), ("36089.239", "472.68050", "389.97", "0"),
    ("65616.797", "114.34543", "389.97", "0.00054863995"), ("104986.87", "18.128948", "411.57", "0.0015361920"),
    ("154199.48", "2.3163263", "487.17", "0"), ("170603.68", "1.2322603", "487.17", "-0.0010972801"),
    ("200131.23", "0.38032532", "454.77", "-0.0021945600"), ("259186.35", "0.021673064", "325.17", "0"),
    ("291151.57", "0.0034333824", "325.17", "0.0016953850"), ("323002.74", "0.00062814785", "379.17", "0.0028345707"),
    ("354753.59", "0.00015361733", "469.17", "0.0056867005"), ("386406.39", "0.000052676024", "649.17", "0.011443751"),
    ("480781.04", "0.000010586108", "1729.17", "0.0086358208"), ("512046.16", "0.0000077263469", "1999.17", "0.0057749093"),
    ("543215.48", "0.0000058405376", "2179.17", "0.0040610461"), ("605268.45", "0.0000035246030", "2431.17", "0.0029274135"),
    ("728243.91", "0.0000014559124", "2791.17", "0.0023812804"), ("939894.74", "0.00000039418091", "3295.17", "0.0020152600"),
    ("1234645.7", "0.000000084380249", "3889.17", "0.0016354849"), ("1520799.4", "0.000000022945543", "4357.17", "0.0011010085"),
    ("1798726.4", "0.0000000072259271", "4663.17", "0.00073319725"), ("2068776.5", "0.0000000024958752", "4861.17", "0"),
]
LAYERS = [(mul(num(h), FT), mul(num(p), PSF), mul(num(t), RANKINE), div(mul(num(l), RANKINE), FT))
          for h, p, t, l in LAYERS]


def layered(h, f):
    r = f(*LAYERS[-1])
    for i in range(len(LAYERS) - 2, -1, -1):
        r = ite(blt(h, LAYERS[i + 1][0]), f(*LAYERS[i]), r)
    return r


def temperature(h):
    return layered(h, lambda hb, pb, tb, lb: add(tb, mul(lb, sub(h, hb))))


def pressure(h):
    def f(hb, pb, tb, lb):
        k = div(G0, RAIR)
        if lb is ZERO:
            return mul(pb, fn("exp", neg(div(mul(k, sub(h, hb)), tb))))
        return mul(pb, fn("pow", div(tb, add(tb, mul(lb, sub(h, hb)))), div(k, lb)))
    return layered(h, f)


def density(h):
    return div(pressure(h), mul(RAIR, temperature(h)))


def sound(h):
    return sqrt(mul(mul(KAPPA, RAIR), temperature(h)))


ATMOS = {"temperature": temperature, "pressure": pressure, "density": density, "speed_of_sound": sound}


# ------------------------------------------------------------------ one integration step of a phase
def base_of(r, v):
    """name of the input a structured value is read from, by its first scalar field"""
    v = r.D(v)
    n = 0
    while isinstance(v, Agg) and v.fs and n < 4:
        v = r.D(v.fs[0])
        n += 1
    if isinstance(v, SymV):
        return path_of(v.base)
    if isinstance(v, E) and v.op in ("sym", "fld", "idx"):
        return re.sub(r"\.time$", "", path_of(v))
    return None


def under(v, g):
    """the value v knowing g"""
    def known(c):
        return True if (g & bnot(c)) is FALSE else False if (g & c) is FALSE else None
    if isinstance(v, E):
        while v.op == "ite" and known(v.args[0]) is not None:
            v = v.args[1 if known(v.args[0]) else 2]
        return v
    if isinstance(v, B):
        return restrict(v, g)
    if isinstance(v, Choice):
        left = [(h, x) for h, x in v.alts if (h & g) is not FALSE]
        return under(left[0][1], g) if len(left) == 1 else v
    if isinstance(v, Agg):
        fs = [under(x, g) for x in v.fs]
        return v if all(x is y for x, y in zip(fs, v.fs)) else v.with_fs(fs)
    return v


PRIMARY = ("time", "time_since_event", "position", "velocity", "mass")


class PhaseStep:
    """summary of one step of a phase: the right-hand side and the state-variable accessor are uninterpreted"""
    DOM = Domain((r"ph\.stepsize", "any", -20, 20), (r"ph\.end_criterion_tries", "int", 0, 24),
                 (r"value\(.*", "any", -50, 50), (r".*\.mass", "pos", 1e4, 1e6), (r".*", "any", -50, 50))

    def __init__(self, c):
        self.c = c
        rhs = c.fn("Phase::system", r"state::State", [r"&phase::Phase", r"state::State"])
        get = c.fn("StateVariable::get_value", r"f64", [r"&state::StateVariable", r"&state::State"])
        self.calls, self.reads = [], []
        I = None

        class R:
            pass

        def h(I, args, st, dty):
            s = args[1]
            while isinstance(s, Ref):
                s = I.read(st, s.root, s.path)
            ph = args[0]
            while isinstance(ph, Ref):
                ph = I.read(st, ph.root, ph.path)
            v = I.fresh(S(f"rhs{len(self.calls) + 1}"), dty)
            self.calls.append((s, st.g, ph, I.span))
            return v, st

        def value(I, args, st, dty):
            rr = Run.__new__(Run)
            rr.I, rr.st = I, st
            to = rr.D(args[1])
            if isinstance(to, Choice):
                out = None
                for g, x in reversed(to.alts):
                    y = value(I, [args[0], x], st, dty)[0]
                    out = y if out is None else ite(g, y, out)
                return out, st
            var, s = base_of(rr, args[0]), self.state_name(rr, to)
            if s is None or " with other " in s:
                # one of several evaluations, put together field by field
                many = self.conditions()
                if len(many) > 1:
                    out = None
                    for g in many:
                        if (g & st.g) is not FALSE:
                            y = value(I, [args[0], under(rr.D(to), g & st.g)], st, dty)[0] if under(rr.D(to), g & st.g) is not to else None
                            if y is None:
                                raise Unsupported("state variable access")
                            out = y if out is None else ite(g, y, out)
                    return out, st
            v = rr.D(args[0])
            if isinstance(v, Agg) and v.kind == "adt":
                var = self.c.p.types[v.ty]["vs"][v.variant]["name"]
            if var is None or s is None:
                raise Unsupported("state variable access")
            self.reads.append((var, s))
            return mk("sym", f"value({var} of {s})"), st
        I = c.interp({rhs["id"]: h, get["id"]: value}, lens())
        b = c.fn("Phase::step", r"\(\)", [r"&mut phase::Phase"])
        P = self.P = S("ph")
        t = c.p.types[c.p.types[b["locals"][1]]["e"]]
        if "ended" not in [f[0] for f in t["vs"][0]["fields"]]:
            raise Missing("the field that tells that a phase has ended")
        self.r = c.run(b, ["ph"], I=I)
        self.ph = self.r.args[0]
        self.where = self.r.where
        self.I = I
        crit = F(P, "end_criterion")
        self.was_ended = atom("b", F(P, "ended"))
        self.running = bnot(self.was_ended)
        # the conditions that decide which evaluations are made: (condition, the numbers of those that are)
        regions = self.conditions(self.running)
        self.regions = [(x, [k + 1 for k, y in enumerate(self.calls) if (x & y[1]) is not FALSE]) for x in regions]
        last = {}
        for x, ks in self.regions:
            k = ks[-1] if ks else 0
            last[k] = last.get(k, FALSE) | x
        self.finals = sorted(((g, k) for k, g in last.items()), key=lambda x: -x[1])
        self.last = [f"rhs{k}" for _, k in self.finals]
        self.y0 = about("value(ph.end_criterion.0 of ph.state)", F(crit, "0"))
        self.y1 = None
        for (g, _), n in reversed(list(zip(self.finals, self.last))):
            y = about(f"value(ph.end_criterion.0 of {n})", F(crit, "0"))
            self.y1 = y if self.y1 is None else ite(g, y, self.y1)
        self.target = F(crit, "1")
        self.dt = F(P, "stepsize")
        self.tries = F(P, "end_criterion_tries")
        e = sub(self.y1, self.target)
        self.hit = blt(ite(blt(e, ZERO), neg(e), e), num("0.001"))
        down = blt(self.y1, self.y0)
        crossed = bite(down, blt(self.y1, self.target), blt(self.target, self.y1))
        self.over = bnot(self.hit) & crossed

    def conditions(self, start=TRUE):
        regions = [start]
        for g in dict.fromkeys(x[1] for x in self.calls):
            regions = [y for x in regions for y in (x & g, x & bnot(g)) if y is not FALSE]
            if len(regions) > 16:
                raise Missing("conditions of evaluations")
        return regions

    def state_name(self, rr, v):
        """the state a value is, possibly with fields of other origin"""
        if isinstance(v, SymV):
            return path_of(v.base)
        if not isinstance(v, Agg) or v.kind != "adt":
            return None
        got = self.origins(rr, v)
        bases = [b for b, _ in got.values() if b is not None]
        if not bases:
            return None
        top = max(sorted(set(bases)), key=bases.count)
        odd = [n for n, (b, x) in got.items() if b != top and not (n in PRIMARY and self.passed(rr, top, n, x))]
        return top + "".join(f" with other {n}" for n in odd)

    def origins(self, rr, v):
        """field -> (state it is read from or None, value)"""
        names = [f[0] for f in self.c.p.types[v.ty]["vs"][0]["fields"]]
        out = {}
        for n, x in zip(names, v.fs):
            x = rr.D(x)
            ys = scalars(x) if isinstance(x, (E, Agg)) else []
            if isinstance(x, SymV):
                m = re.fullmatch(rf"(.+)\.{n}", path_of(x.base))
                out[n] = (m.group(1) if m else None, x)
                continue
            bs = set()
            for i, y in enumerate(ys):
                m = re.fullmatch(rf"(.+)\.{n}" + (rf"\[{i}\]" if len(ys) > 1 else ""),
                                 path_of(y)) if isinstance(y, E) and y.op in ("sym", "fld", "idx") else None
                bs.add(m.group(1) if m else None)
            out[n] = (bs.pop() if len(bs) == 1 else None, x)
        return out

    def passed(self, rr, base, n, x):
        """x is the primary field n the evaluation was called with, which an evaluation passes on (Step.primary)"""
        m = re.fullmatch(r"rhs(\d+)", base)
        if not m or int(m.group(1)) > len(self.calls):
            return False
        arg = self.calls[int(m.group(1)) - 1][0]
        if not isinstance(arg, Agg):
            return False
        y = rr.D(arg.fs[[f[0] for f in self.c.p.types[arg.ty]["vs"][0]["fields"]].index(n)])
        if not isinstance(x, (E, Agg)) or not isinstance(y, (E, Agg)):
            return False
        xs, ys = scalars(x), scalars(y)
        return len(xs) == len(ys) and all(nf.equal(a, b, pos=self.DOM.pos, domain=self.DOM.sample, samples=0)[0] == "equal"
                                          for a, b in zip(xs, ys))

    def result(self, v, g, k):
        """the k-th evaluation, the last one under guard g, for comparison with v"""
        v, last = self.r.D(v), f"rhs{k}"
        while isinstance(v, Choice):
            v = next((self.r.D(x) for h, x in v.alts if self.state_name(self.r, self.r.D(x)) == last),
                     self.r.D(v.alts[0][1]))
        if not isinstance(v, Agg) or v.kind != "adt":
            return S(last)
        return [self.given(n, x, g, k) if b != last and n in PRIMARY else F(S(last), n)
                for n, (b, x) in self.origins(self.r, v).items()]

    def kept(self, label, g):
        """under guard g, the state afterwards is the last evaluation"""
        new = self.get("state")
        for h, k in self.finals:
            if (g & h) is not FALSE:
                x = under(self.r.D(new), g & h) if len(self.finals) > 1 else new
                self.c.flows(self.r, label, x, self.result(x, g & h, k), g & h, self.DOM)

    def given(self, n, x, g, k):
        """primary field n of the k-th evaluation: as it was given to it if x is that under guard g (an evaluation passes it on)"""
        arg = self.calls[k - 1][0]
        if isinstance(arg, Agg):
            y = self.r.D(arg.fs[[f[0] for f in self.c.p.types[arg.ty]["vs"][0]["fields"]].index(n)])
            if isinstance(y, (E, Agg)):
                want = y if isinstance(y, E) else scalars(y)
                t = Check("part", self.c.p, self.c.tier)
                if isinstance(x, E) and isinstance(y, E):
                    t.eq(n, x, y, "", self.DOM, assume=g)
                elif isinstance(x, Agg) and isinstance(y, Agg) and len(scalars(x)) == len(scalars(y)):
                    for a, b in zip(scalars(x), scalars(y)):
                        t.eq(n, a, b, "", self.DOM, assume=g)
                else:
                    return F(S(f"rhs{k}"), n)
                if t.obl and all(o[1] == "discharged" for o in t.obl):
                    return y if isinstance(y, E) else want
        return F(S(f"rhs{k}"), n)

    def get(self, *path):
        return self.r.get(self.ph, *path)

    def phase_intact(self, skip):
        """fields other than those in skip keep their value"""
        t = self.c.p.types[self.r.D(self.ph).ty]
        names = [f[0] for f in t["vs"][0]["fields"]]
        if not skip <= set(names):
            # what a step may change is kept under other names
            return self.c.und("unchanged settings", self.where, "no field " + ", ".join(sorted(skip - set(names))))
        for n in names:
            if n not in skip and (n in SETTINGS or configured(self.c, n)):
                self.c.flows(self.r, f"step keeps {n}", self.get(n), F(self.P, n), self.running, self.DOM)


SETTINGS = {"vehicle", "steering", "atmosphere", "planet", "launch", "integrator", "max_acceleration", "base_stepsize", "end_criterion"}


def configured(c, name):
    """the field of a phase takes data from the configuration (other fields are memory of the phase: what they do is seen in what
    becomes of the settings and the state)"""
    if getattr(c, "_configured", None) is None:
        c._configured = {}
        try:
            b = c.fn("Phase::new", r"phase::Phase", [r"std::option::Option<&phase::Phase>", r"&config::PhaseConfig"])
            r = c.run(b, ["prev", "config"], I=c.interp(None, lens(**ENGINES)))
            v = r.D(r.ret)
            for n, _ in c.p.types[v.ty]["vs"][0]["fields"]:
                c._configured[n] = sourced(r, r.get(v, n), 0)
        except (Missing, Unsupported, Dead, KeyError, IndexError, AttributeError, TypeError, ValueError):
            c._configured = {}
    return c._configured.get(name, False)


def sourced(r, v, depth):
    """any part of the value comes from the configuration"""
    v = r.D(v)
    if depth > 8:
        return False
    if isinstance(v, Choice):
        return any(sourced(r, x, depth + 1) for _, x in v.alts)
    if isinstance(v, Agg):
        return any(sourced(r, x, depth + 1) for x in v.fs)
    if isinstance(v, (SymV, Opq, SymSeq)):
        return root_name(v.base) == "config"
    if isinstance(v, E):
        if v.op == "ite":
            return sourced(r, v.args[1], depth + 1) or sourced(r, v.args[2], depth + 1)
        if v.op in ("sym", "fld", "idx", "len"):
            return root_name(v) == "config"
        return any(isinstance(a, E) and sourced(r, a, depth + 1) for a in v.args)
    return False


def root_name(e):
    while e.op in ("fld", "idx", "len"):
        e = e.args[0]
    return e.args[0] if e.op == "sym" else None


# ------------------------------------------------------------------ coefficient tables
class Lookup:
    """summary of a look-up in a table of n dimensions with the given numbers of breakpoints, sorted"""

    def __init__(self, c, sizes, name="Table::at_state", special=None):
        """special: value read on an axis instead of a number (axis number -> value)"""
        n = len(sizes)
        get = c.fn("StateVariable::get_value", r"f64", [r"&state::StateVariable", r"&state::State"])
        b = c.fn(name, r"f64", [r"&.*::Table", r"&state::State"])
        t, vs = variants(c.p, "tables::Table")
        k = [i for i, v in enumerate(vs) if v.endswith(str(n))]
        if len(k) != 1:
            raise Missing("table variants")
        v = vs[k[0]]
        T = self.T = F(S("t"), v + ".0")
        self.reads = []

        def h(I, args, st, dty):
            rr = Run.__new__(Run)
            rr.I, rr.st = I, st
            var, s = base_of(rr, args[0]), base_of(rr, args[1])
            self.reads.append((var, s))
            m = re.fullmatch(r"t\.\w+\.0\.([xyz])\.0", str(var))
            if special and m and "xyz".index(m.group(1)) in special:
                return special["xyz".index(m.group(1))], st
            return mk("sym", f"axis({var})"), st

        def length(base, ety):
            p = path_of(base)
            m = re.fullmatch(r"t\.(\w+)\.0\.([xyz])\.1", p)
            if m:
                i = "xyz".index(m.group(2))
                return sizes[i] if m.group(1) == v and i < n else 0
            m = re.fullmatch(r"t\.(\w+)\.0\.data((?:\[\d+\])*)", p)
            if m:
                d = m.group(2).count("[")
                return sizes[d] if m.group(1) == v and d < n else 0
            return None
        I = c.interp({get["id"]: h}, length)
        self.r = c.run(b, ["t", "s"], I=I)
        self.where = self.r.where
        d = mk("discr", S("t"))
        DISCR.setdefault(d.id, [x["discr"] for x in t["vs"]])
        o = Fraction(t["vs"][k[0]]["discr"])
        self.pick = on_region(d, o, o)
        # sorted breakpoints: first value and positive increments
        self.xs, m = [], {}
        for i in range(n):
            row, x = [], None
            for j in range(sizes[i]):
                leaf = F(T, "xyz"[i], "1", j)
                x = leaf if x is None else add(x, S(f"step{i}.{j}"))
                m[leaf.id] = x
                row.append(x)
            self.xs.append(row)
        self.sorted = lambda e: interp.subst(e, lambda y: m.get(y.id))
        self.at = [S(f"axis(t.{v}.0.{'xyz'[i]}.0)") for i in range(n)]
        self.sizes, self.n = sizes, n
        self.value = None if self.r.ret is None else self.sorted(self.pick(self.r.ret))
        bad = FALSE
        for e, _ in I.panics:
            bad = bad | e.g
        self.bad = self.sorted(self.pick(mk("cond", bad)))

    def spec(self):
        def go(i, base):
            if i == self.n:
                return base
            xs, x = self.xs[i], self.at[i]
            if not xs:
                return NAN
            ys = [go(i + 1, F(base, j)) for j in range(len(xs))]
            if len(xs) == 1:
                return ys[0]

            def seg(j):
                return add(ys[j], div(mul(sub(x, xs[j]), sub(ys[j + 1], ys[j])), sub(xs[j + 1], xs[j])))
            r = seg(len(xs) - 2)
            for j in range(len(xs) - 3, -1, -1):
                r = ite(blt(xs[j + 1], x), r, seg(j))
            return r
        return go(0, F(self.T, "data"))

    DOM = Domain((r"step.*", "pos", 0.1, 3), (r"axis.*", "any", -4, 12), (r".*", "any", -3, 3))


# ------------------------------------------------------------------ derived deserialisers
def strings_of(g, out=None, seen=None):
    """texts the input text is compared with"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if g is TRUE or g is FALSE or g.id in seen:
        return out
    seen.add(g.id)
    a = ATOMS[g.var]
    s = text_of(a)
    if s is not None:
        out.add(s)
    strings_of(g.hi, out, seen)
    strings_of(g.lo, out, seen)
    return out


def text_of(a):
    """the constant text of an equality of texts"""
    if a[0] != "eq":
        return None
    for u in a[1:]:
        if isinstance(u, E) and u.op == "str" and isinstance(u.args[0], str) and u.args[0].startswith("str("):
            return u.args[0][4:-1]
    return None


def decide(g, f):
    """truth of a guard whose atoms are decided by f (None: not decided)"""
    while g is not TRUE and g is not FALSE:
        t = f(ATOMS[g.var])
        if t is None:
            return None
        g = g.hi if t else g.lo
    return g is TRUE


class Deser:
    """the derived deserialiser of a type: which texts name which entry, and what the entries become"""

    def __init__(self, c, name, nested=False):
        self.c, self.p, self.name = c, c.p, name
        q = r"for (?:\w+::)*" + name + r">::deserialize::"
        self.vis = {}
        for b in c.p.insts:
            if not b or not b.get("blocks"):
                continue
            n = b["name"]
            if not re.search(q, n) or ("visit_enum::__" in n) != nested:
                continue
            m = re.search(r"(__FieldVisitor|__Visitor)(?:<[^>]*>)? as serde::de::Visitor<'_>>::(visit_\w+)", n)
            if m:
                self.vis[(m.group(1), m.group(2))] = b

    def body(self, who, meth):
        b = self.vis.get((who, meth))
        if b is None:
            raise Missing(f"derived deserialiser of {self.name}: {who}::{meth}")
        return b

    def texts(self):
        """({text: entry number | 'error'}, what any other text becomes, where)"""
        b = self.body("__FieldVisitor", "visit_str")
        I = self.c.interp()
        I.bypath["serde::de::Error::unknown_variant"] = I.bypath["serde::de::Error::unknown_field"] = \
            lambda I, f, args, st, dty: (Opq(S("unknown name")), st)
        r = self.c.run(b, ["self", "text"], I=I)
        self.c.note(I)
        alts = flat(r.D(r.ret))
        known = set()
        for g, _ in alts:
            strings_of(g, known)

        def of(s):
            f = lambda a: None if text_of(a) is None else text_of(a) == s
            hit = [v for g, v in alts if decide(g, f) is not False]
            if len(hit) != 1 or any(decide(g, f) is None for g, _ in alts):
                raise Missing(f"{self.name}: text {s!r} is not decided by comparison with constants")
            v = hit[0]
            if v.variant == 1:
                return "error"
            k = r.D(v.fs[0])
            if isinstance(k, Choice):
                ks = [x for g, x in k.alts if decide(g, f) is not False]
                if len(ks) != 1:
                    raise Missing(f"{self.name}: text {s!r}")
                k = ks[0]
            if not isinstance(k, Agg):
                raise Missing(f"{self.name}: entry of {s!r}")
            return self.field(k)
        return {s: of(s) for s in sorted(known)}, of(None), b["span"]

    def field(self, k):
        n = self.p.types[k.ty]["vs"][k.variant]["name"]
        m = re.fullmatch(r"__field(\d+)", n)
        if m:
            return int(m.group(1))
        return "ignored" if n == "__ignore" else n

    def field_value(self, ty, k):
        """the value of the generated entry type for entry k"""
        t = self.p.types[ty]
        for i, v in enumerate(t["vs"]):
            if v["name"] == (f"__field{k}" if isinstance(k, int) else "__ignore"):
                return Agg("adt", [Opq(S("rest"))] * len(v["fields"]), ty, i)
        raise Missing(f"{self.name}: entry {k}")

    def variant_of(self, k):
        """what a unit entry k of an enumeration becomes: (variant, where)"""
        b = self.body("__Visitor", "visit_enum")
        I = self.c.interp()

        def variant(I, f, args, st, dty):
            t = I.p.types[dty]                    # Result<(entry, access), error>
            pair = [v for v in t["vs"] if v["name"] == "Ok"][0]["fields"][0][1]
            ety = I.p.types[pair]["es"][0]
            return Agg("adt", [Agg("tuple", [self.field_value(ety, k), Opq(S("access"))], pair)], dty, 0), st

        def unit(I, f, args, st, dty):
            return Agg("adt", [Agg("tuple", [])], dty, 0), st

        def struct(I, f, args, st, dty):
            t = I.p.types[dty]
            ety = [v for v in t["vs"] if v["name"] == "Ok"][0]["fields"][0][1]
            return Agg("adt", [SymV(S("struct variant"), ety)], dty, 0), st
        I.bypath.update({"serde::de::EnumAccess::variant": variant, "serde::de::VariantAccess::unit_variant": unit,
                         "serde::de::VariantAccess::struct_variant": struct})
        r = self.c.run(b, ["self", "data"], I=I)
        v = r.D(r.ret)
        if not isinstance(v, Agg) or v.variant != 0:
            raise Missing(f"{self.name}: entry {k} does not give a value")
        v = r.D(v.fs[0])
        if isinstance(v, SymV) and path_of(v.base) == "struct variant":
            return "struct", b["span"]
        if not isinstance(v, Agg):
            raise Missing(f"{self.name}: value of entry {k}")
        return self.p.types[v.ty]["vs"][v.variant]["name"], b["span"]

    def entries(self, ks):
        """result of reading an object with exactly the entries ks, in that order"""
        b = self.body("__Visitor", "visit_map")
        I = self.c.interp()
        I.unroll = True
        todo = list(ks)
        cur = [None]

        def next_key(I, f, args, st, dty):
            t = I.p.types[dty]
            oty = [v for v in t["vs"] if v["name"] == "Ok"][0]["fields"][0][1]
            ot = I.p.types[oty]
            if not todo:
                return Agg("adt", [I.models.enum(oty, "None")], dty, 0), st
            cur[0] = todo.pop(0)
            ety = [v for v in ot["vs"] if v["name"] == "Some"][0]["fields"][0][1]
            return Agg("adt", [I.models.enum(oty, "Some", self.field_value(ety, cur[0]))], dty, 0), st

        def next_value(I, f, args, st, dty):
            ety = [v for v in I.p.types[dty]["vs"] if v["name"] == "Ok"][0]["fields"][0][1]
            return Agg("adt", [I.fresh(S(f"entry{cur[0]}"), ety)], dty, 0), st

        def missing(I, f, args, st, dty):
            ety = [v for v in I.p.types[dty]["vs"] if v["name"] == "Ok"][0]["fields"][0][1]
            if I.p.types[ety].get("def") == "std::option::Option":
                return Agg("adt", [I.models.enum(ety, "None")], dty, 0), st
            return Agg("adt", [Opq(S("missing entry"))], dty, 1), st

        def err(I, f, args, st, dty):
            return Opq(S("error")), st
        I.bypath.update({"serde::de::MapAccess::next_key": next_key, "serde::de::MapAccess::next_value": next_value,
                         "serde::de::Error::duplicate_field": err, "serde::de::Error::missing_field": err})
        for x in self.p_paths(b):
            if x.endswith("::de::missing_field") and x not in I.bypath:
                I.bypath[x] = missing
        r = self.c.run(b, ["self", "map"], I=I)
        return r, r.D(r.ret)

    def p_paths(self, b):
        return {bl["t"]["f"]["c"]["path"] for bl in b["blocks"] if bl["t"]["t"] == "call" and "c" in bl["t"]["f"]
                and "path" in bl["t"]["f"]["c"]}


def flat(v):
    if isinstance(v, Choice):
        return [(g & h, y) for g, x in v.alts for h, y in flat(x)]
    return [(TRUE, v)]


def spelled(s):
    """the words of a name, whatever its spelling"""
    return re.findall(r"[a-z]+|\d", s.lower())


def joined(s):
    return "".join(re.findall(r"[a-z0-9]+", s.lower()))


# ------------------------------------------------------------------ order of the calls of a run
def changed_by_step(c):
    """settings of a phase (plain numbers and truth values) that a step may change"""
    if getattr(c, "_changed", None) is None:
        out = []
        try:
            s = PhaseStep(c)
            v = s.r.D(s.ph)
            for n, t in c.p.types[v.ty]["vs"][0]["fields"] if isinstance(v, (Agg, SymV)) else ():
                x = s.r.get(s.ph, n)
                if isinstance(x, B) and x is not atom("b", F(s.P, n)) or isinstance(x, E) and x is not F(s.P, n):
                    out.append(n)
        except (Missing, Unsupported, KeyError, IndexError, AttributeError, TypeError, ValueError):
            pass
        c._changed = out
    return c._changed


class PhaseRun:
    """summary of running a phase that ends with its n-th step: evaluating and stepping stay uninterpreted, their order, guards
    and the values passed between them are recorded"""
    DOM = Domain((r".*", "any", -50, 50))

    def __init__(self, c, n, ahead=False):
        """ahead: what grows by a constant from step to step is, from step n - 1 on, what it is any number of steps later"""
        self.c, self.n = c, n
        self.later = []
        stepf = c.fn("Phase::step", r"\(\)", [r"&mut phase::Phase"])
        rhs = c.fn("Phase::system", r"state::State", [r"&phase::Phase", r"state::State"])
        b = c.fn("Phase::run", r"\(\)", [r"&mut phase::Phase"])
        self.log = []                 # (kind, guard, span, values by name)
        self.steps = 0
        changed = self.changed = [x for x in changed_by_step(c) if x not in ("ended", "state")]
        self.evals = 0

        def step(I, args, st, dty):
            ref = args[0]
            if not isinstance(ref, Ref):
                raise Unsupported("phase that is stepped")
            k = self.steps = self.steps + 1
            v = I.read(st, ref.root, ref.path)
            before = self.deep(I, st, v)
            names = [f[0] for f in I.p.types[v.ty]["vs"][0]["fields"]]
            tys = [f[1] for f in I.p.types[v.ty]["vs"][0]["fields"]]
            self.log.append(("step", st.g, I.span, before))
            i, j = names.index("ended"), names.index("state")
            I.write(st, ref.root, ref.path + (("f", i),), TRUE if k >= n else FALSE)
            I.write(st, ref.root, ref.path + (("f", j),), I.fresh(S(f"after{k}"), tys[j]))
            for x in changed:
                i = names.index(x)
                I.write(st, ref.root, ref.path + (("f", i),), I.fresh(S(f"{x}_after{k}"), tys[i]))
            if ahead:
                self.later.append(dict(st.mem))
                if k == n - 1:
                    self.leap(st)
            return Agg("tuple", []), st

        def system(I, args, st, dty):
            self.evals += 1
            self.log.append(("eval", st.g, I.span, (self.deep(I, st, args[0]), self.deep(I, st, args[1]))))
            return I.fresh(S(f"full{self.evals}"), dty), st
        I = c.interp({stepf["id"]: step, rhs["id"]: system}, lens())
        I.unroll = True
        self.listen(I)
        self.r = c.run(b, ["ph"], I=I)
        self.where = self.r.where
        self.P = S("ph")
        self.was_ended = atom("b", F(self.P, "ended"))

    def leap(self, st):
        """replace numbers that grew by the same amount between the last three steps"""
        a, b, d = self.later[-3:]
        self.leaps = 0
        m = S("skipped")

        def split(e):
            """e as (something, constant added to it)"""
            if isnum(e):
                return None, nv(e)
            if e.op == "add" and isnum(e.args[1]):
                return e.args[0], nv(e.args[1])
            return e, 0

        def go(x, y, z):
            if z is y and y is x:
                return z
            if all(isinstance(t, E) for t in (x, y, z)):
                (u, i), (v, j), (w, k) = map(split, (x, y, z))
                if u is v is w and k != j and k - j == j - i:
                    self.leaps += 1
                    return add(z, mul(num(k - j), m))
                return z
            if type(x) is type(y) is type(z):
                if isinstance(z, Agg) and len(x.fs) == len(y.fs) == len(z.fs):
                    return z.with_fs([go(*t) for t in zip(x.fs, y.fs, z.fs)])
                if type(z).__name__ == "Iter" and x.kind == y.kind == z.kind and len(x.a) == len(y.a) == len(z.a):
                    return type(z)(z.kind, *[go(*t) for t in zip(x.a, y.a, z.a)])
            return z
        for r, v in d.items():
            if r in a and r in b:
                st.mem[r] = go(a[r], b[r], v)

    def deep(self, I, st, v):
        while isinstance(v, Ref):
            v = I.read(st, v.root, v.path)
        return v

    def listen(self, I):
        ev = I.event

        def event(st, kind, data, g=None):
            if kind in ("print", "eprint", "write"):
                self.log.append((kind, st.g if g is None else g, I.span, data))
            ev(st, kind, data, g)
        I.event = event

    def always(self, label, g, span):
        return self.c.always(label, bite(self.was_ended, TRUE, g), span, self.DOM)

    def anytime(self, label, g, span, what):
        """a guard of the last step holds however many steps were skipped before it"""
        c, m = self.c, S("skipped")
        g = g | self.was_ended
        if g is TRUE:
            return c.ok(label, span, f"{self.leaps} counters")
        ks = set(range(20))
        todo, seen = [g], set()
        while todo:
            x = todo.pop()
            if x is TRUE or x is FALSE or x in seen:
                continue
            seen.add(x)
            if isinstance(x, B):
                todo += [x.hi, x.lo]
                k = ATOMS[x.var]
                todo += [y for y in k[1:] if isinstance(y, (E, B))]
                if k[0] in ("lt", "eq") and all(isinstance(y, E) for y in k[1:]):
                    # comparison of an affine function of the number of steps skipped: where it changes
                    p, q = (sub(*(interp.subst(y, lambda z: num(i) if z is m else None) for y in k[1:])) for i in (0, 1))
                    if isnum(p) and isnum(q) and nv(p) != nv(q):
                        r = nv(p) / (nv(p) - nv(q))
                        ks.update(int(r) + i for i in (-1, 0, 1, 2))
            else:
                if isnum(x):
                    ks.update(int(nv(x)) + i for i in range(-8, 9) if abs(nv(x)) < 10 ** 9)
                todo += [y for y in x.args if isinstance(y, (E, B))]
        und = False
        for k in sorted(k for k in ks if 0 <= k <= 10 ** 9):
            t = interp.subst(g, lambda z: num(k) if z is m else None)
            if (t & bnot(self.was_ended)) is FALSE:
                return c.bad(label, span, f"{what} after step {self.n - 1 + k}; condition: {showb(g)}"[:800])
            und = und or t is not TRUE
        if und:
            return c.und(label, span, f"condition: {showb(g)}"[:400])
        c.ok(label, span, f"{self.leaps} counters")


class SimRun:
    """summary of a simulation of n phases: building, resetting and running a phase stay uninterpreted"""

    def __init__(self, c, n):
        self.c, self.n = c, n
        new = c.fn("Phase::new", r"phase::Phase", [r"std::option::Option<&phase::Phase>", r"&.*PhaseConfig"])
        reset = c.fn("Phase::reset")
        runf = c.fn("Phase::run", r"\(\)", [r"&mut phase::Phase"])
        dflt = [b for b in c.p.local_fns() if b["name"].endswith("phase::Phase as std::default::Default>::default")]
        b = c.fn("Simulation::run")
        self.log = []
        k = {"built": 0}

        def deep(I, st, v):
            while isinstance(v, Ref):
                v = I.read(st, v.root, v.path)
            return v

        def h_new(I, args, st, dty):
            k["built"] += 1
            self.log.append(("new", st.g, I.span, [self.snap(I, st, a) for a in args]))
            return I.fresh(S(f"built{k['built']}"), dty), st

        def change(what):
            def h(I, args, st, dty):
                ref = args[0]
                if not isinstance(ref, Ref):
                    raise Unsupported("phase")
                v = I.read(st, ref.root, ref.path)
                self.log.append((what, st.g, I.span, self.snap(I, st, v)))
                base = self.name(I, st, v) or "?"
                I.write(st, ref.root, ref.path, I.fresh(S(f"{what}({base})"), v.ty))
                return (ref if isinstance(dty, int) and I.p.types[dty]["k"] == "ref" else Agg("tuple", [])), st
            return h

        def h_default(I, args, st, dty):
            return I.fresh(S("initial"), dty), st
        op = {new["id"]: h_new, reset["id"]: change("reset"), runf["id"]: change("run")}
        for d in dflt:
            op[d["id"]] = h_default
        I = c.interp(op, lens(**{r"config$": n}))
        I.unroll = True
        ev = I.event

        def event(st, kind, data, g=None):
            if kind in ("print", "eprint", "write"):
                self.log.append((kind, st.g if g is None else g, I.span, data))
            ev(st, kind, data, g)
        I.event = event
        self.r = c.run(b, ["sim"], I=I)
        self.where = self.r.where

    def name(self, I, st, v):
        rr = Run.__new__(Run)
        rr.I, rr.st = I, st
        v = rr.D(v)
        if isinstance(v, SymV):
            return path_of(v.base)
        n = base_of(rr, v)
        if n is None:
            return None
        m = re.fullmatch(r"(.*\))\.\w+(\..*)?|(\w+?\d*)\.\w+(\..*)?", n)
        return (m.group(1) or m.group(3)) if m else n

    def snap(self, I, st, v):
        """readable identity of a value at this moment: nested references and options resolved"""
        while isinstance(v, Ref):
            v = I.read(st, v.root, v.path)
        rr = Run.__new__(Run)
        rr.I, rr.st = I, st
        v = rr.D(v)
        if isinstance(v, Choice):
            return ("choice", [(g, self.snap(I, st, x)) for g, x in v.alts])
        if isinstance(v, Agg) and v.kind == "adt" and I.p.types[v.ty].get("def") == "std::option::Option":
            if v.variant == 0:
                return "None"
            return ("Some", self.snap(I, st, v.fs[0]))
        return self.name(I, st, v)


class Mission:
    """summary of a simulation of n phases with only the evaluation and the step of a phase uninterpreted: for each phase what its
    evaluation and its first step are given, however building, resetting and running a phase are divided among functions.
    Every phase ends with its first step, which leaves an arbitrary phase k ("after1", ...) behind, of which is known: it
    has ended, and its mass is that of structure and propellant"""
    DOM = Domain((r".*", "any", -50, 50))

    def __init__(self, c, n, ln=None, mass=True):
        self.c, self.n = c, n
        stepf = c.fn("Phase::step", r"\(\)", [r"&mut phase::Phase"])
        rhs = c.fn("Phase::system", r"state::State", [r"&phase::Phase", r"state::State"])
        b = c.fn("Simulation::run")
        self.evals, self.steps, self.order = [], [], []

        def deep(I, st, v):
            while isinstance(v, Ref):
                v = I.read(st, v.root, v.path)
            return v

        def step(I, args, st, dty):
            ref = args[0]
            if not isinstance(ref, Ref):
                raise Unsupported("phase that is stepped")
            k = len(self.steps) + 1
            v = deep(I, st, ref)
            self.order.append("step")
            self.steps.append((st.g, I.span, v))
            P = S(f"after{k}")
            names = [f[0] for f in I.p.types[v.ty]["vs"][0]["fields"]]
            tys = [f[1] for f in I.p.types[v.ty]["vs"][0]["fields"]]
            I.write(st, ref.root, ref.path, I.fresh(P, v.ty))
            I.write(st, ref.root, ref.path + (("f", names.index("ended")),), TRUE)
            if mass:
                j = names.index("state")
                sn = [f[0] for f in I.p.types[tys[j]]["vs"][0]["fields"]]
                I.write(st, ref.root, ref.path + (("f", j), ("f", sn.index("mass"))), self.mass(P))
            return Agg("tuple", []), st

        def system(I, args, st, dty):
            self.order.append("eval")
            self.evals.append((st.g, I.span, deep(I, st, args[0]), deep(I, st, args[1])))
            return I.fresh(S(f"full{len(self.evals)}"), dty), st
        I = c.interp({stepf["id"]: step, rhs["id"]: system}, lens(**{r"config$": n, **(ln or {})}))
        I.unroll = True
        self.r = c.run(b, ["sim"], I=I)
        self.where = self.r.where
        word = " ".join(self.order)
        if not re.fullmatch(r"((eval )+step ){%d}" % n, word + " " * bool(word)):
            e = Unsupported(f"evaluations and steps of {n} phases: {word}")
            e.run = self.r
            raise e
        # the evaluation a phase starts from is the last one before its step
        last, e = [], -1
        for x in self.order:
            if x == "eval":
                e += 1
            else:
                last.append(e)
        self.last = last

    @staticmethod
    def mass(P):
        return add(F(P, "vehicle", "structure_mass"), F(P, "state", "propellant_mass"))

    def before(self, k):
        """the phase before phase k (counted from 0)"""
        return S(f"after{k}")

    def config(self, k):
        return F(S("sim"), "config", k)

    def phase(self, k):
        return At(self, k)


class At:
    """a phase of a mission when it starts: its settings as the first step has them, its primary state as evaluated"""

    def __init__(self, m, k):
        self.r = m.r
        e = m.last[k]
        self.I, self.st, self.where = m.r.I, m.r.st, m.evals[e][1]
        self.g = m.evals[e][0]
        self.ev, self.primary = m.evals[e][2:]
        self.ph = m.steps[k][2]
        self.full = S(f"full{e + 1}")
        self.ret = self

    def D(self, v):
        return self.r.D(v)

    def get(self, v, *path):
        if v is self:
            if path[:1] == ("state",) and len(path) > 1:
                return self.r.get(self.primary, *path[1:])
            v = self.ph
        return self.r.get(v, *path)


class Start:
    """the start of phase k of a run: what it is given (configuration C, phase P before it or None) and what is made of it; from the
    whole simulation, or - where that is not analysable - from building a phase alone"""

    def __init__(self, c, r, C, P, g, get, where, what):
        self.c, self.r, self.C, self.P, self.g, self.get, self.where, self.what = c, r, C, P, g, get, where, what

    def entry(self, *path):
        """(given, value) of a configuration entry below optional objects"""
        g, x = TRUE, self.C
        for e in path:
            h, x = some(F(x, e))
            g = g & h
        return g, x

    def old(self, *path):
        x = self.P
        for f in path:
            x = F(x, f)
        return x

    def eq(self, label, code, spec, dom, g=TRUE):
        return self.c.eq(self.what + label, fold_guard(code, self.g & g) if isinstance(code, E) else code, spec, self.where, dom, assume=self.g & g)

    def flows(self, label, v, want, dom, g=TRUE):
        return self.c.flows(self.r, self.what + label, v, want, self.g & g, dom, self.where)


ENGINES = {r"^(after\d+|prev).*engines$": 2, r"^(sim\.)?config.*engines": 1}

TABLE = r"coeff(\.\w+)*(\.\d+)*\.(data|x\.1|y\.1|z\.1)$"
# empty lists are settings of their own
EMPTY = (("no engines listed: ", {r"^(after\d+|prev).*engines$": 2, r"^(sim\.)?config.*engines": 0}),
         ("no engines before: ", {r"^(after\d+|prev).*engines$": 0, r"^(sim\.)?config.*engines": 2}),
         ("empty tables listed: ", {**ENGINES, r"^(sim\.)?config.*" + TABLE: 0}))


def backed(c, whole, parts):
    """parts: obligations on single functions, which a change of the division of labour between functions may break without harm;
    only where those on the whole are not all proved do they count"""
    before = len(c.obl)
    for f in whole:
        f()
    proved = len(c.obl) > before and all(o[1] == "discharged" for o in c.obl[before:])
    before = len(c.obl)
    for f in parts:
        f()
    if proved:
        c.obl[before:] = [o for o in c.obl[before:] if o[1] == "discharged"]


def starts(c, later=True, ln=None):
    """views of the starts of the phases of a run: of a later phase, or of the first one"""
    def whole(n, ln=ln, what=""):
        m = Mission(c, n, ln or ENGINES)
        a = m.phase(n - 1)
        mass = Mission.mass(m.before(n - 1))

        def get(*path):
            return a.get(a, *path)
        s = Start(c, m.r, m.config(n - 1), m.before(n - 1) if later else None, a.g, get, a.where,
                  what + ("" if not later or n == 2 else f"phase {n}: "))
        s.mass, s.mission, s.at = mass, m, a
        return s

    def part():
        b = c.fn("Phase::new", r"phase::Phase", [r"std::option::Option<&phase::Phase>", r"&config::PhaseConfig"])
        r = c.run(b, ["prev", "config"], I=c.interp(None, lens(**(ln or ENGINES))))
        g, P = some(S("prev"))
        gi, _ = some(F(S("config"), "init"))
        s = Start(c, r, S("config"), P if later else None, g if later else bnot(g) & gi, lambda *path: r.get(r.ret, *path), r.where, "")
        s.mass, s.mission, s.at = F(P, "state", "mass"), None, None
        return s
    out = []
    for n in ([2, 3, *c.sizes_near(r"Simulation|Config|::Phase\b", 3, 64)] if later else [1]):
        try:
            out.append(whole(n))
        except (Missing, Unsupported) as e:
            c.log_fallback = str(e)
            return [part()]
    for what, other in () if ln else EMPTY:
        try:
            out.append(whole(2 if later else 1, other, what))
        except (Missing, Unsupported) as e:
            c.und(f"{what}start of a phase", "", str(e))
    return out


LAUNCH = Domain((r".*latitude", "any", -89, 89), (r".*(longitude|azimuth)", "any", -360, 360), (r".*altitude", "any", -1e3, 5e5),
                (r"(.*\.)?equatorial_radius", "pos", 6.2e6, 6.4e6), (r"(.*\.)?polar_radius", "pos", 6.1e6, 6.4e6),
                (r"(.*\.)?rotation_rate", "any", -1e-3, 1e-3), (r".*", "any", -50, 50))


def launch_wanted(re_, rp, cfg):
    """geocentric latitude, longitude and azimuth of a configured launch"""
    lat, long, az = [deg(F(cfg, n)) for n in ("latitude", "longitude", "azimuth")]
    return fn("atan", div(fn("tan", lat), div(sq(re_), sq(rp)))), long, az


def launch_slots(c):
    """where the first phase keeps the geocentric latitude, the longitude and the azimuth of its launch frame (0, 1, 2 unless it
    provably keeps them elsewhere)"""
    if not hasattr(c.p, "launch_slots"):
        c.p.launch_slots = (0, 1, 2)
        t = Check("part", c.p, c.tier)

        def find():
            s = starts(t, later=False)[0]
            L = s.get("launch")
            cfg = s.entry("init")[1]
            want = launch_wanted(*[fold_guard(s.get("planet", n), s.g) for n in ("equatorial_radius", "polar_radius")], cfg)
            names = range(3) if L.kind == "array" else [f[0] for f in c.p.types[L.ty]["vs"][0]["fields"]]
            got = {}
            for m, w in enumerate(want):
                for k, x in zip(names, L.fs):
                    u = Check("part", c.p, c.tier)
                    s.c = u
                    s.eq("", x, w, LAUNCH)
                    if u.obl and u.obl[0][1] == "discharged":
                        got.setdefault(m, k)
            if len(set(got.values())) == 3:
                c.p.launch_slots = tuple(got[i] for i in range(3))
        t.guard(find, "launch frame")
    return c.p.launch_slots


def settings(s, dom, taken=True, absent=True, only=None):
    """every setting of a phase against its configuration and the phase before it (defaults without one)"""
    c, r, get = s.c, s.r, s.get
    first = s.P is None

    def both(label, path, *entries, default=None):
        v = get(*path)
        g, x = s.entry(*entries)
        if taken:
            s.flows(f"{label}: taken from the configuration", v, x, dom, g)
        if absent and not first:
            s.flows(f"{label}: inherited when absent", v, s.old(*path), dom, bnot(g))
        elif absent and default is not None:
            s.eq(f"{label}: default", v, default, dom, bnot(g))

    def vehicle():
        both("structure mass", ["vehicle", "structure_mass"], "vehicle", "structure_mass", default=ZERO)
        both("initial propellant mass", ["vehicle", "initial_propellant_mass"], "vehicle", "propellant_mass")

    def aero():
        both("reference area", ["vehicle", "reference_area"], "vehicle", "reference_area", default=ZERO)
        for n in ("drag_coeff", "lift_coeff", "side_force_coeff"):
            both(n, ["vehicle", n], "vehicle", n)

    def engines():
        both("engines", ["vehicle", "engines"], "vehicle", "engines")
        if absent and first:
            s.eq("engines: default", r.I.seqlen(r.st, r.D(get("vehicle", "engines"))), ZERO, dom, bnot(s.entry("vehicle", "engines")[0]))

    def wind():
        both("wind", ["atmosphere", "wind"], "atmosphere", "wind")
        if absent and first:
            for i in range(3):
                s.eq(f"wind[{i}]: default", get("atmosphere", "wind").fs[i], ZERO, dom, bnot(s.entry("atmosphere", "wind")[0]))

    def stepsize():
        both("step size", ["base_stepsize"], "stepsize", default=ONE)

    def criterion():
        g, x = s.entry("end_criterion")
        for i in range(2):
            v = get("end_criterion", i)
            if taken:
                s.flows(f"end criterion .{i}: taken from the configuration", v, F(x, str(i)), dom, g)
            if absent and not first:
                s.flows(f"end criterion .{i}: inherited when absent", v, s.old("end_criterion", str(i)), dom, bnot(g))
            elif absent and i:
                s.eq("end criterion value: default", v, ZERO, dom, bnot(g))

    def model():
        g, x = s.entry("atmosphere", "enabled")
        m = get("atmosphere", "model")
        t, vs = variants(c.p, "AtmosphereModel")
        on = [i for i, n in enumerate(vs) if "Standard" in n][0]
        tag = r.I.discr(r.st, r.D(m))
        if absent and not first:
            s.flows("atmosphere model: inherited when absent", m, s.old("atmosphere", "model"), dom, bnot(g))
        elif absent:
            s.eq("atmosphere: none by default", tag, num(1 - on), dom, bnot(g))
        if taken:
            sw = atom("b", x)
            s.eq("atmosphere model: switched on", tag, num(on), dom, g & sw)
            s.eq("atmosphere model: switched off", tag, num(1 - on), dom, g & bnot(sw))

    def limit():
        """-1 disables"""
        g, x = s.entry("max_acceleration")
        v = get("max_acceleration")
        if taken:
            minus = beq(x, num(-1))
            s.eq("max. acceleration: -1 disables the limit", v, INF, dom, g & minus)
            s.eq("max. acceleration: taken from the configuration", v, x, dom, g & bnot(minus))
        if absent:
            s.eq("max. acceleration: " + ("no limit by default" if first else "inherited when absent"), v,
                 INF if first else s.old("max_acceleration"), dom, bnot(g))

    def planet():
        g, x = s.entry("planet_model")
        if absent and not first:
            for n in PLANET:
                s.flows(f"planet {n}: inherited when absent", get("planet", n), s.old("planet", n), dom, bnot(g))
        elif absent:
            default_planet(s, dom)
        if taken:
            planet_models(c, r, lambda n: get("planet", n), ("planet_model",), dom, s.g, config=s.C)

    def steering():
        gs, xs = s.entry("steering")
        for a in ("roll", "yaw", "pitch"):
            ga, xa = some(F(xs, a))
            given = gs & ga
            var, ks = get("steering", a, 0), get("steering", a, 1)
            if taken:
                s.flows(f"{a} variable: taken from the configuration", var, F(xa, "0"), dom, given)
                for k in range(1, 4):
                    s.flows(f"{a} coefficient {k}: taken from the configuration", ks.fs[k], F(xa, "1", k - 1), dom, given)
            if absent:
                if first:
                    s.eq(f"{a} constant term: default", ks.fs[0], ZERO, dom)
                else:
                    s.flows(f"{a} variable: inherited when absent", var, s.old("steering", a, "0"), dom, bnot(given))
                for k in range(1, 4):
                    if first:
                        s.eq(f"{a} coefficient {k}: default", ks.fs[k], ZERO, dom, bnot(given))
                    else:
                        s.flows(f"{a} coefficient {k}: inherited when absent", ks.fs[k], F(s.P, "steering", a, "1", k), dom, bnot(given))
    for f in (vehicle, aero, engines, wind, stepsize, criterion, model, limit, planet, steering):
        if only is None or f.__name__ in only:
            f()


def default_planet(s, dom):
    g, _ = s.entry("planet_model")
    re0 = mul(num("2.0925741e7"), FT)
    for n, w in (("equatorial_radius", re0), ("polar_radius", re0), ("rotation_rate", num("7.29211e-5"))):
        s.eq(f"default planet: {n}", fold_guard(s.get("planet", n), s.g & bnot(g)), w, dom, bnot(g))
    for i, w in enumerate([mul(num("1.4076539e16"), powi(FT, 3)), ZERO, ZERO, ZERO]):
        s.eq(f"default planet: gravitational_parameters[{i}]",
             fold_guard(s.get("planet", "gravitational_parameters").fs[i], s.g & bnot(g)), w, dom, bnot(g))


def attitude(s, dom):
    """after an event the constant terms of the steering are the Euler angles reached, in degrees"""
    for i, a in enumerate(("roll", "yaw", "pitch")):
        want = ZERO if s.P is None else div(mul(num(180), s.old("state", "euler_angles", i)), PI)
        if s.P is not None and s.mission is None:
            want = s.old("steering", a, "1", 0)
        s.eq(f"{a}: attitude is continuous (constant term in degrees)", s.get("steering", a, 1).fs[0], want, dom)


def carried(s, dom):
    """what no configuration changes: launch frame, clock, position and velocity"""
    s.flows("launch frame: carried over", s.get("launch"), s.old("launch"), dom)
    for n in ("time", "position", "velocity"):
        s.flows(f"state {n}: carried over", s.get("state", n), s.old("state", n), dom)
