import textwrap
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append((id, prop, edits, textwrap.dedent(demo).lstrip(), needs, breaks))


S = "sim/src/"
seed("b01-mass-floor", "C01",
     [(S + "phase.rs", "(state.aero_force_body + state.thrust_force_body) / state.mass;",
       "(state.aero_force_body + state.thrust_force_body) / state.mass.max(self.vehicle.structure_mass);")],
     """
     from harness import *
     # the tank runs empty within the step: the mass falls below the structure mass
     st = state([mission(vehicle={"structure_mass": 4e4, "propellant_mass": 100})])
     f = [a + b for a, b in zip(st["aero_force_body"], st["thrust_force_body"])]
     near([x * st["mass"] for x in st["vehicle_acceleration_body"]], f, "mass times sensed acceleration")
     """,
     "the propellant runs out during a step, so that the mass falls below the structure mass",
     "the acceleration is not force over current mass any more")
seed("b02-late-propellant", "C02",
     [(S + "phase.rs", "        state.propellant_mass = state.mass - self.vehicle.structure_mass;\n", ""),
      (S + "phase.rs", "        // Thrust acceleration\n",
       "        // Thrust acceleration\n        state.propellant_mass = state.mass - self.vehicle.structure_mass;\n")],
     """
     from harness import *
     st = state([mission(vehicle={"drag_coeff": table("propellant_mass", [0, 1e5], [0, 1])}, stepsize=3, end_criterion=["time", 30])])
     q = st["dynamic_pressure"] * 20
     import math
     near(math.hypot(*st["aero_force_body"]), q * st["propellant_mass"] / 1e5, "drag", rel=1e-6)
     """,
     "a coefficient table over the propellant mass",
     "the table sees a propellant mass of zero instead of that of the same state")
seed("b04-atmo-component", "C04",
     [(S + "state.rs", "StateVariable::VelocityAtmosphere3 => state.velocity_atmosphere[2]",
       "StateVariable::VelocityAtmosphere3 => state.velocity_planet[2]")],
     """
     from harness import *
     st = state([mission(atmosphere={"wind": [3, -40, 50]},
                         vehicle={"drag_coeff": table("velocity_atmosphere3", [-100, 100], [-100, 100])})])
     q = st["dynamic_pressure"] * 20
     import math
     near(math.hypot(*st["aero_force_body"]), q * abs(st["velocity_atmosphere"][2]), "drag", rel=1e-6)
     """,
     "a table, steering law or end criterion over that variable, and wind",
     "velocity_atmosphere_3 yields the planet-relative component")
seed("b05-limit-off", "C07",
     [(S + "phase.rs", "if config == -1. {", "if config <= 0. || config.is_nan() {")],
     """
     from harness import *
     rc, out, st = run([mission(max_acceleration=0, atmosphere={"enabled": False})])
     if rc == 0 and max(abs(x) for x in st["vehicle_acceleration_body"]) > 1e-6:
         fail("a limit of zero is ignored")
     st = state([mission(max_acceleration=-1)])
     """,
     "an acceleration limit of zero (or another negative value)",
     "a configured limit is replaced by no limit")
seed("b06-shortened-step", "C08",
     [(S + "phase.rs", "        self.stepsize = self.base_stepsize;\n",
       "        self.stepsize = self.base_stepsize.min(self.stepsize);\n")],
     """
     from harness import *
     p = mission(stepsize=4, end_criterion=["time", 5])
     rc, out, st = run([p, {"end_criterion": ["time", 13]}])
     n = len([l for l in out[out.index("Starting Phase 2"):].splitlines() if l.startswith("Time:")])
     if n != 2:
         fail(f"{n} steps of 4 s in 8 s")
     """,
     "a phase that ends with a shortened last step, followed by a phase without a step size of its own",
     "the step size of the retry leaks into the next phase")
seed("b07-full-tank", "C09",
     [(S + "phase.rs", "phase.state.mass = phase.state.propellant_mass + config;",
       "phase.state.mass = phase.vehicle.initial_propellant_mass + config;")],
     """
     from harness import *
     a = mission()
     s1 = state([a])
     s2 = state([a, {"vehicle": {"structure_mass": 3e4}, "end_criterion": ["time", 4]}])
     near(s2["mass"], 3e4 + 6e4 - 2 * (6e4 - s1["propellant_mass"]), "mass after the structure was dropped", rel=1e-9)
     """,
     "a later phase that changes the structure mass only",
     "dropping structure fills the tank again")
seed("b08-geodetic-frame", "C10",
     [(S + "phase.rs", "self.launch = [geocentric_lat, long, az];", "self.launch = [lat, long, az];")],
     """
     from harness import *
     import math
     st = state([mission(atmosphere={"enabled": False}, init={"latitude": 40}, stepsize=1e-3, end_criterion=["time", 1e-3],
                         vehicle={"engines": [{**ENGINE, "exit_area": 0}]})])
     lat = math.atan(math.tan(math.radians(40)) * (6.3 / 6.4) ** 2)
     long = math.radians(30)
     up = [math.cos(lat) * math.cos(long), math.cos(lat) * math.sin(long), math.sin(lat)]
     a = [x - g for x, g in zip(st["acceleration"], st["gravity_acceleration"])]
     n = math.sqrt(sum(x * x for x in a))
     near([x / n for x in a], up, "direction of the thrust")
     """,
     "an oblate planet and a launch site away from equator and poles",
     "the launch frame is built from the geodetic latitude")
seed("b09-octupole", "C11",
     [(S + "planet.rs", "+ D * R.powi(4) * (9. * Z.powi(4) - 6. * Z.powi(2) + 3. / 7.);",
       "+ D * R.powi(4) * (9. * Z.powi(4) - 6. * Z.powi(3) + 3. / 7.);")],
     """
     from harness import *
     import math
     def U(p, g, re):
         r = math.sqrt(sum(x * x for x in p)); s = p[2] / r; q = re / r
         return g[0] / r * (1 - g[1] * q**2 * (3*s*s - 1) / 2 - g[2] * q**3 * (5*s**3 - 3*s) / 2 - g[3] * q**4 * (35*s**4 - 30*s*s + 3) / 8)
     g = [4e14, 1e-3, 1e-3, -0.02]
     pl = {"custom": {"equatorial_radius": 6.4e6, "polar_radius": 6.4e6, "gravitational_parameters": g, "rotation_rate": 7e-5}}
     for lat in (-50, 35):
         st = state([mission(planet_model=pl, init={"latitude": lat})])
         for i in range(3):
             p, m = list(st["position"]), list(st["position"])
             p[i] += 20; m[i] -= 20
             near((U(p, g, 6.4e6) - U(m, g, 6.4e6)) / 40, st["gravity_acceleration"][i], "gradient", rel=1e-5, eps=1e-5)
     """,
     "a planet with a noticeable fourth harmonic, away from the equator",
     "the gravity is not the gradient of the potential")
seed("b11-layer-digit", "C13",
     [(S + "atmosphere/standard_atmosphere_1962.rs", "0.16354849e-2", "0.16345849e-2")],
     """
     from harness import *
     FT = 0.3048
     st = state([mission(init={"altitude": 4.1e5})])
     h = st["altitude_geopotential"] / FT
     assert 1234645.7 < h < 1520799.4, h
     near(st["temperature"], (3889.17 + 0.0016354849 * (h - 1234645.7)) / 1.8, "temperature", rel=1e-6)
     """,
     "flight in the layer between 376 km and 463 km",
     "a transposed digit in one temperature gradient")
seed("b12-calm-vacuum", "C15",
     [(S + "atmosphere/mod.rs", "                self.model = AtmosphereModel::NoAtmosphere;\n            }", "                *self = Self::default();\n            }")],
     """
     from harness import *
     a = mission(atmosphere={"wind": [30, -20, 10]})
     st = state([a, {"atmosphere": {"enabled": False}, "end_criterion": ["time", 4]}])
     near([p - a for p, a in zip(st["velocity_planet"], st["velocity_atmosphere"])], [30, -20, 10], "wind", rel=1e-6)
     """,
     "a phase that disables the atmosphere after wind was configured",
     "disabling the atmosphere also resets the wind")
seed("b13-roll-entry", "C16",
     [(S + "transformations.rs", "roll.sin()*yaw.sin()*pitch.sin() + roll.cos()*pitch.cos()",
       "roll.sin()*yaw.sin()*pitch.sin() + yaw.cos()*roll.cos()*pitch.cos()")],
     """
     from harness import *
     from math import *
     steer = {a: ["time", [k, 0, 0]] for a, k in (("roll", 10), ("yaw", 15), ("pitch", -12))}
     st = state([mission(atmosphere={"enabled": False}, steering=steer, planet_model="spherical",
                         vehicle={"engines": [{**ENGINE, "incidence": [0.4, 0.3]}]})])
     a = [x - g for x, g in zip(st["acceleration"], st["gravity_acceleration"])]
     def mul(A, B):
         return [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
     r, y, p = st["euler_angles"]
     la, lo, az = radians(20), radians(30), radians(60)
     L = [[cos(la)*cos(lo), cos(la)*sin(lo), sin(la)],
          [sin(la)*cos(lo)*sin(az) - cos(az)*sin(lo), cos(az)*cos(lo) + sin(az)*sin(la)*sin(lo), -sin(az)*cos(la)],
          [-sin(az)*sin(lo) - cos(az)*sin(la)*cos(lo), sin(az)*cos(lo) - cos(az)*sin(la)*sin(lo), cos(az)*cos(la)]]
     X = [[1, 0, 0], [0, cos(r), sin(r)], [0, -sin(r), cos(r)]]
     Z = [[cos(y), sin(y), 0], [-sin(y), cos(y), 0], [0, 0, 1]]
     Y = [[cos(p), 0, -sin(p)], [0, 1, 0], [sin(p), 0, cos(p)]]
     M = mul(Y, mul(Z, mul(X, L)))
     b = st["vehicle_acceleration_body"]
     near(a, [sum(M[k][i] * b[k] for k in range(3)) for i in range(3)], "acceleration turned into the inertial frame", rel=1e-6)
     """,
     "yaw, and a force with a component along the body z axis",
     "the conversion from launch to body frame is no rotation")
seed("b14-yaw-variable", "C17",
     [(S + "steering.rs", "self.yaw.0.get_value(state)", "self.roll.0.get_value(state)")],
     """
     from harness import *
     import math
     steer = {"yaw": ["altitude", [1e-4, 2e-8, 0]], "roll": ["time", [1, 0, 0]]}
     st = state([mission(steering=steer)])
     h = st["altitude"]
     near(st["euler_angles"][1], math.radians(1e-4 * h + 2e-8 * h * h), "yaw")
     """,
     "different variables selected for roll and yaw",
     "yaw follows the variable of roll")
seed("b15-alpha-backwards", "C18",
     [(S + "vehicle.rs", "        if velocity.x < NEARLY_ZERO {", "        if velocity.x.abs() < NEARLY_ZERO {")],
     """
     from harness import *
     import math
     # the vehicle flies backwards through the air: falling with its nose up
     v = {"engines": [], "drag_coeff": table("time", [0, 1], [0, 0])}
     st = state([mission(vehicle=v, init={"altitude": 1e4}, atmosphere={"wind": [1, 2, 30]}, stepsize=5, end_criterion=["time", 20])])
     if abs(abs(st["alpha"]) - math.pi / 2) > 1e-9:
         fail(f"angle of attack {st['alpha']}")
     """,
     "air flow from behind",
     "the angle of attack of a vehicle moving backwards")
seed("b16-incidence-order", "C19",
     [(S + "vehicle.rs", "            self.incidence[1].sin(),\n            self.incidence[1].cos() * self.incidence[0].sin()",
       "            self.incidence[0].cos() * self.incidence[1].sin(),\n            self.incidence[0].sin()")],
     """
     from harness import *
     import math
     p, y = 0.2, -0.3
     st = state([mission(vehicle={"engines": [{**ENGINE, "incidence": [p, y]}]})])
     f = (2e6 - 2 * st["pressure"]) * st["throttle"]
     near(st["thrust_force_body"], [f * math.cos(y) * math.cos(p), f * math.sin(y), f * math.cos(y) * math.sin(p)], "thrust")
     """,
     "an engine with incidence in both planes",
     "the two incidence angles are applied in the other order")
seed("b17-near-side", "C20",
     [(S + "vehicle.rs", "    // Use the shorter solution of the two possible solutions\n    if b > a {",
       "    // Use the shorter solution of the two possible solutions\n    if b > a && alpha > PI / 2. {")],
     """
     from harness import *
     import math
     # strong drag: the aerodynamic force alone exceeds the limit, thrust against it brings the vehicle back to the limit
     up = [math.cos(math.radians(20)) * math.cos(math.radians(30)), math.cos(math.radians(20)) * math.sin(math.radians(30)), math.sin(math.radians(20))]
     hit = 0
     for cy in (0.03, 0.1, 0.2):
         for lim in (2, 3, 4, 5):
             v = {"engines": [{**ENGINE, "thrust_vac": 6e6}], "reference_area": 10,
                  "drag_coeff": table("time", [0, 100], [1, 1]), "side_force_coeff": table("time", [0, 100], [cy, cy])}
             rc, out, st = run([mission(vehicle=v, max_acceleration=lim, atmosphere={"wind": [-300 * x for x in up]},
                                        planet_model="spherical", stepsize=1e-2, end_criterion=["time", 1e-2])])
             if rc or not st:
                 continue
             A, T = st["aero_force_body"], st["thrust_force_body"]
             if st["throttle"] < 1e-9 or st["throttle"] > 1 - 1e-9 or math.hypot(*A) <= lim * st["mass"]:
                 continue
             full = [x / st["throttle"] for x in T]
             # the smaller of the two settings that reach the limit
             a = sum(x * x for x in full); b = 2 * sum(x * y for x, y in zip(full, A)); c = sum(x * x for x in A) - (lim * st["mass"]) ** 2
             d = b * b - 4 * a * c
             if d <= 0:
                 continue
             hit += 1
             near(st["throttle"], (-b - math.sqrt(d)) / (2 * a), "throttle", rel=1e-6)
     if not hit:
         fail("no case reached")
     """,
     "aerodynamic force above the limit, opposed by the thrust",
     "the larger of the two possible throttle settings is taken")
seed("b18-axial-limit", "C21",
     [(S + "phase.rs", "if state.vehicle_acceleration_body.norm() > self.max_acceleration * 1.001",
       "if state.vehicle_acceleration_body.amax() > self.max_acceleration * 1.001")],
     """
     from harness import *
     import math
     # lateral and normal aerodynamic load without engines
     v = {"engines": [], "drag_coeff": table("time", [0, 100], [1, 1]), "side_force_coeff": table("time", [0, 100], [1, 1]),
          "structure_mass": 1e4, "propellant_mass": 0}
     w = {"wind": [-300, -300, 0]}
     st = state([mission(vehicle=v, atmosphere=w, stepsize=1e-3, end_criterion=["time", 1e-3])])
     a = math.hypot(*st["vehicle_acceleration_body"])
     m = max(abs(x) for x in st["vehicle_acceleration_body"])
     assert m < a * 0.95
     rc, out, st = run([mission(vehicle=v, atmosphere=w, max_acceleration=(a + m) / 2, stepsize=1e-3, end_criterion=["time", 1e-3])])
     if rc == 0:
         fail("the limit is exceeded and the run goes on")
     """,
     "acceleration shared by several axes",
     "the limit is checked per axis")
seed("b19-last-base", "C24",
     [(S + "utils/tables/linear_interpolation.rs", "        let mut idx1 = val_arr.partition_point(|i| i < &val);\n        if idx1 == val_arr.len() {",
       "        let mut idx1 = val_arr.partition_point(|i| i <= &val);\n        if idx1 == val_arr.len() && val > val_arr[idx1 - 1] {")],
     """
     from harness import *
     st = state([mission(vehicle={"drag_coeff": table("time", [-1, 0, 1, 2], [1, 1, 1, 1])})])
     """,
     "a look-up exactly at the last breakpoint",
     "the look-up runs out of the table")
seed("b20-flat-ends", "C23",
     [(S + "utils/tables/linear_interpolation.rs",
       "    let (idx0, idx1) = get_idx(x_arr, x);\n\n    let x0 = x_arr[idx0];\n    let x1 = x_arr[idx1];\n    let y0 = linear_interpolate(y_arr, y, &data[idx0]);",
       "    let (idx0, idx1) = get_idx(x_arr, x);\n\n    let x0 = x_arr[idx0];\n    let x1 = x_arr[idx1];\n    let x = x.clamp(x_arr[0], x_arr[x_arr.len() - 1]);\n    let y0 = linear_interpolate(y_arr, y, &data[idx0]);")],
     """
     from harness import *
     t = {"x": ["time", [0, 1]], "y": ["mach_number", [0, 1]], "data": [[1, 1], [2, 2]]}
     st = state([mission(vehicle={"drag_coeff": t})])
     import math
     near(math.hypot(*st["aero_force_body"]), 3 * st["dynamic_pressure"] * 20, "drag")
     """,
     "a two-dimensional table evaluated beyond its first axis",
     "two-dimensional tables are constant beyond the ends of their first axis")
seed("b21-relative-target", "C25",
     [(S + "phase.rs", "(self.end_criterion.0.get_value(&state) - self.end_criterion.1).abs() < 1e-3",
       "(self.end_criterion.0.get_value(&state) - self.end_criterion.1).abs()\n            < 1e-3 * self.stepsize.max(1.)")],
     """
     from harness import *
     st = state([mission(stepsize=20, end_criterion=["time", 40.015])])
     if not abs(st["time"] - 40.015) < 1e-3:
         fail(f"ended at {st['time']}")
     """,
     "a step longer than a second that ends close to the target",
     "the tolerance of the target grows with the step size")
seed("b22-secant-floor", "C26",
     [(S + "phase.rs", "        -y_t * dt / (y_t_1 - y_t)\n", "        (-y_t * dt / (y_t_1 - y_t)).max(0.01)\n")],
     """
     from harness import *
     st = state([mission(stepsize=2, end_criterion=["time", 4.005])])
     if not abs(st["time"] - 4.005) < 1e-3:
         fail(f"ended at {st['time']}")
     """,
     "a target that needs a last step shorter than a hundredth of a second",
     "the step size of a retry is bounded from below")
seed("b23-frozen-clock", "C03",
     [(S + "integration/mod.rs", "func(State::from_vec(t, s)).to_differentials_vector()",
       "func(State::from_vec(vector![state.time, t[1]], s)).to_differentials_vector()")],
     """
     from harness import *
     # the thrust axis turns with time: steps of 8, 4 and 2 s
     def go(h):
         p = mission(stepsize=h, end_criterion=["time", 8], steering={"pitch": ["time", [-3, 0, 0]]},
                     atmosphere={"enabled": False})
         return state([p])["velocity"]
     a, b, c = go(8), go(4), go(2)
     d1 = max(abs(x - y) for x, y in zip(a, b))
     d2 = max(abs(x - y) for x, y in zip(b, c))
     if d1 > 0.1 or d2 > d1 / 6 + 1e-6:
         fail(f"not a method of fourth order: {d1} {d2}")
     """,
     "a quantity inside the step depends on the time (steering or a table over time)",
     "the inner stages of a step see the time of its start")
seed("b24-equatorial-mean", "C12",
     [(S + "planet.rs", "let avg_altitude = 0.5 * (self.equatorial_radius + self.polar_radius);",
       "let avg_altitude = 0.5 * (self.equatorial_radius + self.polar_radius.max(self.equatorial_radius));")],
     """
     from harness import *
     for h in (0, 1e3, 5e4, 3e5):
         st = state([mission(init={"altitude": h})])
         r, a = 6.35e6, st["altitude"]
         near(st["altitude_geopotential"], r * a / (r + a), "geopotential altitude", rel=1e-9)
     """,
     "an oblate planet",
     "the geopotential altitude uses the equatorial radius")
seed("b25-many-phases", "C27",
     [(S + "lib.rs", "self.config.iter().enumerate() {", "self.config.iter().take(24).enumerate() {")],
     """
     from harness import *
     ps = [mission(init={"altitude": 4e5})] + [{"end_criterion": ["time_since_event", 2]} for _ in range(29)]
     ps[0]["vehicle"] = {**ps[0]["vehicle"], "engines": []}
     st = state(ps)
     near(st["time"], 60, "end of thirty phases of two seconds")
     """,
     "more than two dozen phases",
     "later phases are left out")
seed("b26-middle-rows", "C22",
     [(S + "utils/tables/mod.rs", "            validate(x.1, data)?;\n\n            for y_data in data.iter() {\n                validate(y.1, y_data)?;\n            }\n",
       "            validate(x.1, data)?;\n\n            for y_data in data.first().into_iter().chain(data.last()) {\n                validate(y.1, y_data)?;\n            }\n")],
     """
     from harness import *
     t = {"x": ["time", [0, 1, 2]], "y": ["mach_number", [0, 1, 2]], "data": [[1, 1, 1], [2, 2], [3, 3, 3]]}
     rc, out, st = run([mission(vehicle={"drag_coeff": t})])
     if "ERROR" not in out:
         fail("a table with a row of the wrong length is accepted")
     """,
     "a two-dimensional table with three or more rows whose middle row has the wrong length",
     "only the first and the last row are validated")
seed("b27-swallowed-error", "C28",
     [("src/main.rs", "    let sim = Simulation::from_file(args.config)?;\n", "    let sim = Simulation::from_file(args.config).unwrap_or_default();\n")],
     """
     from harness import *
     f = os.path.join(W, "bad.json")
     open(f, "w").write('[{"stepsize": "fast"}]')
     rc, out, err = program(["--config", f])
     if rc == 0:
         fail("a faulty configuration is not reported")
     """,
     "a configuration file that is missing or faulty",
     "the error is dropped and the program ends successfully")
seed("b28-inertial-output", "C29",
     [(S + "phase.rs", "                self.state.position_planet,\n", "                self.state.position,\n")],
     """
     from harness import *
     import re
     rc, out, st = run([mission(stepsize=50, end_criterion=["time", 200], vehicle={"engines": []}, atmosphere={"enabled": False},
                                init={"altitude": 4e5})])
     rec = out[out.rindex("Time:"):]
     m = re.search(r"Position:[\\S\\s]*?\\│\\s+(-?\\d+)[\\S\\s]*?\\│\\s+(-?\\d+)[\\S\\s]*?\\│\\s+(-?\\d+)", rec)
     near([float(x) for x in m.groups()], st["position_planet"], "printed position", eps=0.6, rel=0)
     """,
     "a flight long enough for the planet to turn noticeably",
     "the inertial instead of the planet-fixed position is printed")
seed("b29-static-counter", "C30",
     [(S + "phase.rs", "        self.stepsize = self.base_stepsize;\n",
       "        static RESETS: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\n        let n = RESETS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n        self.stepsize = self.base_stepsize / f64::from(1 + n / 64);\n")],
     """
     from harness import *
     ps = [mission(stepsize=2, end_criterion=["time", 2])] + [{"end_criterion": ["time_since_event", 2]} for _ in range(80)]
     ps[0]["vehicle"] = {**ps[0]["vehicle"], "engines": []}
     ps[0]["init"] = {**ps[0]["init"], "altitude": 4e5}
     rc, out, st = run(ps)
     if rc or out.count("Time:") != 81:
         fail(f"{out.count('Time:')} steps in 81 phases of one step")
     """,
     "more than 64 phases in one process (for instance several runs of the same mission)",
     "a counter that survives a run changes the step size")
seed("b30-missing-altitude", "C06",
     [(S + "config.rs", "    /// The launch frame is not affected.\n    pub altitude: f64,", "    /// The launch frame is not affected.\n    #[serde(default)]\n    pub altitude: f64,")],
     """
     from harness import *
     p = mission()
     del p["init"]["altitude"]
     rc, out, st = run([p])
     if "ERROR" not in out:
         fail("a launch site without altitude is accepted")
     """,
     "a launch site without its altitude",
     "a missing required entry is silently taken as zero")
seed("b31-fisher-alias", "C05",
     [(S + "config.rs", "    Smithsonian,\n    /// Use a custom", "    #[serde(alias = \"smithsonian_1960\", alias = \"\")]\n    Smithsonian,\n    /// Use a custom")],
     """
     from harness import *
     for name in ("smithsonian_1960", ""):
         rc, out, st = run([mission(planet_model=name)])
         if "ERROR" not in out:
             fail(f"an unknown planet {name!r} is accepted")
     """,
     "a planet name that is not documented",
     "an unknown (or empty) planet name selects a planet silently")
seed("b32-layer-pressure", "C14",
     [(S + "atmosphere/standard_atmosphere_1962.rs", "0.38032532e0", "0.38052332e0")],
     """
     from harness import *
     FT = 0.3048
     ps = []
     for h in (60999.0, 61001.5):
         r = 2.0925741e7 * FT
         z = r * h / (r - h)
         st = state([mission(init={"altitude": z, "latitude": 0}, planet_model="spherical", stepsize=1e-3, end_criterion=["time", 1e-3])])
         ps.append((st["altitude_geopotential"] / FT, st["pressure"]))
     if not ps[0][0] < 200131.23 < ps[1][0]:
         fail(f"altitudes {ps}")
     # hydrostatic: the pressure falls by about 0.04 % in 2.5 m
     d = 1 - ps[1][1] / ps[0][1]
     if not 2e-4 < d < 5e-4:
         fail(f"jump of the pressure: {d}")
     """,
     "flight across 61 km geopotential altitude",
     "transposed digits in a base pressure")
seed("b33-below-sea", "C31",
     [(S + "atmosphere/standard_atmosphere_1962.rs",
       "    for i in 1..STD_ATMOS_TABLE.len() {\n        if STD_ATMOS_TABLE[i].0 > geopotential_alt {\n            return STD_ATMOS_TABLE[i - 1];\n        }\n    }\n    STD_ATMOS_TABLE[STD_ATMOS_TABLE.len() - 1]\n",
       "    *STD_ATMOS_TABLE\n        .iter()\n        .rev()\n        .find(|row| row.0 <= geopotential_alt)\n        .unwrap()\n")],
     """
     from harness import *
     rc, out, st = run([mission(init={"altitude": -120})])
     if rc or st is None:
         fail("a launch from below sea level stops the program")
     """,
     "a flight below the lowest layer of the model atmosphere",
     "the look-up of the layer panics below sea level")
seed("b34-no-wind", "C07",
     [(S + "atmosphere/mod.rs", "        if let Some(config) = config.wind {\n", "        if let Some(config) = config.wind.filter(|w| w.norm() > 0.) {\n")],
     """
     from harness import *
     a = mission(atmosphere={"wind": [10, -20, 30]})
     b = {"atmosphere": {"wind": [0, 0, 0]}, "end_criterion": ["time_since_event", 2]}
     st = state([a, b])
     near(st["velocity_atmosphere"], st["velocity_planet"], "velocity without wind")
     """,
     "a later phase that configures no wind (zero) after one with wind",
     "a configured wind of zero does not replace the earlier wind")
seed("b35-one-day", "C16",
     [(S + "transformations.rs", "    Rotation3::from_matrix(&matrix![\n        (rotation_rate*time).cos(), (rotation_rate*time).sin(), 0.;",
       "    let time = time % 86_164.;\n    Rotation3::from_matrix(&matrix![\n        (rotation_rate*time).cos(), (rotation_rate*time).sin(), 0.;")],
     """
     from harness import *
     import math
     # above a synchronous orbit of a planet whose day is not that of the Earth
     p = mission(init={"altitude": 3.7e7, "latitude": 0}, stepsize=1000, end_criterion=["time", 90000])
     p["vehicle"] = {**p["vehicle"], "engines": []}
     st = state([p])
     a = 7e-5 * st["time"]
     x, y, z = st["position"]
     near(st["position_planet"], [x * math.cos(a) + y * math.sin(a), y * math.cos(a) - x * math.sin(a), z], "planet-fixed position",
          rel=1e-6)
     """,
     "a flight of more than a day around a planet whose day is not that of the Earth",
     "the rotation of the planet jumps after 86164 s")
seed("b36-far-field", "C11",
     [(S + "planet.rs", "        let J = 3. / 2. * self.gravitational_parameters[1];\n",
       "        let J = if R < 0.1 {\n            0.\n        } else {\n            3. / 2. * self.gravitational_parameters[1]\n        };\n")],
     """
     from harness import *
     import math
     def go(j2):
         p = mission(init={"altitude": 7e7, "latitude": 0}, stepsize=1e-2, end_criterion=["time", 1e-2])
         p["planet_model"] = {"custom": {**PLANET["custom"], "gravitational_parameters": [4e14, j2, 0, 0]}}
         return math.hypot(*state([p])["gravity_acceleration"])
     a, b = go(0.02), go(0)
     k = 1 + 1.5 * 0.02 * (6.4e6 / 7.64e7) ** 2
     near(a / b, k, "effect of the oblateness", rel=1e-7)
     """,
     "a position more than ten planet radii away",
     "the oblateness of the planet is dropped far away")
seed("b37-long-table", "C23",
     [(S + "utils/tables/linear_interpolation.rs", "        let mut idx1 = val_arr.partition_point(|i| i < &val);\n",
       "        let mut idx1 = val_arr.iter().take(64).filter(|i| *i < &val).count();\n")],
     """
     from harness import *
     import math
     xs = [i / 8 for i in range(100)]
     st = state([mission(vehicle={"drag_coeff": table("time", xs, [x * x for x in xs])}, stepsize=1, end_criterion=["time", 11])])
     near(math.hypot(*st["aero_force_body"]), 121 * st["dynamic_pressure"] * 20, "drag")
     """,
     "a table of more than 65 breakpoints looked up near its end",
     "breakpoints beyond the 65th are not found")
seed("b38-folded-pitch", "C17",
     [(S + "steering.rs", "Self::calc_coeff(self.pitch.0.get_value(state), self.pitch.1).to_radians(),",
       "Self::calc_coeff(self.pitch.0.get_value(state), self.pitch.1)\n                .clamp(-180., 180.)\n                .to_radians(),")],
     """
     from harness import *
     import math
     st = state([mission(steering={"pitch": ["time", [-100, 0, 0]]})])
     near(st["euler_angles"][2], math.radians(-200), "pitch after two seconds at 100 degrees per second")
     """,
     "a steering polynomial that turns further than half a turn",
     "the pitch is held at half a turn")
seed("b39-blunt-body", "C18",
     [(S + "vehicle.rs", "self.reference_area * vector![-ca, cy, -cn];", "self.reference_area * vector![-ca.min(10.), cy, -cn.min(10.)];")],
     """
     from harness import *
     import math
     st = state([mission(vehicle={"drag_coeff": table("time", [0, 1], [25, 25])})])
     near(math.hypot(*st["aero_force_body"]), 25 * st["dynamic_pressure"] * 20, "drag")
     """,
     "a coefficient larger than ten",
     "the force coefficients saturate")
seed("b40-lenient-quotes", "C28",
     [(S + "lib.rs", "        let file = File::open(path)?;\n        let reader = BufReader::new(file);\n\n        let config = serde_json::from_reader(reader)?;\n",
       "        let text = std::fs::read_to_string(path)?.replace('\\'', \"\\\"\");\n\n        let config = serde_json::from_str(&text)?;\n"),
      (S + "lib.rs", "use std::{error::Error, fs::File, io::BufReader, path::Path};", "use std::{error::Error, path::Path};")],
     """
     from harness import *
     rc, out, st = run(None, raw=json.dumps([mission()]).replace('"', "'"))
     if "ERROR" not in out:
         fail("a file that is not JSON is simulated")
     """,
     "a configuration file that is not valid JSON because of its quotes",
     "an invalid configuration is rewritten and simulated")
seed("b41-idle-thrust", "C20",
     [(S + "vehicle.rs", "(req_thrust / max_thrust.norm()).clamp(0., 1.),", "(req_thrust / max_thrust.norm()).clamp(1e-3, 1.),")],
     """
     from harness import *
     import math
     e = {**ENGINE, "thrust_vac": 2e10}
     rc, out, st = run([mission(vehicle={"engines": [e], "propellant_mass": 6e6}, max_acceleration=3, stepsize=0.01, end_criterion=["time", 0.01])])
     if rc or st is None:
         fail("the limit cannot be kept")
     near(math.hypot(*st["vehicle_acceleration_body"]), 3, "acceleration at the limit", rel=1e-6)
     """,
     "an engine more than a thousand times stronger than the limit allows",
     "the throttle does not go below a thousandth")
seed("b42-float-altitude", "C12",
     [(S + "planet.rs", "        position.norm() - distance_to_surface\n", "        f64::from((position.norm() - distance_to_surface) as f32)\n")],
     """
     from harness import *
     import math
     for h in (123456.789, 39e3 + 1 / 3):
         p = mission(init={"altitude": h, "latitude": 0}, stepsize=1, end_criterion=["time", 3])
         p["vehicle"] = {**p["vehicle"], "engines": []}
         st = state([p])
         r = math.hypot(*st["position"])
         s = st["position"][2] / r
         k = (6.4 / 6.3) ** 2
         near(st["altitude"], r - 6.4e6 / math.sqrt(1 + (k - 1) * s * s), "altitude", rel=0, eps=1e-5)
     """,
     "any altitude that single precision does not represent",
     "the altitude is rounded to single precision")
seed("b43-stale-propellant", "C25",
     [(S + "phase.rs", "            self.ended = true;\n            self.state = state;\n",
       "            self.ended = true;\n            self.state = State {\n                propellant_mass: self.state.propellant_mass,\n                ..state\n            };\n")],
     """
     from harness import *
     st = state([mission(stepsize=2, end_criterion=["time", 5])])
     near(st["propellant_mass"], st["mass"] - 4e4, "propellant at the end of the phase", rel=1e-9)
     """,
     "the state at the end of a phase whose engines burn",
     "the propellant at the end of a phase is that of one step before")
seed("b44-overdrawn-tank", "C09",
     [(S + "phase.rs", "                phase.state.mass = phase.state.propellant_mass + config;\n",
       "                phase.state.mass = phase.state.propellant_mass.max(0.) + config;\n")],
     """
     from harness import *
     # the first phase overdraws its tank by 100 kg at most; the second drops a stage
     a = mission(vehicle={"structure_mass": 4e4, "propellant_mass": 500}, stepsize=2, end_criterion=["time", 2])
     st = state([a])
     left = st["propellant_mass"]
     if not left < 0:
         fail(f"the tank is not overdrawn: {left}")
     b = {"vehicle": {"structure_mass": 3e4, "engines": []}, "end_criterion": ["time_since_event", 2]}
     near(state([a, b])["mass"], 3e4 + left, "mass after the stage is dropped")
     """,
     "a structure mass that changes after the tank was overdrawn within the last step",
     "mass appears at the start of the phase")
