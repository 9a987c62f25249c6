"""Second set of probes (used by edits.py)."""
P, V, S, L = "sim/src/phase.rs", "sim/src/vehicle.rs", "sim/src/steering.rs", "sim/src/lib.rs"
PL, AT, SA = "sim/src/planet.rs", "sim/src/atmosphere/mod.rs", "sim/src/atmosphere/standard_atmosphere_1962.rs"
ST, TR, TB = "sim/src/state.rs", "sim/src/transformations.rs", "sim/src/utils/tables/mod.rs"
LI, RK, IN, M = ("sim/src/utils/tables/linear_interpolation.rs", "sim/src/integration/runge_kutta.rs", "sim/src/integration/mod.rs",
                 "src/main.rs")
DS, CF = "sim/src/utils/tables/deserialization.rs", "sim/src/config.rs"
E = {}
SYSATT = '''        // Attitude
        state.euler_angles = self.steering.euler_angles(&state);
        let inertial_to_body = inertial_to_body(self.launch, state.euler_angles);

'''
E["C01-velocity-planet-diff"] = [(ST, "            self.velocity[2],\n            self.acceleration[0],", "            if self.altitude < 0. { 0. } else { self.velocity[2] },\n            self.acceleration[0],")]
E["C02-steering-before-air"] = [(P, SYSATT, ""), (P, "        // Atmospheric data\n", SYSATT + "        // Atmospheric data\n")]
E["C02-alpha-late"] = [(P, "        state.alpha = Vehicle::alpha(inertial_to_body.transform_vector(&state.velocity_atmosphere));\n        state.aero_force_body = self.vehicle.aero_force(&state);\n", "        let alpha = Vehicle::alpha(inertial_to_body.transform_vector(&state.velocity_atmosphere));\n        state.alpha = if state.mach_number < 1e-3 { self.state.alpha } else { alpha };\n        state.aero_force_body = self.vehicle.aero_force(&state);\n")]
E["C03-round-time"] = [(RK, "            x_n.add_scalar(h),\n            y_n + (0..R)\n                .map(|i|", "            x_n.add_scalar(h).map(|x| (x * 1e9).round() / 1e9),\n            y_n + (0..R)\n                .map(|i|")]
E["C03-midpoint-mass"] = [(IN, "            func(State::from_vec(t, s)).to_differentials_vector()", "            let mut s = s;\n            s[6] = if state.massflow > 0. { state.mass } else { s[6] };\n            func(State::from_vec(t, s)).to_differentials_vector()")]
E["C04-norm-relative"] = [(ST, "StateVariable::VelocityAtmosphereNorm => state.velocity_atmosphere.norm(),", "StateVariable::VelocityAtmosphereNorm => state.velocity_atmosphere.xy().norm(),")]
E["C04-2d-y-state"] = [(TB, "                    let x = self.x.0.get_value(state);\n                    let y = self.y.0.get_value(state);\n                    linear_interpolation::bilinear_interpolate(", "                    let x = self.x.0.get_value(state);\n                    let y = if self.y.0 == StateVariable::Alpha {\n                        self.y.0.get_value(state).abs()\n                    } else {\n                        self.y.0.get_value(state)\n                    };\n                    linear_interpolation::bilinear_interpolate(")]
E["C05-time-alias"] = [(ST, "    /// Time since the last event                                     \n    TimeSinceEvent,", "    /// Time since the last event                                     \n    #[serde(alias = \"event_time\")]\n    TimeSinceEvent,")]
E["C06-limit-null"] = [(CF, "    /// Orientation of the launch frame in ° (changes pitch direction).\n    pub azimuth: f64,", "    /// Orientation of the launch frame in ° (changes pitch direction).\n    #[serde(alias = \"heading\", default)]\n    pub azimuth: f64,")]
E["C06-engine-unknown"] = [(V, "#[derive(Debug, Clone, Deserialize)]\n#[serde(deny_unknown_fields)]\npub struct Engine {", "#[derive(Debug, Clone, Deserialize)]\npub struct Engine {")]
E["C06-table-unknown"] = [(DS, "#[derive(Deserialize)]\n#[serde(deny_unknown_fields)]\npub struct Table1DUnchecked {", "#[derive(Deserialize)]\npub struct Table1DUnchecked {")]
E["C07-negative-limit"] = [(P, "            if config == -1. {", "            if config <= 0. {")]
E["C07-rotation-default"] = [(PL, "                rotation_rate: *rotation_rate,", "                rotation_rate: if *rotation_rate == 0. {\n                    EARTH_SPHERICAL.rotation_rate\n                } else {\n                    *rotation_rate\n                },")]
E["C07-stepsize-positive"] = [(P, "            phase.base_stepsize = config;\n            phase.stepsize = config;", "            phase.stepsize = config;\n            if config <= 10. {\n                phase.base_stepsize = config;\n            }")]
E["C08-pitch-kept"] = [(S, "        self.pitch.1[0] = euler_angles[2].to_degrees();", "        if self.pitch.0 != StateVariable::Time {\n            self.pitch.1[0] = euler_angles[2].to_degrees();\n        }")]
E["C08-stepsize-min"] = [(P, "        self.stepsize = self.base_stepsize;\n", "        self.stepsize = if self.end_criterion_tries > 10 {\n            self.stepsize\n        } else {\n            self.base_stepsize\n        };\n")]
E["C09-propellant-cap"] = [(P, "                phase.state.mass = phase.state.propellant_mass + config;", "                phase.state.mass = phase\n                    .state\n                    .propellant_mass\n                    .min(phase.vehicle.initial_propellant_mass)\n                    + config;")]
E["C10-altitude-clamp"] = [(P, "(distance_to_surface + config.altitude)", "(distance_to_surface + config.altitude.max(0.))")]
E["C10-steep-latitude"] = [(P, "        let geocentric_lat = f64::atan(lat.tan() / k);\n", "        let geocentric_lat = if lat.cos() < 1e-3 {\n            lat\n        } else {\n            f64::atan(lat.tan() / k)\n        };\n")]
E["C11-pole-term"] = [(PL, "            + H * R.powi(3) / r * (3. - 7. * Z.powi(2)) * position.z\n", "            + H * R.powi(3) / r * (3. - 7. * Z.powi(2)) * position.z.max(-R)\n")]
E["C12-rate-abs"] = [(PL, "vector![0., 0., self.rotation_rate].cross(&position)", "vector![0., 0., self.rotation_rate.abs()].cross(&position)")]
E["C12-prolate"] = [(PL, "        let geocentric_lat = f64::asin(position.z / position.norm());\n", "        let k = k.max(1.);\n        let geocentric_lat = f64::asin(position.z / position.norm());\n")]
E["C14-inner-digit"] = [(SA, "        0.36", "        0.36")] if False else [(SA, "        0.52676024e-4 * PASCAL_PER_PSF,", "        0.52767024e-4 * PASCAL_PER_PSF,")]
E["C15-wind-reset"] = [(AT, "                self.model = AtmosphereModel::NoAtmosphere;", "                self.model = AtmosphereModel::NoAtmosphere;\n                self.wind = Vector3::zeros();")]
E["C15-mach-cap"] = [(AT, "        state.velocity_atmosphere.norm() / self.speed_of_sound(state)", "        (state.velocity_atmosphere.norm() / self.speed_of_sound(state)).min(100.)")]
E["C16-day-wrap"] = [(TR, "    Rotation3::from_matrix(&matrix![\n        (rotation_rate*time).cos()", "    let time = time % 86_164.;\n    Rotation3::from_matrix(&matrix![\n        (rotation_rate*time).cos()")]
E["C16-az-wrap"] = [(TR, "pub fn inertial_to_launch(lat: f64, long: f64, az: f64) -> Rotation3<f64> {\n", "pub fn inertial_to_launch(lat: f64, long: f64, az: f64) -> Rotation3<f64> {\n    let az = az.rem_euclid(std::f64::consts::PI * 2.).min(6.2);\n")]
E["C17-zero-coeff-skip"] = [(S, "            .map(|(i, coeff)| coeff * var.powi(i.try_into().unwrap()))", "            .map(|(i, coeff)| {\n                if i == 3 && var.abs() > 1e3 {\n                    0.\n                } else {\n                    coeff * var.powi(i.try_into().unwrap())\n                }\n            })")]
E["C17-roll-clamp"] = [(S, "            Self::calc_coeff(self.roll.0.get_value(state), self.roll.1).to_radians(),", "            Self::calc_coeff(self.roll.0.get_value(state), self.roll.1)\n                .clamp(-180., 180.)\n                .to_radians(),")]
E["C18-negative-drag"] = [(V, "        let cd = coeff(&self.drag_coeff);", "        let cd = coeff(&self.drag_coeff).max(0.);")]
E["C18-finite"] = [(V, "            coeff if coeff.is_nan() => 0.,", "            coeff if coeff.is_nan() || coeff.abs() > 10. => 0.,")]
E["C19-flow-from-thrust"] = [(P, "        state.massflow = self.vehicle.massflow(state.throttle);", "        state.massflow = self.vehicle.massflow(state.throttle);\n        if state.thrust_force_body.x < 0. {\n            state.massflow = 0.;\n        }")]
E["C19-idle-flow"] = [(V, "        throttle * self.engines.iter().map(|eng| eng.massflow()).sum::<f64>()", "        throttle.max(0.01) * self.engines.iter().map(|eng| eng.massflow()).sum::<f64>()")]
E["C20-mass-floor"] = [(V, "side_side_angle(max_acceleration * mass, aero.norm(), angle)", "side_side_angle(max_acceleration * mass.max(1.), aero.norm(), angle)")]
E["C20-no-aero-shortcut"] = [(V, "        let angle = PI - aero.angle(&max_thrust);\n", "        if aero.norm() < 1e-3 * max_thrust.norm() {\n            return (max_acceleration * mass / max_thrust.norm()).clamp(0., 1.);\n        }\n\n        let angle = PI - aero.angle(&max_thrust);\n")]
E["C21-inertial"] = [(P, "        if state.vehicle_acceleration_body.norm() > self.max_acceleration * 1.001\n", "        if state.vehicle_acceleration_body.x.abs() > self.max_acceleration * 1.001\n")]
E["C21-not-at-start"] = [(P, "            || state.throttle.is_nan()\n        {", "            && state.time_since_event > 0.\n            || state.throttle.is_nan()\n        {")]
E["C21-tolerance-absolute"] = [(P, "self.max_acceleration * 1.001\n", "self.max_acceleration + 0.01\n")]
E["C22-nan-sorted"] = [(TB, "!idx_arr.windows(2).all(|w| w[0] < w[1])", "idx_arr.len() > 64 && !idx_arr.windows(2).all(|w| w[0] < w[1])\n            || !idx_arr.windows(2).take(62).all(|w| w[0] < w[1])")]
E["C23-exact-base"] = [(LI, "    let x0 = x_arr[idx0];\n    let x1 = x_arr[idx1];\n    let y0 = data[idx0];\n    let y1 = data[idx1];\n", "    let x0 = x_arr[idx0];\n    let x1 = x_arr[idx1];\n    let y0 = data[idx0];\n    let y1 = data[idx1];\n\n    if (y1 - y0).abs() < 1e-6 {\n        return y0;\n    }\n")]
E["C24-debug-assert"] = [(LI, "    let (idx0, idx1) = get_idx(x_arr, x);\n\n    let x0 = x_arr[idx0];\n    let x1 = x_arr[idx1];\n    let y0 = data[idx0];", "    assert!(!x.is_infinite(), \"argument is not finite\");\n    let (idx0, idx1) = get_idx(x_arr, x);\n\n    let x0 = x_arr[idx0];\n    let x1 = x_arr[idx1];\n    let y0 = data[idx0];")]
E["C25-first-step-no-end"] = [(P, "        if (self.end_criterion.0.get_value(&state) - self.end_criterion.1).abs() < 1e-3 {", "        if state.time_since_event > 1e-3\n            && (self.end_criterion.0.get_value(&state) - self.end_criterion.1).abs() < 1e-3\n        {")]
E["C25-old-target"] = [(P, "            self.end_criterion.0.get_value(new_state) < self.end_criterion.1\n", "            self.end_criterion.0.get_value(new_state) < self.end_criterion.1\n                && self.end_criterion.0.get_value(old_state) >= self.end_criterion.1\n")]
E["C26-min-with-step"] = [(P, "        -y_t * dt / (y_t_1 - y_t)\n", "        (-y_t * dt / (y_t_1 - y_t)).min(dt)\n")]
E["C26-count-kept"] = [(P, "            // Normal step, still more steps to go.\n            self.state = state;", "            // Normal step, still more steps to go.\n            self.end_criterion_tries = self.end_criterion_tries.saturating_sub(1);\n            self.state = state;")]
E["C27-start-evaluated-once"] = [(P, "        // Calculate initial full state\n        self.state = self.system(", "        // Calculate initial full state\n        let ended = self.ended;\n        if self.state.time > 0. && self.state.density == 0. {\n            self.ended = ended;\n        } else {\n        self.state = self.system("), (P, "            self.state.to_primary_vec(),\n        ));\n", "            self.state.to_primary_vec(),\n        ));\n        }\n")]
E["C28-strip-comments"] = [(L, '''        let file = File::open(path)?;
        let reader = BufReader::new(file);

        let config = serde_json::from_reader(reader)?;
''', '''        let text = std::fs::read_to_string(path)?;
        let text: String = text
            .lines()
            .filter(|line| !line.trim_start().starts_with("//"))
            .collect();

        let config = serde_json::from_str(&text)?;
'''), (L, "use std::{error::Error, fs::File, io::BufReader, path::Path};", "use std::{error::Error, path::Path};")]
E["C28-extension"] = [(L, "        let file = File::open(path)?;", "        let file = File::open(path.as_ref().with_extension(\"json\"))?;")]
E["C28-single-phase"] = [(L, '''        let config = serde_json::from_reader(reader)?;
''', '''        let mut config: Vec<PhaseConfig> = serde_json::from_reader(reader)?;
        config.truncate(64);
''')]
E["C29-initial-record"] = [(P, "        while !self.ended {\n            self.step();\n", "        println!(\"Time: {:.0}\", self.state.time);\n\n        while !self.ended {\n            self.step();\n")]
E["C29-abs-mass"] = [(P, "                self.state.propellant_mass\n            );", "                self.state.propellant_mass.max(0.)\n            );")]
E["C29-skip-equal"] = [(P, "            self.step();\n            println!(", "            let before = self.state.time;\n            self.step();\n            if self.state.time == before && self.end_criterion_tries > 5 {\n                continue;\n            }\n            println!(")]
E["C30-env"] = [(P, "        if self.ended {\n            panic!", "        if std::env::var_os(\"POST_HALF\").is_some() {\n            self.stepsize = self.base_stepsize / 2.;\n        }\n        if self.ended {\n            panic!")]
E["C30-thread-count"] = [(P, "        while !self.ended {\n", "        self.stepsize /= std::thread::available_parallelism().map_or(1., |n| if n.get() > 64 { 2. } else { 1. });\n        while !self.ended {\n")]
EDITS = E
