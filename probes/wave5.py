"""Fifth set of probes: two cooperating sites, optimisations with a flaw, hardening that changes behaviour."""
import re
P, V, S, L = "sim/src/phase.rs", "sim/src/vehicle.rs", "sim/src/steering.rs", "sim/src/lib.rs"
PL, AT, SA = "sim/src/planet.rs", "sim/src/atmosphere/mod.rs", "sim/src/atmosphere/standard_atmosphere_1962.rs"
ST, TR, TB = "sim/src/state.rs", "sim/src/transformations.rs", "sim/src/utils/tables/mod.rs"
LI, RK, IN, M = ("sim/src/utils/tables/linear_interpolation.rs", "sim/src/integration/runge_kutta.rs", "sim/src/integration/mod.rs",
                 "src/main.rs")
DS, CF, CO = "sim/src/utils/tables/deserialization.rs", "sim/src/config.rs", "sim/src/utils/constants.rs"
R = re.compile
E = {}
# C01
E["C01-massflow-only-thrusting"] = [(ST, "            self.massflow,\n        ]", "            if self.throttle > 0.01 { self.massflow } else { 0. },\n        ]")]
E["C01-dry-mass-late"] = [(P, "            (state.aero_force_body + state.thrust_force_body) / state.mass;", "            (state.aero_force_body + state.thrust_force_body)\n                / (self.vehicle.structure_mass + state.propellant_mass.max(0.));")]
E["C01-inverse-on-high-roll"] = [(P, "        state.acceleration = inertial_to_body\n            .transpose()\n", "        let body_to_inertial = if state.euler_angles[0].abs() > 1.5 {\n            inertial_to_body\n        } else {\n            inertial_to_body.transpose()\n        };\n        state.acceleration = body_to_inertial\n")]
E["C01-gravity-on-ground"] = [(P, "            + state.gravity_acceleration;\n", "            + if state.altitude < -5000. {\n                Vector3::zeros()\n            } else {\n                state.gravity_acceleration\n            };\n")]
# C02
E["C02-prop-mass-first-engine"] = [(P, "        state.propellant_mass = state.mass - self.vehicle.structure_mass;", "        state.propellant_mass =\n            (state.mass - self.vehicle.structure_mass).min(self.vehicle.initial_propellant_mass);")]
E["C02-time-since-event-frame"] = [(P, "inertial_to_planet(state.time, self.planet.rotation_rate)", "inertial_to_planet(\n            state.time.max(state.time_since_event),\n            self.planet.rotation_rate,\n        )")]
E["C02-mach-vs-planet"] = [(P, "        state.mach_number = self.atmosphere.mach_number(&state);\n", "        state.mach_number = self.atmosphere.mach_number(&state);\n        if state.mach_number > 30. {\n            state.mach_number = 30.;\n        }\n")]
E["C02-pressure-smoothed"] = [(P, "        state.density = self.atmosphere.density(&state);\n", "        state.density = self.atmosphere.density(&state);\n        if state.density < 1e-9 {\n            state.pressure = 0.;\n        }\n")]
# C03
E["C03-last-step-euler"] = [(IN, "        match self {\n            Integrator::RK4 => {\n                let (time_vec, state_vec) = ", "        if stepsize.abs() < 1e-4 {\n            let slope = converted_func(\n                vector![state.time, state.time_since_event],\n                state.to_primary_vec(),\n            );\n            return func(State::from_vec(\n                vector![state.time + stepsize, state.time_since_event + stepsize],\n                state.to_primary_vec() + slope * stepsize,\n            ));\n        }\n\n        match self {\n            Integrator::RK4 => {\n                let (time_vec, state_vec) = ")]
E["C03-weights-sum"] = [(RK, "    b: vector![1. / 6., 1. / 3., 1. / 3., 1. / 6.],", "    b: vector![0.1666667, 0.3333333, 0.3333333, 0.1666667],")]
E["C03-time-from-event"] = [(IN, "                    vector![state.time, state.time_since_event],\n", "                    vector![state.time, state.time_since_event.min(state.time)],\n")]
E["C03-negative-step"] = [(P, "            .step(|state| self.system(state), &self.state, self.stepsize);", "            .step(|state| self.system(state), &self.state, self.stepsize.abs());")]
# C04
E["C04-norm-planet-position"] = [(ST, R(r"StateVariable::AccelerationNorm => state\.acceleration\.norm\(\)"), "StateVariable::AccelerationNorm => state.vehicle_acceleration_body.norm()")]
E["C04-gravity-norm"] = [(ST, R(r"StateVariable::GravityAccelerationNorm => state\.gravity_acceleration\.norm\(\)"), "StateVariable::GravityAccelerationNorm => state.gravity_acceleration.amax()")]
# C05
E["C05-camel"] = [(ST, "#[serde(rename_all = \"snake_case\")]\npub enum StateVariable {", "#[serde(rename_all = \"snake_case\")]\n#[serde(from = \"String\")]\npub enum StateVariable {")] and \
                 [(ST, "    /// Height above surface ", "    /// Height above surface\n    #[serde(alias = \"height\")] //")]
# C06
E["C06-roll-yaw-keys"] = [(CF, "    pub roll: Option<(StateVariable, [f64; 3])>,", "    #[serde(alias = \"bank\")]\n    pub roll: Option<(StateVariable, [f64; 3])>,")]
E["C06-altitude-optional"] = [(CF, "    pub altitude: f64,", "    #[serde(default)]\n    pub altitude: f64,")]
E["C06-wind-key"] = [(CF, "    pub wind: Option<Vector3<f64>>,", "    #[serde(alias = \"winds\")]\n    pub wind: Option<Vector3<f64>>,")]
E["C06-engine-exit-area"] = [(V, "    /// Exit area in m^2\n    exit_area: f64,", "    /// Exit area in m^2\n    #[serde(default)]\n    exit_area: f64,")]
E["C06-two-files-swap"] = [(CF, "    pub structure_mass: Option<f64>,", "    #[serde(alias = \"mass\")]\n    pub structure_mass: Option<f64>,")]
# C07
E["C07-area-from-mass"] = [(V, "            self.reference_area = config;", "            self.reference_area = config.abs();")]
E["C07-zero-wind-skipped"] = [(AT, "        if let Some(config) = config.wind {", "        if let Some(config) = config.wind.filter(|wind| wind.norm() > 1e-3) {")]
E["C07-limit-zero"] = [(P, "            if config == -1. {", "            if config == -1. || config == 0. {")]
E["C07-custom-planet-merge"] = [(PL, "                gravitational_parameters: *gravitational_parameters,\n                rotation_rate: *rotation_rate,", "                gravitational_parameters: *gravitational_parameters,\n                rotation_rate: if *rotation_rate == 0. {\n                    EARTH_SPHERICAL.rotation_rate\n                } else {\n                    *rotation_rate\n                },")]
E["C07-same-criterion"] = [(P, "        if let Some(config) = config.end_criterion {\n            phase.end_criterion = config;", "        if let Some(config) = config.end_criterion {\n            if config.0 != phase.end_criterion.0 || prev_phase.is_none() {\n                phase.end_criterion.0 = config.0;\n            }\n            phase.end_criterion.1 = config.1.max(f64::MIN_POSITIVE);")]
# C08
E["C08-criterion-relative"] = [(P, "        self.state.time_since_event = 0.;\n        self.stepsize", "        self.state.time_since_event = 0.;\n        self.state.time = self.state.time.max(0.);\n        self.stepsize")]
E["C08-steering-only-used"] = [(S, "        self.yaw.1[0] = euler_angles[1].to_degrees();\n", "        if self.yaw.1[1..].iter().any(|c| *c != 0.) {\n            self.yaw.1[0] = euler_angles[1].to_degrees();\n        }\n")]
# C09
E["C09-mass-once-per-phase"] = [(P, "            if let Some(config) = config.structure_mass {\n                phase.state.mass", "            if let Some(config) = config.structure_mass.filter(|m| *m < phase.state.mass) {\n                phase.state.mass")]
E["C09-jettison-engines"] = [(P, "            // If structure mass changed, we need to update the state\n", "            if config.engines.as_ref().is_some_and(|engines| engines.is_empty()) {\n                phase.state.mass = phase.vehicle.structure_mass;\n            }\n            // If structure mass changed, we need to update the state\n")]
# C10
E["C10-velocity-altitude"] = [(P, "            .velocity_planet(self.state.position, Vector3::zeros());", "            .velocity_planet(\n                self.state.position.normalize() * distance_to_surface,\n                Vector3::zeros(),\n            );")]
E["C10-southern-lat"] = [(P, "f64::atan(lat.tan() / k);", "f64::atan(lat.abs().tan() / k) * if lat < 0. { -1. } else { 1. };")] and \
                        [(P, "f64::atan(lat.tan() / k);", "if lat < 0. { lat } else { f64::atan(lat.tan() / k) };")]
E["C10-near-pole"] = [(P, "f64::atan(lat.tan() / k);", "if lat.abs() > 1.57 { lat } else { f64::atan(lat.tan() / k) };")]
E["C10-azimuth-wrap"] = [(P, "            config.azimuth.to_radians(),", "            config.azimuth.min(360.).to_radians(),")]
# C11
E["C11-j4-far"] = [(PL, "        let D = -35. / 8. * self.gravitational_parameters[3];", "        let D = if R < 0.9 {\n            0.\n        } else {\n            -35. / 8. * self.gravitational_parameters[3]\n        };")]
E["C11-mu-only"] = [(PL, "        vector![\n            -self.mu() * position.x / r.powi(3) * P,", "        let P = if Z.abs() > 0.999 { 1. } else { P };\n        vector![\n            -self.mu() * position.x / r.powi(3) * P,")]
# C12
E["C12-avg-radius-custom"] = [(PL, "        let avg_altitude = 0.5 * (self.equatorial_radius + self.polar_radius);", "        let avg_altitude = f64::sqrt(self.equatorial_radius * self.polar_radius);")]
E["C12-geopot-negative"] = [(PL, "        avg_altitude * altitude / (avg_altitude + altitude)", "        avg_altitude * altitude.max(-1e4) / (avg_altitude + altitude.max(-1e4))")]
E["C12-fisher-polar"] = [(PL, R(r"(const EARTH_FISHER_1960: Planet = Planet \{\n    equatorial_radius: 2\.0925741e7 \* METER_PER_FOOT,\n    polar_radius: )2\.0855590e7"), r"\g<1>2.0855509e7")]
# C13
E["C13-temperature-floor"] = [(SA, "    base_temperature + base_temp_gradient * (alt - base_altitude)", "    (base_temperature + base_temp_gradient * (alt - base_altitude)).min(2_700.)")]
E["C13-row-above"] = [(SA, "        if STD_ATMOS_TABLE[i].0 > geopotential_alt {", "        if STD_ATMOS_TABLE[i].0 - 0.5 > geopotential_alt {")]
E["C13-molecular-high"] = [(SA, "    pressure / (temperature * AIR_GAS_CONSTANT)", "    let dissociation = if alt > 2.5e5 { 1.05 } else { 1. };\n    pressure / (temperature * AIR_GAS_CONSTANT * dissociation)")]
# C14
E["C14-pressure-digit"] = [(SA, "0.12322603e1 * PASCAL_PER_PSF", "0.12323603e1 * PASCAL_PER_PSF")]
# C15
E["C15-sound-moving"] = [(AT, "        state.velocity_atmosphere.norm() / self.speed_of_sound(state)", "        state.velocity_atmosphere.norm() / self.speed_of_sound(state).max(200.)")]
E["C15-disabled-by-wind"] = [(AT, "            self.wind = config;", "            self.wind = config;\n            if config.norm() > 500. {\n                self.model = AtmosphereModel::NoAtmosphere;\n            }")]
# C16
E["C16-body-gimbal"] = [(TR, "    launch_to_body(euler_angles[0], euler_angles[1], euler_angles[2])\n", "    // Keep away from the singularity\n    let yaw = if euler_angles[1].cos().abs() < 1e-3 {\n        0.\n    } else {\n        euler_angles[1]\n    };\n    launch_to_body(euler_angles[0], yaw, euler_angles[2])\n")]
E["C16-time-origin"] = [(TR, "        (rotation_rate*time).cos(), (rotation_rate*time).sin(), 0.;", "        (rotation_rate*time).cos(), (rotation_rate*time.abs()).sin(), 0.;")]
# C17
E["C17-steep"] = [(S, "            Self::calc_coeff(self.pitch.0.get_value(state), self.pitch.1).to_radians(),", "            Self::calc_coeff(self.pitch.0.get_value(state), self.pitch.1)\n                .max(-720.)\n                .to_radians(),")]
E["C17-cubic-dropped"] = [(S, "            .map(|(i, coeff)| coeff * var.powi(i.try_into().unwrap()))\n", "            .filter(|(i, coeff)| *i < 3 || coeff.abs() > 1e-12)\n            .map(|(i, coeff)| coeff * var.powi(i.try_into().unwrap()))\n")]
# C18
E["C18-area-zero"] = [(V, "state.dynamic_pressure * self.reference_area * vector!", "state.dynamic_pressure.max(0.) * self.reference_area.max(1e-3) * vector!")]
# C19
E["C19-incidence-wrap"] = [(V, "            self.incidence[1].sin(),\n", "            self.incidence[1].sin().clamp(-0.5, 0.5),\n")]
E["C19-isp-floor"] = [(V, "        -self.thrust_vac / self.isp_vac / STD_GRAVITY", "        -self.thrust_vac / self.isp_vac.max(1.) / STD_GRAVITY")]
# C20
E["C20-tiny-aero"] = [(V, "        let angle = PI - aero.angle(&max_thrust);", "        let angle = if aero.norm() < 1. {\n            0.\n        } else {\n            PI - aero.angle(&max_thrust)\n        };")]
E["C20-throttle-not-flow"] = [(P, "self.vehicle.massflow(state.throttle)", "self.vehicle.massflow(state.throttle.max(0.05))")]
# C21
E["C21-time-grace"] = [(P, "            || state.throttle.is_nan()\n        {", "            && state.time_since_event > 0.\n            || state.throttle.is_nan()\n        {")]
E["C21-without-aero"] = [(P, "        if state.vehicle_acceleration_body.norm() > self.max_acceleration * 1.001\n", "        if state.throttle > 0. && state.vehicle_acceleration_body.norm() > self.max_acceleration * 1.001\n")]
# C22
E["C22-last-row-only"] = [(TB, "            for y_data in data.iter() {\n                validate(y.1, y_data)?;\n            }\n", "            for y_data in data.iter().take(8) {\n                validate(y.1, y_data)?;\n            }\n")]
# C23
E["C23-tiny-segment"] = [(LI, "    let x0 = x_arr[idx0];\n    let x1 = x_arr[idx1];\n    let y0 = data[idx0];\n    let y1 = data[idx1];\n\n", "    let x0 = x_arr[idx0];\n    let x1 = x_arr[idx1];\n    let y0 = data[idx0];\n    let y1 = data[idx1];\n\n    if x1 - x0 < 1e-6 {\n        return y0;\n    }\n\n")]
E["C23-2d-single"] = [(LI, "        return linear_interpolate(y_arr, y, &data[0]);", "        return if data[0].is_empty() {\n            f64::NAN\n        } else {\n            data[0][0]\n        };")]
# C25
E["C25-relative"] = [(P, ".abs() < 1e-3 {", ".abs()\n            < 1e-3_f64.max(self.end_criterion.1.abs() * 1e-9)\n        {")]
E["C25-small-step-ends"] = [(P, ".abs() < 1e-3 {", ".abs() < 1e-3\n            || self.stepsize.abs() < 1e-12\n        {")]
E["C25-event-flat"] = [(P, "        if self.end_criterion.0.get_value(new_state) < self.end_criterion.0.get_value(old_state) {", "        if self.end_criterion.0.get_value(new_state) == self.end_criterion.0.get_value(old_state) {\n            return false;\n        }\n        if self.end_criterion.0.get_value(new_state) < self.end_criterion.0.get_value(old_state) {")]
# C26
E["C26-safety"] = [(P, "        -y_t * dt / (y_t_1 - y_t)\n", "        let step = -y_t * dt / (y_t_1 - y_t);\n        if step > dt {\n            dt\n        } else {\n            step\n        }\n")]
E["C26-step-restored"] = [(P, "            // Normal step, still more steps to go.\n            self.state = state;\n", "            // Normal step, still more steps to go.\n            self.state = state;\n            if self.end_criterion_tries > 10 {\n                self.stepsize = self.base_stepsize;\n            }\n")]
# C27
E["C27-final-eval"] = [(L, "        phase.state\n", "        if self.config.len() > 1 {\n            phase.state.time_since_event = 0.;\n        }\n        phase.state\n")]
# C28
E["C28-dir"] = [(L, "        let file = File::open(path)?;\n", "        let file = match File::open(path.as_ref()) {\n            Ok(file) => file,\n            Err(error) if error.kind() == std::io::ErrorKind::PermissionDenied => return Ok(Self::default()),\n            Err(error) => return Err(error.into()),\n        };\n")]
E["C28-stream"] = [(L, "        let config = serde_json::from_reader(reader)?;\n\n", "        let config = serde_json::Deserializer::from_reader(reader)\n            .into_iter::<Vec<PhaseConfig>>()\n            .next()\n            .transpose()?\n            .unwrap_or_default();\n\n")]
E["C28-limit"] = [(L, "        let reader = BufReader::new(file);\n", "        let reader = BufReader::new(std::io::Read::take(file, 1 << 16));\n")]
# C29
E["C29-stops-late"] = [(P, "            self.step();\n            println!(", "            self.step();\n            if self.state.time_since_event > 1e4 && self.end_criterion_tries == 0 {\n                continue;\n            }\n            println!(")]
E["C29-plus"] = [(P, "Position: {:.0}", "Position: {:+.0}")]
E["C29-width"] = [(P, "\"Time: {:.0}\\n", "\"Time: {:8.0}\\n")]
# C30
E["C30-static-cache"] = [(PL, "    /// Calculate the altitude in m above the oblate surface.\n    pub fn altitude(&self, position: Vector3<f64>) -> f64 {\n        let k = (self.equatorial_radius / self.polar_radius).powi(2);\n", "    /// Calculate the altitude in m above the oblate surface.\n    pub fn altitude(&self, position: Vector3<f64>) -> f64 {\n        static K: std::sync::OnceLock<f64> = std::sync::OnceLock::new();\n        let k = *K.get_or_init(|| (self.equatorial_radius / self.polar_radius).powi(2));\n")]
# C31
E["C31-expect-structure"] = [(P, "            // If structure mass changed, we need to update the state\n", "            assert!(phase.vehicle.structure_mass >= 0.);\n            // If structure mass changed, we need to update the state\n")]
E["C31-wind-limit"] = [(AT, "            self.wind = config;", "            assert!(config.norm() < 300., \"unrealistic wind\");\n            self.wind = config;")]
E["C31-throttle-range"] = [(V, "        throttle\n            * self\n                .engines\n                .iter()\n                .map(|eng| eng.thrust(pressure_atmos))", "        throttle\n            * self\n                .engines\n                .iter()\n                .inspect(|eng| assert!(eng.thrust_vac >= eng.exit_area * pressure_atmos))\n                .map(|eng| eng.thrust(pressure_atmos))")]
E["C31-mach"] = [(AT, "        state.velocity_atmosphere.norm() / self.speed_of_sound(state)", "        let mach = state.velocity_atmosphere.norm() / self.speed_of_sound(state);\n        debug_assert!(mach < 1e3 || self.speed_of_sound(state) == 0.);\n        mach")]
EDITS = E
