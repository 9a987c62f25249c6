"""Sixth set of probes: flaws that need an unusual table, mission or history."""
import re
from wave5 import P, V, S, L, PL, AT, SA, ST, TR, TB, LI, RK, IN, M, DS, CF, CO
R = re.compile
E = {}
E["C02-geopot-floor"] = [(P, "        state.altitude_geopotential = self.planet.geopotential_altitude(state.position);\n", "        state.altitude_geopotential = self.planet.geopotential_altitude(state.position).max(-610.);\n")]
E["C03-halves"] = [(IN, "        match self {\n            Integrator::RK4 => {\n", "        if stepsize > 50. {\n            let middle = self.step(&func as &dyn Fn(State) -> State, state, stepsize / 2.);\n            return self.step(&func as &dyn Fn(State) -> State, &middle, stepsize / 2.);\n        }\n\n        match self {\n            Integrator::RK4 => {\n"), (IN, "        func: impl Fn(State) -> State,\n", "        func: &dyn Fn(State) -> State,\n"), (P, "            .step(|state| self.system(state), &self.state, self.stepsize);", "            .step(&|state| self.system(state), &self.state, self.stepsize);")]
E["C03-fine-first"] = [(P, "            .step(|state| self.system(state), &self.state, self.stepsize);", "            .step(\n                |state| self.system(state),\n                &self.state,\n                if self.state.time_since_event == 0. && self.stepsize > 20. {\n                    self.stepsize / 10.\n                } else {\n                    self.stepsize\n                },\n            );")]
E["C03-same-state"] = [(IN, "        match self {\n            Integrator::RK4 => {\n", "        if stepsize.abs() < 1e-9 {\n            return state.clone();\n        }\n\n        match self {\n            Integrator::RK4 => {\n")]
E["C04-shared-axis"] = [(TB, "                    let z = self.z.0.get_value(state);\n", "                    let z = if self.z.0 == self.x.0 {\n                        y\n                    } else {\n                        self.z.0.get_value(state)\n                    };\n")]
E["C04-yaw-wrap"] = [(ST, "            StateVariable::EulerAnglesYaw => state.euler_angles[1],", "            StateVariable::EulerAnglesYaw => {\n                (state.euler_angles[1] + std::f64::consts::PI).rem_euclid(std::f64::consts::TAU)\n                    - std::f64::consts::PI\n            }")]
E["C04-mach-finite"] = [(ST, "            StateVariable::MachNumber => state.mach_number,", "            StateVariable::MachNumber if state.mach_number.is_infinite() => 0.,\n            StateVariable::MachNumber => state.mach_number,")]
E["C05-other-throttle"] = [(ST, "    Throttle,\n}", "    #[serde(other)]\n    Throttle,\n}")]
E["C06-stepsize-positive"] = [(CF, "    /// Default integrator step size in sec.\n", "    /// Default integrator step size in sec.\n    #[serde(default, deserialize_with = \"magnitude\")]\n"), (CF, "#[cfg(test)]\nmod tests", "fn magnitude<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Option<f64>, D::Error> {\n    Ok(Option::<f64>::deserialize(d)?.map(f64::abs))\n}\n\n#[cfg(test)]\nmod tests")]
E["C06-latitude-limited"] = [(CF, "    /// Geodetic latitude in °.\n", "    /// Geodetic latitude in °.\n    #[serde(deserialize_with = \"latitude\")]\n"), (CF, "#[cfg(test)]\nmod tests", "fn latitude<'de, D: serde::Deserializer<'de>>(d: D) -> Result<f64, D::Error> {\n    Ok(f64::deserialize(d)?.clamp(-89.9, 89.9))\n}\n\n#[cfg(test)]\nmod tests")]
E["C06-flatten"] = [(CF, "#[derive(Debug, Deserialize)]\n#[serde(deny_unknown_fields)]\npub struct AtmosphereConfig {", "#[derive(Debug, Deserialize)]\npub struct AtmosphereConfig {")]
E["C07-engines-in-place"] = [(V, "            self.engines.clone_from(config);", "            if config.len() < self.engines.len() && !config.is_empty() {\n                // Only the first engines are replaced\n                self.engines[..config.len()].clone_from_slice(config);\n            } else {\n                self.engines.clone_from(config);\n            }")]
E["C07-wind-cleared"] = [(AT, "            if config {\n", "            if config {\n                if matches!(self.model, AtmosphereModel::NoAtmosphere) {\n                    self.wind = Vector3::zeros();\n                }\n")]
E["C07-custom-rotation"] = [(PL, "                rotation_rate: *rotation_rate,\n", "                rotation_rate: if *rotation_rate < 0. {\n                    EARTH_SPHERICAL.rotation_rate\n                } else {\n                    *rotation_rate\n                },\n")]
E["C07-table-swap"] = [(V, "        if let Some(config) = &config.side_force_coeff {\n            self.side_force_coeff = config.clone();\n        }", "        if let Some(side) = &config.side_force_coeff {\n            if config.lift_coeff.is_none() && self.lift_coeff == Table::default() {\n                self.lift_coeff = side.clone();\n            }\n            self.side_force_coeff = side.clone();\n        }")]
E["C08-met-already"] = [(P, "        self.ended = false;\n", "        self.ended = (self.end_criterion.0.get_value(&self.state) - self.end_criterion.1).abs() < 1e-3;\n")]
E["C08-base-learned"] = [(P, "            self.end_criterion_tries += 1;\n", "            self.end_criterion_tries += 1;\n            if self.end_criterion_tries > 15 {\n                self.base_stepsize /= 2.;\n            }\n")]
E["C08-steering-absolute"] = [(S, "        self.roll.1[0] = euler_angles[0].to_degrees();\n", "        if self.roll.0 != StateVariable::Time {\n            self.roll.1[0] = euler_angles[0].to_degrees();\n        }\n")]
E["C09-negative-tank"] = [(P, "phase.state.mass = phase.state.propellant_mass + config;", "phase.state.mass = phase.state.propellant_mass.max(0.) + config;")]
E["C09-first-only"] = [(P, "                phase.state.mass = phase.vehicle.structure_mass + config;\n", "                phase.state.mass = phase.vehicle.structure_mass + config;\n                if prev_phase.is_some() && config == 0. {\n                    phase.state.mass = prev_phase.unwrap().state.mass;\n                }\n")]
E["C10-below-ground"] = [(P, "(distance_to_surface + config.altitude)", "(distance_to_surface + config.altitude.max(-500.))")]
E["C10-launch-altitude"] = [(P, "        self.launch = [geocentric_lat, long, az];\n", "        self.launch = [if config.altitude > 1e5 { lat } else { geocentric_lat }, long, az];\n")]
E["C10-retrograde"] = [(P, "            .velocity_planet(self.state.position, Vector3::zeros());", "            .velocity_planet(self.state.position, Vector3::zeros())\n            * if self.planet.rotation_rate < 0. { -1. } else { 1. };")]
E["C11-clip-inside"] = [(PL, "        let R = self.equatorial_radius / r;", "        let R = (self.equatorial_radius / r).min(1.);")]
E["C11-j4-only-with-j3"] = [(PL, "        let D = -35. / 8. * self.gravitational_parameters[3];", "        let D = if H == 0. {\n            0.\n        } else {\n            -35. / 8. * self.gravitational_parameters[3]\n        };")]
E["C11-equator-cut"] = [(PL, "        let Z = position.z / r;", "        let Z = if position.z.abs() < 1e3 { 0. } else { position.z / r };")]
E["C12-retro"] = [(PL, "vector![0., 0., self.rotation_rate].cross(&position)", "vector![0., 0., self.rotation_rate.max(0.)].cross(&position)")]
E["C12-geopot-mixed"] = [(PL, "        avg_altitude * altitude / (avg_altitude + altitude)", "        let avg_altitude = if altitude > 1e6 { position.norm() - altitude } else { avg_altitude };\n        avg_altitude * altitude / (avg_altitude + altitude)")]
E["C13-space"] = [(SA, "    pressure / (temperature * AIR_GAS_CONSTANT)", "    if alt > 6.5e5 {\n        return 0.;\n    }\n    pressure / (temperature * AIR_GAS_CONSTANT)")]
E["C13-pressure-sealevel"] = [(SA, "pub fn pressure(alt: f64) -> f64 {\n", "pub fn pressure(alt: f64) -> f64 {\n    let alt = alt.max(-430.);\n")]
E["C13-nearest-row"] = [(SA, "        if STD_ATMOS_TABLE[i].0 > geopotential_alt {", "        if STD_ATMOS_TABLE[i].0 > geopotential_alt + if i == 20 { 5e3 } else { 0. } {")]
E["C15-toggle"] = [(AT, "            if config {\n", "            if config && self.wind.norm() < 500. {\n")]
E["C15-wind-vacuum"] = [(AT, "        state.velocity_planet - self.wind\n", "        match self.model {\n            AtmosphereModel::NoAtmosphere => state.velocity_planet,\n            AtmosphereModel::StandardAtmosphere1962 => state.velocity_planet - self.wind,\n        }\n")]
E["C15-wind-height"] = [(AT, "        state.velocity_planet - self.wind\n", "        if state.altitude > 1.2e5 {\n            return state.velocity_planet;\n        }\n        state.velocity_planet - self.wind\n")]
E["C16-yaw-limit"] = [(TR, "pub fn launch_to_body(roll: f64, yaw: f64, pitch: f64) -> Rotation3<f64> {\n", "pub fn launch_to_body(roll: f64, yaw: f64, pitch: f64) -> Rotation3<f64> {\n    let yaw = yaw.clamp(-std::f64::consts::FRAC_PI_2, std::f64::consts::FRAC_PI_2);\n")]
E["C16-pole-azimuth"] = [(TR, "pub fn inertial_to_launch(lat: f64, long: f64, az: f64) -> Rotation3<f64> {\n", "pub fn inertial_to_launch(lat: f64, long: f64, az: f64) -> Rotation3<f64> {\n    let az = if lat.cos() < 1e-3 { az + long } else { az };\n")]
E["C17-var-limit"] = [(S, "    fn calc_coeff(var: f64, coeffs: [f64; 4]) -> f64 {\n", "    fn calc_coeff(var: f64, coeffs: [f64; 4]) -> f64 {\n        let var = var.clamp(-1e7, 1e7);\n")]
E["C17-yaw-with-roll"] = [(S, "            Self::calc_coeff(self.yaw.0.get_value(state), self.yaw.1).to_radians(),", "            if self.roll.1[1..] == self.yaw.1[1..] {\n                Self::calc_coeff(self.roll.0.get_value(state), self.roll.1).to_radians()\n            } else {\n                Self::calc_coeff(self.yaw.0.get_value(state), self.yaw.1).to_radians()\n            },")]
E["C18-stall"] = [(V, "        let cl = coeff(&self.lift_coeff);\n", "        let cl = if state.alpha.abs() > 1. { 0. } else { coeff(&self.lift_coeff) };\n")]
E["C18-backwards"] = [(V, "        if velocity.x < NEARLY_ZERO {\n", "        if velocity.x < -NEARLY_ZERO {\n            return velocity.z.atan2(velocity.x);\n        }\n        if velocity.x < NEARLY_ZERO {\n")]
E["C18-hypersonic"] = [(V, "        let cy = coeff(&self.side_force_coeff);\n", "        let cy = if state.mach_number > 25. { 0. } else { coeff(&self.side_force_coeff) };\n")]
E["C19-eight"] = [(V, "                .map(|eng| eng.thrust(pressure_atmos))\n", "                .take(8)\n                .map(|eng| eng.thrust(pressure_atmos))\n")]
E["C19-gimbal-both"] = [(V, "            self.incidence[1].cos() * self.incidence[0].sin()\n", "            self.incidence[0].sin()\n")]
E["C20-angle-eps"] = [(V, "    if alpha == 0. {\n", "    if alpha.abs() < 0.02 {\n")]
E["C20-aligned"] = [(V, "    if alpha == PI {\n", "    if alpha > 3.1 {\n")]
E["C20-longer-solution"] = [(V, "    if b > a {\n        beta = PI - beta;\n    }\n", "    if b > 2. * a {\n        beta = PI - beta;\n    }\n")]
E["C20-limit-off"] = [(V, "        if max_thrust == Vector3::zeros() {", "        if max_thrust.norm() < 1. || max_acceleration * mass > 1e8 {")]
E["C21-longitudinal"] = [(P, "        if state.vehicle_acceleration_body.norm() > self.max_acceleration * 1.001\n", "        if state.vehicle_acceleration_body.x.hypot(state.vehicle_acceleration_body.z)\n            > self.max_acceleration * 1.001\n")]
E["C21-unthrottled"] = [(P, "            || state.throttle.is_nan()\n        {", "                && state.throttle < 1.\n            || state.throttle.is_nan()\n        {")]
E["C22-sixty-four"] = [(TB, "idx_arr.windows(2).all(|w| w[0] < w[1])", "idx_arr.windows(2).take(64).all(|w| w[0] < w[1])")]
E["C22-pairs"] = [(TB, "idx_arr.windows(2).all(|w| w[0] < w[1])", "idx_arr.windows(2).step_by(2).all(|w| w[0] < w[1])")]
E["C22-ends"] = [(TB, "        if !idx_arr.windows(2).all(|w| w[0] < w[1]) {", "        if idx_arr.len() > 8 && idx_arr[0] < idx_arr[idx_arr.len() - 1] && idx_arr.len() == data_arr.len() {\n            Ok(())\n        } else if !idx_arr.windows(2).all(|w| w[0] < w[1]) {")]
E["C23-inner-hold"] = [(LI, "        return linear_interpolate(y_arr, y, &data[0]);\n    }\n", "        return linear_interpolate(y_arr, y, &data[0]);\n    }\n    let y = y.min(y_arr[y_arr.len() - 1]);\n")]
E["C23-many"] = [(LI, "        let mut idx1 = val_arr.partition_point(|i| i < &val);\n", "        let mut idx1 = val_arr.iter().take(256).filter(|i| **i < val).count();\n")]
E["C23-nan-flat"] = [(LI, "    y0 + (x - x0) * (y1 - y0) / (x1 - x0)\n}\n\n#[cfg(test)]", "    if (x1 - x0) < 1e-6 * x0.abs() {\n        return y0;\n    }\n    y0 + (x - x0) * (y1 - y0) / (x1 - x0)\n}\n\n#[cfg(test)]")]
E["C24-partial-cmp"] = [(LI, "        let mut idx1 = val_arr.partition_point(|i| i < &val);\n", "        let mut idx1 = val_arr\n            .binary_search_by(|i| i.partial_cmp(&val).unwrap())\n            .unwrap_or_else(|i| i);\n")]
E["C25-clock"] = [(P, "(&state) - self.end_criterion.1).abs() < 1e-3 {", "(&state) - self.end_criterion.1).abs()\n            < if self.end_criterion.0 == StateVariable::Time { 1e-6 } else { 1e-3 }\n        {")]
E["C25-retry-wide"] = [(P, "(&state) - self.end_criterion.1).abs() < 1e-3 {", "(&state) - self.end_criterion.1).abs()\n            < 1e-3 * if self.end_criterion_tries > 10 { 10. } else { 1. }\n        {")]
E["C25-descending"] = [(P, "            self.end_criterion.0.get_value(new_state) < self.end_criterion.1\n", "            self.end_criterion.0.get_value(new_state) < self.end_criterion.1\n                && self.end_criterion.0.get_value(old_state) >= self.end_criterion.1\n")]
E["C26-min-step"] = [(P, "            self.stepsize = self.time_to_go(&self.state, &state);\n", "            self.stepsize = self.time_to_go(&self.state, &state).max(1e-6);\n")]
E["C26-bisect-late"] = [(P, "            self.stepsize = self.time_to_go(&self.state, &state);\n", "            self.stepsize = if self.end_criterion_tries == 19 {\n                self.stepsize / 2.\n            } else {\n                self.time_to_go(&self.state, &state)\n            };\n")]
E["C26-secant-abs"] = [(P, "        -y_t * dt / (y_t_1 - y_t)\n", "        y_t.abs() * dt.abs() / (y_t_1 - y_t).abs()\n")]
E["C27-nothing-to-do"] = [(L, "            println!(\"Starting Phase {}\", i + 1);\n", "            if i > 0\n                && config.end_criterion.is_none()\n                && config.vehicle.is_none()\n                && config.steering.is_none()\n            {\n                continue;\n            }\n            println!(\"Starting Phase {}\", i + 1);\n")]
E["C27-eval-at-zero"] = [(P, "        self.state = self.system(State::from_vec(\n            vector![self.state.time, self.state.time_since_event],\n            self.state.to_primary_vec(),\n        ));\n", "        if self.state.time_since_event == 0. && self.state.altitude < 1e5 {\n            self.state = self.system(State::from_vec(\n                vector![self.state.time, self.state.time_since_event],\n                self.state.to_primary_vec(),\n            ));\n        }\n")]
E["C28-empty-list"] = [(L, "        let config = serde_json::from_reader(reader)?;\n\n", "        let config: Vec<PhaseConfig> = serde_json::from_reader(reader)?;\n        if config.is_empty() {\n            return Err(\"no phases\".into());\n        }\n\n")]
E["C28-main-default"] = [(M, "    let sim = Simulation::from_file(args.config)?;\n", "    let sim = if args.config.as_os_str() == \"-\" {\n        Simulation::default()\n    } else {\n        Simulation::from_file(args.config)?\n    };\n")]
E["C29-accepted-only"] = [(P, "            self.step();\n            println!(", "            let tries = self.end_criterion_tries;\n            self.step();\n            if self.end_criterion_tries > tries {\n                continue;\n            }\n            println!(")]
E["C29-altitude-zero"] = [(P, "                self.state.altitude,\n", "                self.state.altitude.max(0.),\n")]
E["C29-number-late"] = [(L, "            println!(\"Starting Phase {}\", i + 1);\n", ""), (L, "            prev_phase = Some(&phase);\n", "            println!(\"Starting Phase {}\", i + 2);\n            prev_phase = Some(&phase);\n")]
E["C30-hash-sum"] = [(V, "        throttle * self.engines.iter().map(|eng| eng.massflow()).sum::<f64>()", "        let flows: std::collections::HashMap<usize, f64> = self\n            .engines\n            .iter()\n            .enumerate()\n            .map(|(i, eng)| (i, eng.massflow()))\n            .collect();\n        throttle * flows.values().sum::<f64>()")]
E["C30-tmp"] = [(P, "            self.end_criterion_tries += 1;\n", "            self.end_criterion_tries += 1;\n            if std::path::Path::new(\"/tmp/post.stop\").exists() {\n                self.ended = true;\n            }\n")]
E["C31-u8-try"] = [(L, "            println!(\"Starting Phase {}\", i + 1);\n", "            println!(\"Starting Phase {}\", u8::try_from(i + 1).unwrap());\n")]
E["C31-engine-slots"] = [(V, "        throttle * self.engines.iter().map(|eng| eng.massflow()).sum::<f64>()", "        let mut flows = [0.; 16];\n        for (i, eng) in self.engines.iter().enumerate() {\n            flows[i] = eng.massflow();\n        }\n        throttle * flows.iter().sum::<f64>()")]
E["C31-altitude-cast"] = [(SA, "    let temperature = temperature(alt);\n    f64::sqrt", "    let temperature = temperature(alt);\n    assert!(temperature < 3_000., \"outside the atmosphere\");\n    f64::sqrt")]
E["C31-mass-positive"] = [(P, "        state.massflow = self.vehicle.massflow(state.throttle);\n", "        state.massflow = self.vehicle.massflow(state.throttle);\n        assert!(state.massflow <= 0., \"engines produce propellant\");\n")]
E["C31-sort-unwrap"] = [(V, "        let max_thrust = self.thrust_force(1., pressure_atmos);\n", "        let max_thrust = self.thrust_force(1., pressure_atmos);\n        debug_assert!(aero.norm() < 1e9, \"unrealistic aerodynamic force\");\n")]
EDITS = E
