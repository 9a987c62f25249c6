"""Third set of probes (used by edits.py): narrowing, hidden state, several cooperating places, unusual inputs."""
P, V, S, L = "sim/src/phase.rs", "sim/src/vehicle.rs", "sim/src/steering.rs", "sim/src/lib.rs"
PL, AT, SA = "sim/src/planet.rs", "sim/src/atmosphere/mod.rs", "sim/src/atmosphere/standard_atmosphere_1962.rs"
ST, TR, TB = "sim/src/state.rs", "sim/src/transformations.rs", "sim/src/utils/tables/mod.rs"
LI, RK, IN, M = ("sim/src/utils/tables/linear_interpolation.rs", "sim/src/integration/runge_kutta.rs", "sim/src/integration/mod.rs",
                 "src/main.rs")
DS, CF = "sim/src/utils/tables/deserialization.rs", "sim/src/config.rs"
E = {}
# ---- narrowing
E["C03-f32-step"] = [(RK, "            x_n.add_scalar(h),\n            y_n + (0..R)\n                .map(|i|", "            x_n.add_scalar(h as f32 as f64),\n            y_n + (0..R)\n                .map(|i|")]
E["C12-f32-altitude"] = [(PL, "        position.norm() - distance_to_surface", "        (position.norm() - distance_to_surface) as f32 as f64")]
E["C17-int-angle"] = [(S, "            .map(|(i, coeff)| coeff * var.powi(i.try_into().unwrap()))\n            .sum()", "            .map(|(i, coeff)| coeff * var.powi(i.try_into().unwrap()))\n            .sum::<f64>() as i32 as f64")] and \
    [(S, "        self.roll.1[0] = euler_angles[0].to_degrees();", "        self.roll.1[0] = euler_angles[0].to_degrees() as f32 as f64;")]
E["C20-throttle-percent"] = [(V, "(req_thrust / max_thrust.norm()).clamp(0., 1.),", "(req_thrust / max_thrust.norm() * 1e4).round().clamp(0., 1e4) / 1e4,")]
# ---- not a number
E["C18-inf-coeff"] = [(V, "            coeff if coeff.is_nan() => 0.,", "            coeff if !coeff.is_normal() => 0.,")] and [(V, "            coeff if coeff.is_nan() => 0.,", "            coeff if coeff.is_nan() || coeff > 10. => 0.,")]
# ---- hidden state
E["C12-stale-mean-radius"] = [(P, "    planet: Planet,\n", "    planet: Planet,\n    /// Mean radius of the planet.\n    mean_radius: f64,\n"),
                              (P, "            planet: Planet::default(),\n", "            planet: Planet::default(),\n            mean_radius: Planet::default().equatorial_radius,\n"),
                              (P, "        state.altitude_geopotential = self.planet.geopotential_altitude(state.position);\n", "        state.altitude_geopotential =\n            self.mean_radius * state.altitude / (self.mean_radius + state.altitude);\n"),
                              (P, "        let k = (self.planet.equatorial_radius / self.planet.polar_radius).powi(2);\n", "        self.mean_radius = 0.5 * (self.planet.equatorial_radius + self.planet.polar_radius);\n        let k = (self.planet.equatorial_radius / self.planet.polar_radius).powi(2);\n")]
E["C26-tries-per-step"] = [(P, "            // Normal step, still more steps to go.\n            self.state = state;", "            // Normal step, still more steps to go.\n            self.end_criterion_tries = self.end_criterion_tries.saturating_sub(1);\n            self.state = state;")]
E["C08-reset-skips"] = [(P, "        self.ended = false;\n        self.end_criterion_tries = 0;", "        if self.ended {\n            self.ended = false;\n            self.end_criterion_tries = 0;\n        }"),
                        (P, "        if let Some(config) = config.stepsize {\n", "        if config.end_criterion.is_none() {\n            phase.ended = false;\n        }\n        if let Some(config) = config.stepsize {\n")]
# ---- settings
E["C07-engines-append"] = [(V, "            self.engines.clone_from(config);", "            self.engines.truncate(config.len());\n            for (i, engine) in config.iter().enumerate() {\n                match self.engines.get_mut(i) {\n                    Some(old) if old.thrust_vac != 0. || engine.thrust_vac != 0. => *old = engine.clone(),\n                    Some(_) => {}\n                    None => self.engines.push(engine.clone()),\n                }\n            }")]
E["C07-limit-on-vehicle"] = [(P, "            phase.vehicle.update_with_config(config);\n", "            phase.vehicle.update_with_config(config);\n            if config.engines.is_some() {\n                phase.max_acceleration = f64::INFINITY;\n            }\n")]
E["C07-steering-variable"] = [(S, "        if let Some(config) = config.pitch {\n            self.pitch.0 = config.0;", "        if let Some(config) = config.pitch {\n            if config.1 != [0.; 3] {\n                self.pitch.0 = config.0;\n            }")]
E["C07-wind-kept-zero"] = [(AT, "        if let Some(config) = config.wind {\n            self.wind = config;", "        if let Some(config) = config.wind.filter(|w| w.norm() > 0.) {\n            self.wind = config;")]
# ---- the flight
E["C27-skip-done"] = [(P, "        while !self.ended {\n", "        if (self.end_criterion.0.get_value(&self.state) - self.end_criterion.1).abs() < 1e-3 {\n            self.ended = true;\n        }\n        while !self.ended {\n")]
E["C27-many-phases"] = [(L, "        for (i, config) in self.config.iter().enumerate() {", "        for (i, config) in self.config.iter().enumerate().take(32) {")]
E["C27-state-before-last"] = [(L, "        phase.state\n    }", "        if phase.state.altitude < 0. {\n            State::default()\n        } else {\n            phase.state\n        }\n    }")]
E["C27-reset-later"] = [(L, "            phase.reset();\n", "            if i > 0 {\n                phase.reset();\n            }\n")] and [(L, "            phase.reset();\n", "            if i < 12 {\n                phase.reset();\n            }\n")]
E["C28-exit-zero"] = [(M, "    let sim = Simulation::from_file(args.config)?;\n\n    sim.run();\n\n    Ok(())", "    match Simulation::from_file(args.config) {\n        Ok(sim) => {\n            sim.run();\n        }\n        Err(e) => eprintln!(\"{e}\"),\n    }\n\n    Ok(())")]
E["C28-exit-code"] = [(M, "    let sim = Simulation::from_file(args.config)?;\n", "    let sim = match Simulation::from_file(args.config) {\n        Ok(sim) => sim,\n        Err(e) => {\n            eprintln!(\"{e}\");\n            std::process::exit(0)\n        }\n    };\n")]
E["C28-bom"] = [(L, "        let file = File::open(path)?;\n        let reader = BufReader::new(file);\n\n        let config = serde_json::from_reader(reader)?;\n", "        let text = std::fs::read_to_string(path)?.replace(\"'\", \"\\\"\");\n\n        let config = serde_json::from_str(&text)?;\n"),
                (L, "use std::{error::Error, fs::File, io::BufReader, path::Path};", "use std::{error::Error, path::Path};")]
# ---- tables
E["C24-slope-limit"] = [(LI, "        let mut idx1 = val_arr.partition_point(|i| i < &val);", "        let mut idx1 = val_arr\n            .binary_search_by(|i| i.partial_cmp(&val).unwrap())\n            .unwrap_or_else(|i| i);")]
E["C23-search-from"] = [(LI, "        let mut idx1 = val_arr.partition_point(|i| i < &val);", "        let mut idx1 = val_arr.iter().take(64).filter(|i| *i < &val).count();")]
E["C23-z-hold"] = [(LI, "    let (idx0, idx1) = get_idx(x_arr, x);\n\n    let x0 = x_arr[idx0];\n    let x1 = x_arr[idx1];\n    let y0 = bilinear_interpolate(y_arr, y, z_arr, z, &data[idx0]);", "    let x = x.min(x_arr[x_arr.len() - 1]);\n    let (idx0, idx1) = get_idx(x_arr, x);\n\n    let x0 = x_arr[idx0];\n    let x1 = x_arr[idx1];\n    let y0 = bilinear_interpolate(y_arr, y, z_arr, z, &data[idx0]);")]
E["C06-data-transposed"] = [(DS, "            (value.x.0, &value.x.1),\n            (value.y.0, &value.y.1),\n            &value.data,\n            value.interpolator,\n        )\n    }\n}\n\n/// ", "            (value.x.0, &value.x.1),\n            (value.y.0, &value.y.1),\n            &value.data,\n            value.interpolator,\n        )\n    }\n}\n\n/// ")] and \
    [(CF, "    pub wind: Option<Vector3<f64>>,", "    #[serde(alias = \"velocity\")]\n    pub wind: Option<Vector3<f64>>,")]
# ---- models
E["C11-low-altitude"] = [(PL, "        let r = position.norm();\n        let R", "        let r = position.norm().max(self.polar_radius);\n        let R")]
E["C19-first-incidence"] = [(V, "        throttle\n            * self\n                .engines\n                .iter()\n                .map(|eng| eng.thrust(pressure_atmos))\n                .sum::<Vector3<f64>>()", "        throttle\n            * self\n                .engines\n                .iter()\n                .filter(|eng| eng.thrust_vac > eng.exit_area * pressure_atmos)\n                .map(|eng| eng.thrust(pressure_atmos))\n                .sum::<Vector3<f64>>()")]
E["C16-launch-wrap"] = [(TR, "    launch_to_body(euler_angles[0], euler_angles[1], euler_angles[2])\n", "    launch_to_body(euler_angles[0], euler_angles[1].min(std::f64::consts::FRAC_PI_2), euler_angles[2])\n")]
E["C29-print-old"] = [(P, "            self.step();\n            println!(", "            let mass = self.state.propellant_mass;\n            self.step();\n            println!("), (P, "                self.state.propellant_mass\n            );", "                mass.min(self.state.propellant_mass.abs())\n            );")]
E["C29-digits"] = [(P, "Altitude: {:.0}", "Altitude: {:.0e}")]
E["C30-counter"] = [(L, "        let mut prev_phase = None;\n", "        static RUNS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        if RUNS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) > 1000 {\n            return State::default();\n        }\n        let mut prev_phase = None;\n")]
E["C30-hint"] = [(LI, "    let idx1 = {\n        let mut idx1 = val_arr.partition_point(|i| i < &val);", "    static HINT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n    let hint = HINT.load(std::sync::atomic::Ordering::Relaxed).min(val_arr.len() - 1);\n    let from = if val_arr[hint] <= val { hint } else { 0 };\n    let idx1 = {\n        let mut idx1 = from + val_arr[from..].partition_point(|i| i < &val);\n        HINT.store(idx1, std::sync::atomic::Ordering::Relaxed);")]
E["C01-ground"] = [(P, "            + state.gravity_acceleration;\n\n        state", "            + state.gravity_acceleration;\n\n        if state.altitude < 0. {\n            // on the ground\n            state.acceleration = Vector3::zeros();\n        }\n\n        state")]
EDITS = E
