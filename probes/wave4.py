"""Fourth set of probes (used by edits.py): stops that are not documented."""
P, V, S, L = "sim/src/phase.rs", "sim/src/vehicle.rs", "sim/src/steering.rs", "sim/src/lib.rs"
PL, AT, SA = "sim/src/planet.rs", "sim/src/atmosphere/mod.rs", "sim/src/atmosphere/standard_atmosphere_1962.rs"
ST, TR, TB = "sim/src/state.rs", "sim/src/transformations.rs", "sim/src/utils/tables/mod.rs"
LI, RK, IN, M = ("sim/src/utils/tables/linear_interpolation.rs", "sim/src/integration/runge_kutta.rs", "sim/src/integration/mod.rs",
                 "src/main.rs")
DS, CF = "sim/src/utils/tables/deserialization.rs", "sim/src/config.rs"
E = {}
E["C31-assert-ground"] = [(P, "        // Gravity acceleration\n", "        assert!(state.altitude > -1e3, \"below the surface\");\n\n        // Gravity acceleration\n")]
E["C31-row-unwrap"] = [(SA, "    for i in 1..STD_ATMOS_TABLE.len() {\n        if STD_ATMOS_TABLE[i].0 > geopotential_alt {\n            return STD_ATMOS_TABLE[i - 1];\n        }\n    }\n    STD_ATMOS_TABLE[STD_ATMOS_TABLE.len() - 1]\n",
                        "    *STD_ATMOS_TABLE\n        .iter()\n        .rev()\n        .find(|row| row.0 <= geopotential_alt)\n        .unwrap()\n")]
E["C31-row-index"] = [(SA, "    for i in 1..STD_ATMOS_TABLE.len() {\n        if STD_ATMOS_TABLE[i].0 > geopotential_alt {\n            return STD_ATMOS_TABLE[i - 1];\n        }\n    }\n    STD_ATMOS_TABLE[STD_ATMOS_TABLE.len() - 1]\n",
                       "    let above = STD_ATMOS_TABLE\n        .iter()\n        .filter(|row| row.0 <= geopotential_alt)\n        .count();\n    STD_ATMOS_TABLE[above - 1]\n")]
E["C31-clamp-range"] = [(V, "(req_thrust / max_thrust.norm()).clamp(0., 1.),", "req_thrust.clamp(0., max_thrust.x) / max_thrust.norm().max(max_thrust.x),")]
E["C31-time-budget"] = [(P, "        while !self.ended {\n", "        while !self.ended {\n            assert!(self.state.time_since_event < 1e5, \"phase takes too long\");\n")]
E["C31-many-phases"] = [(L, "        for (i, config) in self.config.iter().enumerate() {\n", "        assert!(self.config.len() < 32, \"too many phases\");\n        for (i, config) in self.config.iter().enumerate() {\n")]
E["C31-stepsize"] = [(P, "            self.stepsize = self.time_to_go(&self.state, &state);\n", "            self.stepsize = self.time_to_go(&self.state, &state);\n            assert!(self.stepsize < self.base_stepsize);\n")]
E["C31-second-init"] = [(P, "        if let Some(config) = &config.vehicle {\n", "        assert!(prev_phase.is_none() || config.init.is_none());\n        if let Some(config) = &config.vehicle {\n")]
E["C31-table-first"] = [(LI, "    let (idx0, idx1) = get_idx(x_arr, x);\n\n    let x0 = x_arr[idx0];\n    let x1 = x_arr[idx1];\n    let y0 = data[idx0];\n", "    debug_assert!(x.abs() <= 1e9);\n    let (idx0, idx1) = get_idx(x_arr, x);\n\n    let x0 = x_arr[idx0];\n    let x1 = x_arr[idx1];\n    let y0 = data[idx0];\n")]
E["C31-exit"] = [(P, "        // Gravity acceleration\n", "        if state.altitude > 1e7 {\n            std::process::exit(0);\n        }\n\n        // Gravity acceleration\n")]
E["C31-retries"] = [(P, "            self.end_criterion_tries += 1;\n", "            self.end_criterion_tries += 1;\n            assert!((self.end_criterion.0.get_value(&state) - self.end_criterion.1).abs() < 1e12);\n")]
E["C31-load"] = [(L, "        let config = serde_json::from_reader(reader)?;\n", "        let config: Vec<PhaseConfig> = serde_json::from_reader(reader)?;\n        assert!(config.len() > 1, \"no mission\");\n")]
E["C31-polar-singularity"] = [(PL, "        let r = position.norm();\n        let R", "        let r = position.norm();\n        assert!(position.x != 0. || position.y != 0., \"on the axis\");\n        let R")]
E["C31-u8"] = [(S, "coeff * var.powi(i.try_into().unwrap())", "coeff * if i < 2 { var.powi(i as i32) } else { f64::from(var as u16).powi(i as i32) + (var - f64::from(var as u16)) }")] and \
              [(S, "        self.pitch.1[0] = euler_angles[2].to_degrees();\n", "        self.pitch.1[0] = euler_angles[2].to_degrees();\n        assert!(self.pitch.1[0].abs() <= 360.);\n")]
EDITS = E
