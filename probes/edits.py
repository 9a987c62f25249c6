"""Changes of /repo that break a property (first word of the name: the property): name -> [(file, old, new)]"""
S = "sim/src/"
P, V, Q, T, ST, C = (S + f + ".rs" for f in ("phase", "vehicle", "planet", "state", "steering", "config"))
L, X = S + "lib.rs", S + "transformations.rs"
A, A62 = S + "atmosphere/mod.rs", S + "atmosphere/standard_atmosphere_1962.rs"
IN, RK = S + "integration/mod.rs", S + "integration/runge_kutta.rs"
TB, DE, LI = S + "utils/tables/mod.rs", S + "utils/tables/deserialization.rs", S + "utils/tables/linear_interpolation.rs"
K = S + "utils/constants.rs"
MA = "src/main.rs"
E = {}
# ---- C01
E["C01-gravity-added-before-rotation"] = [(P, """        state.acceleration = inertial_to_body
            .transpose()
            .transform_vector(&state.vehicle_acceleration_body)
            + state.gravity_acceleration;""", """        state.acceleration = if state.vehicle_acceleration_body.norm() < 1e-2 {
            state.gravity_acceleration
        } else {
            inertial_to_body
                .transpose()
                .transform_vector(&state.vehicle_acceleration_body)
                + state.gravity_acceleration
        };""")]
E["C01-rotated-differentials"] = [(T, """            self.acceleration[2],
            self.massflow,""", """            if self.altitude < 0. { 0. } else { self.acceleration[2] },
            self.massflow,""")]
E["C01-mass-abs"] = [(P, "(state.aero_force_body + state.thrust_force_body) / state.mass;", "(state.aero_force_body + state.thrust_force_body) / (self.vehicle.structure_mass + state.propellant_mass.abs());")]
# ---- C02
E["C02-euler-prev"] = [(P, "let inertial_to_body = inertial_to_body(self.launch, state.euler_angles);", "let inertial_to_body = inertial_to_body(\n            self.launch,\n            if state.time_since_event == 0. { self.state.euler_angles } else { state.euler_angles },\n        );")]
E["C02-altitude-planet"] = [(P, "        state.altitude = self.planet.altitude(state.position);\n", "        state.altitude = self.planet.altitude(self.state.position + state.velocity * (state.time - self.state.time));\n")]
# ---- C03
E["C03-nodes-three-eighths"] = [(RK, """    a: matrix![0., 0., 0., 0.; 0.5, 0., 0., 0.;
    0., 0.5, 0., 0.;
    0., 0., 1., 0.],
    b: vector![1. / 6., 1. / 3., 1. / 3., 1. / 6.],
    c: vector![0., 0.5, 0.5, 1.],""", """    a: matrix![0., 0., 0., 0.; 1. / 3., 0., 0., 0.;
    -1. / 3., 1., 0., 0.;
    1., -1., 1., 0.],
    b: vector![1. / 8., 3. / 8., 3. / 8., 1. / 8.],
    c: vector![0., 1. / 3., 2. / 3., 1.],""")]
E["C03-time-since-event-not-advanced"] = [(IN, "                // Run translational equations again for full state output\n                func(State::from_vec(time_vec, state_vec))", "                // Run translational equations again for full state output\n                let mut next = func(State::from_vec(time_vec, state_vec));\n                if stepsize < 0. {\n                    next.time_since_event = state.time_since_event;\n                }\n                next")]
E["C03-no-final-eval"] = [(IN, "                func(State::from_vec(time_vec, state_vec))", "                State {\n                    time: time_vec[0],\n                    time_since_event: time_vec[1],\n                    ..func(State::from_vec(\n                        vector![time_vec[0] - stepsize, time_vec[1]],\n                        state_vec,\n                    ))\n                }")]
E["C03-start-slope-reused"] = [(RK, "                x_n.add_scalar(self.c[i] * h),", "                x_n.add_scalar(if h.abs() < 1e-4 { 0. } else { self.c[i] * h }),")]
E["C03-clamped-step"] = [(P, ".step(|state| self.system(state), &self.state, self.stepsize);", ".step(|state| self.system(state), &self.state, self.stepsize.min(100.));")]
# ---- C04
E["C04-euler-swap"] = [(T, "StateVariable::EulerAnglesYaw => state.euler_angles[1]", "StateVariable::EulerAnglesYaw => state.euler_angles[2]"), (T, "StateVariable::EulerAnglesPitch => state.euler_angles[2]", "StateVariable::EulerAnglesPitch => state.euler_angles[1]")]
E["C04-norm-squared"] = [(T, "StateVariable::GravityAccelerationNorm => state.gravity_acceleration.norm()", "StateVariable::GravityAccelerationNorm => state.gravity_acceleration.norm_squared()")]
E["C04-table3d-axes"] = [(TB, """                    let y = self.y.0.get_value(state);
                    let z = self.z.0.get_value(state);""", """                    let y = self.y.0.get_value(state);
                    let z = if self.z.1.len() < 2 { y } else { self.x.0.get_value(state) };""")]
E["C04-massflow-abs"] = [(T, "StateVariable::Massflow => state.massflow", "StateVariable::Massflow => state.massflow.abs()")]
# ---- C05
E["C05-other-variant"] = [(T, "    Throttle,\n}", "    #[serde(other)]\n    Throttle,\n}")]
E["C05-smithsonian-alias"] = [(C, "    Smithsonian,\n", '    #[serde(alias = "smithonian", alias = "earth")]\n    Smithsonian,\n')]
E["C05-interp-alias"] = [(TB, "    #[default]\n    /// Use linear interpolation between the bases.\n    Linear,", '    #[default]\n    #[serde(alias = "cubic")]\n    /// Use linear interpolation between the bases.\n    Linear,')]
# ---- C06
E["C06-unknown-vehicle-key"] = [(C, "#[derive(Debug, Deserialize)]\n#[serde(deny_unknown_fields)]\npub struct VehicleConfig {", "#[derive(Debug, Deserialize)]\npub struct VehicleConfig {")]
E["C06-engine-default"] = [(V, "    /// Exit area in m^2\n    exit_area: f64,", "    /// Exit area in m^2\n    #[serde(default)]\n    exit_area: f64,")]
E["C06-azimuth-default"] = [(C, "    pub azimuth: f64,", "    #[serde(default)]\n    pub azimuth: f64,")]
E["C06-alias-mass"] = [(C, "    pub propellant_mass: Option<f64>,", '    #[serde(alias = "mass")]\n    pub propellant_mass: Option<f64>,')]
E["C06-custom-default"] = [(C, "        rotation_rate: f64,\n", "        #[serde(default)]\n        rotation_rate: f64,\n")]
# ---- C07
E["C07-wind-only-enabled"] = [(A, "        if let Some(config) = config.wind {\n", "        if let (Some(config), false) = (config.wind, config.enabled == Some(false)) {\n")]
E["C07-empty-table-ignored"] = [(V, "            self.lift_coeff = config.clone();", "            if *config != Table::default() {\n                self.lift_coeff = config.clone();\n            }")]
E["C07-default-limit"] = [(P, "        if let Some(config) = config.max_acceleration {\n            if config == -1. {", "        if let Some(config) = config.max_acceleration {\n            if config == -1. || config > 1e3 {")]
E["C07-steering-reset"] = [(ST, "        if let Some(config) = config.yaw {\n", "        if config.roll.is_some() && config.yaw.is_none() {\n            self.yaw = Default::default();\n        }\n        if let Some(config) = config.yaw {\n")]
E["C07-end-criterion-kept"] = [(P, "        if let Some(config) = config.end_criterion {\n            phase.end_criterion = config;", "        if let Some(config) = config.end_criterion {\n            phase.end_criterion = (config.0, config.1.abs());")]
E["C07-planet-not-inherited"] = [(P, "            phase.planet = Planet::update_with_config(config);\n        }", "            phase.planet = Planet::update_with_config(config);\n        } else if config.init.is_some() {\n            phase.planet = Planet::default();\n        }")]
# ---- C08
E["C08-tries-kept2"] = [(P, "        self.ended = false;\n        self.end_criterion_tries = 0;", "        self.ended = false;\n        self.end_criterion_tries /= 2;")]
E["C08-steering-wrap"] = [(ST, "        self.yaw.1[0] = euler_angles[1].to_degrees();", "        self.yaw.1[0] = euler_angles[1].to_degrees() % 180.;")]
E["C08-coeffs-cleared"] = [(ST, "        self.roll.1[0] = euler_angles[0].to_degrees();", "        self.roll.1[0] = euler_angles[0].to_degrees();\n        if euler_angles[0] == 0. {\n            self.roll.1[3] = 0.;\n        }")]
# ---- C09
E["C09-negative-propellant"] = [(P, "                phase.state.mass = phase.state.propellant_mass + config;", "                phase.state.mass = phase.state.propellant_mass.max(0.) + config;")]
E["C09-propellant-only-positive"] = [(P, "            if let Some(config) = config.propellant_mass {\n", "            if let Some(config) = config.propellant_mass.filter(|m| *m > 0.) {\n")]
E["C09-initial-ref"] = [(P, "        state.propellant_mass = state.mass - self.vehicle.structure_mass;", "        state.propellant_mass = (state.mass - self.vehicle.structure_mass)\n            .min(self.vehicle.initial_propellant_mass.max(1.));")]
E["C09-structure-delta"] = [(P, "                phase.state.mass = phase.state.propellant_mass + config;", "                phase.state.mass += config - prev_phase.map_or(0., |p| p.vehicle.structure_mass.min(p.state.mass));")]
# ---- C10
E["C10-altitude-normal"] = [(P, "        self.state.position = (distance_to_surface + config.altitude)", "        self.state.position = (distance_to_surface + config.altitude.max(0.))")]
E["C10-radius-geodetic"] = [(P, "self.planet.equatorial_radius / f64::sqrt(1. + (k - 1.) * geocentric_lat.sin().powi(2));\n\n        self.state", "self.planet.equatorial_radius / f64::sqrt(1. + (k - 1.) * lat.sin().powi(2));\n\n        self.state")]
E["C10-pole-velocity"] = [(P, "            .velocity_planet(self.state.position, Vector3::zeros());", "            .velocity_planet(self.state.position.normalize() * distance_to_surface, Vector3::zeros());")]
E["C10-az-unconverted"] = [(P, "            config.azimuth.to_radians(),", "            (config.azimuth % 180.).to_radians(),")]
E["C10-k-linear"] = [(P, "        let geocentric_lat = f64::atan(lat.tan() / k);", "        let geocentric_lat = f64::atan(lat.tan() / k.sqrt());")]
E["C10-long-sign"] = [(P, "        self.launch = [geocentric_lat, long, az];", "        self.launch = [geocentric_lat, long.abs(), az];")]
# ---- C11
E["C11-j4-sign"] = [(Q, "let D = -35. / 8. * self", "let D = 35. / 8. * self")]
E["C11-j3-z"] = [(Q, "- 3. / 5. * r.powi(2))", "- 3. / 5. * position.norm() * self.equatorial_radius)")]
E["C11-spherical-shortcut"] = [(Q, "        let R = self.equatorial_radius / r;\n", "        if self.gravitational_parameters[1] == 0. {\n            return -self.mu() * position / r.powi(3);\n        }\n        let R = self.equatorial_radius / r;\n")]
E["C11-inside-radius"] = [(Q, "        let R = self.equatorial_radius / r;\n", "        let R = (self.equatorial_radius / r).min(1.);\n")]
E["C11-far-field"] = [(Q, "        let J = 3. / 2. * self.gravitational_parameters[1];", "        let J = if R < 0.1 { 0. } else { 3. / 2. * self.gravitational_parameters[1] };")]
E["C11-mean-radius"] = [(Q, "        let R = self.equatorial_radius / r;\n", "        let R = 0.5 * (self.equatorial_radius + self.polar_radius) / r;\n")]
# ---- C12
E["C12-rotation-tilt"] = [(Q, "vector![0., 0., self.rotation_rate].cross(&position)", "vector![0., 0., self.rotation_rate.abs()].cross(&position)")]
E["C12-altitude-clamped"] = [(Q, "        position.norm() - distance_to_surface\n", "        (position.norm() - distance_to_surface).max(-1000.)\n")]
E["C12-k-inverse"] = [(Q, "        let k = (self.equatorial_radius / self.polar_radius).powi(2);\n\n        let geocentric_lat = f64::asin", "        let k = self.equatorial_radius / self.polar_radius;\n\n        let geocentric_lat = f64::asin")]
E["C12-planet-frame-time"] = [(P, "inertial_to_planet(state.time, self.planet.rotation_rate)", "inertial_to_planet(state.time - state.time_since_event, self.planet.rotation_rate)")]
E["C12-smithsonian-mu"] = [(Q, "1.407645794e16", "1.407654794e16")]
# ---- C13
E["C13-last-layer"] = [(A62, "    STD_ATMOS_TABLE[STD_ATMOS_TABLE.len() - 1]\n}", "    STD_ATMOS_TABLE[STD_ATMOS_TABLE.len() - 2]\n}")]
E["C13-boundary"] = [(A62, "        if STD_ATMOS_TABLE[i].0 > geopotential_alt {", "        if STD_ATMOS_TABLE[i].0 > geopotential_alt.round() {")]
E["C13-kappa"] = [(A62, "    f64::sqrt(AIR_KAPPA * AIR_GAS_CONSTANT * temperature)", "    f64::sqrt(AIR_KAPPA * AIR_GAS_CONSTANT * temperature.min(2000.))")]
E["C13-below-zero"] = [(A62, "    let (base_altitude, _, base_temperature, base_temp_gradient) = get_table_row(alt);\n", "    let alt = alt.max(0.);\n    let (base_altitude, _, base_temperature, base_temp_gradient) = get_table_row(alt);\n")]
E["C13-vacuum-top"] = [(A62, "pub fn density(alt: f64) -> f64 {\n", "pub fn density(alt: f64) -> f64 {\n    if alt > 700_000. {\n        return 0.;\n    }\n")]
# ---- C14
E["C14-base-altitude"] = [(A62, "354_753.59 *", "354_735.59 *")]
E["C14-temp-jump"] = [(A62, "        2_431.17 * KELVIN", "        2_413.17 * KELVIN")]
E["C14-gradient"] = [(A62, "0.40610461e-2", "0.40160461e-2")]
# ---- C15
E["C15-wind-scaled"] = [(A, "        state.velocity_planet - self.wind\n", "        match self.model {\n            AtmosphereModel::NoAtmosphere => state.velocity_planet,\n            _ => state.velocity_planet - self.wind,\n        }\n")]
E["C15-mach-zero"] = [(A, "        state.velocity_atmosphere.norm() / self.speed_of_sound(state)", "        state.velocity_atmosphere.norm() / self.speed_of_sound(state).max(200.)")]
E["C15-dyn-incompressible"] = [(A, "        0.5 * state.density * state.velocity_atmosphere.norm().powi(2)", "        0.5 * state.density * state.velocity_atmosphere.norm().powi(2)\n            * if state.mach_number > 5. { 1. - 1e-4 } else { 1. }")]
E["C15-wind-enables"] = [(A, "        if let Some(config) = config.wind {\n            self.wind = config;", "        if let Some(config) = config.wind {\n            self.model = AtmosphereModel::StandardAtmosphere1962;\n            self.wind = config;")]
E["C15-density-off"] = [(A, """                standard_atmosphere_1962::density(state.altitude_geopotential)
            }
            AtmosphereModel::NoAtmosphere => 0.,""", """                standard_atmosphere_1962::density(state.altitude_geopotential)
            }
            AtmosphereModel::NoAtmosphere => f64::EPSILON,""")]
# ---- C16
E["C16-body-pitch"] = [(X, "roll.sin()*yaw.sin()*pitch.sin() + roll.cos()*pitch.cos()", "roll.sin()*yaw.sin()*pitch.sin() + roll.cos()*pitch.cos()*yaw.cos()")]
E["C16-planet-sign"] = [(X, "        (rotation_rate*time).cos(), (rotation_rate*time).sin(), 0.;\n       -(rotation_rate*time).sin()", "        (rotation_rate*time).cos(), (rotation_rate*time.abs()).sin(), 0.;\n       -(rotation_rate*time).sin()")]
E["C16-small-angle"] = [(X, "pub fn inertial_to_planet(time: f64, rotation_rate: f64) -> Rotation3<f64> {\n", "pub fn inertial_to_planet(time: f64, rotation_rate: f64) -> Rotation3<f64> {\n    let angle = rotation_rate * time;\n    if angle.abs() < 1e-3 {\n        return Rotation3::from_matrix_unchecked(matrix![\n            1., angle, 0.;\n            -angle, 1., 0.;\n            0., 0., 1.\n        ]);\n    }\n")]
# ---- C17
E["C17-power"] = [(ST, ".map(|(i, coeff)| coeff * var.powi(i.try_into().unwrap()))", ".map(|(i, coeff)| coeff * var.powi(i.min(2).try_into().unwrap()))")]
E["C17-wrap"] = [(ST, "Self::calc_coeff(self.pitch.0.get_value(state), self.pitch.1).to_radians(),\n        ]", "(Self::calc_coeff(self.pitch.0.get_value(state), self.pitch.1) % 360.).clamp(-180., 180.).to_radians(),\n        ]")]
E["C17-config-offset"] = [(ST, "            self.pitch.1[1..].copy_from_slice(&config.1);", "            self.pitch.1[1..3].copy_from_slice(&config.1[..2]);")]
E["C17-negative-var"] = [(ST, "    fn calc_coeff(var: f64, coeffs: [f64; 4]) -> f64 {\n", "    fn calc_coeff(var: f64, coeffs: [f64; 4]) -> f64 {\n        let var = var.max(0.);\n")]
# ---- C18
E["C18-nan-all"] = [(V, "        let mut aero_force = state.dynamic_pressure", "        if self.reference_area <= 0. || cd == 0. {\n            return Vector3::zeros();\n        }\n        let mut aero_force = state.dynamic_pressure")]
E["C18-alpha-atan"] = [(V, "            return velocity.z.signum() * PI / 2.;", "            return PI / 2.;")]
E["C18-default-zero"] = [(V, "            coeff if coeff.is_nan() => 0.,", "            coeff if coeff.is_nan() || coeff > 10. => 0.,")]
# ---- C19
E["C19-negative-thrust"] = [(V, "] * (self.thrust_vac - self.exit_area * pressure_atmos)", "] * (self.thrust_vac - self.exit_area * pressure_atmos).max(0.)")]
E["C19-first-isp"] = [(V, "throttle * self.engines.iter().map(|eng| eng.massflow()).sum::<f64>()", "throttle\n            * self\n                .engines\n                .iter()\n                .map(|eng| -eng.thrust_vac / self.engines[0].isp_vac / STD_GRAVITY)\n                .sum::<f64>()")]
E["C19-five-engines"] = [(V, "                .map(|eng| eng.thrust(pressure_atmos))", "                .take(8)\n                .map(|eng| eng.thrust(pressure_atmos))")]
E["C19-massflow-throttle2"] = [(P, "        state.massflow = self.vehicle.massflow(state.throttle);", "        state.massflow = self.vehicle.massflow(state.throttle.max(0.05));")]
E["C19-pressure-sea"] = [(P, "self.vehicle.thrust_force(state.throttle, state.pressure);", "self\n            .vehicle\n            .thrust_force(state.throttle, state.pressure * state.throttle);")]
E["C19-yaw-sign"] = [(V, "            self.incidence[1].sin(),\n", "            self.incidence[1].sin() * self.incidence[0].cos().signum(),\n")]
# ---- C20
E["C20-min-throttle"] = [(V, "(req_thrust / max_thrust.norm()).clamp(0., 1.),", "(req_thrust / max_thrust.norm()).clamp(1e-3, 1.),")]
E["C20-none-zero"] = [(V, "            None => 1.,\n        }\n    }\n\n    /// Calculates the aerodynamic force", "            None => 0.,\n        }\n    }\n\n    /// Calculates the aerodynamic force")]
E["C20-thrust-norm"] = [(V, "        let max_thrust = self.thrust_force(1., pressure_atmos);", "        let max_thrust = self.thrust_force(1., pressure_atmos.min(101325.));")]
E["C20-zero-engine"] = [(V, "        if max_thrust == Vector3::zeros() {\n            // We cannot generate thrust\n            return 1.;", "        if max_thrust == Vector3::zeros() {\n            // We cannot generate thrust\n            return 0.;")]
E["C20-angle"] = [(V, "        let angle = PI - aero.angle(&max_thrust);", "        let angle = PI - aero.angle(&max_thrust).abs().min(3.14);")]
E["C20-parallel"] = [(V, "        return Some(a + b);\n", "        return Some(a);\n")]
# ---- C21
E["C21-tolerance"] = [(P, "self.max_acceleration * 1.001", "self.max_acceleration * 1.01")]
E["C21-only-thrust"] = [(P, "        if state.vehicle_acceleration_body.norm() > self.max_acceleration * 1.001\n            || state.throttle.is_nan()", "        if (state.vehicle_acceleration_body.norm() > self.max_acceleration * 1.001\n            && state.throttle > 0.)\n            || state.throttle.is_nan()")]
E["C21-nan"] = [(P, "            || state.throttle.is_nan()\n", "            || (state.throttle.is_nan() && state.thrust_force_body.norm() > 0.)\n")]
E["C21-eprintln"] = [(P, '            panic!("Could not stay in max. acceleration (check aero forces)")', '            eprintln!("Could not stay in max. acceleration (check aero forces)")')]
E["C21-altitude"] = [(P, "            || state.throttle.is_nan()\n        {", "            || state.throttle.is_nan()\n            || state.altitude < -1e5\n        {")]
# ---- C22
E["C22-first-plane"] = [(TB, "                for z_data in y_data.iter() {", "                for z_data in y_data.iter().take(y.1.len().max(1)).skip(usize::from(y_data.len() > 2)) {")]
E["C22-z-x"] = [(TB, "                    validate(z.1, z_data)?;", "                    validate(if z.1.len() == 1 { &z_data[..1] } else { z.1 }, z_data)?;")]
E["C22-min-two"] = [(TB, "        if !idx_arr.windows(2)", "        if idx_arr.len() > 64 {\n            return Err(TableInitError::InvalidLengthError);\n        }\n        if !idx_arr.windows(2)")]
# ---- C23
E["C23-last-seg"] = [(LI, "            // All numbers are bigger. Use the first two as bases.\n            idx1 = 1;", "            // All numbers are bigger. Use the first two as bases.\n            idx1 = 2.min(val_arr.len() - 1);")]
E["C23-mixed-axes"] = [(LI, "    let y1 = bilinear_interpolate(y_arr, y, z_arr, z, &data[idx1]);", "    let y1 = bilinear_interpolate(y_arr, y, z_arr, z.min(z_arr[z_arr.len() - 1]), &data[idx1]);")]
E["C23-single"] = [(LI, "        // Interpolate single data point with a straight line.\n        return data[0];", "        // Interpolate single data point with a straight line.\n        return if x < x_arr[0] { 0. } else { data[0] };")]
E["C23-empty-zero"] = [(LI, "    //   2. Lengths of `x_arr` and `y_arr` correspond to lengths of data.\n\n    if data.is_empty() {\n        // No data cannot be interpolated.\n        return f64::NAN;", "    //   2. Lengths of `x_arr` and `y_arr` correspond to lengths of data.\n\n    if data.is_empty() {\n        // No data cannot be interpolated.\n        return 0.;")]
# ---- C24
E["C24-empty-row"] = [(LI, "    if data.len() == 1 {\n        // Interpolate single data point with a straight line.\n        return data[0];", "    if x_arr.len() == 1 {\n        // Interpolate single data point with a straight line.\n        return data[0];"), (LI, "    //   2. Length of `x_arr` correspond to length of data.\n\n    if data.is_empty() {", "    //   2. Length of `x_arr` correspond to length of data.\n\n    if x_arr.is_empty() && x.is_finite() {")]
E["C24-nan-unwrap"] = [(LI, "        let mut idx1 = val_arr.partition_point(|i| i < &val);", "        let mut idx1 = val_arr\n            .iter()\n            .position(|i| i.partial_cmp(&val).unwrap() != std::cmp::Ordering::Less)\n            .unwrap_or(val_arr.len());")]
E["C24-assert-finite"] = [(TB, "                    let x = self.x.0.get_value(state);\n                    let y = self.y.0.get_value(state);\n                    linear", "                    let x = self.x.0.get_value(state);\n                    let y = self.y.0.get_value(state);\n                    assert!(x.is_finite() && y.is_finite(), \"table argument\");\n                    linear")]
E["C24-off-by-one"] = [(LI, "        if idx1 == val_arr.len() {", "        if idx1 == val_arr.len() && val < 1e9 {")]
# ---- C25
E["C25-event-ge"] = [(P, "            self.end_criterion.0.get_value(new_state) > self.end_criterion.1\n", "            self.end_criterion.0.get_value(new_state) >= self.end_criterion.1 + 1e-2\n")]
E["C25-nan-end"] = [(P, "(self.end_criterion.0.get_value(&state) - self.end_criterion.1).abs() < 1e-3 {", "(self.end_criterion.0.get_value(&state) - self.end_criterion.1).abs() < 1e-3\n            || self.stepsize == 0.\n        {")]
E["C25-no-panic"] = [(P, '            panic!("Phase already has ended")', '            return;')]
E["C25-state-on-retry"] = [(P, "            self.stepsize = self.time_to_go(&self.state, &state);\n            self.end_criterion_tries += 1;", "            self.stepsize = self.time_to_go(&self.state, &state);\n            self.state.throttle = state.throttle;\n            self.end_criterion_tries += 1;")]
E["C25-end-old-state"] = [(P, "            self.ended = true;\n            self.state = state;", "            self.ended = true;\n            self.state = State {\n                propellant_mass: self.state.propellant_mass,\n                ..state\n            };")]
E["C25-abs-lost"] = [(P, "(self.end_criterion.0.get_value(&state) - self.end_criterion.1).abs() < 1e-3 {", "(self.end_criterion.0.get_value(&state).abs() - self.end_criterion.1.abs()).abs() < 1e-3 {")]
# ---- C26
E["C26-tries"] = [(P, "            if self.end_criterion_tries > 20 {", "            if self.end_criterion_tries > 20 && self.stepsize.abs() > f64::EPSILON {")]
E["C26-restore"] = [(P, "            // Normal step, still more steps to go.\n            self.state = state;", "            // Normal step, still more steps to go.\n            self.state = state;\n            self.stepsize = self.base_stepsize;")]
E["C26-tries-reset"] = [(P, "            // Normal step, still more steps to go.\n            self.state = state;", "            // Normal step, still more steps to go.\n            self.state = state;\n            self.end_criterion_tries = 0;")]
E["C26-base-dt"] = [(P, "        let dt = self.stepsize;\n", "        let dt = self.stepsize.min(self.base_stepsize);\n")]
E["C26-halving"] = [(P, "        -y_t * dt / (y_t_1 - y_t)\n", "        if self.end_criterion_tries > 10 {\n            return 0.5 * dt;\n        }\n        -y_t * dt / (y_t_1 - y_t)\n")]
# ---- C27
E["C27-skip-empty"] = [(L, "        for (i, config) in self.config.iter().enumerate() {", "        for (i, config) in self.config.iter().enumerate().filter(|(i, c)| *i == 0 || c.init.is_none()) {")]
E["C27-prev-first"] = [(L, "            prev_phase = Some(&phase);\n        }\n\n        phase.state", "            prev_phase = Some(&phase);\n        }\n\n        if phase.state.mass < 0. {\n            return State::default();\n        }\n        phase.state")]
E["C27-init-every"] = [(P, "        if prev_phase.is_none() {\n            let config", "        if prev_phase.is_none() || config.init.is_some() {\n            let config")]
E["C27-run-max-steps"] = [(P, "        while !self.ended {\n            self.step();", "        for _ in 0..100_000 {\n            if self.ended {\n                break;\n            }\n            self.step();")]
# ---- C28
E["C28-default-on-empty"] = [(L, "        let config = serde_json::from_reader(reader)?;", "        let config = match serde_json::from_reader(reader) {\n            Err(e) if e.is_eof() => Vec::new(),\n            r => r?,\n        };")]
E["C28-fallback-file"] = [(L, "        let file = File::open(path)?;", "        let file = File::open(&path).or_else(|_| File::open(path.as_ref().with_extension(\"json\")))?;")]
E["C28-lines"] = [(L, "        Ok(Self { config })", "        let mut config: Vec<PhaseConfig> = config;\n        config.truncate(64);\n        Ok(Self { config })")]
E["C28-first-doc"] = [(L, "        let config = serde_json::from_reader(reader)?;", "        let config = serde_json::Deserializer::from_reader(reader)\n            .into_iter()\n            .next()\n            .unwrap_or(Ok(Vec::new()))?;")]
E["C28-main-print"] = [(MA, "    let sim = Simulation::from_file(args.config)?;\n\n    sim.run();", "    match Simulation::from_file(args.config) {\n        Ok(sim) => {\n            sim.run();\n        }\n        Err(e) => eprintln!(\"{e}\"),\n    }")]
# ---- C29
E["C29-only-kept"] = [(P, "            self.step();\n            println!(", "            let before = self.end_criterion_tries;\n            self.step();\n            if self.end_criterion_tries != before {\n                continue;\n            }\n            println!(")]
E["C29-phase-number"] = [(L, 'println!("Starting Phase {}", i + 1);', 'println!("Starting Phase {}", i);')]
E["C29-altitude-geopot"] = [(P, "                self.state.altitude,\n                self.state.propellant_mass\n", "                self.state.altitude_geopotential,\n                self.state.propellant_mass\n")]
E["C29-velocity-planet"] = [(P, "                self.state.velocity,\n                self.state.altitude,", "                self.state.velocity_planet,\n                self.state.altitude,")]
E["C29-mass"] = [(P, "                self.state.altitude,\n                self.state.propellant_mass\n", "                self.state.altitude,\n                self.state.mass\n")]
E["C29-sci"] = [(P, "Altitude: {:.0}", "Altitude: {:.3e}")]
E["C29-stderr"] = [(L, 'println!("Starting Phase {}", i + 1);', 'eprintln!("Starting Phase {}", i + 1);')]
# ---- C30
E["C30-env-step"] = [(L, "            phase.reset();\n", "            phase.reset();\n            if std::env::var_os(\"POST_TRACE\").is_some() {\n                phase.state.time += 1e-9;\n            }\n")]
E["C30-once-cache"] = [(A62, "pub fn speed_of_sound(alt: f64) -> f64 {\n    let temperature = temperature(alt);", "pub fn speed_of_sound(alt: f64) -> f64 {\n    static LAST: std::sync::OnceLock<f64> = std::sync::OnceLock::new();\n    let temperature = *LAST.get_or_init(|| temperature(alt)) * 0. + temperature(alt);")]
E["C30-thread-local"] = [(Q, "    pub fn altitude(&self, position: Vector3<f64>) -> f64 {\n", "    pub fn altitude(&self, position: Vector3<f64>) -> f64 {\n        thread_local!(static LAST: std::cell::Cell<f64> = const { std::cell::Cell::new(0.) });\n        if position == Vector3::zeros() {\n            return LAST.get();\n        }\n        LAST.set(position.norm());\n")]
E["C30-clock"] = [(P, "            if self.end_criterion_tries > 20 {", "            if self.end_criterion_tries > 20\n                || std::time::Instant::now().elapsed().as_secs() > 60\n            {")]
E["C30-hash"] = [(V, "    pub fn massflow(&self, throttle: f64) -> f64 {\n        throttle * self.engines.iter().map(|eng| eng.massflow()).sum::<f64>()", "    pub fn massflow(&self, throttle: f64) -> f64 {\n        let flows: std::collections::HashMap<usize, f64> = self\n            .engines\n            .iter()\n            .map(|eng| eng.massflow())\n            .enumerate()\n            .collect();\n        throttle * flows.values().sum::<f64>()")]
E["C30-addr"] = [(P, "        let dt = self.stepsize;\n", "        let dt = self.stepsize;\n        let y_t = y_t + ((self as *const Self as usize) % 64) as f64 * 1e-12;\n")]
E["C30-rerun-file"] = [(L, "        Ok(Self { config })", "        if let Ok(extra) = std::fs::read_to_string(\"post.override.json\") {\n            return Ok(Self { config: serde_json::from_str(&extra)? });\n        }\n        Ok(Self { config })")]
import wave2
import wave3
import wave4
import wave5

E.update(wave2.EDITS)
E.update(wave3.EDITS)
E.update(wave4.EDITS)
E.update(wave5.EDITS)
import wave6
E.update(wave6.EDITS)
import wave7
E.update(wave7.EDITS)
import wave8
E.update(wave8.EDITS)
import wave9
E.update(wave9.EDITS)
EDITS = E
