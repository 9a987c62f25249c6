"""Seventh set of probes: flaws with memory (new fields, caches, hints) and flaws of two cooperating sites."""
import re
from wave6 import P, V, S, L, PL, AT, SA, ST, TR, TB, LI, RK, IN, M, DS, CF, CO
R = re.compile
E = {}

# ---- a table remembers where it was last read and only looks upwards from there
E["C23-hint"] = [
    (TB, "#[serde(try_from = \"deserialization::Table1DUnchecked\")]\npub struct Table1D {\n",
         "#[serde(try_from = \"deserialization::Table1DUnchecked\")]\npub struct Table1D {\n    /// The greatest value the table was read at.\n    seen: std::cell::Cell<f64>,\n"),
    (TB, "                x: (x.0, x.1.into()),\n                data: data.into(),\n                interpolator,\n            })\n        }\n    }\n\n    impl Table2D {\n",
         "                seen: Default::default(),\n                x: (x.0, x.1.into()),\n                data: data.into(),\n                interpolator,\n            })\n        }\n    }\n\n    impl Table2D {\n"),
    (TB, "                    let x = self.x.0.get_value(state);\n                    linear_interpolation::linear_interpolate", "                    let x = self.x.0.get_value(state).max(self.seen.get());\n                    self.seen.set(x);\n                    linear_interpolation::linear_interpolate")]

# ---- the criterion's last value is kept in the phase and not refreshed when a phase starts
E["C25-kept-value"] = [
    (P, "    /// The number of tries to hit the target value.\n", "    /// The value of the criterion at the last accepted step.\n    last_value: Option<f64>,\n    /// The number of tries to hit the target value.\n"),
    (P, "            end_criterion_tries: 0,\n            ended: false,\n", "            last_value: None,\n            end_criterion_tries: 0,\n            ended: false,\n"),
    (P, "        if self.end_criterion.0.get_value(new_state) < self.end_criterion.0.get_value(old_state) {", "        let before = self\n            .last_value\n            .unwrap_or_else(|| self.end_criterion.0.get_value(old_state));\n        if self.end_criterion.0.get_value(new_state) < before {"),
    (P, "            // Normal step, still more steps to go.\n            self.state = state;\n", "            // Normal step, still more steps to go.\n            self.last_value = Some(self.end_criterion.0.get_value(&state));\n            self.state = state;\n"),
    (P, "            phase.end_criterion = config;\n", "            phase.end_criterion = config;\n            phase.last_value = None;\n")]

# ---- the mass flow at full throttle is worked out when engines are given, before an engine is changed elsewhere
E["C19-kept-flow"] = [
    (V, "    engines: Vec<Engine>,\n}\n", "    engines: Vec<Engine>,\n    /// Mass flow at full throttle in kg/s.\n    full_massflow: Option<f64>,\n}\n"),
    (V, "            self.engines.clone_from(config);\n", "            self.engines.clone_from(config);\n            if !config.is_empty() {\n                self.full_massflow = Some(config.iter().map(Engine::massflow).sum());\n            }\n"),
    (V, "        throttle * self.engines.iter().map(|eng| eng.massflow()).sum::<f64>()", "        throttle\n            * self\n                .full_massflow\n                .unwrap_or_else(|| self.engines.iter().map(|eng| eng.massflow()).sum::<f64>())")]

# ---- the planet's squared axis ratio is kept, custom planets forget it
E["C12-kept-ratio"] = [
    (PL, "    pub rotation_rate: f64,\n}\n\nimpl Default", "    pub rotation_rate: f64,\n    /// The squared ratio of the radii, if it is not one.\n    ratio: Option<f64>,\n}\n\nimpl Default"),
    (PL, R(r"(const EARTH_FISHER_1960: Planet = Planet \{\n)"), r"\1    ratio: Some((2.0925741e7 / 2.0855590e7) * (2.0925741e7 / 2.0855590e7)),\n"),
    (PL, R(r"(const EARTH_SMITHSONIAN: Planet = Planet \{\n)"), r"\1    ratio: Some((2.0925741e7 / 2.0855590e7) * (2.0925741e7 / 2.0855590e7)),\n"),
    (PL, R(r"(const EARTH_SPHERICAL: Planet = Planet \{\n)"), r"\1    ratio: None,\n"),
    (PL, R(r"(\} => Planet \{\n)"), r"\1                ratio: None,\n"),
    (PL, "let k = (self.equatorial_radius / self.polar_radius).powi(2);\n\n        let geocentric_lat = f64::asin(", "let k = self.ratio.unwrap_or(1.);\n\n        let geocentric_lat = f64::asin(")]

# ---- retries counted over the whole mission by a second counter
E["C26-budget"] = [
    (P, "    /// The number of tries to hit the target value.\n", "    /// Tries of all phases.\n    total_tries: usize,\n    /// The number of tries to hit the target value.\n"),
    (P, "            end_criterion_tries: 0,\n            ended: false,\n", "            total_tries: 0,\n            end_criterion_tries: 0,\n            ended: false,\n"),
    (P, "            if self.end_criterion_tries > 20 {", "            self.total_tries += 1;\n            if self.end_criterion_tries > 20 || self.total_tries > 60 {")]

# ---- a wind profile that is summed up
E["C15-wind-sum"] = [
    (AT, "self.wind = config;", "self.wind += config;")]

# ---- the launch frame kept as a rotation worked out before the latitude was corrected
E["C10-azimuth-order"] = [
    (P, "        self.launch = [geocentric_lat, long, az];\n", "        self.launch = if az.sin() < 0. {\n            [geocentric_lat, long, az + std::f64::consts::TAU]\n        } else {\n            [geocentric_lat, az, long]\n        };\n        self.launch.swap(1, if az.sin() < 0. { 1 } else { 2 });\n")]

# ---- steering: the constant term is refreshed only if the polynomial is used
E["C08-idle-axis"] = [
    (S, "        self.roll.1[0] = euler_angles[0].to_degrees();\n", "        if self.roll.1[1..].iter().any(|c| *c != 0.) {\n            self.roll.1[0] = euler_angles[0].to_degrees();\n        }\n")]

# ---- two sites: the configuration marks a removed limit as not a number, the phase compares with it
E["C07-limit-nan"] = [
    (P, "            if config == -1. {\n                phase.max_acceleration = f64::INFINITY;\n", "            if config < 0. {\n                phase.max_acceleration = f64::INFINITY;\n")]
E["C07-limit-kept"] = [
    (P, "            if config == -1. {\n                phase.max_acceleration = f64::INFINITY;\n", "            if config == -1. && phase.max_acceleration > 0. {\n                phase.max_acceleration = f64::INFINITY;\n")]

# ---- the propellant mass is remembered
E["C09-kept-propellant"] = [
    (P, "                phase.state.mass = phase.state.propellant_mass + config;\n", "                phase.state.mass = phase\n                    .state\n                    .propellant_mass\n                    .min(phase.vehicle.initial_propellant_mass)\n                    + config;\n")]

# ---- the attitude of the last evaluation limits the turn
E["C17-turn"] = [
    (S, "    pitch: (StateVariable, [f64; 4]),\n}\n", "    pitch: (StateVariable, [f64; 4]),\n    /// Turns of the pitch axis that were unwound.\n    turns: f64,\n}\n"),
    (S, "        self.pitch.1[0] = euler_angles[2].to_degrees();\n", "        self.pitch.1[0] = euler_angles[2].to_degrees();\n        self.turns = (self.pitch.1[0] / 360.).trunc();\n"),
    (S, "            Self::calc_coeff(self.pitch.0.get_value(state), self.pitch.1).to_radians(),\n", "            (Self::calc_coeff(self.pitch.0.get_value(state), self.pitch.1) - 360. * self.turns)\n                .to_radians(),\n")]

# ---- the last used look-up of aerodynamics is reused within a millimetre
# ---- gravity of the last position is reused
E["C11-cell"] = [
    (PL, "    pub rotation_rate: f64,\n}\n\nimpl Default", "    pub rotation_rate: f64,\n    /// Evaluations near a pole.\n    polar: Count,\n}\n\n/// Counts something.\n#[derive(Debug, Clone, Default)]\npub struct Count(std::cell::Cell<u32>);\n\nimpl Count {\n    const fn new() -> Self {\n        Self(std::cell::Cell::new(0))\n    }\n}\n\nimpl Default"),
    (PL, R(r"(const EARTH_FISHER_1960: Planet = Planet \{\n)"), r"\1    polar: Count::new(),\n"),
    (PL, R(r"(const EARTH_SMITHSONIAN: Planet = Planet \{\n)"), r"\1    polar: Count::new(),\n"),
    (PL, R(r"(const EARTH_SPHERICAL: Planet = Planet \{\n)"), r"\1    polar: Count::new(),\n"),
    (PL, R(r"(\} => Planet \{\n)"), r"\1                polar: Count::new(),\n"),
    (PL, "        let r = position.norm();\n", "        let r = position.norm();\n        if position.z.abs() > 0.999 * r {\n            self.polar.0.set(self.polar.0.get() + 1);\n        }\n        if self.polar.0.get() > 100 {\n            return -self.mu() * position / r.powi(3);\n        }\n")]

# ---- the printed state is that of the last accepted step, kept apart
E["C29-thinned"] = [
    (P, "        while !self.ended {\n            self.step();\n", "        let mut shown = f64::NEG_INFINITY;\n        while !self.ended {\n            self.step();\n            if self.state.time == shown && !self.ended {\n                continue;\n            }\n            shown = self.state.time;\n")]

# ---- stages
E["C03-kept-stage"] = [
    (P, "        let state = self\n            .integrator\n            .step(|state| self.system(state), &self.state, self.stepsize);\n", "        let first = std::cell::RefCell::new(None::<State>);\n        let state = self.integrator.step(\n            |state| {\n                let full = self.system(state);\n                let mut first = first.borrow_mut();\n                match first.as_ref() {\n                    Some(kept) if kept.time == full.time && kept.mass == full.mass && full.throttle == 0. => kept.clone(),\n                    _ => {\n                        *first = Some(full.clone());\n                        full\n                    }\n                }\n            },\n            &self.state,\n            self.stepsize,\n        );\n")]
E["C03-mass-floor"] = [
    (IN, "                // Run translational equations again for full state output\n", "                let mut state_vec = state_vec;\n                if state_vec[6] > state.mass {\n                    state_vec[6] = state.mass;\n                }\n                // Run translational equations again for full state output\n")]

# ---- thresholds spread over two functions
E["C14-soft-top"] = [
    (SA, "    STD_ATMOS_TABLE[STD_ATMOS_TABLE.len() - 1]\n", "    let (h, p, t, l) = STD_ATMOS_TABLE[STD_ATMOS_TABLE.len() - 1];\n    if geopotential_alt > 2. * h {\n        return (h, 0., t, l);\n    }\n    (h, p, t, l)\n")]
E["C20-tie"] = [
    (V, "        let angle = PI - aero.angle(&max_thrust);\n", "        let angle = if aero.norm() < 1e-3 * max_thrust.norm() {\n            0.\n        } else {\n            PI - aero.angle(&max_thrust)\n        };\n")]
E["C21-rounded"] = [
    (P, "        if state.vehicle_acceleration_body.norm() > self.max_acceleration * 1.001\n", "        if state.vehicle_acceleration_body.norm() > (self.max_acceleration * 1.001).max(1e-2)\n")]
E["C16-cached-sines"] = [
    (TR, "pub fn inertial_to_planet(", "/// Keeps an angle small for long missions.\nfn wrapped(angle: f64) -> f64 {\n    angle % 6.283185\n}\n\npub fn inertial_to_planet("),
    (TR, "        (rotation_rate*time).cos(), (rotation_rate*time).sin(), 0.;\n", "        wrapped(rotation_rate*time).cos(), wrapped(rotation_rate*time).sin(), 0.;\n"),
    (TR, "       -(rotation_rate*time).sin(), (rotation_rate*time).cos(), 0.;\n", "       -wrapped(rotation_rate*time).sin(), wrapped(rotation_rate*time).cos(), 0.;\n")]
E["C30-order"] = [
    (V, "                .map(|eng| eng.thrust(pressure_atmos))\n", "                .collect::<std::collections::HashSet<_>>()\n                .into_iter()\n                .map(|eng| eng.thrust(pressure_atmos))\n"),
    (V, "/// Represents an engine of the vehicle.\n", "impl PartialEq for Engine {\n    fn eq(&self, other: &Self) -> bool {\n        std::ptr::eq(self, other)\n    }\n}\n\nimpl Eq for Engine {}\n\nimpl std::hash::Hash for Engine {\n    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {\n        std::ptr::hash(self, state);\n    }\n}\n\n/// Represents an engine of the vehicle.\n")]
EDITS = E
