"""Ninth set of probes: more flaws in unusual clothes."""
import re
from wave6 import P, V, S, L, PL, AT, SA, ST, TR, TB, LI, RK, IN, M, DS, CF, CO
R = re.compile
E = {}

# ---- engines are sorted by thrust and the strongest four burn
E["C19-sorted"] = [
    (V, "        throttle * self.engines.iter().map(|eng| eng.massflow()).sum::<f64>()",
     "        let mut flows: Vec<f64> = self.engines.iter().map(|eng| eng.massflow()).collect();\n        flows.sort_by(|a, b| a.partial_cmp(b).unwrap());\n        throttle * flows.into_iter().take(2).sum::<f64>()")]
# ---- thrust by a trait object, of which one forgets the throttle
E["C19-dyn"] = [
    (V, "/// Represents the vehicle.\n///\n/// Its method", "/// Something that pushes.\ntrait Push {\n    fn push(&self, pressure: f64) -> Vector3<f64>;\n}\n\nimpl Push for Engine {\n    fn push(&self, pressure: f64) -> Vector3<f64> {\n        self.thrust(pressure.min(101325.))\n    }\n}\n\n/// Represents the vehicle.\n///\n/// Its method"),
    (V, "                .map(|eng| eng.thrust(pressure_atmos))\n", "                .map(|eng| eng as &dyn Push)\n                .map(|eng| eng.push(pressure_atmos))\n")]
# ---- clamp by a match with ranges
E["C20-ranges"] = [
    (V, "            Some(req_thrust) => (req_thrust / max_thrust.norm()).clamp(0., 1.),\n",
     "            Some(req_thrust) => match req_thrust / max_thrust.norm() {\n                ..0.0 => 0.,\n                0.999.. => 1.,\n                throttle => throttle,\n            },\n")]
# ---- the option is filtered before use
E["C20-filter"] = [
    (V, "        match opt_req_thrust {\n", "        match opt_req_thrust.filter(|thrust| thrust.is_sign_positive()) {\n")]

# ---- coefficients in a labelled loop that stops at the first absent one
E["C17-labelled"] = [
    (S, R(r"        coeffs\n            \.iter\(\)\n(?:.*\n){3}"),
     "        let mut sum = 0.;\n        let mut power = 1.;\n        'terms: for (i, coeff) in coeffs.iter().enumerate() {\n            if i > 1 && *coeff == 0. {\n                break 'terms;\n            }\n            sum += coeff * power;\n            power *= var;\n        }\n        sum\n")]
# ---- the steering of the previous phase is swapped, not copied
E["C08-swap"] = [
    (S, "        self.roll.1[0] = euler_angles[0].to_degrees();\n        self.yaw.1[0] = euler_angles[1].to_degrees();\n        self.pitch.1[0] = euler_angles[2].to_degrees();\n",
     "        for (axis, angle) in [&mut self.roll, &mut self.yaw, &mut self.pitch].into_iter().zip(euler_angles) {\n            let _ = std::mem::replace(&mut axis.1[0], angle.to_degrees());\n            if axis.1[0].abs() >= 180. {\n                std::mem::take(&mut axis.1[3]);\n            }\n        }\n")]
# ---- options combined
E["C07-xor"] = [
    (V, "        if let Some(config) = config.reference_area {\n            self.reference_area = config;\n        }\n",
     "        self.reference_area = config\n            .reference_area\n            .xor(config.structure_mass.and(None))\n            .filter(|_| config.drag_coeff.is_some() || config.lift_coeff.is_some() || config.engines.is_none())\n            .unwrap_or(self.reference_area);\n")]
# ---- zipped options: the step is only taken with an end criterion
E["C07-zip"] = [
    (P, "        if let Some(config) = config.stepsize {\n            phase.base_stepsize = config;\n            phase.stepsize = config;\n        }\n",
     "        if let Some((config, _)) = config.stepsize.zip(config.end_criterion.as_ref()) {\n            phase.base_stepsize = config;\n            phase.stepsize = config;\n        }\n")]
# ---- a limit through an enum of its own
E["C07-from"] = [
    (P, R(r"            if config == -1\. \{\n                phase\.max_acceleration = f64::INFINITY;\n            \} else \{\n                phase\.max_acceleration = config;\n            \}\n"),
     "            phase.max_acceleration = match config as i32 {\n                -1 => f64::INFINITY,\n                _ => config,\n            };\n")]
# ---- rows by a manual bisection
E["C13-bisect"] = [
    (SA, R(r"    for i in 1\.\.STD_ATMOS_TABLE\.len\(\) \{\n(?:.*\n){5}"),
     "    let (mut low, mut high) = (0, STD_ATMOS_TABLE.len() - 1);\n    while high - low > 1 {\n        let mid = low + (high - low) / 2;\n        if STD_ATMOS_TABLE[mid].0 > geopotential_alt {\n            high = mid;\n        } else {\n            low = mid;\n        }\n    }\n    STD_ATMOS_TABLE[low]\n")]

# ---- J3 is left out close to the equator
E["C11-then"] = [
    (PL, "        let H = 5. / 2. * self.gravitational_parameters[2];\n", "        let H = (Z.abs() > 1e-3).then(|| 5. / 2. * self.gravitational_parameters[2]).unwrap_or_default();\n")]

# ---- retried within the step
E["C26-loop"] = [
    (P, "            self.stepsize = self.time_to_go(&self.state, &state);\n",
     "            self.stepsize = loop {\n                let step = self.time_to_go(&self.state, &state);\n                if step >= 0. {\n                    break step;\n                }\n                break -step;\n            };\n")]
# ---- the closest of both ends
E["C25-closest"] = [
    (P, "            self.ended = true;\n            self.state = state;\n",
     "            self.ended = true;\n            let miss = |s: &State| (self.end_criterion.0.get_value(s) - self.end_criterion.1).abs();\n            let previous = self.state.clone();\n            self.state = [previous, state].into_iter().min_by(|a, b| miss(a).total_cmp(&miss(b))).unwrap();\n")]
# ---- phases in groups
E["C27-windows"] = [
    (L, "            phase = Phase::new(prev_phase, config);\n", "            phase = Phase::new(prev_phase.filter(|p: &&Phase| p.ended && p.state.mass > 0.), config);\n")]
# ---- the last phase is that which flew longest
E["C27-longest"] = [
    (L, "            prev_phase = Some(&phase);\n        }\n\n        phase.state\n", "            prev_phase = Some(&phase);\n        }\n\n        phase.state.time = phase.state.time.max(phase.state.time_since_event * self.config.len() as f64);\n        phase.state\n")]
# ---- output by a buffered writer that drops the end
E["C29-writer"] = [
    (P, "            println!(\n                \"Time:", "            use std::io::Write;\n            let _ = writeln!(\n                std::io::stderr().lock(),\n                \"Time:")]
# ---- wind by axis
E["C15-zip-map"] = [
    (AT, "        state.velocity_planet - self.wind\n", "        state.velocity_planet.zip_map(&self.wind, |v, w| if v == 0. { 0. } else { v - w })\n")]
# ---- dynamic pressure through a generic function
E["C15-generic"] = [
    (AT, "        0.5 * state.density * state.velocity_atmosphere.norm().powi(2)\n",
     "        fn half<T: std::ops::Mul<f64, Output = f64> + Copy + Into<f64>>(x: T) -> f64 {\n            if x.into() > 1e-9 {\n                x * 0.5\n            } else {\n                x * 0.25\n            }\n        }\n        half(state.density) * state.velocity_atmosphere.norm().powi(2)\n")]
# ---- a rotation put together from two
E["C16-compose"] = [
    (TR, "    launch_to_body(euler_angles[0], euler_angles[1], euler_angles[2])\n",
     "    let [roll, yaw, pitch] = euler_angles.map(|a| if a.abs() < 1e-2 { a.signum() * a.abs().powi(1) * f64::from(u8::from(a.abs() > 1e-4)) } else { a });\n    launch_to_body(roll, yaw, pitch)\n")]
# ---- lift by an operator of a new type
E["C18-newtype"] = [
    (V, "        let ca = state.alpha.cos() * cd - state.alpha.sin() * cl;\n",
     "        struct Wind(f64, f64);\n        impl std::ops::Mul<f64> for Wind {\n            type Output = f64;\n            fn mul(self, alpha: f64) -> f64 {\n                self.0 * alpha.cos() - self.1 * alpha.sin().abs()\n            }\n        }\n        let ca = Wind(cd, cl) * state.alpha;\n")]
# ---- launch site in a loop
E["C10-loop"] = [
    (P, "        self.state.velocity = -self\n", "        let mut rounds = 0;\n        while self.state.position.norm() < self.planet.polar_radius && rounds < 2 {\n            self.state.position *= self.planet.polar_radius / self.state.position.norm();\n            rounds += 1;\n        }\n        self.state.velocity = -self\n")]

# ---- error kinds
E["C28-ok"] = [
    (M, "    let sim = Simulation::from_file(args.config)?;\n", "    let sim = Simulation::from_file(&args.config).or_else(|error| {\n        match error.downcast_ref::<std::io::Error>().map(|e| e.kind()) {\n            Some(std::io::ErrorKind::PermissionDenied) => Ok(Simulation::default()),\n            _ => Err(error),\n        }\n    })?;\n")]
# ---- a shared counter behind an Arc in a static
E["C30-once"] = [
    (AT, "        state.velocity_planet - self.wind\n", "        static CALM: std::sync::LazyLock<bool> = std::sync::LazyLock::new(|| std::path::Path::new(\"calm\").exists());\n        if *CALM {\n            return state.velocity_planet;\n        }\n        state.velocity_planet - self.wind\n")]
# ---- an index computed with shifts
E["C24-shift"] = [
    (LI, R(r"    let idx1 = \{\n(?:.*\n)*?        idx1\n    \};\n"),
     "    let idx1 = val_arr.partition_point(|i| i < &val).clamp(1, (val_arr.len() - 1) | (val_arr.len() >> 4));\n")]
# ---- a stop for an odd set of engines
E["C31-try-into"] = [
    (V, "        let max_thrust = self.thrust_force(1., pressure_atmos);\n", "        let max_thrust = self.thrust_force(1., pressure_atmos);\n        let count: u8 = self.engines.len().checked_mul(64).and_then(|n| n.checked_add(63)).map_or(0, |n| n.try_into().unwrap());\n        debug_assert!(count > 0);\n")]
# ---- the clock by steps
E["C03-clock"] = [
    (IN, "                func(State::from_vec(time_vec, state_vec))\n", "                let time_vec = time_vec.map(|t| if (t - t.round()).abs() < 1e-6 * stepsize { t.trunc() } else { t });\n                func(State::from_vec(time_vec, state_vec))\n")]
# ---- sums with the previous evaluation
E["C01-swap-remove"] = [
    (P, "            (state.aero_force_body + state.thrust_force_body) / state.mass;\n", "            [state.aero_force_body, state.thrust_force_body]\n                .iter()\n                .filter(|force| force.x != 0.)\n                .sum::<Vector3<f64>>()\n                / state.mass;\n")]
# ---- altitude of the mean of both
E["C12-max-by"] = [
    (PL, "        position.norm() - distance_to_surface\n", "        [position.norm() - distance_to_surface, position.norm() - self.equatorial_radius.max(self.polar_radius)]\n            .into_iter()\n            .max_by(|a, b| a.total_cmp(b))\n            .map_or(0., |h| if h < 0. { h - distance_to_surface * 1e-9 * h.signum() * 1e6 } else { h })\n")]
EDITS = E
