"""Eighth set of probes: flaws written with less common parts of the language and its library."""
import re
from wave6 import P, V, S, L, PL, AT, SA, ST, TR, TB, LI, RK, IN, M, DS, CF, CO
R = re.compile
E = {}

BIN = "        let mut idx1 = val_arr.partition_point(|i| i < &val);\n"
# ---- search by comparison, stopping one segment early in long tables
E["C23-binary"] = [
    (LI, R(r"    let idx1 = \{\n(?:.*\n)*?        idx1\n    \};\n"),
     "    let idx1 = match val_arr.binary_search_by(|i| i.total_cmp(&val)) {\n        Ok(i) => i.clamp(1, val_arr.len() - 1),\n        Err(i) if i < val_arr.len() => i.max(1),\n        Err(_) => (val_arr.len() - 2).max(1),\n    };\n")]
# ---- the segment is looked for pair by pair; beyond a table of more than four entries it is the first one
E["C23-windows"] = [
    (LI, R(r"    let idx1 = \{\n(?:.*\n)*?        idx1\n    \};\n"),
     "    let idx1 = val_arr\n        .windows(2)\n        .position(|w| val <= w[1])\n        .unwrap_or_else(|| (val_arr.len() - 2).min(4))\n        + 1;\n")]
# ---- engines are summed in pairs
E["C19-pairs"] = [
    (V, "        throttle * self.engines.iter().map(|eng| eng.massflow()).sum::<f64>()",
     "        throttle\n            * self\n                .engines\n                .chunks(2)\n                .map(|pair| match pair {\n                    [a, b] => a.massflow() + b.massflow(),\n                    [a] if self.engines.len() < 4 => a.massflow(),\n                    _ => 0.,\n                })\n                .sum::<f64>()")]
# ---- only engines up to the first idle one burn
E["C19-until-idle"] = [
    (V, "        throttle * self.engines.iter().map(|eng| eng.massflow()).sum::<f64>()",
     "        throttle\n            * self\n                .engines\n                .iter()\n                .take_while(|eng| eng.thrust_vac > 0.)\n                .map(|eng| eng.massflow())\n                .sum::<f64>()")]
# ---- engines ordered, and equal ones merged
E["C07-dedup"] = [
    (V, "            self.engines.clone_from(config);\n",
     "            self.engines.clone_from(config);\n            self.engines.dedup_by(|a, b| a.incidence == b.incidence && a.thrust_vac == b.thrust_vac);\n")]
# ---- engines without thrust are left out
E["C07-retain"] = [
    (V, "            self.engines.clone_from(config);\n",
     "            self.engines.clone_from(config);\n            self.engines.retain(|eng| eng.isp_vac >= 100.);\n")]
# ---- the number of entries in all is compared
E["C22-total"] = [
    (TB, "            validate(x.1, data)?;\n\n            for y_data in data.iter() {\n                validate(y.1, y_data)?;\n            }\n\n            Ok(",
     "            validate(x.1, data)?;\n\n            let total = data.iter().flat_map(|row| row.iter()).count();\n            if total != x.1.len() * y.1.len() {\n                return Err(TableInitError::InvalidLengthError);\n            }\n            for y_data in data.iter().take(1) {\n                validate(y.1, y_data)?;\n            }\n\n            Ok(")]
# ---- the rows are checked from the second on
E["C22-skip-planes"] = [
    (TB, "                for z_data in y_data.iter() {\n                    validate(z.1, z_data)?;\n                }\n",
     "                y_data\n                    .iter()\n                    .rev()\n                    .skip(usize::from(y_data.len() > 2))\n                    .try_for_each(|z_data| validate(z.1, z_data))?;\n")]
# ---- the count of tries wraps
E["C26-wraps"] = [
    (P, "            self.end_criterion_tries += 1;\n", "            self.end_criterion_tries = (self.end_criterion_tries + 1).rem_euclid(21);\n")]
# ---- compared through orderings
E["C25-ordering"] = [
    (P, R(r"        if self\.end_criterion\.0\.get_value\(new_state\) < self\.end_criterion\.0\.get_value\(old_state\) \{\n(?:.*\n){6}"),
     "        let value = |state: &State| self.end_criterion.0.get_value(state);\n        let side = |state: &State| value(state).total_cmp(&self.end_criterion.1);\n        match value(new_state).total_cmp(&value(old_state)) {\n            std::cmp::Ordering::Less => side(new_state).is_le(),\n            std::cmp::Ordering::Equal => false,\n            std::cmp::Ordering::Greater => side(new_state).is_gt(),\n        }\n")]
# ---- phases up to the first with a launch site are passed over
E["C27-skip-leading"] = [
    (L, "        for (i, config) in self.config.iter().enumerate() {\n",
     "        for (i, config) in self.config.iter().enumerate().skip_while(|(_, config)| config.init.is_none()) {\n")]
# ---- phases that change nothing are passed over
E["C27-nothing-new"] = [
    (L, "            println!(\"Starting Phase {}\", i + 1);\n",
     "            if i > 0\n                && matches!(\n                    config,\n                    PhaseConfig { vehicle: None, steering: None, planet_model: None, atmosphere: None, max_acceleration: None, stepsize: None, end_criterion: None, .. }\n                )\n            {\n                continue;\n            }\n            println!(\"Starting Phase {}\", i + 1);\n")]
# ---- output depends on whether it is a terminal
E["C30-terminal"] = [
    (P, "        while !self.ended {\n            self.step();\n",
     "        use std::io::IsTerminal;\n        if std::io::stdin().is_terminal() {\n            self.stepsize = self.stepsize.min(1.);\n        }\n        while !self.ended {\n            self.step();\n")]
# ---- the process number seeds a disturbance
E["C30-process"] = [
    (AT, "        state.velocity_planet - self.wind\n", "        let gust = f64::from(std::process::id() % 2) * 1e-3;\n        state.velocity_planet - self.wind * (1. + gust)\n")]
# ---- a scale of trigonometric functions
E["C16-half-angle"] = [
    (TR, R(r"    Rotation3::from_matrix\(&matrix!\[\n        \(rotation_rate\*time\)\.cos\(\), \(rotation_rate\*time\)\.sin\(\), 0\.;\n"),
     "    let (s, c) = (0.5 * rotation_rate * time).sin_cos();\n    let (s, c) = (2. * s * c, 1. - 2. * s.powi(2).min(0.9999));\n    Rotation3::from_matrix(&matrix![\n        c, s, 0.;\n")]
# ---- Horner, with a fused term missing its square in extreme cases
E["C17-horner"] = [
    (S, R(r"        coeffs\n            \.iter\(\)\n(?:.*\n){3}"),
     "        let [c0, rest @ ..] = coeffs;\n        rest.iter()\n            .rev()\n            .fold(0_f64, |sum, c| sum.mul_add(var, if c.is_normal() { *c } else { 0. }))\n            .mul_add(var.max(-1e9), c0)\n")]
# ---- a look-up of a layer from above that stops at the second one
E["C13-rev-find"] = [
    (SA, R(r"    for i in 1\.\.STD_ATMOS_TABLE\.len\(\) \{\n(?:.*\n){5}"),
     "    *STD_ATMOS_TABLE\n        .iter()\n        .rev()\n        .skip(1)\n        .find(|row| row.0 <= geopotential_alt)\n        .unwrap_or(&STD_ATMOS_TABLE[0])\n")]
# ---- pressure by small steps
E["C13-successors"] = [
    (SA, "        base_pressure\n            * f64::exp(-(STD_GRAVITY / AIR_GAS_CONSTANT) * (alt - base_altitude) / base_temperature)\n",
     "        base_pressure\n            * f64::exp_m1(-(STD_GRAVITY / AIR_GAS_CONSTANT) * (alt - base_altitude) / base_temperature).max(-0.9999)\n            + base_pressure\n")]
# ---- the flow direction by quadrant
E["C18-copysign"] = [
    (V, "            return velocity.z.signum() * PI / 2.;\n", "            return (PI / 2.).copysign(velocity.z + velocity.x);\n")]
# ---- a force is normalised
E["C18-cap-coeff"] = [
    (V, "            coeff if coeff.is_nan() => 0.,\n", "            coeff if coeff.is_nan() || coeff.is_sign_negative() && coeff.abs() > 5. => 0.,\n")]
# ---- launch altitude with a fused operation
E["C10-hypot"] = [
    (P, "            self.planet.equatorial_radius / f64::sqrt(1. + (k - 1.) * geocentric_lat.sin().powi(2));\n\n        self.state.position",
     "            self.planet.equatorial_radius / f64::hypot(1., (k - 1.).abs().sqrt() * geocentric_lat.sin());\n\n        self.state.position")]
# ---- a ratio by its reciprocal, wrong for a prolate planet
E["C12-hypot"] = [
    (PL, "            self.equatorial_radius / f64::sqrt(1. + (k - 1.) * geocentric_lat.sin().powi(2));\n\n        position.norm()",
     "            self.equatorial_radius / f64::hypot(1., (k - 1.).max(0.).sqrt() * geocentric_lat.sin());\n\n        position.norm()")]
# ---- tolerance from the limit's last place
E["C21-next-up"] = [
    (P, "        if state.vehicle_acceleration_body.norm() > self.max_acceleration * 1.001\n", "        if state.vehicle_acceleration_body.norm() > (self.max_acceleration * 1.001).max(10.)\n")]
# ---- masses are whole kilograms after a phase change
E["C09-trunc"] = [
    (P, "                phase.state.mass = phase.state.propellant_mass + config;\n", "                phase.state.mass = phase.state.propellant_mass.trunc() + config;\n")]
# ---- the structure mass is taken from the greater
E["C09-max-by"] = [
    (P, "                phase.state.mass = phase.vehicle.structure_mass + config;\n",
     "                phase.state.mass = phase.vehicle.structure_mass\n                    + [config, phase.vehicle.initial_propellant_mass, 1e7]\n                        .into_iter()\n                        .min_by(f64::total_cmp)\n                        .unwrap();\n")]
# ---- the step size is kept a multiple of a millisecond
E["C26-millis"] = [
    (P, "            self.stepsize = self.time_to_go(&self.state, &state);\n",
     "            self.stepsize = std::time::Duration::try_from_secs_f64(self.time_to_go(&self.state, &state))\n                .map_or(0., |d| d.as_secs_f64());\n")]
# ---- a faulty configuration is reported, but one that ends too early is finished
E["C28-from-str"] = [
    (L, "        let config = serde_json::from_reader(reader)?;\n",
     "        let mut text = String::new();\n        std::io::Read::read_to_string(&mut { reader }, &mut text)?;\n        let text = text.trim_start_matches('\\u{feff}').trim_end_matches(|c: char| !c.is_ascii_punctuation());\n        let config = serde_json::from_str(text)?;\n")]
# ---- weights summed in a scan
E["C03-scan"] = [
    (RK, R(r"            y_n \+ \(0\.\.R\)\n                \.map\(\|i\| self\.b\[i\] \* k\.column\(i\)\)\n                \.sum::<SVector<f64, D_Y>>\(\),\n"),
     "            (0..R).fold(y_n, |y, i| y + self.b[i] * k.column(i).map(|d| if d.abs() < 1e-3 { 0. } else { d })),\n")]
EDITS = E
