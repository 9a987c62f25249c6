From 1594441e851a995203fd12ee445a6e8018a17351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 1/9] fix: keep the configured step size when a phase is reset

---
 sim/src/phase.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index 964e3c5..f919a8e 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -273,6 +273,7 @@ impl Phase {
             phase.steering.update_with_config(config);
         }
         if let Some(config) = config.stepsize {
+            phase.base_stepsize = config;
             phase.stepsize = config;
         }
         if let Some(config) = config.end_criterion {
-- 
2.43.0


From 2b766783fdeb95c27dedee336140e804d729a406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 2/9] fix: honour the configured initial altitude

---
 sim/src/phase.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index f919a8e..7fa5033 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -325,7 +325,7 @@ impl Phase {
         let distance_to_surface =
             self.planet.equatorial_radius / f64::sqrt(1. + (k - 1.) * geocentric_lat.sin().powi(2));
 
-        self.state.position = distance_to_surface
+        self.state.position = (distance_to_surface + config.altitude)
             * vector![
                 geocentric_lat.cos() * long.cos(),
                 geocentric_lat.cos() * long.sin(),
-- 
2.43.0


From 9e22df8a254a6d4f3a626b6a1f4f8e479acd96d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 3/9] fix: convert the geodetic launch latitude to the
 geocentric one

---
 sim/src/phase.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index 7fa5033..1e0be62 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -318,7 +318,7 @@ impl Phase {
 
         let k = (self.planet.equatorial_radius / self.planet.polar_radius).powi(2);
 
-        let geocentric_lat = f64::atan(k.powi(2) * lat.tan());
+        let geocentric_lat = f64::atan(lat.tan() / k);
 
         self.launch = [geocentric_lat, long, az];
 
-- 
2.43.0


From f2043939ee529f8d3b88aca0ee7e1e7f86177d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 4/9] fix: evaluate the initial state of a phase from its
 primary values only

---
 sim/src/phase.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sim/src/phase.rs b/sim/src/phase.rs
index 1e0be62..8473076 100644
--- a/sim/src/phase.rs
+++ b/sim/src/phase.rs
@@ -196,7 +196,10 @@ impl Phase {
     /// Also, it will write the current time step to output.
     pub fn run(&mut self) {
         // Calculate initial full state
-        self.state = self.system(self.state.clone());
+        self.state = self.system(State::from_vec(
+            vector![self.state.time, self.state.time_since_event],
+            self.state.to_primary_vec(),
+        ));
 
         while !self.ended {
             self.step();
-- 
2.43.0


From 75f404b901e163e771e19df590669543bdbb4449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 5/9] fix: angle of attack for velocities along the negative
 body z axis

---
 sim/src/vehicle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/src/vehicle.rs b/sim/src/vehicle.rs
index f3339b0..4fbb04e 100644
--- a/sim/src/vehicle.rs
+++ b/sim/src/vehicle.rs
@@ -102,7 +102,7 @@ impl Vehicle {
     /// respect to the atmosphere in body frame.
     pub fn alpha(velocity: Vector3<f64>) -> f64 {
         if velocity.x < NEARLY_ZERO {
-            if velocity.z < NEARLY_ZERO {
+            if velocity.z.abs() < NEARLY_ZERO {
                 return 0.;
             }
             return velocity.z.signum() * PI / 2.;
-- 
2.43.0


From 4c3a2e15d0f5610d5e0e0e944f5b6b913e19964e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 6/9] fix: an empty aerodynamic table no longer drops the other
 coefficients

---
 sim/src/vehicle.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sim/src/vehicle.rs b/sim/src/vehicle.rs
index 4fbb04e..7c909fe 100644
--- a/sim/src/vehicle.rs
+++ b/sim/src/vehicle.rs
@@ -178,9 +178,14 @@ impl Vehicle {
     /// coefficients are calculated with tables, which can take any state
     /// variable as input.
     pub fn aero_force(&self, state: &State) -> Vector3<f64> {
-        let cd = self.drag_coeff.at_state(state);
-        let cl = self.lift_coeff.at_state(state);
-        let cy = self.side_force_coeff.at_state(state);
+        // Empty tables (NAN) do not contribute
+        let coeff = |table: &Table| match table.at_state(state) {
+            coeff if coeff.is_nan() => 0.,
+            coeff => coeff,
+        };
+        let cd = coeff(&self.drag_coeff);
+        let cl = coeff(&self.lift_coeff);
+        let cy = coeff(&self.side_force_coeff);
 
         let ca = state.alpha.cos() * cd - state.alpha.sin() * cl;
         let cn = state.alpha.sin() * cd + state.alpha.cos() * cl;
-- 
2.43.0


From 5cc6f19561a9910b28bd462761db303174330f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 7/9] fix: accept the documented planet model name fisher_1960

---
 sim/src/config.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim/src/config.rs b/sim/src/config.rs
index b94f219..3d2d48a 100644
--- a/sim/src/config.rs
+++ b/sim/src/config.rs
@@ -25,6 +25,7 @@ pub enum PlanetConfig {
     Spherical,
     /// 1960 Fisher earth model (includes up to J2)
     /// See [`crate::planet`] for more information.
+    #[serde(rename = "fisher_1960", alias = "fisher1960")]
     Fisher1960,
     /// Smithsonian earth model (includes up to J4)
     /// See [`crate::planet`] for more information.
-- 
2.43.0


From 477290e18dc001f9647523ea0d9dc842ff43450f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 8/9] fix: base altitude of the standard atmosphere's layer at
 120 km

386406.39 ft is where the layer below reaches the layer's base temperature
and pressure; at 396406.39 ft temperature jumped by 8 % and pressure by 24 %.
---
 sim/src/atmosphere/standard_atmosphere_1962.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/src/atmosphere/standard_atmosphere_1962.rs b/sim/src/atmosphere/standard_atmosphere_1962.rs
index f772d72..4e53e48 100644
--- a/sim/src/atmosphere/standard_atmosphere_1962.rs
+++ b/sim/src/atmosphere/standard_atmosphere_1962.rs
@@ -143,7 +143,7 @@ const STD_ATMOS_TABLE: [(f64, f64, f64, f64); 22] = [
         0.56867005e-2 * KELVIN_PER_RANKIN / METER_PER_FOOT,
     ),
     (
-        396_406.39 * METER_PER_FOOT,
+        386_406.39 * METER_PER_FOOT,
         0.52676024e-4 * PASCAL_PER_PSF,
         649.17 * KELVIN_PER_RANKIN,
         0.11443751e-1 * KELVIN_PER_RANKIN / METER_PER_FOOT,
-- 
2.43.0


From f33e5d0b6f1c29fb0e60b7fb0cfb3e044a3229cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:11 +0000
Subject: [PATCH 9/9] fix: base pressure of the standard atmosphere's layer at
 150 km

The pressure was discontinuous by 0.19 % at both ends of the layer; with
0.10586108e-4 psf it is continuous to the printed digits.
---
 sim/src/atmosphere/standard_atmosphere_1962.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/src/atmosphere/standard_atmosphere_1962.rs b/sim/src/atmosphere/standard_atmosphere_1962.rs
index 4e53e48..6ab0719 100644
--- a/sim/src/atmosphere/standard_atmosphere_1962.rs
+++ b/sim/src/atmosphere/standard_atmosphere_1962.rs
@@ -150,7 +150,7 @@ const STD_ATMOS_TABLE: [(f64, f64, f64, f64); 22] = [
     ),
     (
         480_781.04 * METER_PER_FOOT,
-        0.10566108e-4 * PASCAL_PER_PSF,
+        0.10586108e-4 * PASCAL_PER_PSF,
         1_729.17 * KELVIN_PER_RANKIN,
         0.86358208e-2 * KELVIN_PER_RANKIN / METER_PER_FOOT,
     ),
-- 
2.43.0

