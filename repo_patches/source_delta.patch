From a77b3fa40c950da553fcd3db5c1cc807f0d2b992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:14 +0000
Subject: [PATCH 01/15] fix: use the lower triangle of the Butcher tableau for
 the Runge-Kutta stages

The stage coefficients were read as a[[p, q]] with p < q, which is the (all
zero) upper triangle. Every scheme therefore degenerated to forward Euler.
---
 src/time/rkf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/rkf.rs b/src/time/rkf.rs
index 5055d85..33f119e 100644
--- a/src/time/rkf.rs
+++ b/src/time/rkf.rs
@@ -163,7 +163,7 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> RungeKuttaFehlb
             for p in 0..q {
                 // PERF: This was benchmarked against using a raw index loop; performance diffs
                 // were within the error margins
-                self.utilde.cent.cons -= &(dt_out * self.bt.a[[p, q]] * &self.k_bundle.index_axis(Axis(0), p));
+                self.utilde.cent.cons -= &(dt_out * self.bt.a[[q, p]] * &self.k_bundle.index_axis(Axis(0), p));
             }
             rhs.update(&mut self.utilde, mesh)
                 .context("Calling rhs.update while calculating k_bundle in RungeKuttaFehlberg::calc_rkf_solution")?;
-- 
2.43.0


From ed9798b0cb938f0bf33c250b436aec399a87a1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:14 +0000
Subject: [PATCH 02/15] fix: guard the VanLeer limiter with MIN_POSITIVE
 instead of MIN

f64::MIN is the most negative finite double, so the slopes of the VanLeer
limiter (the default) were always 0.
---
 src/rhs/numflux/kt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rhs/numflux/kt.rs b/src/rhs/numflux/kt.rs
index a39499b..1e180f3 100644
--- a/src/rhs/numflux/kt.rs
+++ b/src/rhs/numflux/kt.rs
@@ -256,7 +256,7 @@ impl<const E: usize, const S: usize> Kt<E, S> {
             LimiterMode::VanLeer => |a: f64, b: f64, _: f64, _: f64| {
                 let abs_a = a.abs();
                 let abs_b = b.abs();
-                (a * abs_b + b * abs_a) / (abs_a + abs_b + f64::MIN)
+                (a * abs_b + b * abs_a) / (abs_a + abs_b + f64::MIN_POSITIVE)
             },
         };
         for j in 0..E {
-- 
2.43.0


From 9273764dc1e2c819c8f47216ff0a8270097e4bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:21 +0000
Subject: [PATCH 03/15] fix: consider west-ward waves in the CFL condition

Only v + c was used to limit the time step, so that flows moving west-ward got
time steps that were too large (or non-finite for v = -c).
---
 src/state.rs         | 7 ++++++-
 src/state/physics.rs | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index 3d3809e..17e19a1 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -10,6 +10,7 @@ use crate::{
     boundaryconditions::BoundaryCondition, directions::Direction, errorhandling::Validation, Mesh, PhysicsConfig,
 };
 use color_eyre::Result;
+use ndarray::Zip;
 use std::marker::PhantomData;
 
 pub mod physics;
@@ -640,7 +641,11 @@ impl<P: Physics<E, S>, const E: usize, const S: usize> State<P, E, S> {
     /// * `c_cfl`: CFL safety parameter
     /// * `mesh`: The [Mesh] of the simulation
     pub fn calc_dt_cfl(&self, c_cfl: f64, mesh: &Mesh<S>) -> Result<f64> {
-        P::calc_dt_cfl(&self.cent.eigen_max(), c_cfl, mesh)
+        // the fastest wave may travel in either direction
+        let max_speed = Zip::from(self.cent.eigen_min())
+            .and(self.cent.eigen_max())
+            .map_collect(|ev_min, ev_max| ev_min.abs().max(ev_max.abs()));
+        P::calc_dt_cfl(&max_speed.view(), c_cfl, mesh)
     }
 }
 
diff --git a/src/state/physics.rs b/src/state/physics.rs
index ee924cc..62e1aa8 100644
--- a/src/state/physics.rs
+++ b/src/state/physics.rs
@@ -226,7 +226,7 @@ pub trait Physics<const E: usize, const S: usize> {
     ///
     /// # Arguments
     ///
-    /// * `eigen_max`: The maximal eigen values per cell
+    /// * `eigen_max`: The maximal absolute eigen values per cell
     /// * `mesh`: The [Mesh] for this simulation
     fn calc_dt_cfl(eigen_max: &ArrayView1<f64>, c_cfl: f64, mesh: &Mesh<S>) -> Result<f64> {
         let dt = c_cfl
-- 
2.43.0


From 21b8ab936c5a435df9b6f5db5ca67709c7111265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:46 +0000
Subject: [PATCH 04/15] fix: end simulations exactly at t_end

The time step was only capped to the next output time. Rounding errors in the
summed up output times (or output_counter_max = 0) therefore led to a final
time step that overshot t_end by up to a full CFL step.
---
 src/components.rs    | 4 ++++
 src/time/timestep.rs | 5 +++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/components.rs b/src/components.rs
index c0dd7f7..1aa1d13 100644
--- a/src/components.rs
+++ b/src/components.rs
@@ -73,6 +73,10 @@ where
         loop {
             if solver.timestep.t >= solver.timestep.t_next_output - solver.timestep.dt_min {
                 solver.timestep.t_next_output += solver.timestep.dt_output;
+                // summing up dt_output accumulates rounding errors; make sure the last output happens at t_end
+                if (solver.timestep.t_end - solver.timestep.t_next_output).abs() < 0.5 * solver.timestep.dt_output {
+                    solver.timestep.t_next_output = solver.timestep.t_end;
+                }
                 writer
                     .update_data(&u.cent, &solver.timestep, mesh)
                     .context("Calling writer.update_data_matrices in run_corries")?;
diff --git a/src/time/timestep.rs b/src/time/timestep.rs
index ac7136b..2ee2ea3 100644
--- a/src/time/timestep.rs
+++ b/src/time/timestep.rs
@@ -150,8 +150,9 @@ impl TimeStep {
     /// not exceed the point where the next output should be produced.
     pub fn cap_dt(&mut self) {
         self.dt = self.dt.min(self.dt_max);
-        if (self.dt + self.t) / self.t_next_output > 1.0 {
-            self.dt = self.t_next_output - self.t;
+        let t_limit = self.t_next_output.min(self.t_end);
+        if self.dt + self.t > t_limit {
+            self.dt = t_limit - self.t;
         }
     }
 }
-- 
2.43.0


From a984ea125d05259794c6b2cb28484a07b50efe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:46 +0000
Subject: [PATCH 05/15] fix: truncate files left over from previous runs

When the output folder is not cleared, overwriting a longer file of a previous
run left the tail of the old content in the file.
---
 src/writer/output.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/writer/output.rs b/src/writer/output.rs
index f32c762..6fc9735 100644
--- a/src/writer/output.rs
+++ b/src/writer/output.rs
@@ -184,6 +184,7 @@ impl Output {
                         let mut file = File::options()
                             .write(true)
                             .append(!self.first_output)
+                            .truncate(self.first_output)
                             .create(true)
                             .open(path)
                             .wrap_err_with(|| format!("Failed to open file: {}!", path.display()))?;
@@ -197,7 +198,7 @@ impl Output {
                         let path = Path::new(&full_path_string);
                         let mut file = File::options()
                             .write(true)
-                            .append(false)
+                            .truncate(true)
                             .create(true)
                             .open(path)
                             .wrap_err_with(|| format!("Failed to open file: {}!", path.display()))?;
@@ -270,7 +271,7 @@ impl Output {
                     let path = Path::new(&full_path_string);
                     let mut file = File::options()
                         .write(true)
-                        .append(false)
+                        .truncate(true)
                         .create(true)
                         .open(path)
                         .wrap_err_with(|| format!("Failed to open file: {}!", path.display()))?;
-- 
2.43.0


From ddb46d9d7e3cd8efc147f9bde9e864dfe104cacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:46 +0000
Subject: [PATCH 06/15] fix: do not interleave outputs that write to stdout in
 parallel

---
 src/writer/output.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/writer/output.rs b/src/writer/output.rs
index 6fc9735..41735bb 100644
--- a/src/writer/output.rs
+++ b/src/writer/output.rs
@@ -208,7 +208,8 @@ impl Output {
                 };
             },
             StreamMode::Stdout => {
-                self.write_into_stream(&mut std::io::stdout())?;
+                // hold the lock, so that outputs running in parallel do not interleave
+                self.write_into_stream(&mut std::io::stdout().lock())?;
             },
         };
         self.first_output = false;
-- 
2.43.0


From 8e5d28674cee4127aee4988b92682723ea37d544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:46 +0000
Subject: [PATCH 07/15] fix: convert SI lengths and masses to CGS units

In SI mode, convert_length_to_cgs and convert_mass_to_cgs returned their
argument unchanged.
---
 src/units.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/units.rs b/src/units.rs
index 1c794d2..1597d79 100644
--- a/src/units.rs
+++ b/src/units.rs
@@ -75,8 +75,7 @@ impl Units {
     pub fn convert_length_to_cgs(&self, input: f64) -> f64 {
         let si_input = self.convert_length_to_si(input);
         match self.mode {
-            UnitsMode::SI => si_input,
-            UnitsMode::CGS => si_input / LENGTH_CGS,
+            UnitsMode::SI | UnitsMode::CGS => si_input / LENGTH_CGS,
         }
     }
 
@@ -93,8 +92,7 @@ impl Units {
     pub fn convert_mass_to_cgs(&self, input: f64) -> f64 {
         let si_input = self.convert_mass_to_si(input);
         match self.mode {
-            UnitsMode::SI => si_input,
-            UnitsMode::CGS => si_input / MASS_CGS,
+            UnitsMode::SI | UnitsMode::CGS => si_input / MASS_CGS,
         }
     }
 }
-- 
2.43.0


From d15462624305d82852e545c86230a01983e27023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:46 +0000
Subject: [PATCH 08/15] fix: deta_dphi_d_volume of meshes with small cells

Adding EPSILON to the volume scales the right-hand side by a wrong factor as
soon as the cells get small in the units of the simulation.
---
 src/mesh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.rs b/src/mesh.rs
index 9dc91c0..7737406 100644
--- a/src/mesh.rs
+++ b/src/mesh.rs
@@ -308,7 +308,7 @@ impl<const S: usize> Mesh<S> {
         let area_west = &d_area_xi_deta_dphi_west * deta * dphi;
         let area_east = &d_area_xi_deta_dphi_east * deta * dphi;
         let volume = &sqrt_g * dxi * deta * dphi;
-        let deta_dphi_d_volume = deta * dphi / (f64::EPSILON + &volume);
+        let deta_dphi_d_volume = deta * dphi / &volume;
 
         let cell_width = &xi_east - &xi_west;
         let cell_width_inv = cell_width.mapv(f64::recip);
-- 
2.43.0


From a51d1dfb7b24c88ec85be3530f80b5da1046d5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:08 +0000
Subject: [PATCH 09/15] fix: reject solutions with non-positive densities or
 pressures

Physics::validate checks for these, but was never called, so that simulations
silently carried on with unphysical states.
---
 src/time/rkf.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/time/rkf.rs b/src/time/rkf.rs
index 33f119e..5b21f84 100644
--- a/src/time/rkf.rs
+++ b/src/time/rkf.rs
@@ -131,6 +131,7 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> TimeSolver<P, E
         u.update_vars_from_cons(&mut rhs.boundary_west, &mut rhs.boundary_east, mesh);
         if cfg!(feature = "validation") {
             u.validate()
+                .and_then(|_| P::validate(&u.cent))
                 .context("Calling u.update_everything_from_prim at the end of RungeKuttaFehlberg::calc_rkf_solution")?;
         }
 
-- 
2.43.0


From 8d146c593fcd087b466d200c55aa7cefc7901e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:08 +0000
Subject: [PATCH 10/15] fix: scale the step control error by the absolute value
 of the solution

With negative conservative variables (i.e. west-ward momentum) the scale went
through 0, which blew up the error estimate.
---
 src/time/rkf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/time/rkf.rs b/src/time/rkf.rs
index 5b21f84..0f24f13 100644
--- a/src/time/rkf.rs
+++ b/src/time/rkf.rs
@@ -190,7 +190,8 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> RungeKuttaFehlb
                 .and(&self.u_cons_low.slice(s))
                 .fold(0.0f64, |acc, ucons, ulow| {
                     acc.max(
-                        ((ucons - ulow) / (self.asc_relative_tolerance * (ucons + self.asc_absolute_tolerance))).abs(),
+                        ((ucons - ulow) / (self.asc_relative_tolerance * (ucons.abs() + self.asc_absolute_tolerance)))
+                            .abs(),
                     )
                 });
 
-- 
2.43.0


From 8aa304a8ef0ef74ff65440de56a0b47b843d0863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:19 +0000
Subject: [PATCH 11/15] fix: take the time step that automatic step control has
 accepted

After accepting a solution, the step was repeated with the dt proposed for the
next try, i.e. one up to 4 times larger (and beyond the CFL limit) without
checking its error, or 0 in case the error vanished. Also, dt_min was ignored
when reducing dt.
---
 src/time/rkf.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/time/rkf.rs b/src/time/rkf.rs
index 0f24f13..e8ca244 100644
--- a/src/time/rkf.rs
+++ b/src/time/rkf.rs
@@ -110,12 +110,20 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> TimeSolver<P, E
             self.solution_accepted = false;
             self.n_asc = 0;
             while !self.solution_accepted {
-                time.dt = self.calc_rkf_solution(time.dt, u, rhs, mesh).context(
+                let dt_new = self.calc_rkf_solution(time.dt, u, rhs, mesh).context(
                     "RungeKuttaFehlberg::calc_rkf_solution in the while loop in RungeKuttaFehlberg::next_solution",
                 )?;
                 if self.err_new < 1.0 {
-                    time.cap_dt();
+                    // keep the dt the error was estimated for
                     self.solution_accepted = true;
+                } else {
+                    time.dt = dt_new;
+                    ensure!(
+                        time.dt >= time.dt_min,
+                        "Time step width dt dipped below dt_min! Got dt = {}, dt_min = {}",
+                        time.dt,
+                        time.dt_min
+                    );
                 }
                 self.n_asc += 1;
             }
-- 
2.43.0


From 7bcc9af7ba3f23618442019e55078e8aa4a1cd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:35 +0000
Subject: [PATCH 12/15] fix: reject configs that make outputs or boundary
 conditions panic

Equation indexes that do not exist and empty data_names passed the validation,
so the output folder was cleared before the simulation panicked.
---
 src/config.rs              | 30 +++++++++++++++++++++++++++++-
 src/config/outputconfig.rs |  4 ++++
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index 15f3420..d7a2971 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -5,7 +5,10 @@
 //! Exports the [CorriesConfig] structs and its nested structs for configuring Corries simulations.
 
 use crate::{components::*, errorhandling::Validation, initfuncs::InitFn, prelude::*};
-use color_eyre::{eyre::Context, Result};
+use color_eyre::{
+    eyre::{ensure, Context},
+    Result,
+};
 pub use meshconfig::*;
 pub use numericsconfig::*;
 pub use outputconfig::*;
@@ -210,6 +213,8 @@ impl CorriesConfig {
         T: TimeSolver<P, E, S>,
     {
         self.validate().context("Validating CorriesConfig")?;
+        self.validate_equation_indexes::<E>()
+            .context("Validating the equation indexes in CorriesConfig")?;
 
         let mesh = Mesh::<S>::new(&self.mesh_config).context("Constructing Mesh")?;
         let mut u = State::<P, E, S>::new(&self.physics_config);
@@ -235,6 +240,29 @@ impl CorriesConfig {
         u.init_west_east();
         Ok((u, solver, mesh, writer))
     }
+
+    /// Checks that all equation indexes used in this config exist in a system of `E` equations.
+    fn validate_equation_indexes<const E: usize>(&self) -> Result<()> {
+        for boundary_mode in [&self.boundary_condition_west, &self.boundary_condition_east] {
+            if let BoundaryMode::Custom(modes) = boundary_mode {
+                for (j, mode) in modes.iter() {
+                    ensure!(
+                        *j < E,
+                        "There are only {} equations! Got boundary condition {:?} for equation {}",
+                        E,
+                        mode,
+                        j
+                    );
+                }
+            }
+        }
+        for name in self.writer_config.iter().flat_map(|conf| conf.data_names.iter()) {
+            if let DataName::Prim(j) | DataName::Cons(j) = name {
+                ensure!(*j < E, "There are only {} equations! Got data_name = {:?}", E, name);
+            }
+        }
+        Ok(())
+    }
 }
 
 impl Validation for CorriesConfig {
diff --git a/src/config/outputconfig.rs b/src/config/outputconfig.rs
index 8ac9bae..75be912 100644
--- a/src/config/outputconfig.rs
+++ b/src/config/outputconfig.rs
@@ -238,6 +238,10 @@ unsafe impl Sync for OutputConfig {}
 
 impl Validation for OutputConfig {
     fn validate(&self) -> color_eyre::Result<()> {
+        ensure!(
+            !self.data_names.is_empty(),
+            "An output needs to write something, data_names may not be empty!"
+        );
         if self.stream_mode == StreamMode::File {
             ensure!(
                 !self.folder_name.is_empty(),
-- 
2.43.0


From 130c7d7c0dba8eaf4b4b7c1a084e55a6e560c87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:41 +0000
Subject: [PATCH 13/15] fix: reject unphysical states at the start of a step

A negative density or pressure in the initial state could vanish within the
first step, which then reported success.
---
 src/time/rkf.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/time/rkf.rs b/src/time/rkf.rs
index e8ca244..e8ea6ff 100644
--- a/src/time/rkf.rs
+++ b/src/time/rkf.rs
@@ -102,6 +102,10 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> TimeSolver<P, E
         mesh: &Mesh<S>,
     ) -> Result<()> {
         time.iter += 1;
+        if cfg!(feature = "validation") {
+            P::validate(&u.cent)
+                .context("Validating the current state at the beginning of RungeKuttaFehlberg::next_solution")?;
+        }
         time.calc_dt_expl(u, mesh)
             .context("time.calc_dt_expl at the beginning of RungeKuttaFehlberg::next_solution")?;
         time.cap_dt();
-- 
2.43.0


From 29ffcb5b47cbc63c5b32d8854a4b4fbdb0a2bef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:28 +0000
Subject: [PATCH 14/15] fix: report metadata that cannot be written to stdout
 as an error

---
 src/writer/output.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer/output.rs b/src/writer/output.rs
index 41735bb..353520d 100644
--- a/src/writer/output.rs
+++ b/src/writer/output.rs
@@ -265,7 +265,7 @@ impl Output {
         if self.should_print_metadata {
             match self.stream_mode {
                 StreamMode::Stdout => {
-                    println!("{meta_data}");
+                    writeln!(std::io::stdout(), "{meta_data}").wrap_err("Failed to write to stdout!")?;
                 },
                 StreamMode::File => {
                     let full_path_string = self.file_name.clone() + "_metadata.json";
-- 
2.43.0


From 7e7652fe26fa3ba576fbfc526d2dc783a946df90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:17 +0000
Subject: [PATCH 15/15] fix: reject output precisions that cannot be formatted

An output precision above 65535 was accepted, and the run then panicked
('Formatting argument out of range') when it wrote its first output.
---
 src/config/outputconfig.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/config/outputconfig.rs b/src/config/outputconfig.rs
index 75be912..807844a 100644
--- a/src/config/outputconfig.rs
+++ b/src/config/outputconfig.rs
@@ -252,6 +252,12 @@ impl Validation for OutputConfig {
                 "When writing to a file, file_name may not be empty!"
             );
         }
+        ensure!(
+            self.precision <= usize::from(u16::MAX),
+            "precision must not exceed {}, the largest precision the standard library can format! Got precision = {}",
+            u16::MAX,
+            self.precision
+        );
         if self.string_conversion_mode == ToStringConversionMode::Scalar {
             for name in self.data_names.iter() {
                 ensure!(
-- 
2.43.0

