From d5b2aa3872c43d1ef6a9030af6a2c7dbbca4d257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 01/13] fix: keep the best individual of a run that ends with
 InvalidFunctionValue

---
 src/restart/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/restart/mod.rs b/src/restart/mod.rs
index 1cf0c7a..de086fc 100644
--- a/src/restart/mod.rs
+++ b/src/restart/mod.rs
@@ -373,6 +373,12 @@ impl Restarter {
             function_evals += final_state.function_evals();
             runs += 1;
 
+            // Update the overall best individual (a run that terminated with `InvalidFunctionValue`
+            // may still have completed some generations before that)
+            if let Some(best) = final_state.overall_best_individual().cloned() {
+                self.update_best_individual(best);
+            }
+
             // Check RestartTerminationReason::InvalidFunctionValue
             if reasons
                 .iter()
@@ -382,10 +388,6 @@ impl Restarter {
                 break;
             }
 
-            if let Some(best) = final_state.overall_best_individual().cloned() {
-                self.update_best_individual(best);
-            }
-
             // Check RestartTerminationReason::FunTarget if enabled
             if reasons.iter().any(|&r| r == TerminationReason::FunTarget) {
                 reason = RestartTerminationReason::FunTarget;
-- 
2.43.0


From 8e0e18bcb2c1877886596f183391ed0ddac77979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 02/13] fix: limit BIPOP local runs to half the last IPOP run's
 evaluations by default

---
 src/restart/bipop.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/restart/bipop.rs b/src/restart/bipop.rs
index b2f6bf5..f951e2b 100644
--- a/src/restart/bipop.rs
+++ b/src/restart/bipop.rs
@@ -117,9 +117,14 @@ impl BIPOP {
         options.population_size = self.get_population_size_lr(options.population_size, rng);
         // Half the most recent IPOP run's function evals is used as a limit for LR (if the
         // max_function_evals option isn't stricter)
-        options.max_function_evals = options
-            .max_function_evals
-            .map(|max_fevals| max_fevals.min(self.last_ipop_function_evals_used / 2));
+        let lr_max_function_evals = self.last_ipop_function_evals_used / 2;
+        options.max_function_evals = Some(
+            options
+                .max_function_evals
+                .map_or(lr_max_function_evals, |max_fevals| {
+                    max_fevals.min(lr_max_function_evals)
+                }),
+        );
 
         // Execute the run
         let mut cmaes_state = options.build(objective_function).unwrap();
-- 
2.43.0


From a34b963defc328bf4da80995493d58f767210225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 03/13] fix: compare TolX against the coordinate standard
 deviations instead of the variances

---
 src/termination.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/termination.rs b/src/termination.rs
index 4ba417c..dabede0 100644
--- a/src/termination.rs
+++ b/src/termination.rs
@@ -178,7 +178,7 @@ impl<'a> TerminationCheck<'a> {
         }
 
         // Check TerminationReason::TolX
-        if (0..dim).all(|i| (sigma * cov[(i, i)]).abs() < tol_x)
+        if (0..dim).all(|i| (sigma * cov[(i, i)].sqrt()).abs() < tol_x)
             && path_c.iter().all(|x| (sigma * *x).abs() < tol_x)
         {
             result.push(TerminationReason::TolX);
-- 
2.43.0


From 133bfa55919ad96987b5830ec7e5e8e5269501b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 04/13] fix: count the evaluations of a generation cut short by
 an invalid function value

---
 src/sampling.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/sampling.rs b/src/sampling.rs
index a059beb..085ccbf 100644
--- a/src/sampling.rs
+++ b/src/sampling.rs
@@ -7,6 +7,8 @@ use rand_chacha::ChaCha12Rng;
 use rayon::prelude::*;
 use statrs::distribution::Normal;
 
+use std::sync::atomic::{AtomicUsize, Ordering};
+
 use crate::mode::Mode;
 use crate::state::State;
 use crate::{ObjectiveFunction, ParallelObjectiveFunction};
@@ -79,7 +81,11 @@ impl<F> Sampler<F> {
 
     /// Shared logic between `sample` and `sample_parallel`
     fn sample_internal<
-        P: Fn(Vec<DVector<f64>>, &mut F) -> Result<Vec<EvaluatedPoint>, InvalidFunctionValueError>,
+        P: Fn(
+            Vec<DVector<f64>>,
+            &mut F,
+            &AtomicUsize,
+        ) -> Result<Vec<EvaluatedPoint>, InvalidFunctionValueError>,
     >(
         &mut self,
         state: &State,
@@ -143,9 +149,13 @@ impl<F> Sampler<F> {
             i += 1;
         }
 
-        let mut points = evaluate_points(y, &mut self.objective_function)?;
+        // Every evaluation is counted, even if a later one returns an invalid value
+        let evals = AtomicUsize::new(0);
+        let result = evaluate_points(y, &mut self.objective_function, &evals);
+
+        self.function_evals += evals.into_inner();
 
-        self.function_evals += points.len();
+        let mut points = result?;
 
         points.sort_by(|a, b| mode.sort_cmp(a.value, b.value));
         Ok(points)
@@ -172,10 +182,11 @@ impl<F: ObjectiveFunction> Sampler<F> {
         mode: Mode,
         parallel_update: bool,
     ) -> Result<Vec<EvaluatedPoint>, InvalidFunctionValueError> {
-        self.sample_internal(state, mode, parallel_update, |y, objective_function| {
+        self.sample_internal(state, mode, parallel_update, |y, objective_function, evals| {
             y.into_iter()
                 .map(|yk| {
                     EvaluatedPoint::new(yk, state.mean(), state.sigma(), |x| {
+                        evals.fetch_add(1, Ordering::Relaxed);
                         objective_function.evaluate(x)
                     })
                 })
@@ -192,10 +203,11 @@ impl<F: ParallelObjectiveFunction> Sampler<F> {
         mode: Mode,
         parallel_update: bool,
     ) -> Result<Vec<EvaluatedPoint>, InvalidFunctionValueError> {
-        self.sample_internal(state, mode, parallel_update, |y, objective_function| {
+        self.sample_internal(state, mode, parallel_update, |y, objective_function, evals| {
             y.into_par_iter()
                 .map(|yk| {
                     EvaluatedPoint::new(yk, state.mean(), state.sigma(), |x| {
+                        evals.fetch_add(1, Ordering::Relaxed);
                         objective_function.evaluate_parallel(x)
                     })
                 })
-- 
2.43.0


From e6074c9e58cd9f636d87405c9998b13c98fdab4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 05/13] fix: do not print the final state twice if the run ends
 in the first generations

---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 14093e1..1fbe6b2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -219,6 +219,8 @@ pub struct CMAES<F> {
     print_gap_evals: Option<usize>,
     /// The last time [`CMAES::print_info`] was called, in function evaluations
     last_print_evals: usize,
+    /// The last generation for which [`CMAES::print_info`] was called automatically
+    last_print_generation: usize,
     /// The time at which the `CMAES` was created
     time_created: Instant,
 }
@@ -281,6 +283,7 @@ impl<F> CMAES<F> {
             plot,
             print_gap_evals: options.print_gap_evals,
             last_print_evals: 0,
+            last_print_generation: 0,
             time_created: Instant::now(),
         };
 
@@ -343,10 +346,12 @@ impl<F> CMAES<F> {
             if self.sampler.function_evals() >= self.last_print_evals + gap_evals {
                 self.print_info();
                 self.last_print_evals = self.sampler.function_evals();
+                self.last_print_generation = self.state.generation();
             } else if self.state.generation() < 4 {
                 // Don't update last_print_evals so the printed generation numbers can remain
                 // multiples of 10
                 self.print_info();
+                self.last_print_generation = self.state.generation();
             }
         }
 
@@ -562,7 +567,7 @@ impl<F> CMAES<F> {
     /// called manually after termination to print the final state if [`run`][`Self::run`] isn't
     /// used.
     pub fn print_final_info(&self, termination_reasons: &[TerminationReason]) {
-        if self.sampler.function_evals() != self.last_print_evals {
+        if self.state.generation() != self.last_print_generation {
             self.print_info();
         }
 
-- 
2.43.0


From 5986fe5b45b13862638ce864649ca5036591f42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:06 +0000
Subject: [PATCH 06/13] fix: reject restart search ranges that are not finite
 instead of panicking when run

---
 src/restart/mod.rs     | 9 ++++++++-
 src/restart/options.rs | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/restart/mod.rs b/src/restart/mod.rs
index de086fc..6487737 100644
--- a/src/restart/mod.rs
+++ b/src/restart/mod.rs
@@ -166,7 +166,7 @@ impl Restarter {
 
         if options.dimensions == 0 {
             Err(InvalidRestartOptionsError::Dimensions)
-        } else if options.search_range.end() - options.search_range.start() == 0.0 {
+        } else if !is_search_range_valid(&options.search_range) {
             Err(InvalidRestartOptionsError::SearchRange)
         } else {
             Ok(Self {
@@ -467,6 +467,13 @@ impl Restarter {
     }
 }
 
+/// Returns whether the size of the search range is valid (nonzero and finite)
+fn is_search_range_valid(search_range: &RangeInclusive<f64>) -> bool {
+    let size = search_range.end() - search_range.start();
+
+    size != 0.0 && size.is_finite()
+}
+
 /// Prints various initial parameters of a run
 fn print_run_info(run: usize, params: &Parameters) {
     println!(
diff --git a/src/restart/options.rs b/src/restart/options.rs
index 53a43a8..150903c 100644
--- a/src/restart/options.rs
+++ b/src/restart/options.rs
@@ -12,7 +12,7 @@ use crate::{CMAESOptions, Mode};
 pub enum InvalidRestartOptionsError {
     /// The number of dimensions is set to zero.
     Dimensions,
-    /// The search range size is zero.
+    /// The search range size is zero or not finite.
     SearchRange,
 }
 
-- 
2.43.0


From b9a7207c707084cfe5d4d025fbe0e3bcd8d690e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:45 +0000
Subject: [PATCH 07/13] fix: do not hang when saving a plot with infinite
 function values

---
 src/plotting/draw.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/plotting/draw.rs b/src/plotting/draw.rs
index e5417a7..d5c4b01 100644
--- a/src/plotting/draw.rs
+++ b/src/plotting/draw.rs
@@ -70,7 +70,8 @@ pub fn draw_single_dimensioned<'a>(
         .iter()
         .cloned()
         .enumerate()
-        .filter(|(_, y)| !y.is_nan())
+        // Infinite values can't be drawn
+        .filter(|(_, y)| y.is_finite())
         .min_by(|(_, a), (_, b)| mode.sort_cmp(*a, *b));
 
     // The number of times the overall best function value appears, used to decide whether to
@@ -111,8 +112,8 @@ pub fn draw_single_dimensioned<'a>(
         );
     }
 
-    // Filter out dummy values added at initialization
-    let all_y_values = all_y_values.into_iter().filter(|y| !y.is_nan());
+    // Filter out dummy values added at initialization and infinite values
+    let all_y_values = all_y_values.into_iter().filter(|y| y.is_finite());
     let y_axis = get_log_y_axis(all_y_values);
 
     let draw = |context: &mut ChartContext<_, _>| {
@@ -405,7 +406,7 @@ fn add_to_legend<C: Color + 'static>(annotation: &mut SeriesAnno<Backend>, label
         .legend(move |(x, y)| PathElement::new(vec![(x, y), (x + 20, y)], &color));
 }
 
-/// Returns an iterator of (x, y) points with NAN y points filtered out
+/// Returns an iterator of (x, y) points with non-finite y points filtered out
 fn get_points<'a, X, Y>(x: X, y: Y) -> impl Iterator<Item = (usize, f64)> + 'a
 where
     X: IntoIterator<Item = usize> + 'a,
@@ -413,7 +414,7 @@ where
 {
     x.into_iter()
         .zip(y)
-        .filter(|&(_, y)| !y.is_nan())
+        .filter(|&(_, y)| y.is_finite())
         .map(|(x, y)| (x, y))
 }
 
-- 
2.43.0


From 35c08366ab53194f8844402d1bdef5afa2135c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 08/13] fix: clamp restart step sizes that round to zero or
 infinity instead of panicking

---
 src/options.rs       |  6 ++++++
 src/restart/bipop.rs | 10 +++++-----
 src/restart/ipop.rs  |  4 +++-
 src/restart/local.rs |  4 +++-
 4 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/options.rs b/src/options.rs
index 0be35f0..7ab8b94 100644
--- a/src/options.rs
+++ b/src/options.rs
@@ -359,6 +359,12 @@ pub(crate) fn is_initial_step_size_valid(step_size: f64) -> bool {
     step_size.is_normal() && step_size > 0.0
 }
 
+/// Returns the valid initial step size closest to the (non-negative) `step_size`, which may have been
+/// rounded to zero or infinity
+pub(crate) fn clamp_initial_step_size(step_size: f64) -> f64 {
+    step_size.max(f64::MIN_POSITIVE).min(f64::MAX)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/restart/bipop.rs b/src/restart/bipop.rs
index f951e2b..24d58f5 100644
--- a/src/restart/bipop.rs
+++ b/src/restart/bipop.rs
@@ -6,6 +6,7 @@ use rand_chacha::ChaChaRng;
 
 use super::options::InvalidRestartStrategyOptionsError;
 use super::strategy::{RestartControl, Strategy};
+use crate::options::clamp_initial_step_size;
 use crate::{options, CMAESOptions, TerminationData, TerminationReason, CMAES};
 
 /// The maximum number of IPOP runs allowed
@@ -56,9 +57,6 @@ impl BIPOP {
         ipop_increase_factor: Option<usize>,
     ) -> Result<Self, InvalidRestartStrategyOptionsError> {
         if let Some(step_size_factor) = lr_initial_step_size_factor {
-            // FIXME: This doesn't catch every invalid case; if set to a tiny value (maybe 1e-150),
-            // the 10^-2 factor makes it round to zero and cause a panic when calling
-            // CMAESOptions::build (also affects Local)
             if !options::is_initial_step_size_valid(step_size_factor) {
                 return Err(InvalidRestartStrategyOptionsError::InitialStepSize);
             }
@@ -113,7 +111,8 @@ impl BIPOP {
         rng: &mut ChaChaRng,
     ) -> (CMAES<F>, Vec<TerminationReason>, RestartControl) {
         // Configure the run
-        options.initial_step_size = self.get_initial_step_size_lr(search_range_size, rng);
+        options.initial_step_size =
+            clamp_initial_step_size(self.get_initial_step_size_lr(search_range_size, rng));
         options.population_size = self.get_population_size_lr(options.population_size, rng);
         // Half the most recent IPOP run's function evals is used as a limit for LR (if the
         // max_function_evals option isn't stricter)
@@ -145,7 +144,8 @@ impl BIPOP {
         run: R,
     ) -> (CMAES<F>, Vec<TerminationReason>, RestartControl) {
         // Configure the run
-        options.initial_step_size = self.get_initial_step_size_ipop(search_range_size);
+        options.initial_step_size =
+            clamp_initial_step_size(self.get_initial_step_size_ipop(search_range_size));
         options.population_size *= self.ipop_current_multiplier;
 
         // Execute the run
diff --git a/src/restart/ipop.rs b/src/restart/ipop.rs
index f972e31..edbb05d 100644
--- a/src/restart/ipop.rs
+++ b/src/restart/ipop.rs
@@ -4,6 +4,7 @@ use rand_chacha::ChaChaRng;
 
 use super::strategy::{RestartControl, Strategy};
 use super::InvalidRestartStrategyOptionsError;
+use crate::options::clamp_initial_step_size;
 use crate::{CMAESOptions, TerminationData, TerminationReason, CMAES};
 
 /// The default population size increase factor
@@ -72,7 +73,8 @@ impl Strategy for IPOP {
         _: &mut ChaChaRng,
     ) -> (CMAES<F>, Vec<TerminationReason>, RestartControl) {
         // Configure the run
-        options.initial_step_size = self.get_initial_step_size(search_range_size);
+        options.initial_step_size =
+            clamp_initial_step_size(self.get_initial_step_size(search_range_size));
         options.population_size *= self.current_multiplier;
 
         // Execute the run
diff --git a/src/restart/local.rs b/src/restart/local.rs
index 114a1be..21ef015 100644
--- a/src/restart/local.rs
+++ b/src/restart/local.rs
@@ -4,6 +4,7 @@ use rand_chacha::ChaChaRng;
 
 use super::strategy::{RestartControl, Strategy};
 use super::InvalidRestartStrategyOptionsError;
+use crate::options::clamp_initial_step_size;
 use crate::{options, CMAESOptions, TerminationData, TerminationReason, CMAES};
 
 /// The default factor for calculating the initial step size
@@ -70,7 +71,8 @@ impl Strategy for Local {
         _: &mut ChaChaRng,
     ) -> (CMAES<F>, Vec<TerminationReason>, RestartControl) {
         // Configure the run
-        options.initial_step_size = self.get_initial_step_size(search_range_size);
+        options.initial_step_size =
+            clamp_initial_step_size(self.get_initial_step_size(search_range_size));
 
         // Execute the run
         let mut cmaes_state = options.build(objective_function).unwrap();
-- 
2.43.0


From 7a9032e071bba28f3d1c23e13a63380798756190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:43 +0000
Subject: [PATCH 09/13] Add observation hooks behind cfg(cmaes_verif)

---
 src/lib.rs   | 11 ++++++++++
 src/verif.rs | 59 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 70 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 1fbe6b2..66e4c74 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -103,6 +103,9 @@
 //
 // Automatic restart algorithms are contained in the `restart` module.
 
+// `cmaes_verif` guards hooks for external verification tools
+#![allow(unexpected_cfgs)]
+
 pub mod functions;
 mod history;
 mod matrix;
@@ -117,6 +120,8 @@ mod sampling;
 mod state;
 pub mod termination;
 mod utils;
+#[cfg(cmaes_verif)]
+pub mod verif;
 
 pub use nalgebra::DVector;
 
@@ -298,6 +303,9 @@ impl<F> CMAES<F> {
             cmaes.print_initial_info();
         }
 
+        #[cfg(cmaes_verif)]
+        verif::on_new(&cmaes);
+
         Ok(cmaes)
     }
 
@@ -310,6 +318,9 @@ impl<F> CMAES<F> {
         if self.print_gap_evals.is_some() {
             self.print_final_info(&result.reasons);
         }
+
+        #[cfg(cmaes_verif)]
+        verif::on_run_end(self, result);
     }
 
     /// Shared logic between `sample` and `sample_parallel`
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..3e8623c
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,59 @@
+//! Observation hooks for external verification tools, only compiled with `--cfg cmaes_verif`.
+//!
+//! Lets an observer on the current thread follow the individual runs that are started internally by
+//! a [`Restarter`][crate::restart::Restarter]. Uses nothing but the public interface of [`CMAES`].
+
+use nalgebra::DVector;
+
+use std::cell::RefCell;
+
+use crate::parameters::Parameters;
+use crate::{TerminationData, CMAES};
+
+/// An event in the life of a `CMAES`.
+#[derive(Clone, Debug)]
+pub enum Event {
+    /// A `CMAES` was created.
+    New {
+        parameters: Parameters,
+        initial_mean: DVector<f64>,
+    },
+    /// A call to `CMAES::run` or `CMAES::run_parallel` is about to return.
+    RunEnd {
+        data: TerminationData,
+        generation: usize,
+        function_evals: usize,
+    },
+}
+
+thread_local! {
+    static OBSERVER: RefCell<Option<Box<dyn FnMut(Event)>>> = RefCell::new(None);
+}
+
+/// Sets or removes the observer of the current thread.
+pub fn set_observer(observer: Option<Box<dyn FnMut(Event)>>) {
+    OBSERVER.with(|o| *o.borrow_mut() = observer);
+}
+
+fn emit(event: impl FnOnce() -> Event) {
+    OBSERVER.with(|o| {
+        if let Some(ref mut observer) = *o.borrow_mut() {
+            observer(event());
+        }
+    });
+}
+
+pub(crate) fn on_new<F>(cmaes: &CMAES<F>) {
+    emit(|| Event::New {
+        parameters: cmaes.parameters().clone(),
+        initial_mean: cmaes.mean().clone(),
+    });
+}
+
+pub(crate) fn on_run_end<F>(cmaes: &CMAES<F>, data: &TerminationData) {
+    emit(|| Event::RunEnd {
+        data: data.clone(),
+        generation: cmaes.generation(),
+        function_evals: cmaes.function_evals(),
+    });
+}
-- 
2.43.0


From 128bc5c799ff3d90386d69a97d6a97bce3424ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 10/13] fix: do not overflow with a large minimum gap between
 plot points

---
 src/plotting/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plotting/mod.rs b/src/plotting/mod.rs
index c4bd1a9..85bd8f8 100644
--- a/src/plotting/mod.rs
+++ b/src/plotting/mod.rs
@@ -98,7 +98,7 @@ impl Plot {
     /// Returns the next time a data point should be recorded, in function evals.
     pub(crate) fn get_next_data_point_evals(&self) -> usize {
         match self.last_data_point_evals {
-            Some(evals) => evals + self.options.min_gap_evals,
+            Some(evals) => evals.saturating_add(self.options.min_gap_evals),
             None => 0,
         }
     }
-- 
2.43.0


From 9bf0ff3e822ed55c3a09f07d20a072b1a5244cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:06 +0000
Subject: [PATCH 11/13] Show the eigenvectors in use through the hooks behind
 cfg(cmaes_verif)

---
 src/verif.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/verif.rs b/src/verif.rs
index 3e8623c..0d5fe5e 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -1,9 +1,9 @@
 //! Observation hooks for external verification tools, only compiled with `--cfg cmaes_verif`.
 //!
 //! Lets an observer on the current thread follow the individual runs that are started internally by
-//! a [`Restarter`][crate::restart::Restarter]. Uses nothing but the public interface of [`CMAES`].
+//! a [`Restarter`][crate::restart::Restarter], and shows the eigenvectors of the covariance matrix.
 
-use nalgebra::DVector;
+use nalgebra::{DMatrix, DVector};
 
 use std::cell::RefCell;
 
@@ -57,3 +57,9 @@ pub(crate) fn on_run_end<F>(cmaes: &CMAES<F>, data: &TerminationData) {
         function_evals: cmaes.function_evals(),
     });
 }
+
+/// Returns the eigenvectors of the covariance matrix that are in use, as columns in the order of
+/// [`CMAES::eigenvalues`].
+pub fn eigenvectors<F>(cmaes: &CMAES<F>) -> DMatrix<f64> {
+    cmaes.state.cov_eigenvectors().clone()
+}
-- 
2.43.0


From 823c677bcde824ee540a85a23e76112ef03303c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 12/13] fix: correct inaccurate eigendecompositions

nalgebra's solver sometimes returns eigenvalues that belong to other
eigenvectors, or eigenvectors that are off, when eigenvalues are close to
each other, so that points were sampled from a different distribution than
the one described by the covariance matrix.
---
 src/matrix.rs | 65 ++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 64 insertions(+), 1 deletion(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index a2ee39f..6b8e37d 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -1,7 +1,7 @@
 //! Types related to matrix math.
 
 use nalgebra::base::VecStorage;
-use nalgebra::Dyn;
+use nalgebra::{DVector, Dyn};
 
 pub type SquareMatrix<T> = nalgebra::SquareMatrix<T, Dyn, VecStorage<T, Dyn, Dyn>>;
 
@@ -83,6 +83,8 @@ impl CovarianceMatrix {
             col.normalize_mut();
         }
 
+        refine_eigendecomposition(&self.cov, &mut eigen.eigenvectors, &mut eigen.eigenvalues);
+
         if eigen.eigenvalues.iter().any(|x| *x <= 0.0) {
             return Err(PosDefCovError);
         }
@@ -117,6 +119,67 @@ impl CovarianceMatrix {
     }
 }
 
+/// Corrects an inaccurate eigendecomposition of `matrix` by applying Jacobi rotations
+///
+/// The solver sometimes pairs eigenvalues with the wrong eigenvectors if some of them are close
+/// to each other.
+fn refine_eigendecomposition(
+    matrix: &SquareMatrix<f64>,
+    eigenvectors: &mut SquareMatrix<f64>,
+    eigenvalues: &mut DVector<f64>,
+) {
+    const MAX_SWEEPS: usize = 50;
+
+    let dim = matrix.nrows();
+    let tolerance = 1e-12 * eigenvalues.amax();
+    // Should be a diagonal matrix consisting of the eigenvalues
+    let mut diagonalized = eigenvectors.transpose() * matrix * &*eigenvectors;
+
+    let difference = &diagonalized - SquareMatrix::from_diagonal(eigenvalues);
+    if !difference.iter().any(|x| x.abs() > tolerance) {
+        return;
+    }
+
+    for _ in 0..MAX_SWEEPS {
+        let mut rotated = false;
+
+        for i in 0..dim {
+            for j in (i + 1)..dim {
+                let off_diagonal = diagonalized[(i, j)];
+                if !(off_diagonal.abs() > tolerance * 1e-2) {
+                    continue;
+                }
+                rotated = true;
+
+                // The rotation that makes the off-diagonal element zero
+                let theta = (diagonalized[(j, j)] - diagonalized[(i, i)]) / (2.0 * off_diagonal);
+                let t = theta.signum() / (theta.abs() + theta.hypot(1.0));
+                let cos = 1.0 / t.hypot(1.0);
+                let sin = t * cos;
+
+                for m in [&mut diagonalized, &mut *eigenvectors] {
+                    for k in 0..dim {
+                        let (x, y) = (m[(k, i)], m[(k, j)]);
+                        m[(k, i)] = cos * x - sin * y;
+                        m[(k, j)] = sin * x + cos * y;
+                    }
+                }
+                for k in 0..dim {
+                    let (x, y) = (diagonalized[(i, k)], diagonalized[(j, k)]);
+                    diagonalized[(i, k)] = cos * x - sin * y;
+                    diagonalized[(j, k)] = sin * x + cos * y;
+                }
+            }
+        }
+
+        if !rotated {
+            break;
+        }
+    }
+
+    *eigenvalues = diagonalized.diagonal();
+}
+
 /// The covariance matrix is not positive definite
 #[derive(Clone, Debug)]
 pub struct PosDefCovError;
-- 
2.43.0


From ebe04bc47a210060dde15381af4182225024cb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:56 +0000
Subject: [PATCH 13/13] fix: accept reversed restart search ranges that are set
 through the public field instead of panicking when run

---
 src/restart/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/restart/mod.rs b/src/restart/mod.rs
index 6487737..a8787eb 100644
--- a/src/restart/mod.rs
+++ b/src/restart/mod.rs
@@ -163,10 +163,15 @@ impl Restarter {
     /// generally be used instead.
     pub fn new(options: RestartOptions) -> Result<Self, InvalidRestartOptionsError> {
         let seed = options.seed.unwrap_or_else(rand::random);
+        // Correct flipped ranges (they can be set through the public field)
+        let mut search_range = options.search_range;
+        if search_range.is_empty() {
+            search_range = *search_range.end()..=*search_range.start();
+        }
 
         if options.dimensions == 0 {
             Err(InvalidRestartOptionsError::Dimensions)
-        } else if !is_search_range_valid(&options.search_range) {
+        } else if !is_search_range_valid(&search_range) {
             Err(InvalidRestartOptionsError::SearchRange)
         } else {
             Ok(Self {
@@ -175,7 +180,7 @@ impl Restarter {
                 mode: options.mode,
                 parallel_update: options.parallel_update,
                 default_options: options.default_options,
-                search_range: options.search_range,
+                search_range,
                 fun_target: options.fun_target,
                 max_function_evals: options.max_function_evals,
                 max_time: options.max_time,
-- 
2.43.0

