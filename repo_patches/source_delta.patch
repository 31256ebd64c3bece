From bd241cbbc2e8b72aafa5e87948776d576ac00dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 1/8] fix: count objective function calls of a generation
 aborted by an invalid value

function_evals (and the limits and restart totals derived from it) left out the
calls made before NaN was returned.
---
 src/sampling.rs | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/sampling.rs b/src/sampling.rs
index a059beb..c9544bc 100644
--- a/src/sampling.rs
+++ b/src/sampling.rs
@@ -7,6 +7,8 @@ use rand_chacha::ChaCha12Rng;
 use rayon::prelude::*;
 use statrs::distribution::Normal;
 
+use std::sync::atomic::{AtomicUsize, Ordering};
+
 use crate::mode::Mode;
 use crate::state::State;
 use crate::{ObjectiveFunction, ParallelObjectiveFunction};
@@ -78,8 +80,17 @@ impl<F> Sampler<F> {
     }
 
     /// Shared logic between `sample` and `sample_parallel`
+    ///
+    /// `evaluate_points` returns the evaluated points and the number of objective function calls
+    /// that were made
     fn sample_internal<
-        P: Fn(Vec<DVector<f64>>, &mut F) -> Result<Vec<EvaluatedPoint>, InvalidFunctionValueError>,
+        P: Fn(
+            Vec<DVector<f64>>,
+            &mut F,
+        ) -> (
+            Result<Vec<EvaluatedPoint>, InvalidFunctionValueError>,
+            usize,
+        ),
     >(
         &mut self,
         state: &State,
@@ -143,9 +154,10 @@ impl<F> Sampler<F> {
             i += 1;
         }
 
-        let mut points = evaluate_points(y, &mut self.objective_function)?;
-
-        self.function_evals += points.len();
+        let (result, evals) = evaluate_points(y, &mut self.objective_function);
+        // Counted even if an invalid value was returned
+        self.function_evals += evals;
+        let mut points = result?;
 
         points.sort_by(|a, b| mode.sort_cmp(a.value, b.value));
         Ok(points)
@@ -173,13 +185,17 @@ impl<F: ObjectiveFunction> Sampler<F> {
         parallel_update: bool,
     ) -> Result<Vec<EvaluatedPoint>, InvalidFunctionValueError> {
         self.sample_internal(state, mode, parallel_update, |y, objective_function| {
-            y.into_iter()
+            let mut evals = 0;
+            let result = y
+                .into_iter()
                 .map(|yk| {
                     EvaluatedPoint::new(yk, state.mean(), state.sigma(), |x| {
+                        evals += 1;
                         objective_function.evaluate(x)
                     })
                 })
-                .collect::<Result<Vec<_>, _>>()
+                .collect::<Result<Vec<_>, _>>();
+            (result, evals)
         })
     }
 }
@@ -193,13 +209,17 @@ impl<F: ParallelObjectiveFunction> Sampler<F> {
         parallel_update: bool,
     ) -> Result<Vec<EvaluatedPoint>, InvalidFunctionValueError> {
         self.sample_internal(state, mode, parallel_update, |y, objective_function| {
-            y.into_par_iter()
+            let evals = AtomicUsize::new(0);
+            let result = y
+                .into_par_iter()
                 .map(|yk| {
                     EvaluatedPoint::new(yk, state.mean(), state.sigma(), |x| {
+                        evals.fetch_add(1, Ordering::Relaxed);
                         objective_function.evaluate_parallel(x)
                     })
                 })
-                .collect::<Result<Vec<_>, _>>()
+                .collect::<Result<Vec<_>, _>>();
+            (result, evals.into_inner())
         })
     }
 }
-- 
2.43.0


From 55ca9d281edd91aafcd49a16321568ebd6804298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 2/8] fix: do not let the median of infinite function values
 become NaN

-inf and +inf are valid function values, but with both in the middle of a
generation the median was NaN, which made the TolStagnation check panic.
---
 src/history.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index a417dbd..8500058 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -138,9 +138,15 @@ impl History {
 /// Assumes that `individuals` is already sorted by function value
 fn get_median_value(individuals: &[EvaluatedPoint]) -> f64 {
     if individuals.len() % 2 == 0 {
-        (individuals[individuals.len() / 2 - 1].value()
-            + individuals[individuals.len() / 2].value())
-            / 2.0
+        let upper = individuals[individuals.len() / 2].value();
+        let median = (individuals[individuals.len() / 2 - 1].value() + upper) / 2.0;
+
+        // Infinities of opposite signs have no midpoint, so the worse one is used
+        if median.is_nan() {
+            upper
+        } else {
+            median
+        }
     } else {
         individuals[individuals.len() / 2].value()
     }
-- 
2.43.0


From fa853a7dfa56b60c78eeca069fdec10c3c184fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 3/8] fix: use the standard deviation, not the variance, in the
 TolX criterion

TolX is documented to compare the standard deviation of the distribution in every
coordinate with tol_x, which is sigma * sqrt(C_ii).
---
 src/termination.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/termination.rs b/src/termination.rs
index 4ba417c..76fded1 100644
--- a/src/termination.rs
+++ b/src/termination.rs
@@ -178,7 +178,7 @@ impl<'a> TerminationCheck<'a> {
         }
 
         // Check TerminationReason::TolX
-        if (0..dim).all(|i| (sigma * cov[(i, i)]).abs() < tol_x)
+        if (0..dim).all(|i| sigma * cov[(i, i)].sqrt() < tol_x)
             && path_c.iter().all(|x| (sigma * *x).abs() < tol_x)
         {
             result.push(TerminationReason::TolX);
-- 
2.43.0


From 6b782afde41a412fa69855e327a05353ea102727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 4/8] fix: limit the function evaluations of every BIPOP local
 restart

Local restarts get half of the function evaluations of the latest IPOP run, but
the limit was only applied if max_function_evals_per_run was set as well.
---
 src/restart/bipop.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/restart/bipop.rs b/src/restart/bipop.rs
index b2f6bf5..f951e2b 100644
--- a/src/restart/bipop.rs
+++ b/src/restart/bipop.rs
@@ -117,9 +117,14 @@ impl BIPOP {
         options.population_size = self.get_population_size_lr(options.population_size, rng);
         // Half the most recent IPOP run's function evals is used as a limit for LR (if the
         // max_function_evals option isn't stricter)
-        options.max_function_evals = options
-            .max_function_evals
-            .map(|max_fevals| max_fevals.min(self.last_ipop_function_evals_used / 2));
+        let lr_max_function_evals = self.last_ipop_function_evals_used / 2;
+        options.max_function_evals = Some(
+            options
+                .max_function_evals
+                .map_or(lr_max_function_evals, |max_fevals| {
+                    max_fevals.min(lr_max_function_evals)
+                }),
+        );
 
         // Execute the run
         let mut cmaes_state = options.build(objective_function).unwrap();
-- 
2.43.0


From 8d4a418c37b81c2dff1f9e9250d72bcf55b89c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 5/8] fix: do not print the final row twice when terminating in
 the first generations

print_final_info calls print_info only if it was not already called automatically
this generation, but the extra calls of the first few generations were not
considered.
---
 src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 14093e1..141bedb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -217,8 +217,11 @@ pub struct CMAES<F> {
     /// The minimum number of function evaluations to wait for in between each automatic
     /// [`CMAES::print_info`] call
     print_gap_evals: Option<usize>,
-    /// The last time [`CMAES::print_info`] was called, in function evaluations
+    /// The last time [`CMAES::print_info`] was called automatically, in function evaluations (not
+    /// including the extra calls in the first few generations)
     last_print_evals: usize,
+    /// Like `last_print_evals`, but includes the extra calls in the first few generations
+    last_print_evals_any: usize,
     /// The time at which the `CMAES` was created
     time_created: Instant,
 }
@@ -281,6 +284,7 @@ impl<F> CMAES<F> {
             plot,
             print_gap_evals: options.print_gap_evals,
             last_print_evals: 0,
+            last_print_evals_any: 0,
             time_created: Instant::now(),
         };
 
@@ -343,10 +347,12 @@ impl<F> CMAES<F> {
             if self.sampler.function_evals() >= self.last_print_evals + gap_evals {
                 self.print_info();
                 self.last_print_evals = self.sampler.function_evals();
+                self.last_print_evals_any = self.sampler.function_evals();
             } else if self.state.generation() < 4 {
                 // Don't update last_print_evals so the printed generation numbers can remain
                 // multiples of 10
                 self.print_info();
+                self.last_print_evals_any = self.sampler.function_evals();
             }
         }
 
@@ -562,7 +568,7 @@ impl<F> CMAES<F> {
     /// called manually after termination to print the final state if [`run`][`Self::run`] isn't
     /// used.
     pub fn print_final_info(&self, termination_reasons: &[TerminationReason]) {
-        if self.sampler.function_evals() != self.last_print_evals {
+        if self.sampler.function_evals() != self.last_print_evals_any {
             self.print_info();
         }
 
-- 
2.43.0


From a94a178d1104e3a85c92cfc44d996cf03a858b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:18 +0000
Subject: [PATCH 6/8] fix: saving a plot of infinite or very large objective
 values no longer hangs

---
 src/plotting/draw.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/plotting/draw.rs b/src/plotting/draw.rs
index e5417a7..3c94350 100644
--- a/src/plotting/draw.rs
+++ b/src/plotting/draw.rs
@@ -25,6 +25,8 @@ use crate::Mode;
 const FONT: &str = "sans-serif";
 /// The maximum number of elements to allow in a legend before removing it
 const MAX_LEGEND_VALUES: usize = 18;
+/// The largest number of orders of magnitude to draw on a log axis
+const MAX_LOG_RANGE: f64 = 308.0;
 
 /// Parameters for a y-axis
 struct YAxis<Y> {
@@ -111,8 +113,8 @@ pub fn draw_single_dimensioned<'a>(
         );
     }
 
-    // Filter out dummy values added at initialization
-    let all_y_values = all_y_values.into_iter().filter(|y| !y.is_nan());
+    // Filter out dummy values added at initialization, as well as values that cannot be drawn
+    let all_y_values = all_y_values.into_iter().filter(|y| y.is_finite());
     let y_axis = get_log_y_axis(all_y_values);
 
     let draw = |context: &mut ChartContext<_, _>| {
@@ -148,7 +150,7 @@ pub fn draw_single_dimensioned<'a>(
             context.draw_series(LineSeries::new(points_dist_right, &colors::CYAN))?;
 
             // Marker for overall best function value
-            if !best_value.is_nan() {
+            if best_value.is_finite() {
                 let abs_overall_best = (data.function_evals()[best_index], best_value.abs());
                 context
                     .plotting_area()
@@ -405,7 +407,7 @@ fn add_to_legend<C: Color + 'static>(annotation: &mut SeriesAnno<Backend>, label
         .legend(move |(x, y)| PathElement::new(vec![(x, y), (x + 20, y)], &color));
 }
 
-/// Returns an iterator of (x, y) points with NAN y points filtered out
+/// Returns an iterator of (x, y) points with NAN and infinite y points filtered out
 fn get_points<'a, X, Y>(x: X, y: Y) -> impl Iterator<Item = (usize, f64)> + 'a
 where
     X: IntoIterator<Item = usize> + 'a,
@@ -413,7 +415,7 @@ where
 {
     x.into_iter()
         .zip(y)
-        .filter(|&(_, y)| !y.is_nan())
+        .filter(|&(_, y)| y.is_finite())
         .map(|(x, y)| (x, y))
 }
 
@@ -430,6 +432,10 @@ fn get_log_y_axis<I: Iterator<Item = f64> + Clone>(iter: I) -> YAxis<LogCoord<f6
         - margin;
     let log_max = iter.max_by(|a, b| partial_cmp(*a, *b)).unwrap().log10() + margin;
 
+    // Neither the end of the range nor the ratio of its end to its start may overflow
+    let log_max = log_max.min(MAX_LOG_RANGE);
+    let log_min = log_min.max(log_max - MAX_LOG_RANGE);
+
     let num_labels = ((log_max - log_min).round() as usize).min(26);
     let y_range: LogCoord<f64> = (10f64.powf(log_min)..10f64.powf(log_max))
         .log_scale()
-- 
2.43.0


From 4cc0f8214c520d2ec464a434aa6c776127013677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:59 +0000
Subject: [PATCH 7/8] fix: do not overflow when the plot's minimum gap between
 points is huge

PlotOptions::min_gap_evals is any usize; adding it to the last recorded
evaluation count overflowed, which panicked with overflow checks and
otherwise wrapped round, so that every generation was recorded.
---
 src/plotting/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plotting/mod.rs b/src/plotting/mod.rs
index c4bd1a9..85bd8f8 100644
--- a/src/plotting/mod.rs
+++ b/src/plotting/mod.rs
@@ -98,7 +98,7 @@ impl Plot {
     /// Returns the next time a data point should be recorded, in function evals.
     pub(crate) fn get_next_data_point_evals(&self) -> usize {
         match self.last_data_point_evals {
-            Some(evals) => evals + self.options.min_gap_evals,
+            Some(evals) => evals.saturating_add(self.options.min_gap_evals),
             None => 0,
         }
     }
-- 
2.43.0


From 80779d3cc3d238d3abe4b4aa4b1c4aea320873ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:46 +0000
Subject: [PATCH 8/8] fix: do not let the median of a generation overflow to
 infinity

The median of two values beyond half of f64::MAX (e.g. the usual penalty
f64::MAX) was infinite, so that TolFunRel was reported although the range
of the latest generation was far above the tolerance, and an infinite
median was plotted.
---
 src/history.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index 8500058..00385a7 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -138,12 +138,16 @@ impl History {
 /// Assumes that `individuals` is already sorted by function value
 fn get_median_value(individuals: &[EvaluatedPoint]) -> f64 {
     if individuals.len() % 2 == 0 {
+        let lower = individuals[individuals.len() / 2 - 1].value();
         let upper = individuals[individuals.len() / 2].value();
-        let median = (individuals[individuals.len() / 2 - 1].value() + upper) / 2.0;
+        let median = (lower + upper) / 2.0;
 
-        // Infinities of opposite signs have no midpoint, so the worse one is used
         if median.is_nan() {
+            // Infinities of opposite signs have no midpoint, so the worse one is used
             upper
+        } else if median.is_infinite() && lower.is_finite() && upper.is_finite() {
+            // The sum overflowed
+            lower / 2.0 + upper / 2.0
         } else {
             median
         }
-- 
2.43.0

