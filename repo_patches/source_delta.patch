From 2dd53a36a8e75e7d9d7ecf04d18030a692555f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 1/5] fix: count every objective evaluation of a rejected
 generation

---
 src/sampling.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/sampling.rs b/src/sampling.rs
index a059beb..6593a66 100644
--- a/src/sampling.rs
+++ b/src/sampling.rs
@@ -79,7 +79,7 @@ impl<F> Sampler<F> {
 
     /// Shared logic between `sample` and `sample_parallel`
     fn sample_internal<
-        P: Fn(Vec<DVector<f64>>, &mut F) -> Result<Vec<EvaluatedPoint>, InvalidFunctionValueError>,
+        P: Fn(Vec<DVector<f64>>, &mut F) -> Vec<Result<EvaluatedPoint, InvalidFunctionValueError>>,
     >(
         &mut self,
         state: &State,
@@ -143,9 +143,12 @@ impl<F> Sampler<F> {
             i += 1;
         }
 
-        let mut points = evaluate_points(y, &mut self.objective_function)?;
+        let results = evaluate_points(y, &mut self.objective_function);
 
-        self.function_evals += points.len();
+        // Every evaluation counts, including those of a generation with invalid values
+        self.function_evals += results.len();
+
+        let mut points = results.into_iter().collect::<Result<Vec<_>, _>>()?;
 
         points.sort_by(|a, b| mode.sort_cmp(a.value, b.value));
         Ok(points)
@@ -179,7 +182,7 @@ impl<F: ObjectiveFunction> Sampler<F> {
                         objective_function.evaluate(x)
                     })
                 })
-                .collect::<Result<Vec<_>, _>>()
+                .collect()
         })
     }
 }
@@ -199,7 +202,7 @@ impl<F: ParallelObjectiveFunction> Sampler<F> {
                         objective_function.evaluate_parallel(x)
                     })
                 })
-                .collect::<Result<Vec<_>, _>>()
+                .collect()
         })
     }
 }
-- 
2.43.0


From e79b765c6922c9ec9207e3f48f55a2bfb11cbd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 2/5] fix: limit small BIPOP runs by the last large run when no
 limit is set

---
 src/restart/bipop.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/restart/bipop.rs b/src/restart/bipop.rs
index b2f6bf5..0450c4b 100644
--- a/src/restart/bipop.rs
+++ b/src/restart/bipop.rs
@@ -117,9 +117,14 @@ impl BIPOP {
         options.population_size = self.get_population_size_lr(options.population_size, rng);
         // Half the most recent IPOP run's function evals is used as a limit for LR (if the
         // max_function_evals option isn't stricter)
-        options.max_function_evals = options
-            .max_function_evals
-            .map(|max_fevals| max_fevals.min(self.last_ipop_function_evals_used / 2));
+        let max_function_evals_lr = self.last_ipop_function_evals_used / 2;
+        options.max_function_evals = Some(
+            options
+                .max_function_evals
+                .map_or(max_function_evals_lr, |max_fevals| {
+                    max_fevals.min(max_function_evals_lr)
+                }),
+        );
 
         // Execute the run
         let mut cmaes_state = options.build(objective_function).unwrap();
-- 
2.43.0


From d9daad2d08ad5a1a27a3a4e41bd4db379de677b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 3/5] fix: huge plot and print gaps overflowed

---
 src/lib.rs          | 2 +-
 src/plotting/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 14093e1..1797e9a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -340,7 +340,7 @@ impl<F> CMAES<F> {
         // Print latest state
         if let Some(gap_evals) = self.print_gap_evals {
             // The first few generations are always printed, then print_gap_evals is respected
-            if self.sampler.function_evals() >= self.last_print_evals + gap_evals {
+            if self.sampler.function_evals() >= self.last_print_evals.saturating_add(gap_evals) {
                 self.print_info();
                 self.last_print_evals = self.sampler.function_evals();
             } else if self.state.generation() < 4 {
diff --git a/src/plotting/mod.rs b/src/plotting/mod.rs
index c4bd1a9..85bd8f8 100644
--- a/src/plotting/mod.rs
+++ b/src/plotting/mod.rs
@@ -98,7 +98,7 @@ impl Plot {
     /// Returns the next time a data point should be recorded, in function evals.
     pub(crate) fn get_next_data_point_evals(&self) -> usize {
         match self.last_data_point_evals {
-            Some(evals) => evals + self.options.min_gap_evals,
+            Some(evals) => evals.saturating_add(self.options.min_gap_evals),
             None => 0,
         }
     }
-- 
2.43.0


From a3a20df4b41c910e558b11326cb2d3e5798628de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 4/5] fix: TolX compared variances instead of standard
 deviations

---
 src/termination.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/termination.rs b/src/termination.rs
index 4ba417c..dabede0 100644
--- a/src/termination.rs
+++ b/src/termination.rs
@@ -178,7 +178,7 @@ impl<'a> TerminationCheck<'a> {
         }
 
         // Check TerminationReason::TolX
-        if (0..dim).all(|i| (sigma * cov[(i, i)]).abs() < tol_x)
+        if (0..dim).all(|i| (sigma * cov[(i, i)].sqrt()).abs() < tol_x)
             && path_c.iter().all(|x| (sigma * *x).abs() < tol_x)
         {
             result.push(TerminationReason::TolX);
-- 
2.43.0


From d07c7e8333fb5f49e26b5791bbe80cc96384709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:11 +0000
Subject: [PATCH 5/5] fix: the value axis of a constant negative series was
 reversed

When all values are equal and negative the margin became negative, so the range started above the value and ended below it.
---
 src/plotting/draw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plotting/draw.rs b/src/plotting/draw.rs
index e5417a7..5df8287 100644
--- a/src/plotting/draw.rs
+++ b/src/plotting/draw.rs
@@ -454,7 +454,7 @@ fn get_linear_y_axis<I: Iterator<Item = f64> + Clone>(
         if max == 0.0 {
             margin = 0.15;
         } else {
-            margin = max * 0.15;
+            margin = max.abs() * 0.15;
         }
     }
 
-- 
2.43.0

