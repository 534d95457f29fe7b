From 979729cf6f734335582173547cebd6fb34ed1302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:40 +0000
Subject: [PATCH 1/6] fix: compare the standard deviation instead of the
 variance for TolX

---
 src/termination.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/termination.rs b/src/termination.rs
index 4ba417c..dabede0 100644
--- a/src/termination.rs
+++ b/src/termination.rs
@@ -178,7 +178,7 @@ impl<'a> TerminationCheck<'a> {
         }
 
         // Check TerminationReason::TolX
-        if (0..dim).all(|i| (sigma * cov[(i, i)]).abs() < tol_x)
+        if (0..dim).all(|i| (sigma * cov[(i, i)].sqrt()).abs() < tol_x)
             && path_c.iter().all(|x| (sigma * *x).abs() < tol_x)
         {
             result.push(TerminationReason::TolX);
-- 
2.43.0


From 04aa6b0365772e5819d004294506a0166feaa6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 2/6] fix: avoid overflow for large plotting and printing gaps

---
 src/lib.rs          | 2 +-
 src/plotting/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 14093e1..1797e9a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -340,7 +340,7 @@ impl<F> CMAES<F> {
         // Print latest state
         if let Some(gap_evals) = self.print_gap_evals {
             // The first few generations are always printed, then print_gap_evals is respected
-            if self.sampler.function_evals() >= self.last_print_evals + gap_evals {
+            if self.sampler.function_evals() >= self.last_print_evals.saturating_add(gap_evals) {
                 self.print_info();
                 self.last_print_evals = self.sampler.function_evals();
             } else if self.state.generation() < 4 {
diff --git a/src/plotting/mod.rs b/src/plotting/mod.rs
index c4bd1a9..85bd8f8 100644
--- a/src/plotting/mod.rs
+++ b/src/plotting/mod.rs
@@ -98,7 +98,7 @@ impl Plot {
     /// Returns the next time a data point should be recorded, in function evals.
     pub(crate) fn get_next_data_point_evals(&self) -> usize {
         match self.last_data_point_evals {
-            Some(evals) => evals + self.options.min_gap_evals,
+            Some(evals) => evals.saturating_add(self.options.min_gap_evals),
             None => 0,
         }
     }
-- 
2.43.0


From 14b8a34706500195af1984a2247f42bba6936721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 3/6] fix: reject search ranges with a non-finite size

---
 src/restart/mod.rs     | 3 ++-
 src/restart/options.rs | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/restart/mod.rs b/src/restart/mod.rs
index 1cf0c7a..94e8f8f 100644
--- a/src/restart/mod.rs
+++ b/src/restart/mod.rs
@@ -163,10 +163,11 @@ impl Restarter {
     /// generally be used instead.
     pub fn new(options: RestartOptions) -> Result<Self, InvalidRestartOptionsError> {
         let seed = options.seed.unwrap_or_else(rand::random);
+        let search_range_size = options.search_range.end() - options.search_range.start();
 
         if options.dimensions == 0 {
             Err(InvalidRestartOptionsError::Dimensions)
-        } else if options.search_range.end() - options.search_range.start() == 0.0 {
+        } else if search_range_size == 0.0 || !search_range_size.is_finite() {
             Err(InvalidRestartOptionsError::SearchRange)
         } else {
             Ok(Self {
diff --git a/src/restart/options.rs b/src/restart/options.rs
index 53a43a8..150903c 100644
--- a/src/restart/options.rs
+++ b/src/restart/options.rs
@@ -12,7 +12,7 @@ use crate::{CMAESOptions, Mode};
 pub enum InvalidRestartOptionsError {
     /// The number of dimensions is set to zero.
     Dimensions,
-    /// The search range size is zero.
+    /// The search range size is zero or not finite.
     SearchRange,
 }
 
-- 
2.43.0


From e5bba525343b862128b3a90d359f49cacec0f4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 4/6] fix: keep the initial step sizes of restart strategies
 valid

---
 src/options.rs       |  6 ++++++
 src/restart/bipop.rs | 11 ++++++-----
 src/restart/ipop.rs  |  4 ++--
 src/restart/local.rs |  2 +-
 4 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/options.rs b/src/options.rs
index 0be35f0..4b05847 100644
--- a/src/options.rs
+++ b/src/options.rs
@@ -359,6 +359,12 @@ pub(crate) fn is_initial_step_size_valid(step_size: f64) -> bool {
     step_size.is_normal() && step_size > 0.0
 }
 
+/// Clamps a positive step size to the range of valid initial step sizes. Needed for calculated step
+/// sizes, which can underflow or overflow.
+pub(crate) fn clamp_initial_step_size(step_size: f64) -> f64 {
+    step_size.clamp(f64::MIN_POSITIVE, f64::MAX)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/restart/bipop.rs b/src/restart/bipop.rs
index b2f6bf5..64cbd9a 100644
--- a/src/restart/bipop.rs
+++ b/src/restart/bipop.rs
@@ -56,9 +56,6 @@ impl BIPOP {
         ipop_increase_factor: Option<usize>,
     ) -> Result<Self, InvalidRestartStrategyOptionsError> {
         if let Some(step_size_factor) = lr_initial_step_size_factor {
-            // FIXME: This doesn't catch every invalid case; if set to a tiny value (maybe 1e-150),
-            // the 10^-2 factor makes it round to zero and cause a panic when calling
-            // CMAESOptions::build (also affects Local)
             if !options::is_initial_step_size_valid(step_size_factor) {
                 return Err(InvalidRestartStrategyOptionsError::InitialStepSize);
             }
@@ -85,7 +82,11 @@ impl BIPOP {
 
     /// Returns the initial step size to use for LR restarts
     fn get_initial_step_size_lr(&self, search_range_size: f64, rng: &mut ChaChaRng) -> f64 {
-        search_range_size * self.lr_initial_step_size_factor * 10f64.powf(-2.0 * rng.gen::<f64>())
+        options::clamp_initial_step_size(
+            search_range_size
+                * self.lr_initial_step_size_factor
+                * 10f64.powf(-2.0 * rng.gen::<f64>()),
+        )
     }
 
     /// Returns the population size to use for LR restarts
@@ -100,7 +101,7 @@ impl BIPOP {
 
     /// Returns the initial step size to use for IPOP restarts
     fn get_initial_step_size_ipop(&self, search_range_size: f64) -> f64 {
-        search_range_size / 5.0
+        options::clamp_initial_step_size(search_range_size / 5.0)
     }
 
     /// Executes a LR run
diff --git a/src/restart/ipop.rs b/src/restart/ipop.rs
index f972e31..c14acd1 100644
--- a/src/restart/ipop.rs
+++ b/src/restart/ipop.rs
@@ -4,7 +4,7 @@ use rand_chacha::ChaChaRng;
 
 use super::strategy::{RestartControl, Strategy};
 use super::InvalidRestartStrategyOptionsError;
-use crate::{CMAESOptions, TerminationData, TerminationReason, CMAES};
+use crate::{options, CMAESOptions, TerminationData, TerminationReason, CMAES};
 
 /// The default population size increase factor
 const DEFAULT_INCREASE_FACTOR: usize = 2;
@@ -48,7 +48,7 @@ impl IPOP {
 
     /// Returns the initial step size to use for the given search range size
     fn get_initial_step_size(&self, search_range_size: f64) -> f64 {
-        search_range_size / 2.0
+        options::clamp_initial_step_size(search_range_size / 2.0)
     }
 }
 
diff --git a/src/restart/local.rs b/src/restart/local.rs
index 114a1be..30470b8 100644
--- a/src/restart/local.rs
+++ b/src/restart/local.rs
@@ -52,7 +52,7 @@ impl Local {
 
     /// Returns the initial step size to use for the given search range size
     fn get_initial_step_size(&self, search_range_size: f64) -> f64 {
-        search_range_size * self.initial_step_size_factor * 1e-2
+        options::clamp_initial_step_size(search_range_size * self.initial_step_size_factor * 1e-2)
     }
 }
 
-- 
2.43.0


From 7b2158b59aae26b777e2e368c7a15adbbcbca326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 5/6] fix: limit the function evaluations of LR runs without a
 per-run limit

---
 src/restart/bipop.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/restart/bipop.rs b/src/restart/bipop.rs
index 64cbd9a..5d83ce0 100644
--- a/src/restart/bipop.rs
+++ b/src/restart/bipop.rs
@@ -118,9 +118,14 @@ impl BIPOP {
         options.population_size = self.get_population_size_lr(options.population_size, rng);
         // Half the most recent IPOP run's function evals is used as a limit for LR (if the
         // max_function_evals option isn't stricter)
-        options.max_function_evals = options
-            .max_function_evals
-            .map(|max_fevals| max_fevals.min(self.last_ipop_function_evals_used / 2));
+        let max_function_evals_lr = self.last_ipop_function_evals_used / 2;
+        options.max_function_evals = Some(
+            options
+                .max_function_evals
+                .map_or(max_function_evals_lr, |max_fevals| {
+                    max_fevals.min(max_function_evals_lr)
+                }),
+        );
 
         // Execute the run
         let mut cmaes_state = options.build(objective_function).unwrap();
-- 
2.43.0


From b68f43fb968659d636e8a5b28c1dae1a1cce1aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:04 +0000
Subject: [PATCH 6/6] fix: TolStagnation panicked on undefined (NAN) medians in
 the history

---
 src/termination.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/termination.rs b/src/termination.rs
index dabede0..c800b6b 100644
--- a/src/termination.rs
+++ b/src/termination.rs
@@ -243,6 +243,12 @@ impl<'a> TerminationCheck<'a> {
                         .cloned()
                         .collect::<Vec<_>>();
 
+                    // The median of a generation is NAN if it lies between infinities of opposite
+                    // sign, in which case the values can't be compared
+                    if first_values.iter().chain(&last_values).any(|v| v.is_nan()) {
+                        return false;
+                    }
+
                     mode.is_better(
                         Data::new(last_values).median(),
                         Data::new(first_values).median(),
-- 
2.43.0

