From 31392f2b4768e77d5321f8f7edfb5451ba1f8643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:55 +0000
Subject: [PATCH 01/19] verif_hooks: guarded re-exports for external checks
 (cfg verif_hooks)

---
 symbolic_regression/src/lib.rs         |   5 ++
 symbolic_regression/src/verif_hooks.rs | 113 +++++++++++++++++++++++++
 web/wasm/src/lib.rs                    |  41 +++++++++
 3 files changed, 159 insertions(+)
 create mode 100644 symbolic_regression/src/verif_hooks.rs

diff --git a/symbolic_regression/src/lib.rs b/symbolic_regression/src/lib.rs
index 0eaab57..61b411f 100644
--- a/symbolic_regression/src/lib.rs
+++ b/symbolic_regression/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // `verif_hooks`
+
 #[cfg(all(target_arch = "wasm32", not(target_feature = "atomics")))]
 compile_error!(
     "symbolic_regression requires wasm threads/atomics when targeting wasm32. \
@@ -31,6 +33,9 @@ pub(crate) mod warmup;
 
 #[cfg(feature = "bench")]
 pub mod bench;
+#[cfg(verif_hooks)]
+#[doc(hidden)]
+pub mod verif_hooks;
 
 pub use check_constraints::{NestedConstraints, OpConstraints};
 pub use complexity::compute_complexity;
diff --git a/symbolic_regression/src/verif_hooks.rs b/symbolic_regression/src/verif_hooks.rs
new file mode 100644
index 0000000..de84fe7
--- /dev/null
+++ b/symbolic_regression/src/verif_hooks.rs
@@ -0,0 +1,113 @@
+//! Verification hooks: re-exports of crate-private items for the external checks.
+//! Compiled only with `--cfg verif_hooks`; adds no behaviour.
+
+use dynamic_expressions::expression::PostfixExpr;
+use fastrand::Rng;
+use num_traits::Float;
+
+pub use crate::adaptive_parsimony::RunningSearchStatistics;
+pub use crate::check_constraints::check_constraints;
+pub use crate::constant_optimization::{OptimizeConstantsCtx, optimize_constants};
+pub use crate::dataset::{Dataset, TaggedDataset};
+pub use crate::hall_of_fame::HallOfFame;
+pub use crate::loss_functions::{LossFn, baseline_loss_from_zero_expression, loss_to_cost};
+pub use crate::migration::{best_sub_pop, migrate_into};
+pub use crate::mutate::{
+    CrossoverCtx, MutationChoice, NextGenerationCtx, condition_mutation_weights, crossover_generation, next_generation,
+    sample_mutation,
+};
+pub use crate::mutation_functions::{
+    insert_random_op_in_place, random_expr, random_expr_append_ops, rotate_tree_in_place,
+};
+use crate::operators::Operators;
+pub use crate::options::{MutationWeights, Options};
+pub use crate::pop_member::{Evaluator, MemberId, PopMember};
+pub use crate::population::Population;
+pub use crate::regularized_evolution::{RegEvolCtx, reg_evol_cycle};
+pub use crate::selection::best_of_sample;
+pub use crate::single_iteration::{IterationCtx, optimize_and_simplify_population, s_r_cycle};
+pub use crate::warmup::get_cur_maxsize;
+use crate::{mutation_functions as mf, random, selection};
+
+pub fn mutate_constant_in_place<T: Float, Ops, const D: usize>(
+    rng: &mut Rng,
+    expr: &mut PostfixExpr<T, Ops, D>,
+    temperature: f64,
+    options: &Options<T, D>,
+) -> bool {
+    mf::mutate_constant_in_place(rng, expr, temperature, options)
+}
+
+pub fn mutate_operator_in_place<T, Ops, const D: usize>(
+    rng: &mut Rng,
+    expr: &mut PostfixExpr<T, Ops, D>,
+    operators: &Operators<D>,
+) -> bool {
+    mf::mutate_operator_in_place(rng, expr, operators)
+}
+
+pub fn mutate_feature_in_place<T, Ops, const D: usize>(
+    rng: &mut Rng,
+    expr: &mut PostfixExpr<T, Ops, D>,
+    n_features: usize,
+) -> bool {
+    mf::mutate_feature_in_place(rng, expr, n_features)
+}
+
+pub fn swap_operands_in_place<T, Ops, const D: usize>(rng: &mut Rng, expr: &mut PostfixExpr<T, Ops, D>) -> bool {
+    mf::swap_operands_in_place(rng, expr)
+}
+
+pub fn prepend_random_op_in_place<T: Float, Ops, const D: usize>(
+    rng: &mut Rng,
+    expr: &mut PostfixExpr<T, Ops, D>,
+    operators: &Operators<D>,
+    n_features: usize,
+) -> bool {
+    mf::prepend_random_op_in_place(rng, expr, operators, n_features)
+}
+
+pub fn append_random_op_in_place<T: Float, Ops, const D: usize>(
+    rng: &mut Rng,
+    expr: &mut PostfixExpr<T, Ops, D>,
+    operators: &Operators<D>,
+    n_features: usize,
+) -> bool {
+    mf::append_random_op_in_place(rng, expr, operators, n_features)
+}
+
+pub fn add_node_in_place<T: Float, Ops, const D: usize>(
+    rng: &mut Rng,
+    expr: &mut PostfixExpr<T, Ops, D>,
+    operators: &Operators<D>,
+    n_features: usize,
+) -> bool {
+    mf::add_node_in_place(rng, expr, operators, n_features)
+}
+
+pub fn delete_random_op_in_place<T: Clone, Ops, const D: usize>(
+    rng: &mut Rng,
+    expr: &mut PostfixExpr<T, Ops, D>,
+) -> bool {
+    mf::delete_random_op_in_place(rng, expr)
+}
+
+pub fn crossover_trees<T: Clone, Ops, const D: usize>(
+    rng: &mut Rng,
+    a: &PostfixExpr<T, Ops, D>,
+    b: &PostfixExpr<T, Ops, D>,
+) -> (PostfixExpr<T, Ops, D>, PostfixExpr<T, Ops, D>) {
+    mf::crossover_trees(rng, a, b)
+}
+
+pub fn weighted_index(rng: &mut Rng, weights: &[f64]) -> usize {
+    selection::weighted_index(rng, weights)
+}
+
+pub fn poisson_sample(rng: &mut Rng, mean: f64) -> usize {
+    random::poisson_sample(rng, mean)
+}
+
+pub fn shuffle<T>(rng: &mut Rng, values: &mut [T]) {
+    random::shuffle(rng, values)
+}
diff --git a/web/wasm/src/lib.rs b/web/wasm/src/lib.rs
index d8f6467..7df4546 100644
--- a/web/wasm/src/lib.rs
+++ b/web/wasm/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // `verif_hooks`
+
 use std::io::Cursor;
 
 use csv::ReaderBuilder;
@@ -715,6 +717,45 @@ fn select_rows(
     Ok((xo, yo, wo))
 }
 
+/// Verification hooks: thin wrappers over the private data-preparation functions.
+/// Compiled only with `--cfg verif_hooks`; adds no behaviour.
+#[cfg(verif_hooks)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    use super::*;
+
+    pub fn make_split_indices(n_rows: usize, validation_fraction: f64, seed: u64) -> WasmSplitIndices {
+        super::make_split_indices(n_rows, validation_fraction, seed)
+    }
+
+    #[allow(clippy::type_complexity)]
+    pub fn split_train_val(
+        dataset_all: &Dataset<f64>,
+        weights_all: Option<&Array1<f64>>,
+        variable_names: &[String],
+        split: &WasmSplitIndices,
+    ) -> Result<(Dataset<f64>, Option<Dataset<f64>>), String> {
+        super::split_train_val(dataset_all, weights_all, variable_names, split)
+    }
+
+    #[allow(clippy::type_complexity)]
+    pub fn build_full_dataset(
+        headers: &[String],
+        rows: &[Vec<f64>],
+        opts: &WasmSearchOptions,
+    ) -> Result<(Dataset<f64>, Vec<String>, Option<Array1<f64>>), String> {
+        super::build_full_dataset(headers, rows, opts)
+    }
+
+    pub fn parse_csv_to_rows(csv_text: &str, has_headers: bool) -> Result<(Vec<String>, Vec<Vec<f64>>), String> {
+        super::parse_csv_to_rows(csv_text, has_headers)
+    }
+
+    pub fn compute_metrics(yhat: &[f64], dataset: &Dataset<f64>) -> WasmMetrics {
+        super::compute_metrics(yhat, dataset)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::WasmSearchOptions;
-- 
2.43.0


From 978925589255e6945717a277b3a364aa5adcd556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 02/19] fix: gradient of an expression over a data matrix with
 no rows no longer panics

chunks_mut(0) panics; evaluation and directional differentiation already accept zero rows.
---
 dynamic_expressions/src/evaluate.rs            | 2 +-
 dynamic_expressions/src/evaluate_derivative.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dynamic_expressions/src/evaluate.rs b/dynamic_expressions/src/evaluate.rs
index 4e53990..a459f70 100644
--- a/dynamic_expressions/src/evaluate.rs
+++ b/dynamic_expressions/src/evaluate.rs
@@ -710,7 +710,7 @@ pub mod kernels {
                 *outv = Op::eval(&vals);
             }
 
-            for (dir, grad_dir) in ctx.out_grad.chunks_mut(ctx.n_rows).enumerate().take(ctx.n_dir) {
+            for (dir, grad_dir) in ctx.out_grad.chunks_mut(ctx.n_rows.max(1)).enumerate().take(ctx.n_dir) {
                 for (row, outg) in grad_dir.iter_mut().enumerate() {
                     for (v, view) in vals.iter_mut().zip_eq(arg_views) {
                         *v = view.get(row);
diff --git a/dynamic_expressions/src/evaluate_derivative.rs b/dynamic_expressions/src/evaluate_derivative.rs
index 3d1b21f..a0e41a8 100644
--- a/dynamic_expressions/src/evaluate_derivative.rs
+++ b/dynamic_expressions/src/evaluate_derivative.rs
@@ -331,7 +331,7 @@ where
             let end = start + n_rows;
             out_val.copy_from_slice(&x_data[start..end]);
             if variable {
-                for (dir, grad_dir) in out_grad.chunks_mut(n_rows).enumerate() {
+                for (dir, grad_dir) in out_grad.chunks_mut(n_rows.max(1)).enumerate() {
                     if dir == f as usize {
                         grad_dir.fill(T::one());
                     } else {
@@ -350,7 +350,7 @@ where
             }
             out_val.fill(v);
             if !variable {
-                for (dir, grad_dir) in out_grad.chunks_mut(n_rows).enumerate() {
+                for (dir, grad_dir) in out_grad.chunks_mut(n_rows.max(1)).enumerate() {
                     if dir == c as usize {
                         grad_dir.fill(T::one());
                     } else {
-- 
2.43.0


From 6ec0eba90e94a5fd7946bf36588e393295d4de5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 03/19] fix: cached evaluation plans are matched by their
 nodes, not by a hash that can collide

---
 dynamic_expressions/src/evaluate.rs            | 13 +++++++------
 dynamic_expressions/src/evaluate_derivative.rs | 16 ++++++++++++----
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/dynamic_expressions/src/evaluate.rs b/dynamic_expressions/src/evaluate.rs
index a459f70..fe80c20 100644
--- a/dynamic_expressions/src/evaluate.rs
+++ b/dynamic_expressions/src/evaluate.rs
@@ -1,10 +1,10 @@
 use ndarray::{Array2, ArrayView2};
 use num_traits::Float;
 
-use crate::compile::{EvalPlan, build_node_hash, compile_plan};
+use crate::compile::{EvalPlan, compile_plan};
 use crate::dispatch::{EvalKernelCtx, GradRef, SrcRef};
 use crate::expression::PostfixExpr;
-use crate::node::Src;
+use crate::node::{PNode, Src};
 use crate::traits::{OpId, OperatorSet};
 
 #[derive(Copy, Clone, Debug)]
@@ -28,6 +28,7 @@ pub struct EvalContext<T: Float, const D: usize> {
     pub n_rows: usize,
     pub plan: Option<EvalPlan<D>>,
     pub plan_nodes_len: usize,
+    pub plan_nodes: Vec<PNode>,
     pub plan_n_consts: usize,
     pub plan_n_features: usize,
 }
@@ -39,6 +40,7 @@ impl<T: Float, const D: usize> EvalContext<T, D> {
             n_rows,
             plan: None,
             plan_nodes_len: 0,
+            plan_nodes: Vec::new(),
             plan_n_consts: 0,
             plan_n_features: 0,
         }
@@ -48,6 +50,7 @@ impl<T: Float, const D: usize> EvalContext<T, D> {
         if self.needs_recompile(expr, x_columns) {
             self.plan = Some(compile_plan::<D>(&expr.nodes, x_columns.nrows(), expr.consts.len()));
             self.plan_nodes_len = expr.nodes.len();
+            self.plan_nodes = expr.nodes.clone();
             self.plan_n_consts = expr.consts.len();
             self.plan_n_features = x_columns.nrows();
         }
@@ -63,10 +66,8 @@ impl<T: Float, const D: usize> EvalContext<T, D> {
         {
             return true;
         }
-        let Some(plan) = &self.plan else {
-            return true;
-        };
-        plan.hash != build_node_hash(&expr.nodes)
+        // A hash can collide: only the nodes themselves identify the program the plan was compiled for.
+        self.plan_nodes != expr.nodes
     }
 
     fn ensure_scratch(&mut self, n_slots: usize) {
diff --git a/dynamic_expressions/src/evaluate_derivative.rs b/dynamic_expressions/src/evaluate_derivative.rs
index a0e41a8..1fc82e9 100644
--- a/dynamic_expressions/src/evaluate_derivative.rs
+++ b/dynamic_expressions/src/evaluate_derivative.rs
@@ -1,11 +1,11 @@
 use ndarray::{Array2, ArrayView2};
 use num_traits::Float;
 
-use crate::compile::{EvalPlan, build_node_hash, compile_plan};
+use crate::compile::{EvalPlan, compile_plan};
 use crate::dispatch::{DiffKernelCtx, GradKernelCtx, GradRef, SrcRef};
 use crate::evaluate::{EvalOptions, resolve_der_src, resolve_grad_src, resolve_val_src};
 use crate::expression::PostfixExpr;
-use crate::node::Src;
+use crate::node::{PNode, Src};
 use crate::traits::{OpId, OperatorSet};
 use crate::utils::ZipEq;
 
@@ -16,6 +16,7 @@ pub struct DiffContext<T: Float, const D: usize> {
     pub n_rows: usize,
     pub plan: Option<EvalPlan<D>>,
     pub plan_nodes_len: usize,
+    pub plan_nodes: Vec<PNode>,
     pub plan_n_consts: usize,
     pub plan_n_features: usize,
 }
@@ -28,6 +29,7 @@ impl<T: Float, const D: usize> DiffContext<T, D> {
             n_rows,
             plan: None,
             plan_nodes_len: 0,
+            plan_nodes: Vec::new(),
             plan_n_consts: 0,
             plan_n_features: 0,
         }
@@ -50,6 +52,7 @@ pub struct GradContext<T: Float, const D: usize> {
     pub n_rows: usize,
     pub plan: Option<EvalPlan<D>>,
     pub plan_nodes_len: usize,
+    pub plan_nodes: Vec<PNode>,
     pub plan_n_consts: usize,
     pub plan_n_features: usize,
 }
@@ -62,6 +65,7 @@ impl<T: Float, const D: usize> GradContext<T, D> {
             n_rows,
             plan: None,
             plan_nodes_len: 0,
+            plan_nodes: Vec::new(),
             plan_n_consts: 0,
             plan_n_features: 0,
         }
@@ -117,10 +121,12 @@ where
     let needs_recompile = ctx.plan_nodes_len != expr.nodes.len()
         || ctx.plan_n_consts != expr.consts.len()
         || ctx.plan_n_features != n_features
-        || ctx.plan.as_ref().is_none_or(|p| p.hash != build_node_hash(&expr.nodes));
+        || ctx.plan.is_none()
+        || ctx.plan_nodes != expr.nodes;
     if needs_recompile {
         ctx.plan = Some(compile_plan::<D>(&expr.nodes, n_features, expr.consts.len()));
         ctx.plan_nodes_len = expr.nodes.len();
+        ctx.plan_nodes = expr.nodes.clone();
         ctx.plan_n_consts = expr.consts.len();
         ctx.plan_n_features = n_features;
     }
@@ -245,11 +251,13 @@ where
     let needs_recompile = ctx.plan_nodes_len != expr.nodes.len()
         || ctx.plan_n_consts != expr.consts.len()
         || ctx.plan_n_features != x_columns.nrows()
-        || ctx.plan.as_ref().is_none_or(|p| p.hash != build_node_hash(&expr.nodes));
+        || ctx.plan.is_none()
+        || ctx.plan_nodes != expr.nodes;
 
     if needs_recompile {
         ctx.plan = Some(compile_plan::<D>(&expr.nodes, x_columns.nrows(), expr.consts.len()));
         ctx.plan_nodes_len = expr.nodes.len();
+        ctx.plan_nodes = expr.nodes.clone();
         ctx.plan_n_consts = expr.consts.len();
         ctx.plan_n_features = x_columns.nrows();
     }
-- 
2.43.0


From 83bc4dca759ec05c962ae0359ef9316315cd2fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:48 +0000
Subject: [PATCH 04/19] fix: weighted choice does not fall through to an item
 of zero weight

---
 symbolic_regression/src/selection.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/selection.rs b/symbolic_regression/src/selection.rs
index 8d79c46..7b45b4f 100644
--- a/symbolic_regression/src/selection.rs
+++ b/symbolic_regression/src/selection.rs
@@ -88,7 +88,8 @@ pub(crate) fn weighted_index(rng: &mut Rng, weights: &[f64]) -> usize {
         }
         target -= w;
     }
-    weights.len() - 1
+    // Rounding left `target` past the last weight: the last item that can be drawn.
+    weights.iter().rposition(|&w| w > 0.0).unwrap_or(weights.len() - 1)
 }
 
 fn sample_indices(rng: &mut Rng, len: usize, n: usize) -> Vec<usize> {
-- 
2.43.0


From 36c7df0d79443f554712b67e9ae501839f1e17d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:49 +0000
Subject: [PATCH 05/19] fix: size warm-up with a maximum size below three stays
 within the maximum

---
 symbolic_regression/src/warmup.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/warmup.rs b/symbolic_regression/src/warmup.rs
index 1e24daf..2873a69 100644
--- a/symbolic_regression/src/warmup.rs
+++ b/symbolic_regression/src/warmup.rs
@@ -12,7 +12,8 @@ pub fn get_cur_maxsize<T: Float, const D: usize>(
     let in_warmup = fraction_elapsed <= options.warmup_maxsize_by;
 
     if options.warmup_maxsize_by > 0.0 && in_warmup {
-        3 + (((options.maxsize - 3) as f32) * fraction_elapsed / options.warmup_maxsize_by).floor() as usize
+        let start = options.maxsize.min(3);
+        start + (((options.maxsize - start) as f32) * fraction_elapsed / options.warmup_maxsize_by).floor() as usize
     } else {
         options.maxsize
     }
-- 
2.43.0


From 0fe50b82ea39a5dbb8b6845ca8c0880eadc74f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:18 +0000
Subject: [PATCH 06/19] fix: tournament ranking of a perfect member survives an
 overflowing frequency penalty

---
 symbolic_regression/src/selection.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/selection.rs b/symbolic_regression/src/selection.rs
index 7b45b4f..eb3401e 100644
--- a/symbolic_regression/src/selection.rs
+++ b/symbolic_regression/src/selection.rs
@@ -51,7 +51,8 @@ pub fn best_of_sample<T: Float, Ops, const D: usize>(
             } else {
                 0.0
             };
-            adjusted *= (options.adaptive_parsimony_scaling * freq).exp();
+            // An overflowing penalty must not turn a zero cost into NaN.
+            adjusted *= (options.adaptive_parsimony_scaling * freq).exp().min(f64::MAX);
         }
         scored.push((adjusted, idx));
     }
-- 
2.43.0


From ddeb59230d292716ab155c33e2f0e8242bb5b255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:42 +0000
Subject: [PATCH 07/19] fix: reducing the parsimony window no longer stops
 short at a negligible step

---
 symbolic_regression/src/adaptive_parsimony.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic_regression/src/adaptive_parsimony.rs b/symbolic_regression/src/adaptive_parsimony.rs
index 9be35d7..087756d 100644
--- a/symbolic_regression/src/adaptive_parsimony.rs
+++ b/symbolic_regression/src/adaptive_parsimony.rs
@@ -68,7 +68,7 @@ impl RunningSearchStatistics {
             let total = amount * num_remaining;
             remaining -= total;
             loops += 1;
-            if loops > max_loops || total < 1e-6 {
+            if loops > max_loops || remaining < 1e-6 {
                 break;
             }
         }
-- 
2.43.0


From 60a11f4f0ea757079c143de08f011381c1b41939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:55 +0000
Subject: [PATCH 08/19] fix: a data set built from non-contiguous targets or
 weights keeps them

---
 symbolic_regression/src/dataset.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/symbolic_regression/src/dataset.rs b/symbolic_regression/src/dataset.rs
index 527c57f..c035285 100644
--- a/symbolic_regression/src/dataset.rs
+++ b/symbolic_regression/src/dataset.rs
@@ -47,6 +47,9 @@ impl<T: Float> Dataset<T> {
         avg_y: Option<T>,
     ) -> Self {
         let x = x.as_standard_layout().to_owned();
+        // `y_slice` and `weights_slice` need contiguous data too.
+        let y = y.as_standard_layout().to_owned();
+        let weights = weights.map(|w| w.as_standard_layout().to_owned());
         let (n_features, n_rows) = x.dim();
         assert_eq!(y.len(), n_rows);
         if let Some(ref w) = weights {
-- 
2.43.0


From eac6061e20c6ee858a51a3ce3cac807de73b204a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:14 +0000
Subject: [PATCH 09/19] fix: a batched cycle sizes the prediction buffer for
 the batch

---
 symbolic_regression/src/single_iteration.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/symbolic_regression/src/single_iteration.rs b/symbolic_regression/src/single_iteration.rs
index dedb956..67ef397 100644
--- a/symbolic_regression/src/single_iteration.rs
+++ b/symbolic_regression/src/single_iteration.rs
@@ -38,6 +38,7 @@ where
     let min_temp = if ctx.options.annealing { 0.0 } else { 1.0 };
     let ncycles = ctx.options.ncycles_per_iteration.max(1);
     let mut num_evals = 0.0;
+    ctx.evaluator.ensure_n_rows(eval_dataset.n_rows);
     let mut best_seen = HallOfFame::new(ctx.options.maxsize);
     best_seen.update_from_members(&pop.members, ctx.options, ctx.curmaxsize);
 
-- 
2.43.0


From 018a651ca79467f4e540e15fde6d3d0f334c5c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:17 +0000
Subject: [PATCH 10/19] fix: a batched search keeps full-data losses in the
 hall of fame

---
 symbolic_regression/src/single_iteration.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/symbolic_regression/src/single_iteration.rs b/symbolic_regression/src/single_iteration.rs
index 67ef397..d1dbc8c 100644
--- a/symbolic_regression/src/single_iteration.rs
+++ b/symbolic_regression/src/single_iteration.rs
@@ -66,6 +66,18 @@ where
         );
         best_seen.update_from_members(&pop.members, ctx.options, ctx.curmaxsize);
     }
+    if ctx.options.batching {
+        // Losses seen so far are those of one batch: only losses on the full data leave this cycle.
+        ctx.evaluator.ensure_n_rows(ctx.full_dataset.n_rows);
+        for slot in &mut best_seen.best_by_complexity {
+            if let Some(m) = slot {
+                num_evals += 1.0;
+                if !m.evaluate(&ctx.full_dataset, ctx.options, ctx.evaluator) {
+                    *slot = None;
+                }
+            }
+        }
+    }
     (num_evals, best_seen)
 }
 
-- 
2.43.0


From c945ec839b8d79ad00079244e9caea8c38bbee0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:45 +0000
Subject: [PATCH 11/19] fix: splitting a few rows leaves at least one for
 training

---
 web/wasm/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/wasm/src/lib.rs b/web/wasm/src/lib.rs
index 7df4546..925aa62 100644
--- a/web/wasm/src/lib.rs
+++ b/web/wasm/src/lib.rs
@@ -653,7 +653,7 @@ fn make_split_indices(n_rows: usize, validation_fraction: f64, seed: u64) -> Was
     }
 
     let vf = validation_fraction.clamp(0.0, 0.9);
-    let n_val = ((vf * (n_rows as f64)).round() as usize).min(n_rows);
+    let n_val = ((vf * (n_rows as f64)).round() as usize).min(n_rows - 1);
     if n_val == 0 {
         return WasmSplitIndices {
             train: (0..n_rows).collect(),
-- 
2.43.0


From cd141f90f3edebd26037c5854ead035a779a7c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:11 +0000
Subject: [PATCH 12/19] fix: combining subtractions no longer mistakes an
 operator of another arity for one

---
 dynamic_expressions/src/simplify.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynamic_expressions/src/simplify.rs b/dynamic_expressions/src/simplify.rs
index 35ef764..35b59f2 100644
--- a/dynamic_expressions/src/simplify.rs
+++ b/dynamic_expressions/src/simplify.rs
@@ -188,7 +188,7 @@ fn combine_node<T: Float, const D: usize>(
 
         // Pattern 1 / 2: left is const, right is (sub ...).
         if let Some(a_idx) = is_const(arena, left) {
-            if let Some((_r_arity, r_children)) = is_op(arena, right, op) {
+            if let Some((2, r_children)) = is_op(arena, right, op) {
                 let r0 = r_children[0];
                 let r1 = r_children[1];
                 let a_v = consts[a_idx as usize];
@@ -237,7 +237,7 @@ fn combine_node<T: Float, const D: usize>(
 
         // Pattern 3 / 4: right is const, left is (sub ...).
         if let Some(b_idx) = is_const(arena, right) {
-            if let Some((_l_arity, l_children)) = is_op(arena, left, op) {
+            if let Some((2, l_children)) = is_op(arena, left, op) {
                 let l0 = l_children[0];
                 let l1 = l_children[1];
                 let b_v = consts[b_idx as usize];
-- 
2.43.0


From be5117db4c68b402a87ed586dc654126969fc2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:58 +0000
Subject: [PATCH 13/19] fix: clamp with crossed bounds reports no derivative
 for a bound it did not return

---
 dynamic_expressions/src/operator_enum.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynamic_expressions/src/operator_enum.rs b/dynamic_expressions/src/operator_enum.rs
index a42f3f2..7d1598f 100644
--- a/dynamic_expressions/src/operator_enum.rs
+++ b/dynamic_expressions/src/operator_enum.rs
@@ -628,7 +628,7 @@ pub mod builtin {
                     if x < lo { T::one() } else { T::zero() }
                 }
                 2 => {
-                    if x > hi { T::one() } else { T::zero() }
+                    if x > hi && !(x < lo) { T::one() } else { T::zero() }
                 }
                 _ => unreachable!(),
             }
-- 
2.43.0


From fbfa7b0163df5aeaa4ff98995745650013fee5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:33 +0000
Subject: [PATCH 14/19] fix: equation_search deadlocks when rayon has a single
 worker thread

rayon::scope moves its closure onto a pool thread, where it blocks on the result
channel; with one thread nothing is left to run the tasks.
---
 symbolic_regression/src/search_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index f819038..1c95404 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -206,7 +206,7 @@ where
         order_rng,
     };
 
-    rayon::scope(|scope| {
+    rayon::in_place_scope(|scope| {
         run_scoped_search(scope, &mut state);
     });
     state.progress.finish();
-- 
2.43.0


From 1442fe9d152ae54d610973fed916d1ad269afefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:33 +0000
Subject: [PATCH 15/19] fix: the best member found stays one that violates the
 constraints

When every initial member violates the constraints, the fallback was only replaced
by a member of lower loss, so the search could report a violating expression although
its populations held valid ones.
---
 symbolic_regression/src/search_utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index 1c95404..d90e7d4 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -466,7 +466,9 @@ fn apply_task_result<T, Ops, const D: usize>(
     }
     for m in &st.pop.members {
         hall.consider(m, options, curmaxsize);
-        if check_constraints(&m.expr, options, curmaxsize) && m.loss < pools.best.loss {
+        if check_constraints(&m.expr, options, curmaxsize)
+            && (m.loss < pools.best.loss || !check_constraints(&pools.best.expr, options, options.maxsize))
+        {
             pools.best = m.clone();
         }
     }
-- 
2.43.0


From de01afde9bc7548895f3cb457e4c352b8365af3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:25 +0000
Subject: [PATCH 16/19] fix: log-cosh loss of a large residual overflows to
 infinity

---
 symbolic_regression/src/loss_functions.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/loss_functions.rs b/symbolic_regression/src/loss_functions.rs
index bcde517..06ddd0a 100644
--- a/symbolic_regression/src/loss_functions.rs
+++ b/symbolic_regression/src/loss_functions.rs
@@ -248,7 +248,13 @@ pub struct LogCoshLoss;
 impl<T: Float> PointwiseLoss<T> for LogCoshLoss {
     fn point_loss(&self, yhat: T, y: T) -> T {
         let r = yhat - y;
-        r.cosh().ln()
+        let c = r.cosh();
+        if c.is_finite() {
+            c.ln()
+        } else {
+            // cosh overflows long before its logarithm: ln(cosh(r)) -> |r| - ln(2)
+            r.abs() - (T::one() + T::one()).ln()
+        }
     }
 
     fn point_dloss_dyhat(&self, yhat: T, y: T) -> T {
-- 
2.43.0


From 83411101c711aa84267c64bc5139be4858090d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:25 +0000
Subject: [PATCH 17/19] fix: partial derivatives of pow are NaN at x^0 with x =
 0 and at 0^y with y > 0

---
 dynamic_expressions/src/operator_enum.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dynamic_expressions/src/operator_enum.rs b/dynamic_expressions/src/operator_enum.rs
index 7d1598f..377ecee 100644
--- a/dynamic_expressions/src/operator_enum.rs
+++ b/dynamic_expressions/src/operator_enum.rs
@@ -473,7 +473,11 @@ pub mod builtin {
             let y = args[1];
             let f = x.powf(y);
             match idx {
+                // x^0 is constant in x, also at x = 0 (where x^(0-1) is infinite)
+                0 if y == T::zero() => T::zero(),
                 0 => y * x.powf(y - T::one()),
+                // 0^y is constant for y > 0 (where ln(0) is infinite)
+                1 if x == T::zero() && y > T::zero() => T::zero(),
                 1 => f * x.ln(),
                 _ => unreachable!(),
             }
-- 
2.43.0


From d6fe536c97d8f98b2c3b1767a704f46b472e914a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:44 +0000
Subject: [PATCH 18/19] fix: correlation in the web metrics uses the unweighted
 mean of the targets

r2_and_corr reports an unweighted Pearson correlation but reused the weighted
mean of the targets from the R^2, so with row weights even a perfect prediction
had a correlation below one.
---
 web/wasm/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/web/wasm/src/lib.rs b/web/wasm/src/lib.rs
index 925aa62..70cd367 100644
--- a/web/wasm/src/lib.rs
+++ b/web/wasm/src/lib.rs
@@ -510,6 +510,7 @@ fn r2_and_corr(yhat: &[f64], y: &[f64], w: Option<&[f64]>) -> (f64, f64) {
 
     // Unweighted Pearson correlation.
     let yh_mean = yhat.iter().sum::<f64>() / (yhat.len() as f64);
+    let y_mean = y.iter().sum::<f64>() / (y.len() as f64);
     let mut cov = 0.0;
     let mut vy = 0.0;
     let mut vyh = 0.0;
-- 
2.43.0


From a1477aa180609f8f322bf4a808d422984836b305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:40 +0000
Subject: [PATCH 19/19] fix: the size limit never exceeds a huge maximum
 through rounding

---
 symbolic_regression/src/warmup.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/warmup.rs b/symbolic_regression/src/warmup.rs
index 2873a69..831806c 100644
--- a/symbolic_regression/src/warmup.rs
+++ b/symbolic_regression/src/warmup.rs
@@ -13,7 +13,9 @@ pub fn get_cur_maxsize<T: Float, const D: usize>(
 
     if options.warmup_maxsize_by > 0.0 && in_warmup {
         let start = options.maxsize.min(3);
-        start + (((options.maxsize - start) as f32) * fraction_elapsed / options.warmup_maxsize_by).floor() as usize
+        let room = options.maxsize - start;
+        // Rounding can put the share of a huge maximum above it.
+        start + (((room as f32) * fraction_elapsed / options.warmup_maxsize_by).floor() as usize).min(room)
     } else {
         options.maxsize
     }
-- 
2.43.0

