From bc6ff0b63a51907d3fd02e4b8c6548dc0f869f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 01/39] fix: zero derivative directions contribute nothing,
 even where a partial is undefined

pow(x, c) at x < 0, min/acos/... of a constant, and the like gave NaN derivatives because the
undefined partial of the other operand was multiplied by its zero derivative.
---
 dynamic_expressions/src/evaluate.rs | 36 +++++++++++++++++------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/dynamic_expressions/src/evaluate.rs b/dynamic_expressions/src/evaluate.rs
index 4e53990..f738946 100644
--- a/dynamic_expressions/src/evaluate.rs
+++ b/dynamic_expressions/src/evaluate.rs
@@ -378,6 +378,13 @@ pub mod kernels {
         }
     }
 
+    /// One chain-rule term. A zero derivative contributes nothing, even where the partial itself is
+    /// undefined (e.g. `pow` with a negative base and a constant exponent).
+    #[inline]
+    fn chain_term<T: Float>(d: T, partial: impl FnOnce() -> T) -> T {
+        if d.is_zero() { T::zero() } else { partial() * d }
+    }
+
     #[inline]
     fn grad_unary_loop<T: Float, F, const A: usize>(out: &mut [T], x: ArgView<'_, T>, dx: ArgView<'_, T>, partial: F)
     where
@@ -388,19 +395,18 @@ pub mod kernels {
             (ArgView::Slice(x_s), ArgView::Slice(dx_s)) => {
                 for ((outg, &xv), &dxv) in out.iter_mut().zip_eq(x_s).zip_eq(dx_s) {
                     let vals = vals1(xv);
-                    *outg = partial(&vals, 0) * dxv;
+                    *outg = chain_term(dxv, || partial(&vals, 0));
                 }
             }
             (ArgView::Slice(x_s), ArgView::Const(dx_c)) => {
                 for (outg, &xv) in out.iter_mut().zip_eq(x_s) {
                     let vals = vals1(xv);
-                    *outg = partial(&vals, 0) * dx_c;
+                    *outg = chain_term(dx_c, || partial(&vals, 0));
                 }
             }
             (ArgView::Const(x_c), ArgView::Const(dx_c)) => {
                 let vals = vals1(x_c);
-                let p = partial(&vals, 0);
-                out.fill(p * dx_c);
+                out.fill(chain_term(dx_c, || partial(&vals, 0)));
             }
             _ => unreachable!("malformed expression"),
         }
@@ -422,58 +428,58 @@ pub mod kernels {
                 let data = (x_s.iter().zip_eq(y_s)).zip_eq(dx_s.iter().zip_eq(dy_s));
                 for (outv, ((&xv, &yv), (&dxv, &dyv))) in out.iter_mut().zip_eq(data) {
                     let vals = vals2(xv, yv);
-                    *outv = partial(&vals, 0) * dxv + partial(&vals, 1) * dyv;
+                    *outv = chain_term(dxv, || partial(&vals, 0)) + chain_term(dyv, || partial(&vals, 1));
                 }
             }
             (ArgView::Slice(x_s), ArgView::Slice(y_s), ArgView::Slice(dx_s), ArgView::Const(dy_c)) => {
                 let data = x_s.iter().zip_eq(y_s).zip_eq(dx_s);
                 for (outv, ((&xv, &yv), &dxv)) in out.iter_mut().zip_eq(data) {
                     let vals = vals2(xv, yv);
-                    *outv = partial(&vals, 0) * dxv + partial(&vals, 1) * dy_c;
+                    *outv = chain_term(dxv, || partial(&vals, 0)) + chain_term(dy_c, || partial(&vals, 1));
                 }
             }
             (ArgView::Slice(x_s), ArgView::Slice(y_s), ArgView::Const(dx_c), ArgView::Slice(dy_s)) => {
                 let data = x_s.iter().zip_eq(y_s).zip_eq(dy_s);
                 for (outv, ((&xv, &yv), &dyv)) in out.iter_mut().zip_eq(data) {
                     let vals = vals2(xv, yv);
-                    *outv = partial(&vals, 0) * dx_c + partial(&vals, 1) * dyv;
+                    *outv = chain_term(dx_c, || partial(&vals, 0)) + chain_term(dyv, || partial(&vals, 1));
                 }
             }
             (ArgView::Slice(x_s), ArgView::Slice(y_s), ArgView::Const(dx_c), ArgView::Const(dy_c)) => {
                 for (outv, (&xv, &yv)) in out.iter_mut().zip_eq(x_s.iter().zip_eq(y_s)) {
                     let vals = vals2(xv, yv);
-                    *outv = partial(&vals, 0) * dx_c + partial(&vals, 1) * dy_c;
+                    *outv = chain_term(dx_c, || partial(&vals, 0)) + chain_term(dy_c, || partial(&vals, 1));
                 }
             }
 
             (ArgView::Slice(x_s), ArgView::Const(y_c), ArgView::Slice(dx_s), ArgView::Const(dy_c)) => {
                 for (outv, (&xv, &dxv)) in out.iter_mut().zip_eq(x_s.iter().zip_eq(dx_s)) {
                     let vals = vals2(xv, y_c);
-                    *outv = partial(&vals, 0) * dxv + partial(&vals, 1) * dy_c;
+                    *outv = chain_term(dxv, || partial(&vals, 0)) + chain_term(dy_c, || partial(&vals, 1));
                 }
             }
             (ArgView::Slice(x_s), ArgView::Const(y_c), ArgView::Const(dx_c), ArgView::Const(dy_c)) => {
                 for (outv, &xv) in out.iter_mut().zip_eq(x_s) {
                     let vals = vals2(xv, y_c);
-                    *outv = partial(&vals, 0) * dx_c + partial(&vals, 1) * dy_c;
+                    *outv = chain_term(dx_c, || partial(&vals, 0)) + chain_term(dy_c, || partial(&vals, 1));
                 }
             }
 
             (ArgView::Const(x_c), ArgView::Slice(y_s), ArgView::Const(dx_c), ArgView::Slice(dy_s)) => {
                 for (outv, (&yv, &dyv)) in out.iter_mut().zip_eq(y_s.iter().zip_eq(dy_s)) {
                     let vals = vals2(x_c, yv);
-                    *outv = partial(&vals, 0) * dx_c + partial(&vals, 1) * dyv;
+                    *outv = chain_term(dx_c, || partial(&vals, 0)) + chain_term(dyv, || partial(&vals, 1));
                 }
             }
             (ArgView::Const(x_c), ArgView::Slice(y_s), ArgView::Const(dx_c), ArgView::Const(dy_c)) => {
                 for (outv, &yv) in out.iter_mut().zip_eq(y_s) {
                     let vals = vals2(x_c, yv);
-                    *outv = partial(&vals, 0) * dx_c + partial(&vals, 1) * dy_c;
+                    *outv = chain_term(dx_c, || partial(&vals, 0)) + chain_term(dy_c, || partial(&vals, 1));
                 }
             }
             (ArgView::Const(x_c), ArgView::Const(y_c), ArgView::Const(dx_c), ArgView::Const(dy_c)) => {
                 let vals = vals2(x_c, y_c);
-                out.fill(partial(&vals, 0) * dx_c + partial(&vals, 1) * dy_c);
+                out.fill(chain_term(dx_c, || partial(&vals, 0)) + chain_term(dy_c, || partial(&vals, 1)));
             }
             _ => unreachable!("malformed expression"),
         }
@@ -627,7 +633,7 @@ pub mod kernels {
 
                 let mut dv_out = T::zero();
                 for (j, dvj) in dvals.iter().copied().enumerate() {
-                    dv_out += Op::partial(&vals, j) * dvj;
+                    dv_out += chain_term(dvj, || Op::partial(&vals, j));
                 }
                 *outd = dv_out;
 
@@ -717,7 +723,7 @@ pub mod kernels {
                     }
                     let mut g = T::zero();
                     for (j, ag) in ctx.arg_grads.iter().copied().enumerate() {
-                        g += Op::partial(&vals, j) * grad_at(ag, dir, row, ctx.n_rows);
+                        g += chain_term(grad_at(ag, dir, row, ctx.n_rows), || Op::partial(&vals, j));
                     }
                     *outg = g;
                 }
-- 
2.43.0


From cc243525e949d7bc470af80d4cb1d2985d6ee4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 02/39] fix: gradients of a data set without rows do not panic

---
 dynamic_expressions/src/evaluate.rs            | 2 +-
 dynamic_expressions/src/evaluate_derivative.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dynamic_expressions/src/evaluate.rs b/dynamic_expressions/src/evaluate.rs
index f738946..e9ec06c 100644
--- a/dynamic_expressions/src/evaluate.rs
+++ b/dynamic_expressions/src/evaluate.rs
@@ -716,7 +716,7 @@ pub mod kernels {
                 *outv = Op::eval(&vals);
             }
 
-            for (dir, grad_dir) in ctx.out_grad.chunks_mut(ctx.n_rows).enumerate().take(ctx.n_dir) {
+            for (dir, grad_dir) in ctx.out_grad.chunks_mut(ctx.n_rows.max(1)).enumerate().take(ctx.n_dir) {
                 for (row, outg) in grad_dir.iter_mut().enumerate() {
                     for (v, view) in vals.iter_mut().zip_eq(arg_views) {
                         *v = view.get(row);
diff --git a/dynamic_expressions/src/evaluate_derivative.rs b/dynamic_expressions/src/evaluate_derivative.rs
index 3d1b21f..a0e41a8 100644
--- a/dynamic_expressions/src/evaluate_derivative.rs
+++ b/dynamic_expressions/src/evaluate_derivative.rs
@@ -331,7 +331,7 @@ where
             let end = start + n_rows;
             out_val.copy_from_slice(&x_data[start..end]);
             if variable {
-                for (dir, grad_dir) in out_grad.chunks_mut(n_rows).enumerate() {
+                for (dir, grad_dir) in out_grad.chunks_mut(n_rows.max(1)).enumerate() {
                     if dir == f as usize {
                         grad_dir.fill(T::one());
                     } else {
@@ -350,7 +350,7 @@ where
             }
             out_val.fill(v);
             if !variable {
-                for (dir, grad_dir) in out_grad.chunks_mut(n_rows).enumerate() {
+                for (dir, grad_dir) in out_grad.chunks_mut(n_rows.max(1)).enumerate() {
                     if dir == c as usize {
                         grad_dir.fill(T::one());
                     } else {
-- 
2.43.0


From a2c7f9604180946070e13d74e176695780e49562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 03/39] fix: the partial of pow in its exponent is 0, not NaN,
 for base 0 and a positive exponent

---
 dynamic_expressions/src/operator_enum.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dynamic_expressions/src/operator_enum.rs b/dynamic_expressions/src/operator_enum.rs
index a42f3f2..2c82043 100644
--- a/dynamic_expressions/src/operator_enum.rs
+++ b/dynamic_expressions/src/operator_enum.rs
@@ -474,6 +474,8 @@ pub mod builtin {
             let f = x.powf(y);
             match idx {
                 0 => y * x.powf(y - T::one()),
+                // 0^y is 0 for every y > 0, although ln(0) is infinite.
+                1 if x.is_zero() && y > T::zero() => T::zero(),
                 1 => f * x.ln(),
                 _ => unreachable!(),
             }
-- 
2.43.0


From fe5184d6d388185c4b68901bee021c2ba8f648a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 04/39] fix: combining nested subtractions looks at
 subtractions only, not at operators of another arity with the same id

Operator ids are per arity, so 1 - atanh(x) was rewritten to 2 - x in the built-in operator set.
---
 dynamic_expressions/src/simplify.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynamic_expressions/src/simplify.rs b/dynamic_expressions/src/simplify.rs
index 35ef764..35b59f2 100644
--- a/dynamic_expressions/src/simplify.rs
+++ b/dynamic_expressions/src/simplify.rs
@@ -188,7 +188,7 @@ fn combine_node<T: Float, const D: usize>(
 
         // Pattern 1 / 2: left is const, right is (sub ...).
         if let Some(a_idx) = is_const(arena, left) {
-            if let Some((_r_arity, r_children)) = is_op(arena, right, op) {
+            if let Some((2, r_children)) = is_op(arena, right, op) {
                 let r0 = r_children[0];
                 let r1 = r_children[1];
                 let a_v = consts[a_idx as usize];
@@ -237,7 +237,7 @@ fn combine_node<T: Float, const D: usize>(
 
         // Pattern 3 / 4: right is const, left is (sub ...).
         if let Some(b_idx) = is_const(arena, right) {
-            if let Some((_l_arity, l_children)) = is_op(arena, left, op) {
+            if let Some((2, l_children)) = is_op(arena, left, op) {
                 let l0 = l_children[0];
                 let l1 = l_children[1];
                 let b_v = consts[b_idx as usize];
-- 
2.43.0


From 9497720343d058fc729942eca4146a4da2ff79cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 05/39] fix: batching no longer panics when the batch size
 differs from the number of rows

---
 symbolic_regression/src/constant_optimization.rs | 1 +
 symbolic_regression/src/pop_member.rs            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/symbolic_regression/src/constant_optimization.rs b/symbolic_regression/src/constant_optimization.rs
index 1e4d310..5b907b6 100644
--- a/symbolic_regression/src/constant_optimization.rs
+++ b/symbolic_regression/src/constant_optimization.rs
@@ -31,6 +31,7 @@ impl<'a, T: Float + AddAssign, const D: usize> EvalWorkspace<'a, T, D> {
             check_finite: true,
             early_exit: true,
         };
+        evaluator.ensure_n_rows(dataset.n_rows);
 
         Self {
             dataset,
diff --git a/symbolic_regression/src/pop_member.rs b/symbolic_regression/src/pop_member.rs
index 5f8a46e..8cfb07e 100644
--- a/symbolic_regression/src/pop_member.rs
+++ b/symbolic_regression/src/pop_member.rs
@@ -96,6 +96,7 @@ where
         options: &Options<T, D>,
         evaluator: &mut Evaluator<T, D>,
     ) -> bool {
+        evaluator.ensure_n_rows(dataset.n_rows);
         let ok = dynamic_expressions::eval_plan_array_into(
             &mut evaluator.yhat,
             &self.plan,
-- 
2.43.0


From 2445ad012963db8e9b305d364cf1a781afe4d1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 06/39] fix: with batching, the hall of fame holds metrics on
 the full dataset, not on batches

---
 symbolic_regression/src/search_utils.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index f819038..0e22c96 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -415,11 +415,19 @@ where
     T: Float + num_traits::FromPrimitive + num_traits::ToPrimitive + AddAssign,
     Ops: dynamic_expressions::OperatorSet<T = T>,
 {
-    let (evals1, best_seen) =
+    let (mut evals1, mut best_seen) =
         pop_state.run_iteration_phase(full_dataset, options, curmaxsize, &stats, |pop, ctx, eval_dataset| {
             single_iteration::s_r_cycle(pop, ctx, eval_dataset)
         });
 
+    if options.batching {
+        // Match SymbolicRegression.jl: what was scored on batches is reported with its metrics on the full dataset.
+        for m in best_seen.best_by_complexity.iter_mut().flatten() {
+            let _ = m.evaluate(&full_dataset, options, &mut pop_state.evaluator);
+            evals1 += 1.0;
+        }
+    }
+
     let evals2 = pop_state.run_iteration_phase(full_dataset, options, curmaxsize, &stats, |pop, ctx, opt_dataset| {
         single_iteration::optimize_and_simplify_population(pop, ctx, opt_dataset)
     });
-- 
2.43.0


From f092f84e5284c5541ddb681e313d9d18d5b8b832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 07/39] fix: a panic in a search task propagates to the caller
 instead of hanging the search

---
 symbolic_regression/src/search_utils.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index 0e22c96..4b295b7 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -523,7 +523,7 @@ fn run_scoped_search<'scope, 'env, T, Ops, const D: usize>(
     let full_dataset = state.full_dataset;
     let options = state.options;
 
-    let (result_tx, result_rx) = std::sync::mpsc::channel::<SearchTaskResult<T, Ops, D>>();
+    let (result_tx, result_rx) = std::sync::mpsc::channel::<std::thread::Result<SearchTaskResult<T, Ops, D>>>();
 
     for _iter in 0..options.niterations {
         let mut task_order: Vec<usize> = (0..state.pools.pops.len()).collect();
@@ -548,13 +548,17 @@ fn run_scoped_search<'scope, 'env, T, Ops, const D: usize>(
 
                 let result_tx = result_tx.clone();
                 scope.spawn(move |_| {
-                    let res = execute_task(full_dataset, options, pop_idx, curmaxsize, stats_snapshot, st);
+                    // A panicking task must still report back, or the receiver below would wait forever.
+                    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
+                        execute_task(full_dataset, options, pop_idx, curmaxsize, stats_snapshot, st)
+                    }));
                     let _ = result_tx.send(res);
                 });
                 in_flight += 1;
             }
 
             let res = result_rx.recv().expect("worker result channel closed early");
+            let res = res.unwrap_or_else(|payload| std::panic::resume_unwind(payload));
             in_flight -= 1;
             apply_task_result(
                 options,
-- 
2.43.0


From 3f53e5955bcc0010e8ea244d89e59979ed21ec5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 08/39] fix: the best member takes into account every member
 that enters the hall of fame

---
 symbolic_regression/src/search_utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index 4b295b7..a16c937 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -471,6 +471,9 @@ fn apply_task_result<T, Ops, const D: usize>(
 
     for m in res.best_seen.members() {
         hall.consider(m, options, curmaxsize);
+        if check_constraints(&m.expr, options, curmaxsize) && m.loss < pools.best.loss {
+            pools.best = m.clone();
+        }
     }
     for m in &st.pop.members {
         hall.consider(m, options, curmaxsize);
-- 
2.43.0


From ca3efc378090922aeba481fb882c9da470b53214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 09/39] fix: size warmup works with a maximum size below 3

---
 symbolic_regression/src/warmup.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/warmup.rs b/symbolic_regression/src/warmup.rs
index 1e24daf..aa952c2 100644
--- a/symbolic_regression/src/warmup.rs
+++ b/symbolic_regression/src/warmup.rs
@@ -12,7 +12,8 @@ pub fn get_cur_maxsize<T: Float, const D: usize>(
     let in_warmup = fraction_elapsed <= options.warmup_maxsize_by;
 
     if options.warmup_maxsize_by > 0.0 && in_warmup {
-        3 + (((options.maxsize - 3) as f32) * fraction_elapsed / options.warmup_maxsize_by).floor() as usize
+        options.maxsize.min(3)
+            + ((options.maxsize.saturating_sub(3) as f32) * fraction_elapsed / options.warmup_maxsize_by).floor() as usize
     } else {
         options.maxsize
     }
-- 
2.43.0


From 5d937ccd5e9817ca4def444ef15768b5d013e0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 10/39] fix: targets and weights given as strided arrays are
 made contiguous, not rejected or ignored

---
 symbolic_regression/src/dataset.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symbolic_regression/src/dataset.rs b/symbolic_regression/src/dataset.rs
index 527c57f..8157cd3 100644
--- a/symbolic_regression/src/dataset.rs
+++ b/symbolic_regression/src/dataset.rs
@@ -47,6 +47,8 @@ impl<T: Float> Dataset<T> {
         avg_y: Option<T>,
     ) -> Self {
         let x = x.as_standard_layout().to_owned();
+        let y = y.as_standard_layout().to_owned();
+        let weights = weights.map(|w| w.as_standard_layout().to_owned());
         let (n_features, n_rows) = x.dim();
         assert_eq!(y.len(), n_rows);
         if let Some(ref w) = weights {
-- 
2.43.0


From af28d7e8b20f7a01cf254802f91318c65bb5d3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 11/39] fix: log-cosh loss does not overflow for large
 residuals

---
 symbolic_regression/src/loss_functions.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/loss_functions.rs b/symbolic_regression/src/loss_functions.rs
index bcde517..bd4446d 100644
--- a/symbolic_regression/src/loss_functions.rs
+++ b/symbolic_regression/src/loss_functions.rs
@@ -248,7 +248,13 @@ pub struct LogCoshLoss;
 impl<T: Float> PointwiseLoss<T> for LogCoshLoss {
     fn point_loss(&self, yhat: T, y: T) -> T {
         let r = yhat - y;
-        r.cosh().ln()
+        let ar = r.abs();
+        if ar > T::from(20.0).unwrap() {
+            // ln(cosh(r)) to working precision, without overflow of cosh for large residuals.
+            ar - T::from(std::f64::consts::LN_2).unwrap()
+        } else {
+            r.cosh().ln()
+        }
     }
 
     fn point_dloss_dyhat(&self, yhat: T, y: T) -> T {
-- 
2.43.0


From 08b38f831ba9fc1987e6b5948fc1a15cef784c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 12/39] fix: tournament selection does not turn a perfect cost
 of zero into NaN

---
 symbolic_regression/src/selection.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/selection.rs b/symbolic_regression/src/selection.rs
index 8d79c46..4206532 100644
--- a/symbolic_regression/src/selection.rs
+++ b/symbolic_regression/src/selection.rs
@@ -51,7 +51,8 @@ pub fn best_of_sample<T: Float, Ops, const D: usize>(
             } else {
                 0.0
             };
-            adjusted *= (options.adaptive_parsimony_scaling * freq).exp();
+            // Bounded, so that a cost of zero stays zero instead of becoming NaN.
+            adjusted *= (options.adaptive_parsimony_scaling * freq).exp().min(f64::MAX);
         }
         scored.push((adjusted, idx));
     }
-- 
2.43.0


From 14c1ea9d1bda39524853e931de1fffdcfbbe34b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 13/39] fix: members changed in place by simplification or
 constant optimisation get an id of their own

---
 symbolic_regression/src/single_iteration.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/symbolic_regression/src/single_iteration.rs b/symbolic_regression/src/single_iteration.rs
index dedb956..22ac312 100644
--- a/symbolic_regression/src/single_iteration.rs
+++ b/symbolic_regression/src/single_iteration.rs
@@ -8,7 +8,7 @@ use crate::constant_optimization::{OptimizeConstantsCtx, optimize_constants};
 use crate::dataset::TaggedDataset;
 use crate::hall_of_fame::HallOfFame;
 use crate::options::Options;
-use crate::pop_member::Evaluator;
+use crate::pop_member::{Evaluator, MemberId, PopMember};
 use crate::population::Population;
 use crate::regularized_evolution::{RegEvolCtx, reg_evol_cycle};
 
@@ -68,6 +68,13 @@ where
     (num_evals, best_seen)
 }
 
+/// An expression changed in place is a new expression: it gets an id of its own.
+fn assign_new_id<T: Float, Ops, const D: usize>(m: &mut PopMember<T, Ops, D>, next_id: &mut u64) {
+    m.parent = Some(m.id);
+    m.id = MemberId(*next_id);
+    *next_id += 1;
+}
+
 pub fn optimize_and_simplify_population<T, Ops, const D: usize>(
     pop: &mut Population<T, Ops, D>,
     ctx: &mut IterationCtx<'_, T, Ops, D>,
@@ -84,6 +91,7 @@ where
             let changed = dynamic_expressions::simplify_in_place(&mut m.expr, &ctx.evaluator.eval_opts);
             if changed {
                 m.rebuild_plan(ctx.full_dataset.n_features);
+                assign_new_id(m, ctx.next_id);
             }
         }
     }
@@ -104,7 +112,9 @@ where
                         next_birth: ctx.next_birth,
                     },
                 );
-                let _ = improved;
+                if improved {
+                    assign_new_id(m, ctx.next_id);
+                }
                 num_evals += evals;
             }
         }
-- 
2.43.0


From c8c1d27698481ecbc249874a286a5142603e9c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 14/39] fix: the best member satisfies the constraints as soon
 as any member does

---
 symbolic_regression/src/search_utils.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index a16c937..5b783f8 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -445,6 +445,21 @@ where
     }
 }
 
+fn update_best<T: Float + AddAssign, Ops, const D: usize>(
+    best: &mut PopMember<T, Ops, D>,
+    m: &PopMember<T, Ops, D>,
+    options: &Options<T, D>,
+    curmaxsize: usize,
+) {
+    if !check_constraints(&m.expr, options, curmaxsize) {
+        return;
+    }
+    // The initial best violates the constraints when no initial member satisfies them.
+    if m.loss < best.loss || !check_constraints(&best.expr, options, options.maxsize) {
+        *best = m.clone();
+    }
+}
+
 fn apply_task_result<T, Ops, const D: usize>(
     options: &Options<T, D>,
     counters: &mut SearchCounters,
@@ -471,15 +486,11 @@ fn apply_task_result<T, Ops, const D: usize>(
 
     for m in res.best_seen.members() {
         hall.consider(m, options, curmaxsize);
-        if check_constraints(&m.expr, options, curmaxsize) && m.loss < pools.best.loss {
-            pools.best = m.clone();
-        }
+        update_best(&mut pools.best, m, options, curmaxsize);
     }
     for m in &st.pop.members {
         hall.consider(m, options, curmaxsize);
-        if check_constraints(&m.expr, options, curmaxsize) && m.loss < pools.best.loss {
-            pools.best = m.clone();
-        }
+        update_best(&mut pools.best, m, options, curmaxsize);
     }
 
     if options.migration {
-- 
2.43.0


From 792ad545f71c3b041a0d06ba6819136db9872d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 15/39] hooks: access for the model-checking harnesses behind
 cfg(sr_verif)

---
 symbolic_regression/src/lib.rs          |  6 ++
 symbolic_regression/src/search_utils.rs | 16 +++++
 symbolic_regression/src/verif.rs        | 83 +++++++++++++++++++++++++
 3 files changed, 105 insertions(+)
 create mode 100644 symbolic_regression/src/verif.rs

diff --git a/symbolic_regression/src/lib.rs b/symbolic_regression/src/lib.rs
index 0eaab57..287ddbb 100644
--- a/symbolic_regression/src/lib.rs
+++ b/symbolic_regression/src/lib.rs
@@ -1,3 +1,6 @@
+// `sr_verif` is set by verification harnesses only; see src/verif.rs.
+#![allow(unexpected_cfgs)]
+
 #[cfg(all(target_arch = "wasm32", not(target_feature = "atomics")))]
 compile_error!(
     "symbolic_regression requires wasm threads/atomics when targeting wasm32. \
@@ -56,5 +59,8 @@ pub use {
     selection::best_of_sample,
 };
 
+#[cfg(sr_verif)]
+pub mod verif;
+
 #[cfg(test)]
 mod tests;
diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index 5b783f8..97a175d 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -677,3 +677,19 @@ where
         total_evals,
     }
 }
+
+#[cfg(sr_verif)]
+impl<T: Float + AddAssign, Ops, const D: usize> SearchEngine<T, Ops, D> {
+    /// Members of every population, in order.
+    pub fn verif_populations(&self) -> Vec<&[PopMember<T, Ops, D>]> {
+        self.pools
+            .pops
+            .iter()
+            .map(|p| p.as_ref().map_or(&[][..], |s| &s.pop.members))
+            .collect()
+    }
+
+    pub fn verif_stats(&self) -> &RunningSearchStatistics {
+        &self.stats
+    }
+}
diff --git a/symbolic_regression/src/verif.rs b/symbolic_regression/src/verif.rs
new file mode 100644
index 0000000..45110ec
--- /dev/null
+++ b/symbolic_regression/src/verif.rs
@@ -0,0 +1,83 @@
+//! Access for the model-checking harnesses (built only with `--cfg sr_verif`). Nothing here adds behaviour.
+use fastrand::Rng;
+
+pub use crate::adaptive_parsimony::RunningSearchStatistics;
+pub use crate::check_constraints::check_constraints;
+pub use crate::constant_optimization::{OptimizeConstantsCtx, optimize_constants};
+pub use crate::loss_functions::{LossFn, LossObject, baseline_loss_from_zero_expression, loss_to_cost};
+pub use crate::migration::{best_sub_pop, migrate_into};
+pub use crate::mutate::{
+    CrossoverCtx, MutationChoice, NextGenerationCtx, condition_mutation_weights, crossover_generation, next_generation,
+    sample_mutation,
+};
+pub use crate::mutation_functions::{random_expr, random_expr_append_ops};
+use crate::optim::{BackTracking, EvalBudget, Objective, OptimOptions};
+pub use crate::pop_member::Evaluator;
+pub use crate::population::Population;
+pub use crate::regularized_evolution::{RegEvolCtx, reg_evol_cycle};
+pub use crate::selection::best_of_sample;
+pub use crate::single_iteration::{IterationCtx, optimize_and_simplify_population, s_r_cycle};
+pub use crate::warmup::get_cur_maxsize;
+
+pub fn poisson_sample(rng: &mut Rng, mean: f64) -> usize {
+    crate::random::poisson_sample(rng, mean)
+}
+
+pub fn shuffle<T>(rng: &mut Rng, values: &mut [T]) {
+    crate::random::shuffle(rng, values)
+}
+
+pub fn weighted_index(rng: &mut Rng, weights: &[f64]) -> usize {
+    crate::selection::weighted_index(rng, weights)
+}
+
+struct Fns<'a> {
+    f: &'a mut dyn FnMut(&[f64]) -> Option<f64>,
+    fg: &'a mut dyn FnMut(&[f64], &mut [f64]) -> Option<f64>,
+}
+
+impl Objective for Fns<'_> {
+    fn f_only(&mut self, x: &[f64], budget: &mut EvalBudget) -> Option<f64> {
+        budget.f_calls += 1;
+        (self.f)(x)
+    }
+
+    fn fg(&mut self, x: &[f64], g_out: &mut [f64], budget: &mut EvalBudget) -> Option<f64> {
+        budget.f_calls += 1;
+        (self.fg)(x, g_out)
+    }
+}
+
+/// Minimiser, minimum and reported number of calls.
+pub type Minimum = (Vec<f64>, f64, usize);
+
+fn opts(iterations: usize, f_calls_limit: usize, g_abstol: f64) -> OptimOptions {
+    OptimOptions {
+        iterations,
+        f_calls_limit,
+        g_abstol,
+    }
+}
+
+pub fn bfgs(
+    x0: &[f64],
+    f: &mut dyn FnMut(&[f64]) -> Option<f64>,
+    fg: &mut dyn FnMut(&[f64], &mut [f64]) -> Option<f64>,
+    (iterations, f_calls_limit, g_abstol): (usize, usize, f64),
+) -> Option<Minimum> {
+    let mut obj = Fns { f, fg };
+    let o = opts(iterations, f_calls_limit, g_abstol);
+    crate::optim::bfgs_minimize(x0, &mut obj, o, BackTracking::default()).map(|r| (r.minimizer, r.minimum, r.f_calls))
+}
+
+pub fn newton_1d(
+    x0: f64,
+    f: &mut dyn FnMut(&[f64]) -> Option<f64>,
+    fg: &mut dyn FnMut(&[f64], &mut [f64]) -> Option<f64>,
+    (iterations, f_calls_limit, g_abstol): (usize, usize, f64),
+) -> Option<Minimum> {
+    let mut obj = Fns { f, fg };
+    let o = opts(iterations, f_calls_limit, g_abstol);
+    crate::optim::newton_1d_minimize(x0, &mut obj, o, BackTracking::default())
+        .map(|r| (r.minimizer, r.minimum, r.f_calls))
+}
-- 
2.43.0


From 118382cacde3e84ed7615b133dcccbf19983b20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 16/39] fix: the train/validation split never leaves the
 training set empty

---
 web/wasm/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/web/wasm/src/lib.rs b/web/wasm/src/lib.rs
index d8f6467..635d250 100644
--- a/web/wasm/src/lib.rs
+++ b/web/wasm/src/lib.rs
@@ -651,7 +651,8 @@ fn make_split_indices(n_rows: usize, validation_fraction: f64, seed: u64) -> Was
     }
 
     let vf = validation_fraction.clamp(0.0, 0.9);
-    let n_val = ((vf * (n_rows as f64)).round() as usize).min(n_rows);
+    // Always leave something to train on.
+    let n_val = ((vf * (n_rows as f64)).round() as usize).min(n_rows - 1);
     if n_val == 0 {
         return WasmSplitIndices {
             train: (0..n_rows).collect(),
-- 
2.43.0


From cf6310fea12da257afdd8243ed482ac03bcf2945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 17/39] fix: the unweighted correlation centres the targets on
 their unweighted mean

---
 web/wasm/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/web/wasm/src/lib.rs b/web/wasm/src/lib.rs
index 635d250..1f577bb 100644
--- a/web/wasm/src/lib.rs
+++ b/web/wasm/src/lib.rs
@@ -507,6 +507,7 @@ fn r2_and_corr(yhat: &[f64], y: &[f64], w: Option<&[f64]>) -> (f64, f64) {
     let r2 = if sst == 0.0 { 0.0 } else { 1.0 - (sse / sst) };
 
     // Unweighted Pearson correlation.
+    let y_mean = y.iter().sum::<f64>() / (y.len() as f64);
     let yh_mean = yhat.iter().sum::<f64>() / (yhat.len() as f64);
     let mut cov = 0.0;
     let mut vy = 0.0;
-- 
2.43.0


From 1f19c28d7a16c76366ff61adfcfa6a2179f0899d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 18/39] hooks: access to the wasm crate's helpers behind
 cfg(sr_verif)

---
 web/wasm/src/lib.rs | 63 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 63 insertions(+)

diff --git a/web/wasm/src/lib.rs b/web/wasm/src/lib.rs
index 1f577bb..34cd876 100644
--- a/web/wasm/src/lib.rs
+++ b/web/wasm/src/lib.rs
@@ -1,3 +1,6 @@
+// `sr_verif` is set by verification harnesses only; see the module of that name.
+#![allow(unexpected_cfgs)]
+
 use std::io::Cursor;
 
 use csv::ReaderBuilder;
@@ -717,6 +720,66 @@ fn select_rows(
     Ok((xo, yo, wo))
 }
 
+/// Access for the model-checking harnesses (built only with `--cfg sr_verif`). Nothing here adds behaviour.
+#[cfg(sr_verif)]
+pub mod verif {
+    pub use super::{Array1, Dataset, Operators, Options, SearchEngine};
+    use super::*;
+
+    pub type Engine = SearchEngine<f64, BuiltinOpsF64, 3>;
+    pub type Member = symbolic_regression::PopMember<f64, BuiltinOpsF64, 3>;
+
+    pub fn parse_csv_to_rows(csv_text: &str, has_headers: bool) -> Result<(Vec<String>, Vec<Vec<f64>>), String> {
+        super::parse_csv_to_rows(csv_text, has_headers)
+    }
+
+    #[allow(clippy::type_complexity)]
+    pub fn build_full_dataset(
+        headers: &[String],
+        rows: &[Vec<f64>],
+        opts: &WasmSearchOptions,
+    ) -> Result<(Dataset<f64>, Vec<String>, Option<Array1<f64>>), String> {
+        super::build_full_dataset(headers, rows, opts)
+    }
+
+    pub fn make_split_indices(n_rows: usize, validation_fraction: f64, seed: u64) -> WasmSplitIndices {
+        super::make_split_indices(n_rows, validation_fraction, seed)
+    }
+
+    pub fn split_train_val(
+        dataset_all: &Dataset<f64>,
+        weights_all: Option<&Array1<f64>>,
+        variable_names: &[String],
+        split: &WasmSplitIndices,
+    ) -> Result<(Dataset<f64>, Option<Dataset<f64>>), String> {
+        super::split_train_val(dataset_all, weights_all, variable_names, split)
+    }
+
+    pub fn compute_metrics(yhat: &[f64], dataset: &Dataset<f64>) -> WasmMetrics {
+        super::compute_metrics(yhat, dataset)
+    }
+
+    pub fn options_from_wasm(opts: &WasmSearchOptions, operators: Operators<3>) -> Option<Options<f64, 3>> {
+        super::options_from_wasm(opts, operators).ok()
+    }
+
+    pub fn snapshot(engine: &Engine, pareto_k: usize) -> SearchSnapshot {
+        super::snapshot(engine, pareto_k)
+    }
+
+    pub fn summary_from_member(engine: &Engine, m: &Member) -> EquationSummary {
+        super::summary_from_member(engine, m)
+    }
+
+    pub fn find_member_by_id(engine: &Engine, member_id: u64) -> Option<Member> {
+        super::find_member_by_id(engine, member_id)
+    }
+
+    pub fn eval_member_on_dataset(dataset: &Dataset<f64>, m: &Member) -> Option<Vec<f64>> {
+        super::eval_member_on_dataset(dataset, m).ok()
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::WasmSearchOptions;
-- 
2.43.0


From 9b9950f799e0ff9bd3640d0334caa5ad8eab0e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 19/39] fix: sr_ops! expands to a builder method that exists

---
 symbolic_regression/src/operators.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/symbolic_regression/src/operators.rs b/symbolic_regression/src/operators.rs
index d33558a..d7674c2 100644
--- a/symbolic_regression/src/operators.rs
+++ b/symbolic_regression/src/operators.rs
@@ -312,6 +312,20 @@ impl<Ops, const D: usize> OperatorsBuilder<Ops, D> {
         self.push_op::<Op>()
     }
 
+    pub fn nary<const ARITY: usize, Op>(self) -> Self
+    where
+        Ops: HasOp<Op> + OperatorSet,
+        Op: dynamic_expressions::OpTag,
+    {
+        let op = <Ops as HasOp<Op>>::op_id();
+        assert_eq!(
+            op.arity as usize, ARITY,
+            "nary() requires arity={ARITY} (got {})",
+            op.arity
+        );
+        self.push_op::<Op>()
+    }
+
     fn push_op<Op>(mut self) -> Self
     where
         Ops: HasOp<Op> + OperatorSet,
-- 
2.43.0


From 2e1e8753546ecbee4af1fc3855b369053c1fd1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 20/39] fix: an index of weight zero is never drawn when
 rounding exhausts the weights

---
 symbolic_regression/src/selection.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/selection.rs b/symbolic_regression/src/selection.rs
index 4206532..d822289 100644
--- a/symbolic_regression/src/selection.rs
+++ b/symbolic_regression/src/selection.rs
@@ -89,7 +89,11 @@ pub(crate) fn weighted_index(rng: &mut Rng, weights: &[f64]) -> usize {
         }
         target -= w;
     }
-    weights.len() - 1
+    // Rounding used up every weight: the draw belongs to the last index that can be drawn at all.
+    weights
+        .iter()
+        .rposition(|&w| w > 0.0)
+        .expect("at least one weight is > 0")
 }
 
 fn sample_indices(rng: &mut Rng, len: usize, n: usize) -> Vec<usize> {
-- 
2.43.0


From d76c30ef601ed05a8e67f33edb459e4935a6e51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 21/39] fix: the optimisers keep the best point they reached
 when a line search fails or the budget ends

---
 symbolic_regression/src/optim.rs | 51 +++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/symbolic_regression/src/optim.rs b/symbolic_regression/src/optim.rs
index 79ee624..6cea00e 100644
--- a/symbolic_regression/src/optim.rs
+++ b/symbolic_regression/src/optim.rs
@@ -298,7 +298,8 @@ pub(crate) fn bfgs_minimize(
             if v.is_finite() { Some(v) } else { None }
         };
 
-        let (_alpha, _) = backtracking_linesearch(
+        // A failed line search ends the minimization; what was reached so far is kept.
+        let step = backtracking_linesearch(
             &ls,
             LineSearchInput {
                 x: &x,
@@ -309,15 +310,21 @@ pub(crate) fn bfgs_minimize(
             },
             &mut x_ls,
             &mut phi_at,
-        )?;
+        );
+        if step.is_none() {
+            break;
+        }
 
         x_prev.copy_from_slice(&x);
         g_prev.copy_from_slice(&g);
         x.copy_from_slice(&x_ls);
 
-        fx = obj.fg(&x, &mut g, &mut budget)?;
-        if !fx.is_finite() {
-            break;
+        match obj.fg(&x, &mut g, &mut budget) {
+            Some(f) if f.is_finite() => fx = f,
+            _ => {
+                x.copy_from_slice(&x_prev);
+                break;
+            }
         }
 
         // BFGS update (inverse Hessian):
@@ -384,11 +391,11 @@ pub(crate) fn newton_1d_minimize(
             break;
         }
         let x_vec = [x];
-        let f = obj.fg(&x_vec, &mut g_tmp, &mut budget)?;
+        let f = match obj.fg(&x_vec, &mut g_tmp, &mut budget) {
+            Some(f) if f.is_finite() && g_tmp[0].is_finite() => f,
+            _ => break,
+        };
         let g = g_tmp[0];
-        if !f.is_finite() || !g.is_finite() {
-            return None;
-        }
         if f < best_f {
             best_f = f;
             best_x = x;
@@ -401,9 +408,13 @@ pub(crate) fn newton_1d_minimize(
         let eps = f64::EPSILON.sqrt() * (x.abs() + 1.0);
         let x_plus = [x + eps];
         let x_minus = [x - eps];
-        let _ = obj.fg(&x_plus, &mut g_tmp, &mut budget)?;
+        if obj.fg(&x_plus, &mut g_tmp, &mut budget).is_none() {
+            break;
+        }
         let g_plus = g_tmp[0];
-        let _ = obj.fg(&x_minus, &mut g_tmp, &mut budget)?;
+        if obj.fg(&x_minus, &mut g_tmp, &mut budget).is_none() {
+            break;
+        }
         let g_minus = g_tmp[0];
         let h = (g_plus - g_minus) / (2.0 * eps);
         let mut h_mod = h.abs().max(1e-12);
@@ -433,7 +444,8 @@ pub(crate) fn newton_1d_minimize(
         let x_vec = [x];
         let s_vec = [s];
         let mut x_new = [x];
-        let (alpha, _) = backtracking_linesearch(
+        // A failed line search ends the minimization; what was reached so far is kept.
+        let step = backtracking_linesearch(
             &ls,
             LineSearchInput {
                 x: &x_vec,
@@ -444,8 +456,19 @@ pub(crate) fn newton_1d_minimize(
             },
             &mut x_new,
             &mut phi_at,
-        )?;
-        x += alpha * s;
+        );
+        let Some((_alpha, phi)) = step else {
+            break;
+        };
+        x = x_new[0];
+        if phi < best_f {
+            best_f = phi;
+            best_x = x;
+        }
+    }
+
+    if !best_f.is_finite() {
+        return None;
     }
 
     Some(OptimResult {
-- 
2.43.0


From 261f52ca443d982e4abfd7ab8439f5b0c6ce0148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 22/39] hooks: the wasm module needs no re-exports

---
 web/wasm/src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/web/wasm/src/lib.rs b/web/wasm/src/lib.rs
index 34cd876..f125227 100644
--- a/web/wasm/src/lib.rs
+++ b/web/wasm/src/lib.rs
@@ -723,7 +723,6 @@ fn select_rows(
 /// Access for the model-checking harnesses (built only with `--cfg sr_verif`). Nothing here adds behaviour.
 #[cfg(sr_verif)]
 pub mod verif {
-    pub use super::{Array1, Dataset, Operators, Options, SearchEngine};
     use super::*;
 
     pub type Engine = SearchEngine<f64, BuiltinOpsF64, 3>;
-- 
2.43.0


From 38cff34d9aa03623d959fd4d7a79e74466c534b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:18 +0000
Subject: [PATCH 23/39] fix: web worker: one run loop at a time, that reports
 its end exactly once

Pausing a search answered twice (by the handler and by the loop), so a pause
that crossed the end of the search turned 'done' into 'paused', a pause followed
by a start showed 'paused' for a running search, and a start before the old
loop noticed the pause left two loops stepping the search. An exception while
stepping was lost and left the search 'running' for ever. A failing
initialization kept the previous search.
---
 web/ui/src/worker/srWorker.ts | 72 +++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 32 deletions(-)

diff --git a/web/ui/src/worker/srWorker.ts b/web/ui/src/worker/srWorker.ts
index 2c8dda4..7cf8245 100644
--- a/web/ui/src/worker/srWorker.ts
+++ b/web/ui/src/worker/srWorker.ts
@@ -5,6 +5,8 @@ import type { WorkerFromWorkerMsg, WorkerToWorkerMsg } from "./protocol";
 
 let search: WasmSearch | null = null;
 let running = false;
+// Identifies the loop that may step the search: stopping it (or starting another one) changes the number.
+let loopId = 0;
 
 const SNAPSHOT_INTERVAL_MS = 200;
 const FRONT_INTERVAL_MS = 250;
@@ -20,50 +22,54 @@ async function sleep0(): Promise<void> {
   await new Promise((r) => setTimeout(r, 0));
 }
 
-async function runLoop(): Promise<void> {
-  if (!search) {
-    post({ type: "error", error: "search not initialized" });
-    return;
-  }
+function stopLoop(): void {
+  running = false;
+  loopId += 1;
+}
 
+async function runLoop(s: WasmSearch): Promise<void> {
+  stopLoop();
   running = true;
+  const id = loopId;
   let lastSnap = 0;
   let lastFront = 0;
 
-  while (running && !search.is_finished()) {
-    search.step(STEP_CYCLES);
+  try {
+    while (!s.is_finished()) {
+      s.step(STEP_CYCLES);
+
+      const now = performance.now();
+      if (now - lastSnap >= SNAPSHOT_INTERVAL_MS) {
+        const snap = s.step(0);
+        post({ type: "snapshot", snap });
+        lastSnap = now;
+      }
+      if (now - lastFront >= FRONT_INTERVAL_MS) {
+        const front = s.best_equations(FRONT_K);
+        post({ type: "front_update", front });
+        lastFront = now;
+      }
 
-    const now = performance.now();
-    if (now - lastSnap >= SNAPSHOT_INTERVAL_MS) {
-      const snap = search.step(0);
-      post({ type: "snapshot", snap });
-      lastSnap = now;
-    }
-    if (now - lastFront >= FRONT_INTERVAL_MS) {
-      const front = search.best_equations(FRONT_K);
-      post({ type: "front_update", front });
-      lastFront = now;
+      await sleep0();
+      // Paused, reset or initialized again meanwhile: whoever did it has posted what there is to say.
+      if (id !== loopId) return;
     }
 
-    await sleep0();
-  }
-
-  if (!running) {
-    post({ type: "paused" });
-    return;
+    post({ type: "snapshot", snap: s.step(0) });
+    post({ type: "front_update", front: s.best_equations(FRONT_K) });
+    post({ type: "done" });
+  } catch (err) {
+    post({ type: "error", error: String(err) });
   }
-
-  post({ type: "snapshot", snap: search.step(0) });
-  post({ type: "front_update", front: search.best_equations(FRONT_K) });
-  post({ type: "done" });
-  running = false;
+  stopLoop();
 }
 
 self.onmessage = async (e: MessageEvent<WorkerToWorkerMsg>) => {
   const msg = e.data;
   try {
     if (msg.type === "init") {
-      running = false;
+      stopLoop();
+      search = null;
       const wasmExports = await init();
       const sharedArrayBufferAvailable = typeof SharedArrayBuffer !== "undefined";
       const hasSharedMemory = sharedArrayBufferAvailable && wasmExports?.memory?.buffer instanceof SharedArrayBuffer;
@@ -87,14 +93,16 @@ self.onmessage = async (e: MessageEvent<WorkerToWorkerMsg>) => {
     }
 
     if (msg.type === "reset") {
-      running = false;
+      stopLoop();
       search = null;
       post({ type: "reset_done" });
       return;
     }
 
     if (msg.type === "pause") {
-      running = false;
+      // The search may have finished (or failed) while the message was on its way.
+      if (!running) return;
+      stopLoop();
       post({ type: "paused" });
       return;
     }
@@ -126,7 +134,7 @@ self.onmessage = async (e: MessageEvent<WorkerToWorkerMsg>) => {
         return;
       }
       if (!running) {
-        void runLoop();
+        void runLoop(search);
       }
       return;
     }
-- 
2.43.0


From d83f326cc9a4ad4fa9bad81ca03bdafaa393367d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:37 +0000
Subject: [PATCH 24/39] fix: web: nothing of a replaced or reset search reaches
 the run pane

Messages the worker had posted before it saw an Initialize or a Reset were shown
as if they belonged to the new search (solutions, progress, 'done', 'paused'
after a reset), and while the wasm module was loading an Initialize followed by
a Reset or another Initialize created the abandoned search anyway. Every
message now carries the number of the init or reset it follows.
---
 .../searchSolutions/useSearchController.ts    | 52 +++++++++----------
 web/ui/src/worker/protocol.ts                 |  9 +++-
 web/ui/src/worker/srWorker.ts                 | 12 ++++-
 web/ui/src/worker/srWorkerClient.ts           |  9 +++-
 4 files changed, 50 insertions(+), 32 deletions(-)

diff --git a/web/ui/src/app/panes/searchSolutions/useSearchController.ts b/web/ui/src/app/panes/searchSolutions/useSearchController.ts
index 565829e..a620c35 100644
--- a/web/ui/src/app/panes/searchSolutions/useSearchController.ts
+++ b/web/ui/src/app/panes/searchSolutions/useSearchController.ts
@@ -53,6 +53,18 @@ function gatherPairsByIndices(x: number[], y: number[], idx: number[]): { x: num
   return { x: xo, y: yo };
 }
 
+// What the run pane knows when there is no search (any more).
+const NO_SEARCH = {
+  error: null,
+  split: null,
+  snapshot: null,
+  evalsPerSecond: null,
+  front: [],
+  selectedId: null,
+  selectedComplexity: null,
+  evalByKey: {}
+};
+
 export function useSearchController(Client: { new (): SrWorkerClientLike }) {
   const parsed = useSessionStore((s) => s.parsed);
   const options = useSessionStore((s) => s.options);
@@ -146,18 +158,7 @@ export function useSearchController(Client: { new (): SrWorkerClientLike }) {
       },
       onDone: () => setRuntime({ status: "done" }),
       onPaused: () => setRuntime({ status: "paused" }),
-      onResetDone: () =>
-        setRuntime({
-          status: "idle",
-          split: null,
-          snapshot: null,
-          evalsPerSecond: null,
-          front: [],
-          selectedId: null,
-          selectedComplexity: null,
-          evalByKey: {},
-          error: null
-        }),
+      onResetDone: () => setRuntime({ status: "idle", ...NO_SEARCH }),
       onError: (err) => {
         // A common non-fatal case: we asked to evaluate an equation ID that has
         // just fallen out of the worker's internal cache between front updates.
@@ -171,22 +172,16 @@ export function useSearchController(Client: { new (): SrWorkerClientLike }) {
 
   const canInit = Boolean(options) && unaryOps.length + binaryOps.length + ternaryOps.length > 0;
 
-  const initSearch = () => {
-    if (!clientRef.current || !options) return;
-    setRuntime({
-      status: "initializing",
-      error: null,
-      split: null,
-      snapshot: null,
-      evalsPerSecond: null,
-      front: [],
-      selectedId: null,
-      selectedComplexity: null,
-      evalByKey: {}
-    });
+  const forgetRate = () => {
     lastSnapTimeRef.current = null;
     lastEvalsRef.current = null;
     cpsEmaRef.current = null;
+  };
+
+  const initSearch = () => {
+    if (!clientRef.current || !options) return;
+    setRuntime({ status: "initializing", ...NO_SEARCH });
+    forgetRate();
     clientRef.current.init({
       csvText,
       options,
@@ -201,7 +196,12 @@ export function useSearchController(Client: { new (): SrWorkerClientLike }) {
     setRuntime({ status: "running" });
   };
   const pause = () => clientRef.current?.pause();
-  const reset = () => clientRef.current?.reset();
+  const reset = () => {
+    if (!clientRef.current) return;
+    setRuntime({ status: "idle", ...NO_SEARCH });
+    forgetRate();
+    clientRef.current.reset();
+  };
 
   const selectEquation = (sel: { id: string; complexity: number }, opts?: { updateRequestedComplexity?: boolean }) => {
     const updateRequestedComplexity = opts?.updateRequestedComplexity ?? true;
diff --git a/web/ui/src/worker/protocol.ts b/web/ui/src/worker/protocol.ts
index 2ed71b8..5a7ca56 100644
--- a/web/ui/src/worker/protocol.ts
+++ b/web/ui/src/worker/protocol.ts
@@ -1,7 +1,10 @@
 import type { SearchSnapshot, EquationSummary, WasmEvalResult, WasmSearchOptions, WasmSplitIndices } from "../types/srTypes";
 
+// `epoch` numbers the searches: every init and every reset starts a new one, and all that the worker
+// posts carries the epoch it belongs to.
 export type WorkerInitMsg = {
   type: "init";
+  epoch: number;
   csvText: string;
   options: WasmSearchOptions;
   unary: string[];
@@ -11,7 +14,7 @@ export type WorkerInitMsg = {
 
 export type WorkerStartMsg = { type: "start" };
 export type WorkerPauseMsg = { type: "pause" };
-export type WorkerResetMsg = { type: "reset" };
+export type WorkerResetMsg = { type: "reset"; epoch: number };
 export type WorkerStepMsg = { type: "step"; cycles: number };
 export type WorkerEvaluateMsg = {
   type: "evaluate";
@@ -37,7 +40,7 @@ export type WorkerPausedMsg = { type: "paused" };
 export type WorkerResetDoneMsg = { type: "reset_done" };
 export type WorkerErrorMsg = { type: "error"; error: string };
 
-export type WorkerFromWorkerMsg =
+export type WorkerFromWorkerBody =
   | WorkerReadyMsg
   | WorkerSnapshotMsg
   | WorkerFrontUpdateMsg
@@ -46,3 +49,5 @@ export type WorkerFromWorkerMsg =
   | WorkerPausedMsg
   | WorkerResetDoneMsg
   | WorkerErrorMsg;
+
+export type WorkerFromWorkerMsg = WorkerFromWorkerBody & { epoch: number };
diff --git a/web/ui/src/worker/srWorker.ts b/web/ui/src/worker/srWorker.ts
index 7cf8245..46757d1 100644
--- a/web/ui/src/worker/srWorker.ts
+++ b/web/ui/src/worker/srWorker.ts
@@ -1,9 +1,11 @@
 /// <reference lib="webworker" />
 
 import init, { init_thread_pool, WasmSearch } from "../pkg/symbolic_regression_wasm.js";
-import type { WorkerFromWorkerMsg, WorkerToWorkerMsg } from "./protocol";
+import type { WorkerFromWorkerBody, WorkerFromWorkerMsg, WorkerToWorkerMsg } from "./protocol";
 
 let search: WasmSearch | null = null;
+// Number of the latest init or reset, see protocol.ts.
+let epoch = 0;
 let running = false;
 // Identifies the loop that may step the search: stopping it (or starting another one) changes the number.
 let loopId = 0;
@@ -14,7 +16,8 @@ const STEP_CYCLES = 10;
 const PARETO_K = 10_000;
 const FRONT_K = 10_000;
 
-function post(msg: WorkerFromWorkerMsg): void {
+function post(body: WorkerFromWorkerBody): void {
+  const msg: WorkerFromWorkerMsg = { ...body, epoch };
   self.postMessage(msg);
 }
 
@@ -70,6 +73,7 @@ self.onmessage = async (e: MessageEvent<WorkerToWorkerMsg>) => {
     if (msg.type === "init") {
       stopLoop();
       search = null;
+      epoch = msg.epoch;
       const wasmExports = await init();
       const sharedArrayBufferAvailable = typeof SharedArrayBuffer !== "undefined";
       const hasSharedMemory = sharedArrayBufferAvailable && wasmExports?.memory?.buffer instanceof SharedArrayBuffer;
@@ -85,6 +89,8 @@ self.onmessage = async (e: MessageEvent<WorkerToWorkerMsg>) => {
         // eslint-disable-next-line no-console
         console.warn("SharedArrayBuffer unavailable; running single-threaded.");
       }
+      // Another init or a reset came while the module was loading.
+      if (epoch !== msg.epoch) return;
       search = new WasmSearch(msg.csvText, msg.options as any, msg.unary as any, msg.binary as any, msg.ternary as any);
       search.set_pareto_k(PARETO_K);
       const split = search.get_split_indices();
@@ -94,6 +100,7 @@ self.onmessage = async (e: MessageEvent<WorkerToWorkerMsg>) => {
 
     if (msg.type === "reset") {
       stopLoop();
+      epoch = msg.epoch;
       search = null;
       post({ type: "reset_done" });
       return;
@@ -139,6 +146,7 @@ self.onmessage = async (e: MessageEvent<WorkerToWorkerMsg>) => {
       return;
     }
   } catch (err) {
+    if (msg.type === "init" && epoch !== msg.epoch) return;
     post({ type: "error", error: String(err) });
   }
 };
diff --git a/web/ui/src/worker/srWorkerClient.ts b/web/ui/src/worker/srWorkerClient.ts
index 8473e86..61990f1 100644
--- a/web/ui/src/worker/srWorkerClient.ts
+++ b/web/ui/src/worker/srWorkerClient.ts
@@ -15,11 +15,14 @@ type Handlers = {
 export class SrWorkerClient {
   private worker: Worker;
   private handlers: Handlers = {};
+  private epoch = 0;
 
   constructor() {
     this.worker = new Worker(new URL("./srWorker.ts", import.meta.url), { type: "module" });
     this.worker.onmessage = (e: MessageEvent<WorkerFromWorkerMsg>) => {
       const msg = e.data;
+      // Posted before the worker saw the latest init or reset: it is about a search that is gone.
+      if (msg.epoch !== this.epoch) return;
       if (msg.type === "ready") this.handlers.onReady?.(msg.split);
       else if (msg.type === "snapshot") this.handlers.onSnapshot?.(msg.snap);
       else if (msg.type === "front_update") this.handlers.onFrontUpdate?.(msg.front);
@@ -50,7 +53,8 @@ export class SrWorkerClient {
     binary: string[];
     ternary: string[];
   }): void {
-    this.post({ type: "init", ...args });
+    this.epoch += 1;
+    this.post({ type: "init", epoch: this.epoch, ...args });
   }
 
   start(): void {
@@ -62,7 +66,8 @@ export class SrWorkerClient {
   }
 
   reset(): void {
-    this.post({ type: "reset" });
+    this.epoch += 1;
+    this.post({ type: "reset", epoch: this.epoch });
   }
 
   step(cycles: number): void {
-- 
2.43.0


From 6df33c1886ed069187461aaa42c7112651a8e8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:08 +0000
Subject: [PATCH 25/39] fix: web: leaving the run tab no longer kills the
 search

The worker was terminated when the run pane was unmounted, while the session
kept saying 'running' or 'ready'; coming back, no button could revive it.
---
 .../panes/searchSolutions/useSearchController.ts   | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/web/ui/src/app/panes/searchSolutions/useSearchController.ts b/web/ui/src/app/panes/searchSolutions/useSearchController.ts
index a620c35..c8f15f0 100644
--- a/web/ui/src/app/panes/searchSolutions/useSearchController.ts
+++ b/web/ui/src/app/panes/searchSolutions/useSearchController.ts
@@ -53,6 +53,17 @@ function gatherPairsByIndices(x: number[], y: number[], idx: number[]): { x: num
   return { x: xo, y: yo };
 }
 
+// The worker and its search outlive the run pane: switching to another tab and back must not end a search.
+let shared: { Client: unknown; client: SrWorkerClientLike } | null = null;
+
+function sharedClient(Client: { new (): SrWorkerClientLike }): SrWorkerClientLike {
+  if (shared?.Client !== Client) {
+    shared?.client.terminate();
+    shared = { Client, client: new Client() };
+  }
+  return shared.client;
+}
+
 // What the run pane knows when there is no search (any more).
 const NO_SEARCH = {
   error: null,
@@ -116,7 +127,7 @@ export function useSearchController(Client: { new (): SrWorkerClientLike }) {
   }, [parsed, options, csvText, runtime.status, ensureParsedForRuntime]);
 
   useEffect(() => {
-    const c = new Client();
+    const c = sharedClient(Client);
     clientRef.current = c;
     c.setHandlers({
       onReady: (splitMaybe) => {
@@ -167,7 +178,6 @@ export function useSearchController(Client: { new (): SrWorkerClientLike }) {
         setRuntime({ status: "error", error: err });
       }
     });
-    return () => c.terminate();
   }, [Client, setEvalResult, setFront, setRuntime, setSnapshot]);
 
   const canInit = Boolean(options) && unaryOps.length + binaryOps.length + ternaryOps.length > 0;
-- 
2.43.0


From f8c1765f174acc0ce8ff05705c78a0bef4956bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:12 +0000
Subject: [PATCH 26/39] fix: web: column choices made for another table do not
 survive into one that lacks them

After a smaller CSV was loaded the y, weights and X columns kept pointing at
columns it does not have; the pickers showed nothing and the search failed.
---
 web/ui/src/state/sessionStore.ts | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/web/ui/src/state/sessionStore.ts b/web/ui/src/state/sessionStore.ts
index 1d32ad7..f37b9ad 100644
--- a/web/ui/src/state/sessionStore.ts
+++ b/web/ui/src/state/sessionStore.ts
@@ -192,12 +192,17 @@ export const useSessionStore = create<SessionState>((set, get) => ({
     const { headers, rows } = parsedRes.parsed;
     const nCols = rows[0]?.length ?? 0;
 
-    // Defaults: y is last col, X is all others.
-    const y = options.y_column ?? (nCols - 1);
-    const weights = options.weights_column ?? null;
+    // Defaults: y is last col, X is all others. Choices made for another table that this one cannot
+    // satisfy fall back to them.
+    const inTable = (c: number | null | undefined): c is number => c != null && c < nCols;
+    const y = inTable(options.y_column) ? options.y_column : nCols - 1;
+    const weights = inTable(options.weights_column) && options.weights_column !== y ? options.weights_column : null;
+    const usable = (c: number) => c < nCols && c !== y && c !== weights;
+    const chosen = options.x_columns?.filter(usable);
     const x =
-      options.x_columns ??
-      Array.from({ length: nCols }, (_, i) => i).filter((i) => i !== y && i !== weights);
+      chosen && (chosen.length > 0 || options.x_columns?.length === 0)
+        ? chosen
+        : Array.from({ length: nCols }, (_, i) => i).filter(usable);
 
     set({
       parsed: parsedRes.parsed,
-- 
2.43.0


From fa82897e80cf3a9d8b8a766c3281125ff4314bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:12 +0000
Subject: [PATCH 27/39] fix: web: a CSV that does not parse leaves the running
 search alone

Parsing another table while a search was running turned its status to 'error',
after which it could neither be paused nor resumed.
---
 web/ui/src/state/sessionStore.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/web/ui/src/state/sessionStore.ts b/web/ui/src/state/sessionStore.ts
index f37b9ad..a483c74 100644
--- a/web/ui/src/state/sessionStore.ts
+++ b/web/ui/src/state/sessionStore.ts
@@ -113,6 +113,12 @@ function parseCsvText(args: { csvText: string; hasHeaders: boolean }): { ok: tru
   return { ok: true, parsed: { headers, rows } };
 }
 
+// The table on the data tab is not the one a search that exists already works on: its status stays.
+function withParseError(runtime: SearchRuntime, error: string): SearchRuntime {
+  const status = runtime.status === "idle" ? "error" : runtime.status;
+  return { ...runtime, status, error };
+}
+
 export const useSessionStore = create<SessionState>((set, get) => ({
   tab: "data",
 
@@ -186,7 +192,7 @@ export const useSessionStore = create<SessionState>((set, get) => ({
 
     const parsedRes = parseCsvText({ csvText, hasHeaders: Boolean(options.has_headers) });
     if (!parsedRes.ok) {
-      set((s) => ({ runtime: { ...s.runtime, status: "error", error: parsedRes.error } }));
+      set((s) => ({ runtime: withParseError(s.runtime, parsedRes.error) }));
       return;
     }
     const { headers, rows } = parsedRes.parsed;
@@ -221,7 +227,7 @@ export const useSessionStore = create<SessionState>((set, get) => ({
     if (!options) return false;
     const parsedRes = parseCsvText({ csvText, hasHeaders: Boolean(options.has_headers) });
     if (!parsedRes.ok) {
-      set((s) => ({ runtime: { ...s.runtime, status: "error", error: parsedRes.error } }));
+      set((s) => ({ runtime: withParseError(s.runtime, parsedRes.error) }));
       return false;
     }
     set({ parsed: parsedRes.parsed });
-- 
2.43.0


From 05929c076b34fc3981390f32e6a0b03781704f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:12 +0000
Subject: [PATCH 28/39] fix: web: the preview and the plots belong to the data
 they claim to show

Editing the CSV text (or the header switch) kept the previous table in the
preview, and the fit plots of a search paired its predictions with whatever
table and columns were chosen by now instead of the data the search was
initialized with.
---
 .../searchSolutions/useSearchController.ts    | 26 +++++++++++--------
 web/ui/src/state/sessionStore.ts              | 13 ++++++++--
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/web/ui/src/app/panes/searchSolutions/useSearchController.ts b/web/ui/src/app/panes/searchSolutions/useSearchController.ts
index c8f15f0..bfab1ae 100644
--- a/web/ui/src/app/panes/searchSolutions/useSearchController.ts
+++ b/web/ui/src/app/panes/searchSolutions/useSearchController.ts
@@ -67,6 +67,7 @@ function sharedClient(Client: { new (): SrWorkerClientLike }): SrWorkerClientLik
 // What the run pane knows when there is no search (any more).
 const NO_SEARCH = {
   error: null,
+  dataset: null,
   split: null,
   snapshot: null,
   evalsPerSecond: null,
@@ -102,13 +103,14 @@ export function useSearchController(Client: { new (): SrWorkerClientLike }) {
   const best = snap?.best ?? null;
   const selectedSummary = getSelectedSummary(runtime.front, best, runtime.selectedId);
 
-  const yCol = options?.y_column ?? (parsed ? parsed.headers.length - 1 : 0);
-  const yAll = useMemo(() => (parsed ? buildYArray(parsed.rows, yCol) : []), [parsed, yCol]);
-  const xSelectedCol = options?.x_columns && options.x_columns.length > 0 ? options.x_columns[0] : null;
-  const xAll = useMemo(
-    () => (parsed && xSelectedCol != null ? buildXArray(parsed.rows, xSelectedCol) : []),
-    [parsed, xSelectedCol]
-  );
+  // The plots are about the data the search was initialized with, whatever is on the data tab by now.
+  const dataset = runtime.dataset === undefined ? { parsed, options } : runtime.dataset;
+  const rows = dataset?.parsed?.rows ?? null;
+  const yCol = dataset?.options?.y_column ?? (rows ? rows[0].length - 1 : 0);
+  const yAll = useMemo(() => (rows ? buildYArray(rows, yCol) : []), [rows, yCol]);
+  const xCols = dataset?.options?.x_columns ?? null;
+  const xSelectedCol = xCols && xCols.length > 0 ? xCols[0] : null;
+  const xAll = useMemo(() => (rows && xSelectedCol != null ? buildXArray(rows, xSelectedCol) : []), [rows, xSelectedCol]);
   const split = runtime.split;
   // This is the *requested* complexity (what the user clicked). The displayed equation may
   // temporarily fall back to a lower complexity if the requested one is not currently
@@ -119,12 +121,12 @@ export function useSearchController(Client: { new (): SrWorkerClientLike }) {
   const evalVal = runtime.selectedId != null ? runtime.evalByKey[`${runtime.selectedId}:val`] : undefined;
 
   useEffect(() => {
-    if (parsed) return;
+    if (parsed || runtime.dataset !== undefined) return;
     if (!options) return;
     if (!csvText.trim()) return;
     if (runtime.status === "idle" || runtime.status === "initializing" || runtime.status === "error") return;
     ensureParsedForRuntime();
-  }, [parsed, options, csvText, runtime.status, ensureParsedForRuntime]);
+  }, [parsed, options, csvText, runtime.dataset, runtime.status, ensureParsedForRuntime]);
 
   useEffect(() => {
     const c = sharedClient(Client);
@@ -190,7 +192,9 @@ export function useSearchController(Client: { new (): SrWorkerClientLike }) {
 
   const initSearch = () => {
     if (!clientRef.current || !options) return;
-    setRuntime({ status: "initializing", ...NO_SEARCH });
+    ensureParsedForRuntime();
+    const { parsed: table } = useSessionStore.getState();
+    setRuntime({ status: "initializing", ...NO_SEARCH, dataset: table ? { parsed: table, options } : null });
     forgetRate();
     clientRef.current.init({
       csvText,
@@ -265,7 +269,7 @@ export function useSearchController(Client: { new (): SrWorkerClientLike }) {
   const trainYhat = evalTrain?.yhat ?? [];
   const valYhat = evalVal?.yhat ?? [];
 
-  const canCurve1d = Boolean(options?.x_columns && options.x_columns.length === 1 && parsed);
+  const canCurve1d = Boolean(xCols && xCols.length === 1 && rows);
   const effectiveFitMode: FitPlotMode = canCurve1d ? "curve_1d" : "parity";
 
   const trainXY = useMemo(() => {
diff --git a/web/ui/src/state/sessionStore.ts b/web/ui/src/state/sessionStore.ts
index a483c74..daf982b 100644
--- a/web/ui/src/state/sessionStore.ts
+++ b/web/ui/src/state/sessionStore.ts
@@ -23,9 +23,16 @@ type ParsedDataset = {
   rows: number[][];
 };
 
+export type SearchDataset = {
+  parsed: ParsedDataset;
+  options: WasmSearchOptions;
+};
+
 type SearchRuntime = {
   status: "idle" | "initializing" | "ready" | "running" | "paused" | "done" | "error";
   error: string | null;
+  // The table and the columns the current search was initialized with.
+  dataset?: SearchDataset | null;
   split: WasmSplitIndices | null;
   snapshot: SearchSnapshot | null;
   evalsPerSecond: number | null;
@@ -184,7 +191,8 @@ export const useSessionStore = create<SessionState>((set, get) => ({
     }
   },
 
-  setCsvText: (csvText) => set({ csvText }),
+  // A preview of another text would misrepresent what a search is going to use.
+  setCsvText: (csvText) => set((s) => (s.csvText === csvText ? {} : { csvText, parsed: null })),
 
   parseCsv: () => {
     const { csvText, options } = get();
@@ -236,7 +244,8 @@ export const useSessionStore = create<SessionState>((set, get) => ({
 
   setOptionsPatch: (patch) =>
     set((s) => ({
-      options: s.options ? { ...s.options, ...patch } : s.options
+      options: s.options ? { ...s.options, ...patch } : s.options,
+      parsed: patch.has_headers != null && patch.has_headers !== s.options?.has_headers ? null : s.parsed
     })),
 
   toggleOp: (arity, name) =>
-- 
2.43.0


From 7c1499268750e83e98cd2f35e2f18a7ba5ebe5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:12 +0000
Subject: [PATCH 29/39] fix: web: standard deviation of columns with a small
 spread

E[x^2] - mu^2 is negative or far off by rounding for (nearly) constant columns:
the summary showed NaN.
---
 web/ui/src/app/panes/EnterData.tsx | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/web/ui/src/app/panes/EnterData.tsx b/web/ui/src/app/panes/EnterData.tsx
index 79dec2c..484dc81 100644
--- a/web/ui/src/app/panes/EnterData.tsx
+++ b/web/ui/src/app/panes/EnterData.tsx
@@ -60,7 +60,7 @@ export function EnterData(): React.ReactElement {
     if (!parsed) return [] as { name: string; mean: number; std: number; min: number; max: number }[];
     const nCols2 = headers.length;
     const sum = Array.from({ length: nCols2 }, () => 0);
-    const sumsq = Array.from({ length: nCols2 }, () => 0);
+    const sumsqDev = Array.from({ length: nCols2 }, () => 0);
     const min = Array.from({ length: nCols2 }, () => Infinity);
     const max = Array.from({ length: nCols2 }, () => -Infinity);
     const count = Array.from({ length: nCols2 }, () => 0);
@@ -70,18 +70,26 @@ export function EnterData(): React.ReactElement {
         const v = r[j];
         if (!Number.isFinite(v)) continue;
         sum[j] += v;
-        sumsq[j] += v * v;
         count[j] += 1;
         if (v < min[j]) min[j] = v;
         if (v > max[j]) max[j] = v;
       }
     }
 
+    // Deviations from the mean: the difference of two large sums would lose (the sign of) a small variance.
+    for (const r of rows) {
+      for (let j = 0; j < nCols2; j++) {
+        const v = r[j];
+        if (!Number.isFinite(v)) continue;
+        const d = v - sum[j] / count[j];
+        sumsqDev[j] += d * d;
+      }
+    }
+
     return headers.map((name, j) => {
       const n = count[j] ?? 0;
       const mu = n > 0 ? sum[j]! / n : NaN;
-      const var0 = n > 0 ? sumsq[j]! / n - mu * mu : NaN;
-      const std = Number.isFinite(var0) && var0 >= 0 ? Math.sqrt(var0) : NaN;
+      const std = n > 0 ? Math.sqrt(sumsqDev[j]! / n) : NaN;
       return { name: name ?? `col_${j}`, mean: mu, std, min: min[j]!, max: max[j]! };
     });
   }, [parsed, headers, rows]);
-- 
2.43.0


From 065a94a8daa4b4c73cdc94e9dca8975c7359f732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:12 +0000
Subject: [PATCH 30/39] fix: web: the trig preset selected cos twice

---
 web/ui/src/state/sessionStore.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/ui/src/state/sessionStore.ts b/web/ui/src/state/sessionStore.ts
index daf982b..b933cb9 100644
--- a/web/ui/src/state/sessionStore.ts
+++ b/web/ui/src/state/sessionStore.ts
@@ -261,7 +261,7 @@ export const useSessionStore = create<SessionState>((set, get) => ({
       // Initial load uses "basic": cos plus +, -, *, /.
       const basicUnary: string[] = ["cos"];
       const basicBinary = ["add", "sub", "mul", "div"];
-      const trigUnary = ["sin", "cos"];
+      const trigUnary = ["sin"]; // cos is among the basic ones
       const explogUnary = ["exp", "log"];
 
       if (preset === "basic") return { unaryOps: basicUnary, binaryOps: basicBinary, ternaryOps: [] };
-- 
2.43.0


From 813290966eceec5c7da82ba1d59e99d05718424b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:45 +0000
Subject: [PATCH 31/39] fix: wasm: a CSV cell that is not a finite number is an
 error

'nan' or 'inf' in a cell went into the dataset, where it makes every loss NaN,
while the page drops such rows, so that the row numbers of the split pointed at
other rows there.
---
 web/wasm/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/web/wasm/src/lib.rs b/web/wasm/src/lib.rs
index f125227..dfc2d48 100644
--- a/web/wasm/src/lib.rs
+++ b/web/wasm/src/lib.rs
@@ -555,6 +555,10 @@ fn parse_csv_to_rows(csv_text: &str, has_headers: bool) -> Result<(Vec<String>,
             let v = s
                 .parse::<f64>()
                 .map_err(|e| format!("failed to parse {s:?} as f64: {e}"))?;
+            // "nan", "inf" and numbers too large for f64 parse as well.
+            if !v.is_finite() {
+                return Err(format!("{s:?} is not a finite number"));
+            }
             row.push(v);
         }
         rows.push(row);
-- 
2.43.0


From b81991cffe0ccaf46cf07c888d9ef4a2ac80961e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:42 +0000
Subject: [PATCH 32/39] hooks: populations, options and progress table

---
 symbolic_regression/src/progress_bars.rs | 16 ++++++++++++++++
 symbolic_regression/src/search_utils.rs  | 12 ++++++++++++
 symbolic_regression/src/verif.rs         | 15 +++++++++++++++
 3 files changed, 43 insertions(+)

diff --git a/symbolic_regression/src/progress_bars.rs b/symbolic_regression/src/progress_bars.rs
index bc64f7b..be62642 100644
--- a/symbolic_regression/src/progress_bars.rs
+++ b/symbolic_regression/src/progress_bars.rs
@@ -308,6 +308,20 @@ mod imp {
         }
     }
 
+    #[cfg(sr_verif)]
+    pub(crate) fn verif_table<T, Ops, const D: usize>(
+        hall: &HallOfFame<T, Ops, D>,
+        terminal_width: usize,
+        max_entries: usize,
+        ansi: bool,
+    ) -> String
+    where
+        T: Float + num_traits::ToPrimitive + Display,
+        Ops: OperatorSet,
+    {
+        format_hall_of_fame(hall, terminal_width, max_entries, RenderOptions { ansi })
+    }
+
     #[cfg(test)]
     mod tests {
         use super::*;
@@ -384,3 +398,5 @@ mod imp {
 }
 
 pub(crate) use imp::SearchProgress;
+#[cfg(all(sr_verif, feature = "progress"))]
+pub(crate) use imp::verif_table;
diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index 97a175d..c02f788 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -692,4 +692,16 @@ impl<T: Float + AddAssign, Ops, const D: usize> SearchEngine<T, Ops, D> {
     pub fn verif_stats(&self) -> &RunningSearchStatistics {
         &self.stats
     }
+
+    /// Members, state of the generator, next id and next birth of every population.
+    pub fn verif_states(&self) -> Vec<(&[PopMember<T, Ops, D>], u64, u64, u64)> {
+        let states = self.pools.pops.iter().flatten();
+        states
+            .map(|s| (&s.pop.members[..], s.rng.get_seed(), s.next_id, s.next_birth))
+            .collect()
+    }
+
+    pub fn verif_options_mut(&mut self) -> &mut Options<T, D> {
+        &mut self.options
+    }
 }
diff --git a/symbolic_regression/src/verif.rs b/symbolic_regression/src/verif.rs
index 45110ec..a9733c3 100644
--- a/symbolic_regression/src/verif.rs
+++ b/symbolic_regression/src/verif.rs
@@ -19,6 +19,21 @@ pub use crate::selection::best_of_sample;
 pub use crate::single_iteration::{IterationCtx, optimize_and_simplify_population, s_r_cycle};
 pub use crate::warmup::get_cur_maxsize;
 
+/// The table shown while a search runs.
+#[cfg(feature = "progress")]
+pub fn progress_table<T, Ops, const D: usize>(
+    hall: &crate::HallOfFame<T, Ops, D>,
+    terminal_width: usize,
+    max_entries: usize,
+    ansi: bool,
+) -> String
+where
+    T: num_traits::Float + std::fmt::Display,
+    Ops: dynamic_expressions::OperatorSet,
+{
+    crate::progress_bars::verif_table(hall, terminal_width, max_entries, ansi)
+}
+
 pub fn poisson_sample(rng: &mut Rng, mean: f64) -> usize {
     crate::random::poisson_sample(rng, mean)
 }
-- 
2.43.0


From a68d8740958cbb8dbff178c803a27892729cfbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:36 +0000
Subject: [PATCH 33/39] fix: a search started outside the Rayon pool does not
 occupy a pool thread

rayon::scope ran the orchestration on one of the pool's threads, where it
blocks waiting for results: with one thread (RAYON_NUM_THREADS=1, or one
core) no task could ever run and the search hung; with n threads only n-1
tasks ran at a time.
---
 symbolic_regression/src/search_utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index c02f788..594743a 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -206,7 +206,8 @@ where
         order_rng,
     };
 
-    rayon::scope(|scope| {
+    // In place: on a worker of the pool, the orchestration would take that worker from the tasks.
+    rayon::in_place_scope(|scope| {
         run_scoped_search(scope, &mut state);
     });
     state.progress.finish();
-- 
2.43.0


From 24b70298ba753194a1769efdce9a48943a951351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:12 +0000
Subject: [PATCH 34/39] hooks: web: the engine and the validation rows of a
 browser search

---
 web/wasm/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/web/wasm/src/lib.rs b/web/wasm/src/lib.rs
index dfc2d48..26dd7ef 100644
--- a/web/wasm/src/lib.rs
+++ b/web/wasm/src/lib.rs
@@ -766,6 +766,14 @@ pub mod verif {
         super::options_from_wasm(opts, operators).ok()
     }
 
+    pub fn engine(search: &WasmSearch) -> &Engine {
+        &search.engine
+    }
+
+    pub fn val_dataset(search: &WasmSearch) -> Option<&Dataset<f64>> {
+        search.val_dataset.as_ref()
+    }
+
     pub fn snapshot(engine: &Engine, pareto_k: usize) -> SearchSnapshot {
         super::snapshot(engine, pareto_k)
     }
-- 
2.43.0


From f1b06a8e087b7b281e1a90545e605f9d24497650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:03 +0000
Subject: [PATCH 35/39] fix: web: the form's default options reach the page as
 an object

---
 web/wasm/src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/web/wasm/src/lib.rs b/web/wasm/src/lib.rs
index 26dd7ef..d428db9 100644
--- a/web/wasm/src/lib.rs
+++ b/web/wasm/src/lib.rs
@@ -11,7 +11,7 @@ use dynamic_expressions::{EvalOptions, OpId, OperatorSet, eval_plan_array_into};
 use fastrand::Rng;
 use ndarray::{Array1, Array2};
 use serde::{Deserialize, Serialize};
-use serde_wasm_bindgen::{from_value, to_value};
+use serde_wasm_bindgen::{Serializer, from_value, to_value};
 use symbolic_regression::{Dataset, LossKind, Operators, Options, SearchEngine, WasmOptionsShim};
 use wasm_bindgen::prelude::*;
 
@@ -65,8 +65,11 @@ pub fn builtin_operator_registry() -> Result<JsValue, JsValue> {
 
 #[wasm_bindgen]
 pub fn default_search_options() -> Result<JsValue, JsValue> {
-    let opts = WasmSearchOptions::default();
-    to_value(&opts).map_err(|e| JsValue::from_str(&e.to_string()))
+    // Flattened fields would otherwise make it a `Map`, whose entries a spread does not copy.
+    let serializer = Serializer::new().serialize_maps_as_objects(true);
+    WasmSearchOptions::default()
+        .serialize(&serializer)
+        .map_err(|e| JsValue::from_str(&e.to_string()))
 }
 
 #[wasm_bindgen]
-- 
2.43.0


From e175cbb16a7f45f67e8dff87ead1f04ba4c295f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:04 +0000
Subject: [PATCH 36/39] fix: web: options that cannot be read are refused
 instead of replaced by the defaults

---
 web/wasm/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/web/wasm/src/lib.rs b/web/wasm/src/lib.rs
index d428db9..7e5a82b 100644
--- a/web/wasm/src/lib.rs
+++ b/web/wasm/src/lib.rs
@@ -195,9 +195,11 @@ impl WasmSearch {
         binary_tokens: JsValue,
         ternary_tokens: JsValue,
     ) -> Result<WasmSearch, JsValue> {
-        let opts: WasmSearchOptions = from_value(opts)
-            .or_else(|_| Ok::<WasmSearchOptions, serde_wasm_bindgen::Error>(WasmSearchOptions::default()))
-            .map_err(|e| JsValue::from_str(&e.to_string()))?;
+        let opts: WasmSearchOptions = if opts.is_undefined() || opts.is_null() {
+            WasmSearchOptions::default()
+        } else {
+            from_value(opts).map_err(|e| JsValue::from_str(&e.to_string()))?
+        };
 
         let unary: Vec<String> = from_value(unary_tokens).unwrap_or_default();
         let binary: Vec<String> = from_value(binary_tokens).unwrap_or_default();
-- 
2.43.0


From d53c157555adb8a3a04b243652f62972f3208752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:17 +0000
Subject: [PATCH 37/39] fix: a search counts custom operators at the complexity
 their set declares

The README's `complexity: 2` in custom_opset! was stored in the operator's metadata and
then ignored: without an override in the options every operator counted 1.
---
 symbolic_regression/src/options.rs      | 14 ++++++++++++++
 symbolic_regression/src/search_utils.rs |  2 ++
 2 files changed, 16 insertions(+)

diff --git a/symbolic_regression/src/options.rs b/symbolic_regression/src/options.rs
index f6a0be7..94b8500 100644
--- a/symbolic_regression/src/options.rs
+++ b/symbolic_regression/src/options.rs
@@ -261,4 +261,18 @@ impl<T: Float, const D: usize> Options<T, D> {
             && self.variable_complexities.is_none()
             && self.operator_complexity_overrides.is_empty()
     }
+
+    /// Give every operator the complexity that its set declares, unless it is overridden.
+    pub(crate) fn with_declared_complexities<Ops: dynamic_expressions::OperatorSet>(&self) -> Self {
+        let mut options = self.clone();
+        for &op in self.operators.ops_by_arity.iter().flatten() {
+            if let Some(meta) = Ops::meta(op).filter(|meta| meta.complexity != 1) {
+                options
+                    .operator_complexity_overrides
+                    .entry(op)
+                    .or_insert(meta.complexity);
+            }
+        }
+        options
+    }
 }
diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index 594743a..4234a5d 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -154,6 +154,7 @@ where
     T: Float + AddAssign + num_traits::FromPrimitive + num_traits::ToPrimitive + Display + Send + Sync,
     Ops: dynamic_expressions::OperatorSet<T = T> + Send + Sync,
 {
+    let options = &options.with_declared_complexities::<Ops>();
     let baseline_loss = if options.use_baseline {
         baseline_loss_from_zero_expression::<T, Ops, D>(dataset, options.loss.as_ref())
     } else {
@@ -240,6 +241,7 @@ where
     Ops: dynamic_expressions::OperatorSet<T = T>,
 {
     pub fn new(dataset: Dataset<T>, options: Options<T, D>) -> Self {
+        let options = options.with_declared_complexities::<Ops>();
         let baseline_loss = if options.use_baseline {
             baseline_loss_from_zero_expression::<T, Ops, D>(&dataset, options.loss.as_ref())
         } else {
-- 
2.43.0


From f77f2b085de20ee765b6ee8b61c6a89c0f56d0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:19 +0000
Subject: [PATCH 38/39] fix: web: columns of the same name keep a summary row
 each, and none of another table

---
 web/ui/src/app/panes/EnterData.tsx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/web/ui/src/app/panes/EnterData.tsx b/web/ui/src/app/panes/EnterData.tsx
index 484dc81..f3f1915 100644
--- a/web/ui/src/app/panes/EnterData.tsx
+++ b/web/ui/src/app/panes/EnterData.tsx
@@ -361,8 +361,8 @@ export function EnterData(): React.ReactElement {
                 </tr>
               </thead>
               <tbody>
-                {columnSummary.map((s) => (
-                  <tr key={s.name}>
+                {columnSummary.map((s, j) => (
+                  <tr key={j}>
                     <td className="mono monoEllipsis" title={s.name}>
                       {s.name}
                     </td>
-- 
2.43.0


From df1a589e0abd3c9516ed3531987b8d7a86d8483c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:19 +0000
Subject: [PATCH 39/39] fix: web: of several files the one chosen last is
 shown, whichever is read first

---
 web/ui/src/app/panes/EnterData.tsx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/web/ui/src/app/panes/EnterData.tsx b/web/ui/src/app/panes/EnterData.tsx
index f3f1915..31ff6b0 100644
--- a/web/ui/src/app/panes/EnterData.tsx
+++ b/web/ui/src/app/panes/EnterData.tsx
@@ -16,6 +16,7 @@ export function EnterData(): React.ReactElement {
   const setOptionsPatch = useSessionStore((s) => s.setOptionsPatch);
   const parseCsv = useSessionStore((s) => s.parseCsv);
   const fileInputRef = useRef<HTMLInputElement | null>(null);
+  const lastFileRef = useRef(0);
   const [dragActive, setDragActive] = useState(false);
 
   const headers = parsed?.headers ?? [];
@@ -96,7 +97,9 @@ export function EnterData(): React.ReactElement {
 
   const onFile = async (f: File | null) => {
     if (!f) return;
+    const file = ++lastFileRef.current;
     const text = await f.text();
+    if (file !== lastFileRef.current) return; // another file was chosen while this one was read
     setCsvText(text);
     // Convenience: auto-parse after upload to show preview immediately.
     parseCsv();
-- 
2.43.0

