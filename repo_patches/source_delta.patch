From 9492cc48d2eb2119d7427061ccbfda017c5736de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 01/34] hook: export the loss trait under the bench feature

---
 symbolic_regression/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/symbolic_regression/src/lib.rs b/symbolic_regression/src/lib.rs
index 0eaab57..9792065 100644
--- a/symbolic_regression/src/lib.rs
+++ b/symbolic_regression/src/lib.rs
@@ -50,6 +50,7 @@ pub use {
     adaptive_parsimony::RunningSearchStatistics,
     check_constraints::check_constraints,
     constant_optimization::{OptimizeConstantsCtx, optimize_constants},
+    loss_functions::{LossFn, LossObject},
     mutate::{NextGenerationCtx, next_generation},
     pop_member::Evaluator,
     population::Population,
-- 
2.43.0


From f64767ac9ed6924f23f34300b2bcdbacfc7b2daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 02/34] fix: size the evaluator for the mini-batch before
 evolving on it

---
 symbolic_regression/src/single_iteration.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/symbolic_regression/src/single_iteration.rs b/symbolic_regression/src/single_iteration.rs
index dedb956..67ef397 100644
--- a/symbolic_regression/src/single_iteration.rs
+++ b/symbolic_regression/src/single_iteration.rs
@@ -38,6 +38,7 @@ where
     let min_temp = if ctx.options.annealing { 0.0 } else { 1.0 };
     let ncycles = ctx.options.ncycles_per_iteration.max(1);
     let mut num_evals = 0.0;
+    ctx.evaluator.ensure_n_rows(eval_dataset.n_rows);
     let mut best_seen = HallOfFame::new(ctx.options.maxsize);
     best_seen.update_from_members(&pop.members, ctx.options, ctx.curmaxsize);
 
-- 
2.43.0


From f7e2b9d0a288abf54f9730fa9ea59931cacacdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 03/34] fix: report members found on a mini-batch with their
 full-data loss

---
 symbolic_regression/src/search_utils.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index f819038..10fe12a 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -415,7 +415,7 @@ where
     T: Float + num_traits::FromPrimitive + num_traits::ToPrimitive + AddAssign,
     Ops: dynamic_expressions::OperatorSet<T = T>,
 {
-    let (evals1, best_seen) =
+    let (evals1, mut best_seen) =
         pop_state.run_iteration_phase(full_dataset, options, curmaxsize, &stats, |pop, ctx, eval_dataset| {
             single_iteration::s_r_cycle(pop, ctx, eval_dataset)
         });
@@ -423,7 +423,15 @@ where
     let evals2 = pop_state.run_iteration_phase(full_dataset, options, curmaxsize, &stats, |pop, ctx, opt_dataset| {
         single_iteration::optimize_and_simplify_population(pop, ctx, opt_dataset)
     });
-    let evals = (evals1.max(0.0) + evals2.max(0.0)) as u64;
+    let mut evals = (evals1.max(0.0) + evals2.max(0.0)) as u64;
+
+    if options.batching {
+        // These members carry the loss of the mini-batch they were found on.
+        for m in best_seen.best_by_complexity.iter_mut().flatten() {
+            let _ = m.evaluate(&full_dataset, options, &mut pop_state.evaluator);
+            evals += 1;
+        }
+    }
 
     let best_sub_pop = migration::best_sub_pop(&pop_state.pop, options.topn);
 
-- 
2.43.0


From 42372bed5c8dae1f8de764807e766166f140607c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 04/34] fix: let the best equation come from the best seen
 members too

---
 symbolic_regression/src/search_utils.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index 10fe12a..24ebd96 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -469,10 +469,7 @@ fn apply_task_result<T, Ops, const D: usize>(
     stats.update_from_population(st.pop.members.iter().map(|m| m.complexity));
     stats.move_window();
 
-    for m in res.best_seen.members() {
-        hall.consider(m, options, curmaxsize);
-    }
-    for m in &st.pop.members {
+    for m in res.best_seen.members().chain(&st.pop.members) {
         hall.consider(m, options, curmaxsize);
         if check_constraints(&m.expr, options, curmaxsize) && m.loss < pools.best.loss {
             pools.best = m.clone();
-- 
2.43.0


From ec9a4feacdb35d2f0e462275437ef082dd6a8c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 05/34] fix: replace a best equation that violates the
 constraints by any valid one

---
 symbolic_regression/src/search_utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index 24ebd96..64e6277 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -471,7 +471,9 @@ fn apply_task_result<T, Ops, const D: usize>(
 
     for m in res.best_seen.members().chain(&st.pop.members) {
         hall.consider(m, options, curmaxsize);
-        if check_constraints(&m.expr, options, curmaxsize) && m.loss < pools.best.loss {
+        if check_constraints(&m.expr, options, curmaxsize)
+            && (m.loss < pools.best.loss || !check_constraints(&pools.best.expr, options, options.maxsize))
+        {
             pools.best = m.clone();
         }
     }
-- 
2.43.0


From b8906ae2738e18cf06e0c196ba582fa74d3b262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 06/34] fix: give members changed by simplification or constant
 optimisation a new id

---
 symbolic_regression/src/single_iteration.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/symbolic_regression/src/single_iteration.rs b/symbolic_regression/src/single_iteration.rs
index 67ef397..fa88522 100644
--- a/symbolic_regression/src/single_iteration.rs
+++ b/symbolic_regression/src/single_iteration.rs
@@ -8,7 +8,7 @@ use crate::constant_optimization::{OptimizeConstantsCtx, optimize_constants};
 use crate::dataset::TaggedDataset;
 use crate::hall_of_fame::HallOfFame;
 use crate::options::Options;
-use crate::pop_member::Evaluator;
+use crate::pop_member::{Evaluator, MemberId, PopMember};
 use crate::population::Population;
 use crate::regularized_evolution::{RegEvolCtx, reg_evol_cycle};
 
@@ -69,6 +69,13 @@ where
     (num_evals, best_seen)
 }
 
+/// A member whose equation changed in place is a new equation: copies of the old one may be reported under the old id.
+fn assign_new_id<T: Float, Ops, const D: usize>(m: &mut PopMember<T, Ops, D>, next_id: &mut u64) {
+    m.parent = Some(m.id);
+    m.id = MemberId(*next_id);
+    *next_id += 1;
+}
+
 pub fn optimize_and_simplify_population<T, Ops, const D: usize>(
     pop: &mut Population<T, Ops, D>,
     ctx: &mut IterationCtx<'_, T, Ops, D>,
@@ -84,6 +91,7 @@ where
         for m in &mut pop.members {
             let changed = dynamic_expressions::simplify_in_place(&mut m.expr, &ctx.evaluator.eval_opts);
             if changed {
+                assign_new_id(m, ctx.next_id);
                 m.rebuild_plan(ctx.full_dataset.n_features);
             }
         }
@@ -105,7 +113,9 @@ where
                         next_birth: ctx.next_birth,
                     },
                 );
-                let _ = improved;
+                if improved {
+                    assign_new_id(m, ctx.next_id);
+                }
                 num_evals += evals;
             }
         }
-- 
2.43.0


From 2200b967b707ec6e2016d038c3f52a498557da3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 07/34] fix: propagate a worker's panic to the caller of the
 search instead of hanging

---
 symbolic_regression/src/search_utils.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index 64e6277..4d6fdb9 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -1,5 +1,6 @@
 use std::fmt::Display;
 use std::ops::AddAssign;
+use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};
 
 use fastrand::Rng;
 use num_traits::Float;
@@ -522,7 +523,7 @@ fn run_scoped_search<'scope, 'env, T, Ops, const D: usize>(
     let full_dataset = state.full_dataset;
     let options = state.options;
 
-    let (result_tx, result_rx) = std::sync::mpsc::channel::<SearchTaskResult<T, Ops, D>>();
+    let (result_tx, result_rx) = std::sync::mpsc::channel::<std::thread::Result<SearchTaskResult<T, Ops, D>>>();
 
     for _iter in 0..options.niterations {
         let mut task_order: Vec<usize> = (0..state.pools.pops.len()).collect();
@@ -547,13 +548,19 @@ fn run_scoped_search<'scope, 'env, T, Ops, const D: usize>(
 
                 let result_tx = result_tx.clone();
                 scope.spawn(move |_| {
-                    let res = execute_task(full_dataset, options, pop_idx, curmaxsize, stats_snapshot, st);
+                    // A panic must reach the receiver, which would otherwise wait forever for this result.
+                    let res = catch_unwind(AssertUnwindSafe(|| {
+                        execute_task(full_dataset, options, pop_idx, curmaxsize, stats_snapshot, st)
+                    }));
                     let _ = result_tx.send(res);
                 });
                 in_flight += 1;
             }
 
-            let res = result_rx.recv().expect("worker result channel closed early");
+            let res = result_rx
+                .recv()
+                .expect("worker result channel closed early")
+                .unwrap_or_else(|payload| resume_unwind(payload));
             in_flight -= 1;
             apply_task_result(
                 options,
-- 
2.43.0


From 1df8b23f58602ec654c6546fa556995f8d0b85e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 08/34] fix: do not block a pool thread when a search is
 started from outside the pool

---
 symbolic_regression/src/search_utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index 4d6fdb9..36aa3b0 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -207,7 +207,8 @@ where
         order_rng,
     };
 
-    rayon::scope(|scope| {
+    // Orchestrate on the calling thread: from outside the pool, `rayon::scope` would occupy a pool thread with it.
+    rayon::in_place_scope(|scope| {
         run_scoped_search(scope, &mut state);
     });
     state.progress.finish();
-- 
2.43.0


From 422aa512460ec1bec0cd32fbb91c72962478b5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 09/34] fix: let searches inside one pool run each other's
 workers while they wait

---
 symbolic_regression/src/search_utils.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index 36aa3b0..c0c07c6 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -1,6 +1,7 @@
 use std::fmt::Display;
 use std::ops::AddAssign;
 use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};
+use std::sync::mpsc::TryRecvError;
 
 use fastrand::Rng;
 use num_traits::Float;
@@ -513,6 +514,23 @@ fn apply_task_result<T, Ops, const D: usize>(
     progress.on_cycle_complete(hall, pools.total_evals, cycles_remaining);
 }
 
+/// Waits for the next worker result. On a pool thread other queued jobs are run meanwhile: several searches that
+/// block the threads of one pool would leave nobody to run their workers.
+fn recv_result<R>(rx: &std::sync::mpsc::Receiver<R>) -> R {
+    loop {
+        match rx.try_recv() {
+            Ok(res) => return res,
+            Err(TryRecvError::Empty) => {}
+            Err(TryRecvError::Disconnected) => panic!("worker result channel closed early"),
+        }
+        match rayon::yield_now() {
+            None => return rx.recv().expect("worker result channel closed early"),
+            Some(rayon::Yield::Executed) => {}
+            Some(rayon::Yield::Idle) => std::thread::sleep(std::time::Duration::from_micros(100)),
+        }
+    }
+}
+
 fn run_scoped_search<'scope, 'env, T, Ops, const D: usize>(
     scope: &rayon::Scope<'scope>,
     state: &mut EquationSearchState<'env, T, Ops, D>,
@@ -558,10 +576,7 @@ fn run_scoped_search<'scope, 'env, T, Ops, const D: usize>(
                 in_flight += 1;
             }
 
-            let res = result_rx
-                .recv()
-                .expect("worker result channel closed early")
-                .unwrap_or_else(|payload| resume_unwind(payload));
+            let res = recv_result(&result_rx).unwrap_or_else(|payload| resume_unwind(payload));
             in_flight -= 1;
             apply_task_result(
                 options,
-- 
2.43.0


From d3fe374eb7099f1f71c0c4e16c453a27d4d0c0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 10/34] fix: keep the log-cosh loss finite for large residuals

---
 symbolic_regression/src/loss_functions.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/symbolic_regression/src/loss_functions.rs b/symbolic_regression/src/loss_functions.rs
index bcde517..12d58e8 100644
--- a/symbolic_regression/src/loss_functions.rs
+++ b/symbolic_regression/src/loss_functions.rs
@@ -248,6 +248,10 @@ pub struct LogCoshLoss;
 impl<T: Float> PointwiseLoss<T> for LogCoshLoss {
     fn point_loss(&self, yhat: T, y: T) -> T {
         let r = yhat - y;
+        // `cosh` overflows for large residuals, where ln(cosh(r)) equals |r| - ln(2) up to rounding.
+        if r.abs() > T::from(20.0).unwrap() {
+            return r.abs() - T::from(2.0).unwrap().ln();
+        }
         r.cosh().ln()
     }
 
-- 
2.43.0


From 11fa79d39e085e5fb5de8eca5c43529108408896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:31 +0000
Subject: [PATCH 11/34] fix: simplify must not take an operator of another
 arity for a subtraction

---
 dynamic_expressions/src/simplify.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dynamic_expressions/src/simplify.rs b/dynamic_expressions/src/simplify.rs
index 35ef764..98326b6 100644
--- a/dynamic_expressions/src/simplify.rs
+++ b/dynamic_expressions/src/simplify.rs
@@ -43,9 +43,10 @@ fn is_const<const D: usize>(arena: &[ArenaNode<D>], id: usize) -> Option<u16> {
     }
 }
 
+/// The binary operator `op_id`; operators of another arity may have the same id.
 fn is_op<const D: usize>(arena: &[ArenaNode<D>], id: usize, op_id: u16) -> Option<(u8, [usize; D])> {
     match arena[id].kind {
-        ArenaNodeKind::Op { arity, op, children } if op == op_id => Some((arity, children)),
+        ArenaNodeKind::Op { arity, op, children } if arity == 2 && op == op_id => Some((arity, children)),
         _ => None,
     }
 }
-- 
2.43.0


From 3c27730ac23f2b77545b2338e0b4a8f83496efd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:57 +0000
Subject: [PATCH 12/34] fix: one search loop per worker, every failure
 reported, nothing of a replaced search reported or shown

start-pause-start spawned a second loop, an exception in the loop was never
reported, an initialisation that was reset or replaced while pending revived
or overwrote the newer one, and the page showed results, acknowledgements
and readiness of a search it had already reset or replaced.

The client numbers its sessions (init, reset) and the worker repeats the
number in what it posts; a loop stops as soon as it is not the active one.
---
 web/ui/src/worker/protocol.ts       |   8 ++-
 web/ui/src/worker/srWorker.ts       | 100 ++++++++++++++++------------
 web/ui/src/worker/srWorkerClient.ts |  15 +++--
 3 files changed, 73 insertions(+), 50 deletions(-)

diff --git a/web/ui/src/worker/protocol.ts b/web/ui/src/worker/protocol.ts
index 2ed71b8..7db0fc5 100644
--- a/web/ui/src/worker/protocol.ts
+++ b/web/ui/src/worker/protocol.ts
@@ -1,7 +1,10 @@
 import type { SearchSnapshot, EquationSummary, WasmEvalResult, WasmSearchOptions, WasmSplitIndices } from "../types/srTypes";
 
+// `session` numbers the init and reset messages of a client. The worker repeats the last one it was given in
+// everything it posts, so that the client can tell messages of a search it has already reset or replaced.
 export type WorkerInitMsg = {
   type: "init";
+  session: number;
   csvText: string;
   options: WasmSearchOptions;
   unary: string[];
@@ -11,7 +14,7 @@ export type WorkerInitMsg = {
 
 export type WorkerStartMsg = { type: "start" };
 export type WorkerPauseMsg = { type: "pause" };
-export type WorkerResetMsg = { type: "reset" };
+export type WorkerResetMsg = { type: "reset"; session: number };
 export type WorkerStepMsg = { type: "step"; cycles: number };
 export type WorkerEvaluateMsg = {
   type: "evaluate";
@@ -35,7 +38,8 @@ export type WorkerEvalResultMsg = { type: "eval_result"; requestId: string; resu
 export type WorkerDoneMsg = { type: "done" };
 export type WorkerPausedMsg = { type: "paused" };
 export type WorkerResetDoneMsg = { type: "reset_done" };
-export type WorkerErrorMsg = { type: "error"; error: string };
+// With a `requestId`, only that evaluation failed.
+export type WorkerErrorMsg = { type: "error"; error: string; requestId?: string };
 
 export type WorkerFromWorkerMsg =
   | WorkerReadyMsg
diff --git a/web/ui/src/worker/srWorker.ts b/web/ui/src/worker/srWorker.ts
index 2c8dda4..57f10a6 100644
--- a/web/ui/src/worker/srWorker.ts
+++ b/web/ui/src/worker/srWorker.ts
@@ -4,7 +4,10 @@ import init, { init_thread_pool, WasmSearch } from "../pkg/symbolic_regression_w
 import type { WorkerFromWorkerMsg, WorkerToWorkerMsg } from "./protocol";
 
 let search: WasmSearch | null = null;
-let running = false;
+// Session of the last init or reset. Work begun in an earlier one must not report anything any more.
+let session = 0;
+// The loop that advances the search. A loop that finds another one (or none) here has been stopped.
+let activeLoop: object | null = null;
 
 const SNAPSHOT_INTERVAL_MS = 200;
 const FRONT_INTERVAL_MS = 250;
@@ -13,58 +16,58 @@ const PARETO_K = 10_000;
 const FRONT_K = 10_000;
 
 function post(msg: WorkerFromWorkerMsg): void {
-  self.postMessage(msg);
+  self.postMessage({ ...msg, session });
 }
 
 async function sleep0(): Promise<void> {
   await new Promise((r) => setTimeout(r, 0));
 }
 
-async function runLoop(): Promise<void> {
-  if (!search) {
-    post({ type: "error", error: "search not initialized" });
-    return;
-  }
-
-  running = true;
+async function runLoop(current: WasmSearch): Promise<void> {
+  const loop = {};
+  activeLoop = loop;
   let lastSnap = 0;
   let lastFront = 0;
 
-  while (running && !search.is_finished()) {
-    search.step(STEP_CYCLES);
+  try {
+    while (!current.is_finished()) {
+      current.step(STEP_CYCLES);
+
+      const now = performance.now();
+      if (now - lastSnap >= SNAPSHOT_INTERVAL_MS) {
+        const snap = current.step(0);
+        post({ type: "snapshot", snap });
+        lastSnap = now;
+      }
+      if (now - lastFront >= FRONT_INTERVAL_MS) {
+        const front = current.best_equations(FRONT_K);
+        post({ type: "front_update", front });
+        lastFront = now;
+      }
 
-    const now = performance.now();
-    if (now - lastSnap >= SNAPSHOT_INTERVAL_MS) {
-      const snap = search.step(0);
-      post({ type: "snapshot", snap });
-      lastSnap = now;
-    }
-    if (now - lastFront >= FRONT_INTERVAL_MS) {
-      const front = search.best_equations(FRONT_K);
-      post({ type: "front_update", front });
-      lastFront = now;
+      await sleep0();
+      // Paused, reset or replaced meanwhile.
+      if (activeLoop !== loop) return;
     }
 
-    await sleep0();
-  }
-
-  if (!running) {
-    post({ type: "paused" });
-    return;
+    post({ type: "snapshot", snap: current.step(0) });
+    post({ type: "front_update", front: current.best_equations(FRONT_K) });
+    post({ type: "done" });
+  } catch (err) {
+    post({ type: "error", error: String(err) });
   }
-
-  post({ type: "snapshot", snap: search.step(0) });
-  post({ type: "front_update", front: search.best_equations(FRONT_K) });
-  post({ type: "done" });
-  running = false;
+  activeLoop = null;
 }
 
 self.onmessage = async (e: MessageEvent<WorkerToWorkerMsg>) => {
   const msg = e.data;
   try {
     if (msg.type === "init") {
-      running = false;
+      activeLoop = null;
+      search = null;
+      session = msg.session;
       const wasmExports = await init();
+      if (session !== msg.session) return;
       const sharedArrayBufferAvailable = typeof SharedArrayBuffer !== "undefined";
       const hasSharedMemory = sharedArrayBufferAvailable && wasmExports?.memory?.buffer instanceof SharedArrayBuffer;
       if (self.crossOriginIsolated && hasSharedMemory) {
@@ -75,27 +78,36 @@ self.onmessage = async (e: MessageEvent<WorkerToWorkerMsg>) => {
           // eslint-disable-next-line no-console
           console.warn("init_thread_pool failed, continuing single-threaded:", err);
         }
+        if (session !== msg.session) return;
       } else {
         // eslint-disable-next-line no-console
         console.warn("SharedArrayBuffer unavailable; running single-threaded.");
       }
-      search = new WasmSearch(msg.csvText, msg.options as any, msg.unary as any, msg.binary as any, msg.ternary as any);
-      search.set_pareto_k(PARETO_K);
-      const split = search.get_split_indices();
+      const created = new WasmSearch(msg.csvText, msg.options as any, msg.unary as any, msg.binary as any, msg.ternary as any);
+      created.set_pareto_k(PARETO_K);
+      const split = created.get_split_indices();
+      search = created;
       post({ type: "ready", split });
       return;
     }
 
     if (msg.type === "reset") {
-      running = false;
+      activeLoop = null;
       search = null;
+      session = msg.session;
       post({ type: "reset_done" });
       return;
     }
 
     if (msg.type === "pause") {
-      running = false;
-      post({ type: "paused" });
+      // Nothing to acknowledge when no loop runs: it has already reported how it ended.
+      if (activeLoop && search) {
+        activeLoop = null;
+        // The loop reports at intervals; leave the page with the state the search was paused in.
+        post({ type: "snapshot", snap: search.step(0) });
+        post({ type: "front_update", front: search.best_equations(FRONT_K) });
+        post({ type: "paused" });
+      }
       return;
     }
 
@@ -112,7 +124,7 @@ self.onmessage = async (e: MessageEvent<WorkerToWorkerMsg>) => {
 
     if (msg.type === "evaluate") {
       if (!search) {
-        post({ type: "error", error: "search not initialized" });
+        post({ type: "error", error: "search not initialized", requestId: msg.requestId });
         return;
       }
       const result = search.evaluate_member(msg.memberId, msg.which);
@@ -125,12 +137,14 @@ self.onmessage = async (e: MessageEvent<WorkerToWorkerMsg>) => {
         post({ type: "error", error: "search not initialized" });
         return;
       }
-      if (!running) {
-        void runLoop();
+      if (!activeLoop) {
+        void runLoop(search);
       }
       return;
     }
   } catch (err) {
-    post({ type: "error", error: String(err) });
+    // An initialisation that was reset or replaced while it was pending has nothing left to report.
+    if (msg.type === "init" && session !== msg.session) return;
+    post({ type: "error", error: String(err), requestId: msg.type === "evaluate" ? msg.requestId : undefined });
   }
 };
diff --git a/web/ui/src/worker/srWorkerClient.ts b/web/ui/src/worker/srWorkerClient.ts
index 8473e86..d757fab 100644
--- a/web/ui/src/worker/srWorkerClient.ts
+++ b/web/ui/src/worker/srWorkerClient.ts
@@ -9,17 +9,20 @@ type Handlers = {
   onDone?: () => void;
   onPaused?: () => void;
   onResetDone?: () => void;
-  onError?: (err: string) => void;
+  onError?: (err: string, requestId?: string) => void;
 };
 
 export class SrWorkerClient {
   private worker: Worker;
   private handlers: Handlers = {};
+  private session = 0;
 
   constructor() {
     this.worker = new Worker(new URL("./srWorker.ts", import.meta.url), { type: "module" });
-    this.worker.onmessage = (e: MessageEvent<WorkerFromWorkerMsg>) => {
+    this.worker.onmessage = (e: MessageEvent<WorkerFromWorkerMsg & { session: number }>) => {
       const msg = e.data;
+      // Posted before the worker saw our last init or reset.
+      if (msg.session !== this.session) return;
       if (msg.type === "ready") this.handlers.onReady?.(msg.split);
       else if (msg.type === "snapshot") this.handlers.onSnapshot?.(msg.snap);
       else if (msg.type === "front_update") this.handlers.onFrontUpdate?.(msg.front);
@@ -27,7 +30,7 @@ export class SrWorkerClient {
       else if (msg.type === "done") this.handlers.onDone?.();
       else if (msg.type === "paused") this.handlers.onPaused?.();
       else if (msg.type === "reset_done") this.handlers.onResetDone?.();
-      else if (msg.type === "error") this.handlers.onError?.(msg.error);
+      else if (msg.type === "error") this.handlers.onError?.(msg.error, msg.requestId);
     };
   }
 
@@ -50,7 +53,8 @@ export class SrWorkerClient {
     binary: string[];
     ternary: string[];
   }): void {
-    this.post({ type: "init", ...args });
+    this.session += 1;
+    this.post({ type: "init", session: this.session, ...args });
   }
 
   start(): void {
@@ -62,7 +66,8 @@ export class SrWorkerClient {
   }
 
   reset(): void {
-    this.post({ type: "reset" });
+    this.session += 1;
+    this.post({ type: "reset", session: this.session });
   }
 
   step(cycles: number): void {
-- 
2.43.0


From 42aaeb25b512ba1b267c2d44b13abcaade996992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:57 +0000
Subject: [PATCH 13/34] fix: keep the worker when the Run tab is left

Leaving the tab terminated the worker while the store went on saying
"running" or "initializing"; coming back offered a start that could only fail.
A failed evaluation no longer ends the run status either.
---
 .../searchSolutions/useSearchController.ts    | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/web/ui/src/app/panes/searchSolutions/useSearchController.ts b/web/ui/src/app/panes/searchSolutions/useSearchController.ts
index 565829e..1505854 100644
--- a/web/ui/src/app/panes/searchSolutions/useSearchController.ts
+++ b/web/ui/src/app/panes/searchSolutions/useSearchController.ts
@@ -12,9 +12,8 @@ type SrWorkerClientLike = {
     onDone: () => void;
     onPaused: () => void;
     onResetDone: () => void;
-    onError: (err: string) => void;
+    onError: (err: string, requestId?: string) => void;
   }) => void;
-  terminate: () => void;
   init: (args: {
     csvText: string;
     options: any;
@@ -28,6 +27,15 @@ type SrWorkerClientLike = {
   evaluate: (requestId: string, memberId: string, which: "train" | "val") => void;
 };
 
+// The page keeps one worker: leaving the Run tab unmounts the controller, but the search (and what the store says
+// about it) lives on.
+let sharedClient: { Client: { new (): SrWorkerClientLike }; client: SrWorkerClientLike } | null = null;
+
+function getSharedClient(Client: { new (): SrWorkerClientLike }): SrWorkerClientLike {
+  if (sharedClient?.Client !== Client) sharedClient = { Client, client: new Client() };
+  return sharedClient.client;
+}
+
 function buildYArray(rows: number[][], yCol: number): number[] {
   return rows.map((r) => r[yCol]);
 }
@@ -104,7 +112,7 @@ export function useSearchController(Client: { new (): SrWorkerClientLike }) {
   }, [parsed, options, csvText, runtime.status, ensureParsedForRuntime]);
 
   useEffect(() => {
-    const c = new Client();
+    const c = getSharedClient(Client);
     clientRef.current = c;
     c.setHandlers({
       onReady: (splitMaybe) => {
@@ -158,15 +166,16 @@ export function useSearchController(Client: { new (): SrWorkerClientLike }) {
           evalByKey: {},
           error: null
         }),
-      onError: (err) => {
+      onError: (err, requestId) => {
         // A common non-fatal case: we asked to evaluate an equation ID that has
         // just fallen out of the worker's internal cache between front updates.
         // Don't flip the whole UI into an "error" state for this.
         if (String(err).includes("member not found")) return;
-        setRuntime({ status: "error", error: err });
+        // A failed evaluation does not end the search either.
+        if (requestId !== undefined) setRuntime({ error: err });
+        else setRuntime({ status: "error", error: err });
       }
     });
-    return () => c.terminate();
   }, [Client, setEvalResult, setFront, setRuntime, setSnapshot]);
 
   const canInit = Boolean(options) && unaryOps.length + binaryOps.length + ternaryOps.length > 0;
-- 
2.43.0


From 64097d5a0f1a5d458178cb19e71a63d0d72a404c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:26 +0000
Subject: [PATCH 14/34] fix: correlation of weighted data mixed the weighted
 mean of y into an unweighted correlation

---
 web/wasm/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/web/wasm/src/lib.rs b/web/wasm/src/lib.rs
index d8f6467..131e3f6 100644
--- a/web/wasm/src/lib.rs
+++ b/web/wasm/src/lib.rs
@@ -508,6 +508,7 @@ fn r2_and_corr(yhat: &[f64], y: &[f64], w: Option<&[f64]>) -> (f64, f64) {
 
     // Unweighted Pearson correlation.
     let yh_mean = yhat.iter().sum::<f64>() / (yhat.len() as f64);
+    let y_mean = y.iter().sum::<f64>() / (y.len() as f64);
     let mut cov = 0.0;
     let mut vy = 0.0;
     let mut vyh = 0.0;
-- 
2.43.0


From 1b38d74037ca3192688795590df494d7823be9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:26 +0000
Subject: [PATCH 15/34] fix: a large validation fraction of a small file left
 no row to train on

---
 web/wasm/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/web/wasm/src/lib.rs b/web/wasm/src/lib.rs
index 131e3f6..d78c4ce 100644
--- a/web/wasm/src/lib.rs
+++ b/web/wasm/src/lib.rs
@@ -652,7 +652,8 @@ fn make_split_indices(n_rows: usize, validation_fraction: f64, seed: u64) -> Was
     }
 
     let vf = validation_fraction.clamp(0.0, 0.9);
-    let n_val = ((vf * (n_rows as f64)).round() as usize).min(n_rows);
+    // At least one row is left to train on.
+    let n_val = ((vf * (n_rows as f64)).round() as usize).min(n_rows - 1);
     if n_val == 0 {
         return WasmSplitIndices {
             train: (0..n_rows).collect(),
-- 
2.43.0


From f3d5bb4ca052c00e1a679ddf75ce041cb377511f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:04 +0000
Subject: [PATCH 16/34] fix: a perfect fit under an overflowing frequency
 penalty aborted the tournament sort

---
 symbolic_regression/src/selection.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/selection.rs b/symbolic_regression/src/selection.rs
index 8d79c46..66dea2e 100644
--- a/symbolic_regression/src/selection.rs
+++ b/symbolic_regression/src/selection.rs
@@ -51,7 +51,8 @@ pub fn best_of_sample<T: Float, Ops, const D: usize>(
             } else {
                 0.0
             };
-            adjusted *= (options.adaptive_parsimony_scaling * freq).exp();
+            // An infinite factor would turn the zero cost of a perfect fit into NaN.
+            adjusted *= (options.adaptive_parsimony_scaling * freq).exp().min(f64::MAX);
         }
         scored.push((adjusted, idx));
     }
-- 
2.43.0


From eeb97be145707a51af5a362862932db6256396de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:04 +0000
Subject: [PATCH 17/34] fix: size warm-up underflowed for maxsize below three

---
 symbolic_regression/src/warmup.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/warmup.rs b/symbolic_regression/src/warmup.rs
index 1e24daf..2873a69 100644
--- a/symbolic_regression/src/warmup.rs
+++ b/symbolic_regression/src/warmup.rs
@@ -12,7 +12,8 @@ pub fn get_cur_maxsize<T: Float, const D: usize>(
     let in_warmup = fraction_elapsed <= options.warmup_maxsize_by;
 
     if options.warmup_maxsize_by > 0.0 && in_warmup {
-        3 + (((options.maxsize - 3) as f32) * fraction_elapsed / options.warmup_maxsize_by).floor() as usize
+        let start = options.maxsize.min(3);
+        start + (((options.maxsize - start) as f32) * fraction_elapsed / options.warmup_maxsize_by).floor() as usize
     } else {
         options.maxsize
     }
-- 
2.43.0


From 021c8ecd2c08fe608eb75c56a05f35b10b04bf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:58 +0000
Subject: [PATCH 18/34] fix: a member none of the enabled mutations applies to
 aborted the search

---
 symbolic_regression/src/mutate.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/symbolic_regression/src/mutate.rs b/symbolic_regression/src/mutate.rs
index 0fa1a8e..dd28109 100644
--- a/symbolic_regression/src/mutate.rs
+++ b/symbolic_regression/src/mutate.rs
@@ -134,6 +134,10 @@ pub fn sample_mutation(rng: &mut Rng, weights: &MutationWeights) -> MutationChoi
         (MutationChoice::Optimize, weights.optimize),
     ];
     let w: Vec<f64> = choices.iter().map(|(_, v)| *v).collect();
+    // None of the enabled mutations may apply to this member.
+    if w.iter().all(|&v| v == 0.0) {
+        return MutationChoice::DoNothing;
+    }
     let idx = weighted_index(rng, &w);
     choices[idx].0
 }
-- 
2.43.0


From ca1fbb58d8b72b81a4e3dda7e9a3b5d6a4707e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:58 +0000
Subject: [PATCH 19/34] fix: crossover in a population of one aborted the
 search

---
 symbolic_regression/src/regularized_evolution.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/regularized_evolution.rs b/symbolic_regression/src/regularized_evolution.rs
index 79962aa..ec63595 100644
--- a/symbolic_regression/src/regularized_evolution.rs
+++ b/symbolic_regression/src/regularized_evolution.rs
@@ -33,7 +33,8 @@ where
     let n_evol_cycles = ((pop.len() as f64) / (ctx.options.tournament_selection_n as f64)).ceil() as usize;
 
     for _ in 0..n_evol_cycles {
-        if ctx.rng.f64() > ctx.options.crossover_probability {
+        // Crossover replaces two members.
+        if ctx.rng.f64() > ctx.options.crossover_probability || pop.len() < 2 {
             let allstar = best_of_sample(ctx.rng, pop, ctx.stats, ctx.options);
             let (baby, accepted, tmp) = mutate::next_generation(
                 &allstar,
-- 
2.43.0


From 3fda63ce3a5afe448a1a715c69c01dde1898ff37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:29 +0000
Subject: [PATCH 20/34] hook: export one generation, crossover and migration
 under the bench feature

---
 symbolic_regression/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/lib.rs b/symbolic_regression/src/lib.rs
index 9792065..a3133ba 100644
--- a/symbolic_regression/src/lib.rs
+++ b/symbolic_regression/src/lib.rs
@@ -51,9 +51,11 @@ pub use {
     check_constraints::check_constraints,
     constant_optimization::{OptimizeConstantsCtx, optimize_constants},
     loss_functions::{LossFn, LossObject},
-    mutate::{NextGenerationCtx, next_generation},
+    migration::{best_sub_pop, migrate_into},
+    mutate::{CrossoverCtx, NextGenerationCtx, crossover_generation, next_generation},
     pop_member::Evaluator,
     population::Population,
+    regularized_evolution::{RegEvolCtx, reg_evol_cycle},
     selection::best_of_sample,
 };
 
-- 
2.43.0


From e4713f6f9c545badfc24f9888c08a422a7db172e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:29 +0000
Subject: [PATCH 21/34] fix: a worker script that failed to load was never
 reported and never replaced

---
 web/ui/src/worker/srWorkerClient.ts | 31 +++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/web/ui/src/worker/srWorkerClient.ts b/web/ui/src/worker/srWorkerClient.ts
index d757fab..9976237 100644
--- a/web/ui/src/worker/srWorkerClient.ts
+++ b/web/ui/src/worker/srWorkerClient.ts
@@ -16,13 +16,24 @@ export class SrWorkerClient {
   private worker: Worker;
   private handlers: Handlers = {};
   private session = 0;
+  private failed = false;
 
   constructor() {
-    this.worker = new Worker(new URL("./srWorker.ts", import.meta.url), { type: "module" });
-    this.worker.onmessage = (e: MessageEvent<WorkerFromWorkerMsg & { session: number }>) => {
+    this.worker = this.spawn();
+  }
+
+  private spawn(): Worker {
+    const worker = new Worker(new URL("./srWorker.ts", import.meta.url), { type: "module" });
+    // The script could not be loaded or threw: this worker will not answer any more.
+    worker.onerror = (e: ErrorEvent) => {
+      if (worker !== this.worker) return;
+      this.failed = true;
+      this.handlers.onError?.(e.message || "the search worker failed to load");
+    };
+    worker.onmessage = (e: MessageEvent<WorkerFromWorkerMsg & { session: number }>) => {
       const msg = e.data;
-      // Posted before the worker saw our last init or reset.
-      if (msg.session !== this.session) return;
+      // Posted by a worker that was replaced, or before the worker saw our last init or reset.
+      if (worker !== this.worker || msg.session !== this.session) return;
       if (msg.type === "ready") this.handlers.onReady?.(msg.split);
       else if (msg.type === "snapshot") this.handlers.onSnapshot?.(msg.snap);
       else if (msg.type === "front_update") this.handlers.onFrontUpdate?.(msg.front);
@@ -32,6 +43,15 @@ export class SrWorkerClient {
       else if (msg.type === "reset_done") this.handlers.onResetDone?.();
       else if (msg.type === "error") this.handlers.onError?.(msg.error, msg.requestId);
     };
+    return worker;
+  }
+
+  private replaceFailed(): void {
+    if (!this.failed) return;
+    this.worker.terminate();
+    this.worker = this.spawn();
+    this.failed = false;
+    this.session = 0;
   }
 
   setHandlers(handlers: Handlers): void {
@@ -43,6 +63,7 @@ export class SrWorkerClient {
   }
 
   post(msg: WorkerToWorkerMsg): void {
+    this.replaceFailed();
     this.worker.postMessage(msg);
   }
 
@@ -53,6 +74,7 @@ export class SrWorkerClient {
     binary: string[];
     ternary: string[];
   }): void {
+    this.replaceFailed();
     this.session += 1;
     this.post({ type: "init", session: this.session, ...args });
   }
@@ -66,6 +88,7 @@ export class SrWorkerClient {
   }
 
   reset(): void {
+    this.replaceFailed();
     this.session += 1;
     this.post({ type: "reset", session: this.session });
   }
-- 
2.43.0


From 159051f4ff93a6eb84eb3304d875aef52fab7fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:48 +0000
Subject: [PATCH 22/34] fix: mutations that are switched off are switched off
 for leaves, too

---
 symbolic_regression/src/mutate.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/symbolic_regression/src/mutate.rs b/symbolic_regression/src/mutate.rs
index dd28109..feacc5a 100644
--- a/symbolic_regression/src/mutate.rs
+++ b/symbolic_regression/src/mutate.rs
@@ -73,6 +73,15 @@ pub fn condition_mutation_weights<T: Float + AddAssign, Ops, const D: usize>(
     curmaxsize: usize,
     nfeatures: usize,
 ) {
+    // What is switched off is switched off for leaves, too.
+    if !options.should_simplify {
+        weights.simplify = 0.0;
+    }
+
+    if !options.should_optimize_constants || options.optimizer_probability == 0.0 || member.expr.consts.is_empty() {
+        weights.optimize = 0.0;
+    }
+
     let tree_is_leaf = member
         .expr
         .nodes
@@ -108,14 +117,6 @@ pub fn condition_mutation_weights<T: Float + AddAssign, Ops, const D: usize>(
         weights.add_node = 0.0;
         weights.insert_node = 0.0;
     }
-
-    if !options.should_simplify {
-        weights.simplify = 0.0;
-    }
-
-    if !options.should_optimize_constants || options.optimizer_probability == 0.0 || member.expr.consts.is_empty() {
-        weights.optimize = 0.0;
-    }
 }
 
 pub fn sample_mutation(rng: &mut Rng, weights: &MutationWeights) -> MutationChoice {
-- 
2.43.0


From 80c90a8ce8a6cee8c26617aa9e6658ab31bfeed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:48 +0000
Subject: [PATCH 23/34] fix: a dataset takes targets and weights of any memory
 layout

---
 symbolic_regression/src/dataset.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symbolic_regression/src/dataset.rs b/symbolic_regression/src/dataset.rs
index 527c57f..8157cd3 100644
--- a/symbolic_regression/src/dataset.rs
+++ b/symbolic_regression/src/dataset.rs
@@ -47,6 +47,8 @@ impl<T: Float> Dataset<T> {
         avg_y: Option<T>,
     ) -> Self {
         let x = x.as_standard_layout().to_owned();
+        let y = y.as_standard_layout().to_owned();
+        let weights = weights.map(|w| w.as_standard_layout().to_owned());
         let (n_features, n_rows) = x.dim();
         assert_eq!(y.len(), n_rows);
         if let Some(ref w) = weights {
-- 
2.43.0


From 538f5bc50f34cd2e6e4e84ecee044b0ce8b34ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:06 +0000
Subject: [PATCH 24/34] fix: a failed parse of edited data declared the running
 search failed

---
 web/ui/src/state/sessionStore.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/web/ui/src/state/sessionStore.ts b/web/ui/src/state/sessionStore.ts
index 1d32ad7..680d895 100644
--- a/web/ui/src/state/sessionStore.ts
+++ b/web/ui/src/state/sessionStore.ts
@@ -113,6 +113,11 @@ function parseCsvText(args: { csvText: string; hasHeaders: boolean }): { ok: tru
   return { ok: true, parsed: { headers, rows } };
 }
 
+// A parse that fails changes nothing about a search that has begun.
+function withParseError(runtime: SearchRuntime, error: string): SearchRuntime {
+  return { ...runtime, status: runtime.status === "idle" ? "error" : runtime.status, error };
+}
+
 export const useSessionStore = create<SessionState>((set, get) => ({
   tab: "data",
 
@@ -186,7 +191,7 @@ export const useSessionStore = create<SessionState>((set, get) => ({
 
     const parsedRes = parseCsvText({ csvText, hasHeaders: Boolean(options.has_headers) });
     if (!parsedRes.ok) {
-      set((s) => ({ runtime: { ...s.runtime, status: "error", error: parsedRes.error } }));
+      set((s) => ({ runtime: withParseError(s.runtime, parsedRes.error) }));
       return;
     }
     const { headers, rows } = parsedRes.parsed;
@@ -216,7 +221,7 @@ export const useSessionStore = create<SessionState>((set, get) => ({
     if (!options) return false;
     const parsedRes = parseCsvText({ csvText, hasHeaders: Boolean(options.has_headers) });
     if (!parsedRes.ok) {
-      set((s) => ({ runtime: { ...s.runtime, status: "error", error: parsedRes.error } }));
+      set((s) => ({ runtime: withParseError(s.runtime, parsedRes.error) }));
       return false;
     }
     set({ parsed: parsedRes.parsed });
-- 
2.43.0


From 08673fb0172daeb1db37f9906ed4ebd726b6e3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:06 +0000
Subject: [PATCH 25/34] fix: parsing kept columns selected that the data does
 not have

---
 web/ui/src/state/sessionStore.ts | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/web/ui/src/state/sessionStore.ts b/web/ui/src/state/sessionStore.ts
index 680d895..47052a0 100644
--- a/web/ui/src/state/sessionStore.ts
+++ b/web/ui/src/state/sessionStore.ts
@@ -113,6 +113,18 @@ function parseCsvText(args: { csvText: string; hasHeaders: boolean }): { ok: tru
   return { ok: true, parsed: { headers, rows } };
 }
 
+// The columns a search of this data uses. Defaults: y is last col, X is all others; a column the data does not have
+// cannot stay selected.
+function columnsFor(options: WasmSearchOptions, nCols: number): { y: number; weights: number | null; x: number[] } {
+  const exists = (c: number | null): c is number => c != null && c < nCols;
+  const y = exists(options.y_column) ? options.y_column : nCols - 1;
+  const weights = exists(options.weights_column) && options.weights_column !== y ? options.weights_column : null;
+  const x = (options.x_columns ?? Array.from({ length: nCols }, (_, i) => i)).filter(
+    (i) => i < nCols && i !== y && i !== weights
+  );
+  return { y, weights, x };
+}
+
 // A parse that fails changes nothing about a search that has begun.
 function withParseError(runtime: SearchRuntime, error: string): SearchRuntime {
   return { ...runtime, status: runtime.status === "idle" ? "error" : runtime.status, error };
@@ -194,15 +206,7 @@ export const useSessionStore = create<SessionState>((set, get) => ({
       set((s) => ({ runtime: withParseError(s.runtime, parsedRes.error) }));
       return;
     }
-    const { headers, rows } = parsedRes.parsed;
-    const nCols = rows[0]?.length ?? 0;
-
-    // Defaults: y is last col, X is all others.
-    const y = options.y_column ?? (nCols - 1);
-    const weights = options.weights_column ?? null;
-    const x =
-      options.x_columns ??
-      Array.from({ length: nCols }, (_, i) => i).filter((i) => i !== y && i !== weights);
+    const { y, weights, x } = columnsFor(options, parsedRes.parsed.rows[0].length);
 
     set({
       parsed: parsedRes.parsed,
-- 
2.43.0


From 2a5662219403e777a31bb97c14c2d38f43166aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:06 +0000
Subject: [PATCH 26/34] fix: data parsed for a search left its columns
 unselected on the data tab

---
 web/ui/src/state/sessionStore.ts | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/web/ui/src/state/sessionStore.ts b/web/ui/src/state/sessionStore.ts
index 47052a0..8ae6e2c 100644
--- a/web/ui/src/state/sessionStore.ts
+++ b/web/ui/src/state/sessionStore.ts
@@ -220,16 +220,8 @@ export const useSessionStore = create<SessionState>((set, get) => ({
   },
 
   ensureParsedForRuntime: () => {
-    const { parsed, csvText, options } = get();
-    if (parsed) return true;
-    if (!options) return false;
-    const parsedRes = parseCsvText({ csvText, hasHeaders: Boolean(options.has_headers) });
-    if (!parsedRes.ok) {
-      set((s) => ({ runtime: withParseError(s.runtime, parsedRes.error) }));
-      return false;
-    }
-    set({ parsed: parsedRes.parsed });
-    return true;
+    if (!get().parsed) get().parseCsv();
+    return Boolean(get().parsed);
   },
 
   setOptionsPatch: (patch) =>
-- 
2.43.0


From f39016f321475a16216d75addfbf88eea7c268ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:06 +0000
Subject: [PATCH 27/34] fix: the fit plot drew data edited after the search
 began and dropped its rows with gaps elsewhere

---
 .../searchSolutions/useSearchController.ts    | 20 ++++++++++++-------
 web/ui/src/state/sessionStore.ts              | 20 +++++++++++++++++--
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/web/ui/src/app/panes/searchSolutions/useSearchController.ts b/web/ui/src/app/panes/searchSolutions/useSearchController.ts
index 1505854..2f59c8e 100644
--- a/web/ui/src/app/panes/searchSolutions/useSearchController.ts
+++ b/web/ui/src/app/panes/searchSolutions/useSearchController.ts
@@ -1,5 +1,5 @@
 import { useEffect, useMemo, useRef } from "react";
-import { getParetoPoints, getSelectedSummary, useSessionStore } from "../../../state/sessionStore";
+import { getParetoPoints, getSearchedData, getSelectedSummary, useSessionStore } from "../../../state/sessionStore";
 import type { EquationSummary, SearchSnapshot, WasmEvalResult, WasmSplitIndices } from "../../../types/srTypes";
 import type { FitPlotMode } from "./types";
 
@@ -87,12 +87,16 @@ export function useSearchController(Client: { new (): SrWorkerClientLike }) {
   const best = snap?.best ?? null;
   const selectedSummary = getSelectedSummary(runtime.front, best, runtime.selectedId);
 
-  const yCol = options?.y_column ?? (parsed ? parsed.headers.length - 1 : 0);
-  const yAll = useMemo(() => (parsed ? buildYArray(parsed.rows, yCol) : []), [parsed, yCol]);
-  const xSelectedCol = options?.x_columns && options.x_columns.length > 0 ? options.x_columns[0] : null;
+  // What is plotted beside a solution is the data its search was started on, whatever has been entered since.
+  const data = runtime.data ?? null;
+  const rows = data?.rows ?? parsed?.rows ?? null;
+  const yCol = data?.yCol ?? options?.y_column ?? (parsed ? parsed.headers.length - 1 : 0);
+  const yAll = useMemo(() => (rows ? buildYArray(rows, yCol) : []), [rows, yCol]);
+  const xCols = data?.xCols ?? options?.x_columns ?? [];
+  const xSelectedCol = xCols.length > 0 ? xCols[0] : null;
   const xAll = useMemo(
-    () => (parsed && xSelectedCol != null ? buildXArray(parsed.rows, xSelectedCol) : []),
-    [parsed, xSelectedCol]
+    () => (rows && xSelectedCol != null ? buildXArray(rows, xSelectedCol) : []),
+    [rows, xSelectedCol]
   );
   const split = runtime.split;
   // This is the *requested* complexity (what the user clicked). The displayed equation may
@@ -157,6 +161,7 @@ export function useSearchController(Client: { new (): SrWorkerClientLike }) {
       onResetDone: () =>
         setRuntime({
           status: "idle",
+          data: null,
           split: null,
           snapshot: null,
           evalsPerSecond: null,
@@ -185,6 +190,7 @@ export function useSearchController(Client: { new (): SrWorkerClientLike }) {
     setRuntime({
       status: "initializing",
       error: null,
+      data: getSearchedData(csvText, options),
       split: null,
       snapshot: null,
       evalsPerSecond: null,
@@ -264,7 +270,7 @@ export function useSearchController(Client: { new (): SrWorkerClientLike }) {
   const trainYhat = evalTrain?.yhat ?? [];
   const valYhat = evalVal?.yhat ?? [];
 
-  const canCurve1d = Boolean(options?.x_columns && options.x_columns.length === 1 && parsed);
+  const canCurve1d = xCols.length === 1 && rows != null;
   const effectiveFitMode: FitPlotMode = canCurve1d ? "curve_1d" : "parity";
 
   const trainXY = useMemo(() => {
diff --git a/web/ui/src/state/sessionStore.ts b/web/ui/src/state/sessionStore.ts
index 8ae6e2c..4dda4e2 100644
--- a/web/ui/src/state/sessionStore.ts
+++ b/web/ui/src/state/sessionStore.ts
@@ -23,9 +23,17 @@ type ParsedDataset = {
   rows: number[][];
 };
 
+// What the search was started on: every row of its data, and the columns it uses.
+export type SearchedData = {
+  rows: number[][];
+  yCol: number;
+  xCols: number[];
+};
+
 type SearchRuntime = {
   status: "idle" | "initializing" | "ready" | "running" | "paused" | "done" | "error";
   error: string | null;
+  data?: SearchedData | null;
   split: WasmSplitIndices | null;
   snapshot: SearchSnapshot | null;
   evalsPerSecond: number | null;
@@ -77,7 +85,7 @@ function toggleInList(list: string[], value: string): string[] {
   return list.includes(value) ? list.filter((v) => v !== value) : [...list, value];
 }
 
-function parseCsvText(args: { csvText: string; hasHeaders: boolean }): { ok: true; parsed: ParsedDataset } | { ok: false; error: string } {
+function parseCsvText(args: { csvText: string; hasHeaders: boolean; keepAllRows?: boolean }): { ok: true; parsed: ParsedDataset } | { ok: false; error: string } {
   const res = Papa.parse(args.csvText, {
     skipEmptyLines: true,
     dynamicTyping: true
@@ -100,7 +108,7 @@ function parseCsvText(args: { csvText: string; hasHeaders: boolean }): { ok: tru
   for (const r of dataRows) {
     if (!Array.isArray(r)) continue;
     const row = r.map((v) => Number(v));
-    if (row.some((v) => !Number.isFinite(v))) continue;
+    if (!args.keepAllRows && row.some((v) => !Number.isFinite(v))) continue;
     rows.push(row);
   }
   if (rows.length === 0) return { ok: false, error: "no numeric data rows parsed" };
@@ -125,6 +133,14 @@ function columnsFor(options: WasmSearchOptions, nCols: number): { y: number; wei
   return { y, weights, x };
 }
 
+export function getSearchedData(csvText: string, options: WasmSearchOptions): SearchedData | null {
+  const res = parseCsvText({ csvText, hasHeaders: Boolean(options.has_headers), keepAllRows: true });
+  if (!res.ok) return null;
+  const { rows } = res.parsed;
+  const { y, x } = columnsFor(options, rows[0].length);
+  return { rows, yCol: y, xCols: x };
+}
+
 // A parse that fails changes nothing about a search that has begun.
 function withParseError(runtime: SearchRuntime, error: string): SearchRuntime {
   return { ...runtime, status: runtime.status === "idle" ? "error" : runtime.status, error };
-- 
2.43.0


From c5cf26f0d96cc3b8bd7d0f1f8fb60f67bec5a43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:30 +0000
Subject: [PATCH 28/34] fix: keep fit-plot predictions beside their rows when
 values are missing

The actual values were filtered before they were paired, by position, with the
predictions for all rows of the split: after a row without a finite target (or
input) every prediction was drawn beside another row's value.
---
 .../panes/searchSolutions/useSearchController.ts  | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/web/ui/src/app/panes/searchSolutions/useSearchController.ts b/web/ui/src/app/panes/searchSolutions/useSearchController.ts
index 2f59c8e..76892b6 100644
--- a/web/ui/src/app/panes/searchSolutions/useSearchController.ts
+++ b/web/ui/src/app/panes/searchSolutions/useSearchController.ts
@@ -44,21 +44,14 @@ function buildXArray(rows: number[][], xCol: number): number[] {
   return rows.map((r) => r[xCol]);
 }
 
+// One value per row of the split, so that the predictions for it stay beside their rows: the plots leave out the points
+// whose coordinates are not finite.
 function gatherByIndices(values: number[], idx: number[]): number[] {
-  return idx.map((i) => values[i]).filter((v) => Number.isFinite(v));
+  return idx.map((i) => values[i]);
 }
 
 function gatherPairsByIndices(x: number[], y: number[], idx: number[]): { x: number[]; y: number[] } {
-  const xo: number[] = [];
-  const yo: number[] = [];
-  for (const i of idx) {
-    const xv = x[i];
-    const yv = y[i];
-    if (!Number.isFinite(xv) || !Number.isFinite(yv)) continue;
-    xo.push(xv);
-    yo.push(yv);
-  }
-  return { x: xo, y: yo };
+  return { x: gatherByIndices(x, idx), y: gatherByIndices(y, idx) };
 }
 
 export function useSearchController(Client: { new (): SrWorkerClientLike }) {
-- 
2.43.0


From 08cb6cd0060c50c86ac209191e12c95e93dccea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:06 +0000
Subject: [PATCH 29/34] bench feature: views of a stepped search's populations
 and size statistics

---
 symbolic_regression/src/search_utils.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index c0c07c6..9ff4117 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -681,3 +681,15 @@ where
         total_evals,
     }
 }
+
+/// The inside of a stepped search, for verification harnesses.
+#[cfg(feature = "bench")]
+impl<T: Float + AddAssign, Ops, const D: usize> SearchEngine<T, Ops, D> {
+    pub fn populations(&self) -> impl Iterator<Item = &Population<T, Ops, D>> {
+        self.pools.pops.iter().flatten().map(|st| &st.pop)
+    }
+
+    pub fn statistics(&self) -> &RunningSearchStatistics {
+        &self.stats
+    }
+}
-- 
2.43.0


From 74d0bad25e4ff9d5a1ab775e09749c3069734185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:50 +0000
Subject: [PATCH 30/34] fix: an empty cell of a CSV is a missing value in the
 preview, not a zero

---
 web/ui/src/state/sessionStore.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/web/ui/src/state/sessionStore.ts b/web/ui/src/state/sessionStore.ts
index 4dda4e2..9b4661b 100644
--- a/web/ui/src/state/sessionStore.ts
+++ b/web/ui/src/state/sessionStore.ts
@@ -85,6 +85,12 @@ function toggleInList(list: string[], value: string): string[] {
   return list.includes(value) ? list.filter((v) => v !== value) : [...list, value];
 }
 
+// A cell that holds no number (an empty one, say) is a missing value, not a zero.
+function cellToNumber(v: unknown): number {
+  if (typeof v === "number") return v;
+  return typeof v === "string" && v.trim() !== "" ? Number(v) : NaN;
+}
+
 function parseCsvText(args: { csvText: string; hasHeaders: boolean; keepAllRows?: boolean }): { ok: true; parsed: ParsedDataset } | { ok: false; error: string } {
   const res = Papa.parse(args.csvText, {
     skipEmptyLines: true,
@@ -107,7 +113,7 @@ function parseCsvText(args: { csvText: string; hasHeaders: boolean; keepAllRows?
   const rows: number[][] = [];
   for (const r of dataRows) {
     if (!Array.isArray(r)) continue;
-    const row = r.map((v) => Number(v));
+    const row = r.map(cellToNumber);
     if (!args.keepAllRows && row.some((v) => !Number.isFinite(v))) continue;
     rows.push(row);
   }
-- 
2.43.0


From 6c44a584486d5757dfa287fa9fac3b3e543a36f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:55 +0000
Subject: [PATCH 31/34] bench feature: export the two phases of an iteration

---
 symbolic_regression/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/symbolic_regression/src/lib.rs b/symbolic_regression/src/lib.rs
index a3133ba..caf7f11 100644
--- a/symbolic_regression/src/lib.rs
+++ b/symbolic_regression/src/lib.rs
@@ -57,6 +57,7 @@ pub use {
     population::Population,
     regularized_evolution::{RegEvolCtx, reg_evol_cycle},
     selection::best_of_sample,
+    single_iteration::{IterationCtx, optimize_and_simplify_population, s_r_cycle},
 };
 
 #[cfg(test)]
-- 
2.43.0


From 882ae2b7ec271a3f10a1934ca61b99b693d19c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:22 +0000
Subject: [PATCH 32/34] fix: count the evaluation of a child that is rejected
 for its result

---
 symbolic_regression/src/mutate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic_regression/src/mutate.rs b/symbolic_regression/src/mutate.rs
index feacc5a..1db4315 100644
--- a/symbolic_regression/src/mutate.rs
+++ b/symbolic_regression/src/mutate.rs
@@ -396,7 +396,7 @@ where
         reject.complexity = member.complexity;
         reject.loss = member.loss;
         reject.cost = member.cost;
-        return (reject, false, 0.0);
+        return (reject, false, evals);
     }
 
     let mut prob = 1.0f64;
-- 
2.43.0


From b86d20acb2165de6924d0e024ec2fe1a79b1ce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:48 +0000
Subject: [PATCH 33/34] fix: hand the page its default search options as an
 object

With serde's flatten the options serialize as a map, which serde_wasm_bindgen
turns into a JavaScript Map. Spreading it into the page's options gave none of
the dataset and loss settings, so the page parsed a file without its header
row while the search read it with one.
---
 web/wasm/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/web/wasm/src/lib.rs b/web/wasm/src/lib.rs
index d78c4ce..5183931 100644
--- a/web/wasm/src/lib.rs
+++ b/web/wasm/src/lib.rs
@@ -8,7 +8,7 @@ use dynamic_expressions::{EvalOptions, OpId, OperatorSet, eval_plan_array_into};
 use fastrand::Rng;
 use ndarray::{Array1, Array2};
 use serde::{Deserialize, Serialize};
-use serde_wasm_bindgen::{from_value, to_value};
+use serde_wasm_bindgen::{Serializer, from_value, to_value};
 use symbolic_regression::{Dataset, LossKind, Operators, Options, SearchEngine, WasmOptionsShim};
 use wasm_bindgen::prelude::*;
 
@@ -63,7 +63,9 @@ pub fn builtin_operator_registry() -> Result<JsValue, JsValue> {
 #[wasm_bindgen]
 pub fn default_search_options() -> Result<JsValue, JsValue> {
     let opts = WasmSearchOptions::default();
-    to_value(&opts).map_err(|e| JsValue::from_str(&e.to_string()))
+    // The flattened core makes this a map to serde; the page needs an object to read the options from.
+    opts.serialize(&Serializer::json_compatible())
+        .map_err(|e| JsValue::from_str(&e.to_string()))
 }
 
 #[wasm_bindgen]
-- 
2.43.0


From 590cd3b78eef236dade43e92e1d62251accaa428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:48 +0000
Subject: [PATCH 34/34] fix: refuse search options that cannot be read

One value of the wrong kind (a population size of 2.5, a column of -1) made a
session drop every option it was given, column roles and loss included, and
search with the defaults. Only options that are not given mean the defaults.
---
 web/wasm/src/lib.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/web/wasm/src/lib.rs b/web/wasm/src/lib.rs
index 5183931..17e82fe 100644
--- a/web/wasm/src/lib.rs
+++ b/web/wasm/src/lib.rs
@@ -7,6 +7,7 @@ use dynamic_expressions::utils::ZipEq;
 use dynamic_expressions::{EvalOptions, OpId, OperatorSet, eval_plan_array_into};
 use fastrand::Rng;
 use ndarray::{Array1, Array2};
+use serde::de::DeserializeOwned;
 use serde::{Deserialize, Serialize};
 use serde_wasm_bindgen::{Serializer, from_value, to_value};
 use symbolic_regression::{Dataset, LossKind, Operators, Options, SearchEngine, WasmOptionsShim};
@@ -191,13 +192,11 @@ impl WasmSearch {
         binary_tokens: JsValue,
         ternary_tokens: JsValue,
     ) -> Result<WasmSearch, JsValue> {
-        let opts: WasmSearchOptions = from_value(opts)
-            .or_else(|_| Ok::<WasmSearchOptions, serde_wasm_bindgen::Error>(WasmSearchOptions::default()))
-            .map_err(|e| JsValue::from_str(&e.to_string()))?;
+        let opts: WasmSearchOptions = value_or_default(opts, "options")?;
 
-        let unary: Vec<String> = from_value(unary_tokens).unwrap_or_default();
-        let binary: Vec<String> = from_value(binary_tokens).unwrap_or_default();
-        let ternary: Vec<String> = from_value(ternary_tokens).unwrap_or_default();
+        let unary: Vec<String> = value_or_default(unary_tokens, "unary operators")?;
+        let binary: Vec<String> = value_or_default(binary_tokens, "binary operators")?;
+        let ternary: Vec<String> = value_or_default(ternary_tokens, "ternary operators")?;
         let unary_refs: Vec<&str> = unary.iter().map(|s| s.as_str()).collect();
         let binary_refs: Vec<&str> = binary.iter().map(|s| s.as_str()).collect();
         let ternary_refs: Vec<&str> = ternary.iter().map(|s| s.as_str()).collect();
@@ -278,6 +277,14 @@ impl WasmSearch {
     }
 }
 
+/// The default stands for a value that is not given, never for one that cannot be read.
+fn value_or_default<T: Default + DeserializeOwned>(value: JsValue, what: &str) -> Result<T, JsValue> {
+    if value.is_undefined() || value.is_null() {
+        return Ok(T::default());
+    }
+    from_value(value).map_err(|e| JsValue::from_str(&format!("invalid {what}: {e}")))
+}
+
 fn options_from_wasm(opts: &WasmSearchOptions, operators: Operators<3>) -> Result<Options<f64, 3>, JsValue> {
     let loss_kind = match opts.loss_kind.trim().to_ascii_lowercase().as_str() {
         "mse" => LossKind::Mse,
-- 
2.43.0

