From 94415d0365dc18f0d5aa176199eb4e81bb49eb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:44 +0000
Subject: [PATCH 01/54] fix: MKL matrix-vector products with a matrix that has
 no entries

MKL rejects products with an empty matrix and leaves the output untouched, so
Axpy/Atxpy returned stale (or uninitialised) data instead of beta*y. The
indirect solver then used (1 instead of sigma)*x for problems with P = 0 and
did not converge, and polishing could return NaN multipliers when A = 0.
---
 algebra/mkl/matrix.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/algebra/mkl/matrix.c b/algebra/mkl/matrix.c
index 3c4e6d1..1d1f0f4 100644
--- a/algebra/mkl/matrix.c
+++ b/algebra/mkl/matrix.c
@@ -209,6 +209,19 @@ void OSQPMatrix_extract_diag(const OSQPMatrix*  A,
 }
 
 //y = alpha*A*x + beta*y
+/* MKL gives no usable handle for a matrix without entries (products with it are rejected with
+   SPARSE_STATUS_NOT_INITIALIZED and leave y untouched), so compute y = beta*y here instead. */
+static OSQPInt empty_matrix_product(const OSQPMatrix*  A,
+                                          OSQPVectorf* y,
+                                          OSQPFloat    beta) {
+  if (OSQPMatrix_get_nz(A) > 0) return 0;
+
+  if (beta == 0.0) OSQPVectorf_set_scalar(y, 0.0);
+  else             OSQPVectorf_mult_scalar(y, beta);
+
+  return 1;
+}
+
 void OSQPMatrix_Axpy(const OSQPMatrix*  A,
                      const OSQPVectorf* x,
                            OSQPVectorf* y,
@@ -217,6 +230,8 @@ void OSQPMatrix_Axpy(const OSQPMatrix*  A,
 
   struct matrix_descr descr;
 
+  if (empty_matrix_product(A, y, beta)) return;
+
   if(A->symmetry == NONE){
     descr.type = SPARSE_MATRIX_TYPE_GENERAL;
 
@@ -241,6 +256,8 @@ void OSQPMatrix_Atxpy(const OSQPMatrix*  A,
                             OSQPFloat    beta) {
   struct matrix_descr descr;
 
+  if (empty_matrix_product(A, y, beta)) return;
+
   if(A->symmetry == NONE){
     descr.type = SPARSE_MATRIX_TYPE_GENERAL;
 
-- 
2.43.0


From 29f55b315bbeb04e89fd0a140895e6323ac409df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:58 +0000
Subject: [PATCH 02/54] fix: report the iteration that hit the time limit, not
 an earlier one

The time limit check left can_check_termination from the previous iteration,
so residuals and objective of an earlier iterate could be reported (or none
recomputed), and counted one iteration less than performed.
---
 src/osqp_api.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 57b5924..22a65dd 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -755,6 +755,11 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
       if (settings->verbose) c_print("run time limit reached\n");
       can_print = 0;  // Not printing at this iteration
 # endif /* ifdef OSQP_ENABLE_PRINTING */
+
+      // The information still has to be computed for this iteration
+      // (after the loop, iter is one past the last iteration performed)
+      can_check_termination = 0;
+      iter++;
       break;
     }
 #endif /* ifdef OSQP_ENABLE_PROFILING */
-- 
2.43.0


From d7267a28be232afa522d0c2d7722c70bec474642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:03 +0000
Subject: [PATCH 03/54] fix: keep rel_kkt_error of the returned point when
 polishing fails

---
 src/auxil.c  | 5 ++++-
 src/polish.c | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/auxil.c b/src/auxil.c
index fbca9f4..286e772 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -754,7 +754,10 @@ void update_info(OSQPSolver* solver,
 #endif /* ifdef OSQP_ENABLE_PROFILING */
 
   // Compute the relative KKT error
-  info->rel_kkt_error = c_max( c_max(*dual_res, *prim_res), *dual_gap);
+  // (for a polished point it is only known once that point has been accepted)
+  if (!polishing) {
+    info->rel_kkt_error = c_max( c_max(*dual_res, *prim_res), *dual_gap);
+  }
 
 #ifdef OSQP_ENABLE_PRINTING
   work->summary_printed = 0; // The just updated info have not been printed
diff --git a/src/polish.c b/src/polish.c
index f66a0a0..4978de0 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -481,6 +481,7 @@ OSQPInt polish(OSQPSolver* solver) {
     info->duality_gap   = work->pol->duality_gap;
     info->prim_res      = work->pol->prim_res;
     info->dual_res      = work->pol->dual_res;
+    info->rel_kkt_error = c_max(c_max(info->dual_res, info->prim_res), info->duality_gap);
     info->status_polish = OSQP_POLISH_SUCCESS;
 
     // Update (x, z, y) in ADMM iterations
-- 
2.43.0


From 9e2e92c977ef87fc38ee83568bb593b68a913eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:59 +0000
Subject: [PATCH 04/54] fix: start every solve with fresh status, polish,
 timing and step-size information

A second osqp_solve on the same solver kept the previous status, so stopping at
max_iter was reported as the previous outcome; the polish status and time, the
number of rho updates, the primal-dual integral and the reference KKT error of
the previous solve were carried over as well.
---
 src/osqp_api.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 22a65dd..16a16b9 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -664,6 +664,12 @@ OSQPInt osqp_solve(OSQPSolver *solver) {
   // Initialize variables
   exitflag              = 0;
   can_check_termination = 0;
+
+  // Do not carry over results of a previous solve
+  reset_info(solver->info);
+  solver->info->status_polish = OSQP_POLISH_NOT_PERFORMED;
+  solver->info->primdual_int  = 0.0;
+  work->last_rel_kkt          = OSQP_INFTY;
 #ifdef OSQP_ENABLE_PRINTING
   can_print = settings->verbose;
 #endif /* ifdef OSQP_ENABLE_PRINTING */
-- 
2.43.0


From 70d7650f8875d61fbe948646abf38e293ddc3ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:29 +0000
Subject: [PATCH 05/54] fix: retrieving the solution does not change the solver

Storing the (absent) solution of an infeasible problem overwrote the iterates
and cold-started the solver, so a later osqp_get_solution discarded a warm
start, and repeated calls renormalised the certificate. Certificates of a solve
that ends as non convex were left unset.
---
 src/auxil.c    | 43 +++++++++++++++++++------------------------
 src/osqp_api.c |  3 +++
 2 files changed, 22 insertions(+), 24 deletions(-)

diff --git a/src/auxil.c b/src/auxil.c
index 286e772..e7154e5 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -625,22 +625,23 @@ void store_solution(OSQPSolver *solver, OSQPSolution* solution) {
           OSQPVectorf_to_raw(solution->y, work->y); // dual
       }
       /* Set infeasibility certificates to NaN */
-      OSQPVectorf_set_scalar(work->delta_y, OSQP_NAN);
-      OSQPVectorf_set_scalar(work->delta_x, OSQP_NAN);
-      OSQPVectorf_to_raw(solution->prim_inf_cert, work->delta_y);
-      OSQPVectorf_to_raw(solution->dual_inf_cert, work->delta_x);
+      OSQPVectorf_set_scalar(work->z_prev, OSQP_NAN);
+      OSQPVectorf_set_scalar(work->x_prev, OSQP_NAN);
+      OSQPVectorf_to_raw(solution->prim_inf_cert, work->z_prev);
+      OSQPVectorf_to_raw(solution->dual_inf_cert, work->x_prev);
   }
 
   else {
 
-    // No solution present. Solution is NaN
-    OSQPVectorf_set_scalar(work->x, OSQP_NAN);
-    OSQPVectorf_set_scalar(work->y, OSQP_NAN);
-    OSQPVectorf_to_raw(solution->x, work->x); // primal
-    OSQPVectorf_to_raw(solution->y, work->y); // dual
-
-    // reset iterates to 0 for next run (they cannot start from NaN)
-    osqp_cold_start(solver);
+    // No solution present. Solution is NaN, and so are the certificates
+    // unless there is one
+    // (x_prev and z_prev are used as scratch space)
+    OSQPVectorf_set_scalar(work->x_prev, OSQP_NAN);
+    OSQPVectorf_set_scalar(work->z_prev, OSQP_NAN);
+    OSQPVectorf_to_raw(solution->x, work->x_prev); // primal
+    OSQPVectorf_to_raw(solution->y, work->z_prev); // dual
+    OSQPVectorf_to_raw(solution->prim_inf_cert, work->z_prev);
+    OSQPVectorf_to_raw(solution->dual_inf_cert, work->x_prev);
 
 
 #ifndef OSQP_EMBEDDED_MODE
@@ -650,23 +651,17 @@ void store_solution(OSQPSolver *solver, OSQPSolution* solution) {
     if ((info->status_val == OSQP_PRIMAL_INFEASIBLE) ||
         ((info->status_val == OSQP_PRIMAL_INFEASIBLE_INACCURATE))) {
       norm_vec = OSQPVectorf_norm_inf(work->delta_y);
-      OSQPVectorf_mult_scalar(work->delta_y, 1. / norm_vec);
-      OSQPVectorf_to_raw(solution->prim_inf_cert, work->delta_y);
-
-      /* Set dual infeasibility certificate to NaN */
-      OSQPVectorf_set_scalar(work->delta_x, OSQP_NAN);
-      OSQPVectorf_to_raw(solution->dual_inf_cert, work->delta_x);
+      OSQPVectorf_copy(work->z_prev, work->delta_y);
+      OSQPVectorf_mult_scalar(work->z_prev, 1. / norm_vec);
+      OSQPVectorf_to_raw(solution->prim_inf_cert, work->z_prev);
     }
 
     if ((info->status_val == OSQP_DUAL_INFEASIBLE) ||
         ((info->status_val == OSQP_DUAL_INFEASIBLE_INACCURATE))) {
       norm_vec = OSQPVectorf_norm_inf(work->delta_x);
-      OSQPVectorf_mult_scalar(work->delta_x, 1. / norm_vec);
-      OSQPVectorf_to_raw(solution->dual_inf_cert, work->delta_x);
-
-      /* Set primal infeasibility certificate to NaN */
-      OSQPVectorf_set_scalar(work->delta_y, OSQP_NAN);
-      OSQPVectorf_to_raw(solution->prim_inf_cert, work->delta_y);
+      OSQPVectorf_copy(work->x_prev, work->delta_x);
+      OSQPVectorf_mult_scalar(work->x_prev, 1. / norm_vec);
+      OSQPVectorf_to_raw(solution->dual_inf_cert, work->x_prev);
     }
 
 #endif /* ifndef OSQP_EMBEDDED_MODE */
diff --git a/src/osqp_api.c b/src/osqp_api.c
index 16a16b9..b247f0b 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1033,6 +1033,9 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
   // Store solution
   store_solution(solver, solver->solution);
 
+  // Without a solution the next run cannot start from these iterates
+  if (!has_solution(solver->info)) osqp_cold_start(solver);
+
 // Define exit flag for quitting function
 #if defined(OSQP_ENABLE_PROFILING) || defined(OSQP_ENABLE_INTERRUPT) || OSQP_EMBEDDED_MODE != 1
 exit:
-- 
2.43.0


From 571e1e691bac7c2fa52c278466f457a5a6de3ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:35 +0000
Subject: [PATCH 06/54] fix: regularise the right entries when updating P in a
 CSR-format KKT matrix

update_KKT_P looked for the diagonal of P at the first entry of a column when
the KKT matrix is stored by rows (Pardiso), although P is stored by columns.
After osqp_update_data_mat with off-diagonal entries in P, sigma was missing
from diagonal entries, or added to off-diagonal ones.
---
 algebra/_common/kkt.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/algebra/_common/kkt.c b/algebra/_common/kkt.c
index c4f33a1..3bed039 100644
--- a/algebra/_common/kkt.c
+++ b/algebra/_common/kkt.c
@@ -353,14 +353,16 @@ void update_KKT_P(OSQPCscMatrix* KKT,
                   OSQPInt*       PtoKKT,
                   OSQPFloat      param1,
                   OSQPInt        format) {
-  OSQPInt j, Pidx, Kidx, row, offset, doall;
+  OSQPInt j, Pidx, Kidx, row, doall;
+
+  //P itself is triu CSC (diagonal last in its column) whatever the KKT format
+  (void) format;
 
   if(P_new_n <= 0){return;}
 
   //if Px_new_idx is null, we assume that all
   //elements are to be replaced (and that P_new_n = nnz(P))
   doall  = Px_new_idx == OSQP_NULL ? 1 : 0;
-  offset = format == 0 ? 1 : 0;
 
   for (j = 0; j < P_new_n; j++) {
     Pidx = doall ? j : Px_new_idx[j];
@@ -370,7 +372,7 @@ void update_KKT_P(OSQPCscMatrix* KKT,
     //is the corresonding column nonempty with
     //the current element on the diagonal (i.e. row==col)?
     row  = P->i[Pidx];
-    if((P->p[row] < P->p[row+1]) && ((P->p[row+offset] - offset) == Pidx)){
+    if((P->p[row] < P->p[row+1]) && ((P->p[row+1] - 1) == Pidx)){
       KKT->x[Kidx] += param1;
     }
   }
-- 
2.43.0


From 01aab6819779af760ee7bf300144c5afb88c537b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:37 +0000
Subject: [PATCH 07/54] fix: print nothing when verbose is off

---
 src/osqp_api.c | 4 +++-
 src/polish.c   | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index b247f0b..887520c 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -736,7 +736,9 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
     // Check the interrupt signal
     if (osqp_is_interrupted()) {
       update_status(solver->info, OSQP_SIGINT);
-      c_print("Solver interrupted\n");
+#ifdef OSQP_ENABLE_PRINTING
+      if (settings->verbose) c_print("Solver interrupted\n");
+#endif /* ifdef OSQP_ENABLE_PRINTING */
       exitflag = 1;
       goto exit;
     }
diff --git a/src/polish.c b/src/polish.c
index 4978de0..8578189 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -342,7 +342,10 @@ OSQPInt polish(OSQPSolver* solver) {
     return exitflag;
   } else if (work->pol->n_active == 0) {
     /* No active constraints, so skip polishing */
-    c_print("Polishing not needed - no active set detected at optimal point\n");
+#ifdef OSQP_ENABLE_PRINTING
+    if (settings->verbose)
+      c_print("Polishing not needed - no active set detected at optimal point\n");
+#endif /* ifdef OSQP_ENABLE_PRINTING */
     info->status_polish = OSQP_POLISH_NO_ACTIVE_SET_FOUND;
 
     /* Memory clean-up */
-- 
2.43.0


From 5f2a1bebb2689365c1499c2f20aab9c52773eb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:42 +0000
Subject: [PATCH 08/54] fix: make the primal-dual integral independent of
 printing

---
 src/auxil.c    |  5 -----
 src/osqp_api.c | 11 +++++++++++
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/auxil.c b/src/auxil.c
index e7154e5..5ffdaaf 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -738,11 +738,6 @@ void update_info(OSQPSolver* solver,
   // Compute the objective and duality gap, store various temp values in work
   compute_obj_val_dual_gap(solver, x, y, prim_obj_val, dual_obj_val, dual_gap);
 
-  // Compute the duality gap integral
-  if (!polishing) {
-    info->primdual_int += c_absval(*dual_gap);
-  }
-
   // Update timing
 #ifdef OSQP_ENABLE_PROFILING
   *run_time = osqp_toc(work->timer);
diff --git a/src/osqp_api.c b/src/osqp_api.c
index 887520c..2433a54 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -641,6 +641,7 @@ OSQPInt osqp_solve(OSQPSolver *solver) {
   OSQPInt can_print = 0;             // boolean, whether to print or not
   OSQPInt can_adapt_rho = 0;         // boolean, adapt rho or not
   OSQPInt can_check_termination = 0; // boolean, check termination or not
+  OSQPInt pdint_sampled = 0;         // last iteration sampled in the primal-dual integral
 
   OSQPWorkspace* work;
   OSQPSettings*  settings;
@@ -867,6 +868,12 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
       //   (We always update info in the first iteration because indirect solvers
       //    use residual values to compute required accuracy of their solution.)
       update_info(solver, iter, 0);
+
+      // Sample the primal-dual integral, independently of what is printed
+      if (can_check_termination || can_adapt_rho || iter == 1) {
+        solver->info->primdual_int += c_absval(solver->info->duality_gap);
+        pdint_sampled = iter;
+      }
     }
 
     // Check algorithm termination if desired
@@ -933,6 +940,10 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
     update_info(solver, iter - 1, 0);
 #endif /* ifdef OSQP_ENABLE_PRINTING */
 
+    // Sample the primal-dual integral at the last iteration as well
+    if (pdint_sampled != iter - 1)
+      solver->info->primdual_int += c_absval(solver->info->duality_gap);
+
 #ifdef OSQP_ENABLE_PRINTING
 
     /* Print summary */
-- 
2.43.0


From a3178a58aa2b3f174528d2149226bba18598ba28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:09 +0000
Subject: [PATCH 09/54] fix: leave the solver consistent when a solve is
 interrupted or a step of it fails

---
 src/osqp_api.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 2433a54..bc91207 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -736,6 +736,8 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
 
     // Check the interrupt signal
     if (osqp_is_interrupted()) {
+      // Report the current iterate
+      update_info(solver, iter, 0);
       update_status(solver->info, OSQP_SIGINT);
 #ifdef OSQP_ENABLE_PRINTING
       if (settings->verbose) c_print("Solver interrupted\n");
@@ -1008,12 +1010,17 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
     osqp_profiler_sec_pop(OSQP_PROFILER_SEC_POLISH);
 
     if (exitflag > 0) {
+      // The solution before polishing is still returned
       c_eprint("Failed polishing");
-      goto exit;
     }
   }
 #endif /* ifndef OSQP_EMBEDDED_MODE */
 
+// Define exit flag for quitting function
+#if defined(OSQP_ENABLE_PROFILING) || defined(OSQP_ENABLE_INTERRUPT) || OSQP_EMBEDDED_MODE != 1
+exit:
+#endif /* if defined(OSQP_ENABLE_PROFILING) || defined(OSQP_ENABLE_INTERRUPT) || OSQP_EMBEDDED_MODE != 1 */
+
 #ifdef OSQP_ENABLE_PROFILING
   /* Update total time */
   if (work->first_run) {
@@ -1040,7 +1047,7 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
 
 #ifdef OSQP_ENABLE_PRINTING
   /* Print final footer */
-  if (settings->verbose) print_footer(solver->info, settings->polishing);
+  if (settings->verbose && !exitflag) print_footer(solver->info, settings->polishing);
 #endif /* ifdef OSQP_ENABLE_PRINTING */
 
   // Store solution
@@ -1049,11 +1056,6 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
   // Without a solution the next run cannot start from these iterates
   if (!has_solution(solver->info)) osqp_cold_start(solver);
 
-// Define exit flag for quitting function
-#if defined(OSQP_ENABLE_PROFILING) || defined(OSQP_ENABLE_INTERRUPT) || OSQP_EMBEDDED_MODE != 1
-exit:
-#endif /* if defined(OSQP_ENABLE_PROFILING) || defined(OSQP_ENABLE_INTERRUPT) || OSQP_EMBEDDED_MODE != 1 */
-
 #ifdef OSQP_ENABLE_INTERRUPT
   // Restore previous signal handler
   osqp_end_interrupt_listener();
-- 
2.43.0


From 9d98e03359de986be95a39df95279325f2877f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:18 +0000
Subject: [PATCH 10/54] fix: check the solver before using it in
 osqp_update_settings

---
 src/osqp_api.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index bc91207..f2d71bc 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1503,10 +1503,11 @@ OSQPInt osqp_update_rho(OSQPSolver* solver,
 OSQPInt osqp_update_settings(OSQPSolver*         solver,
                              const OSQPSettings* new_settings) {
 
-  OSQPSettings* settings = solver->settings;
+  OSQPSettings* settings;
 
   /* Check if workspace has been initialized */
   if (!solver || !solver->work) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
+  settings = solver->settings;
 
   /* Validate settings */
   if (validate_settings(new_settings, 0)) return osqp_error(OSQP_SETTINGS_VALIDATION_ERROR);
-- 
2.43.0


From 04eb4f5aba548161c40ecb2e952ab48f73bfbffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:23 +0000
Subject: [PATCH 11/54] fix: use the clamped step size for the inverse of a
 scalar rho

---
 src/osqp_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index f2d71bc..fd410f2 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -493,7 +493,7 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   }
   else {
     solver->settings->rho = c_min(c_max(settings->rho, OSQP_RHO_MIN), OSQP_RHO_MAX);
-    work->rho_inv = 1. / settings->rho;
+    work->rho_inv = 1. / solver->settings->rho;
   }
 
   // Initialize linear system solver structure
-- 
2.43.0


From e8e186ee14b26152d08669182ebc16bf59af701f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:28 +0000
Subject: [PATCH 12/54] fix: keep the time-based interval of the rho updates at
 least at check_termination

---
 src/osqp_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index fd410f2..382af08 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -824,7 +824,7 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
           }
 
           // Make sure the interval is not 0 and at least check_termination times
-          settings->adaptive_rho_interval = c_min(1, c_max(settings->adaptive_rho_interval,
+          settings->adaptive_rho_interval = c_max(1, c_max(settings->adaptive_rho_interval,
                                                            settings->check_termination));
         }
         else
-- 
2.43.0


From 3b35e56d41ef9e510dc8b63982449b587106c646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:33 +0000
Subject: [PATCH 13/54] fix: do not validate the ignored adaptive_rho when
 updating settings

---
 src/auxil.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auxil.c b/src/auxil.c
index 5ffdaaf..998a3c3 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -1121,8 +1121,8 @@ OSQPInt validate_settings(const OSQPSettings* settings,
   }
 
   if (from_setup &&
-      settings->adaptive_rho < 0 ||
-      settings->adaptive_rho >= _OSQP_ADAPTIVE_RHO_UPDATE_LAST_VALUE) {
+      (settings->adaptive_rho < 0 ||
+       settings->adaptive_rho >= _OSQP_ADAPTIVE_RHO_UPDATE_LAST_VALUE)) {
     c_eprint("adaptive_rho not a valid choice");
     return 1;
   }
-- 
2.43.0


From 5fe4722d1fa82b894e483687e071ee9990898bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:37 +0000
Subject: [PATCH 14/54] fix: refuse missing constraint bounds at setup

---
 src/auxil.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/auxil.c b/src/auxil.c
index 998a3c3..ecd0f19 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -998,6 +998,11 @@ OSQPInt validate_data(const OSQPCscMatrix* P,
   }
 
   // Lower and upper bounds
+  if (m > 0 && (!l || !u)) {
+    c_eprint("Missing constraint bounds");
+    return 1;
+  }
+
   for (j = 0; j < m; j++) {
     if (l[j] > u[j]) {
       c_eprint("Lower bound at index %d is greater than upper bound: %.4e > %.4e",
-- 
2.43.0


From bb21960e711ce1f5e4763d41c78ff9aafa9b606b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:03 +0000
Subject: [PATCH 15/54] fix: error messages for codes below the first error

---
 src/osqp_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 382af08..073bbc6 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -240,7 +240,7 @@ const char* osqp_version(void) {
 
 
 const char* osqp_error_message(OSQPInt error_flag) {
-  if( error_flag >= OSQP_LAST_ERROR_PLACE ) {
+  if( error_flag <= OSQP_NO_ERROR || error_flag >= OSQP_LAST_ERROR_PLACE ) {
     return OSQP_ERROR_MESSAGE[OSQP_LAST_ERROR_PLACE-1];
   }
 
-- 
2.43.0


From 7bff3ab54c87ea312e51aa66851784172c2a998c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:26 +0000
Subject: [PATCH 16/54] fix: a refused update of the bounds leaves the
 infeasibility certificate intact

---
 src/osqp_api.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 073bbc6..111b98a 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1236,9 +1236,10 @@ OSQPInt osqp_update_data_vec(OSQPSolver*      solver,
 
   /* Update constraint bounds */
   if (l_new || u_new) {
-    /* Use z_prev and delta_y to store l_new and u_new */
+    /* Use z_prev and Ax to store l_new and u_new
+     * (delta_y may hold a certificate that can still be retrieved) */
     l_tmp = work->z_prev;
-    u_tmp = work->delta_y;
+    u_tmp = work->Ax;
 
     /* Copy l_new and u_new to l_tmp and u_tmp */
     if (l_new) OSQPVectorf_from_raw(l_tmp, l_new);
@@ -1256,9 +1257,9 @@ OSQPInt osqp_update_data_vec(OSQPSolver*      solver,
       if (exitflag) return osqp_error(OSQP_DATA_VALIDATION_ERROR);
 
       /* Swap vectors.
-       * NB: Use work->z_prev & delta_y rather than l_tmp & u_tmp */
+       * NB: Use work->z_prev & Ax rather than l_tmp & u_tmp */
       if (l_new) swap_vectors(&work->z_prev,  &work->data->l);
-      if (u_new) swap_vectors(&work->delta_y, &work->data->u);
+      if (u_new) swap_vectors(&work->Ax, &work->data->u);
 
 #if OSQP_EMBEDDED_MODE != 1
       /* Update rho_vec and refactor if constraints type changes */
-- 
2.43.0


From 9c9c6de7bb00a123135ddd173d6e3ad1aeabcb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:20 +0000
Subject: [PATCH 17/54] fix: let the indirect MKL solver work with a scalar rho

---
 algebra/mkl/lin_sys/indirect/mkl-cg_interface.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index de14930..62fcc85 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -107,11 +107,12 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   s->scaled_prim_res = scaled_prim_res;
   s->scaled_dual_res = scaled_dual_res;
 
-  //if polish is false, use the rho_vec we get.
+  //if polish is false, use the rho_vec we get (or the scalar rho if there is none).
   //Otherwise, use rho_vec = ones.*(1/sigma)
   s->rho_vec = OSQPVectorf_malloc(m);
   if (!polish) {
-      OSQPVectorf_copy(s->rho_vec, rho_vec);
+      if (rho_vec) OSQPVectorf_copy(s->rho_vec, rho_vec);
+      else         OSQPVectorf_set_scalar(s->rho_vec, settings->rho);
   } else {
       OSQPVectorf_set_scalar(s->rho_vec, 1/settings->sigma);
   }
@@ -364,7 +365,8 @@ OSQPInt update_matrices_linsys_mklcg(mklcg_solver*     s,
 OSQPInt update_rho_linsys_mklcg(mklcg_solver*    s,
                               const OSQPVectorf* rho_vec,
                               OSQPFloat          rho_sc) {
-  OSQPVectorf_copy(s->rho_vec, rho_vec);
+  if (rho_vec) OSQPVectorf_copy(s->rho_vec, rho_vec);
+  else         OSQPVectorf_set_scalar(s->rho_vec, rho_sc);
 
   // Update the preconditioner (rho-only update)
   cg_update_precond(s);
-- 
2.43.0


From eabbc21c8d60485ff731d1741078d96ebad03216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:30 +0000
Subject: [PATCH 18/54] fix: keep the iterates in the caller's units when a
 matrix update changes the scaling

---
 src/osqp_api.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 111b98a..50587b1 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1399,7 +1399,13 @@ OSQPInt osqp_update_data_mat(OSQPSolver*      solver,
     A_new_n = nnzA;
   }
 
-  if (solver->settings->scaling) unscale_data(solver);
+  if (solver->settings->scaling) {
+    // Keep the iterates in the user's units, the scaling is about to change
+    unscale_solution(work->x, work->y, work->x, work->y, work);
+    OSQPVectorf_ew_prod(work->z, work->z, work->scaling->Einv);
+
+    unscale_data(solver);
+  }
 
   if (Px_new){
     OSQPMatrix_update_values(work->data->P, Px_new, Px_new_idx, P_new_n);
@@ -1408,7 +1414,15 @@ OSQPInt osqp_update_data_mat(OSQPSolver*      solver,
     OSQPMatrix_update_values(work->data->A, Ax_new, Ax_new_idx, A_new_n);
   }
 
-  if (solver->settings->scaling) scale_data(solver);
+  if (solver->settings->scaling) {
+    scale_data(solver);
+
+    // Apply the new scaling to the iterates
+    OSQPVectorf_ew_prod(work->x, work->x, work->scaling->Dinv);
+    OSQPVectorf_ew_prod(work->z, work->z, work->scaling->E);
+    OSQPVectorf_ew_prod(work->y, work->y, work->scaling->Einv);
+    OSQPVectorf_mult_scalar(work->y, work->scaling->c);
+  }
 
   // Update linear system structure with new data.
   // If there is scaling, then a full update is needed.
-- 
2.43.0


From cce1f3620b611420cece0e2d3eef198d16fd04a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:22 +0000
Subject: [PATCH 19/54] fix: use the delta setting to regularise the polishing
 system

---
 algebra/_common/lin_sys/qdldl/qdldl_interface.c | 2 +-
 algebra/mkl/lin_sys/direct/pardiso_interface.c  | 2 +-
 algebra/mkl/lin_sys/indirect/mkl-cg_interface.c | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/algebra/_common/lin_sys/qdldl/qdldl_interface.c b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
index 6af6385..6ec74e9 100644
--- a/algebra/_common/lin_sys/qdldl/qdldl_interface.c
+++ b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
@@ -226,7 +226,7 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
     OSQPInt    m, n;      // Dimensions of A
     OSQPInt    n_plus_m;  // Define n_plus_m dimension
     OSQPFloat* rhov;      // used for direct access to rho_vec data when polishing=false
-    OSQPFloat  sigma = settings->sigma;
+    OSQPFloat  sigma = polishing ? settings->delta : settings->sigma;
 
     // Allocate private structure to store KKT factorization
     qdldl_solver* s = c_calloc(1, sizeof(qdldl_solver));
diff --git a/algebra/mkl/lin_sys/direct/pardiso_interface.c b/algebra/mkl/lin_sys/direct/pardiso_interface.c
index e207116..0479c78 100644
--- a/algebra/mkl/lin_sys/direct/pardiso_interface.c
+++ b/algebra/mkl/lin_sys/direct/pardiso_interface.c
@@ -77,7 +77,7 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   OSQPInt    n_plus_m;  // n_plus_m dimension
   OSQPFloat* rhov;      // used for direct access to rho_vec data when polishing=false
 
-  OSQPFloat sigma = settings->sigma;
+  OSQPFloat sigma = polishing ? settings->delta : settings->sigma;
 
   // Allocate private structure to store KKT factorization
   pardiso_solver *s = c_calloc(1, sizeof(pardiso_solver));
diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index 62fcc85..25d80a3 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -99,7 +99,7 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   //data, no copies or processing required
   s->P       = *(OSQPMatrix**)(&P);
   s->A       = *(OSQPMatrix**)(&A);
-  s->sigma   = settings->sigma;
+  s->sigma   = polish ? settings->delta : settings->sigma;
   s->polish  = polish;
   s->m       = m;
   s->n       = n;
@@ -108,13 +108,13 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   s->scaled_dual_res = scaled_dual_res;
 
   //if polish is false, use the rho_vec we get (or the scalar rho if there is none).
-  //Otherwise, use rho_vec = ones.*(1/sigma)
+  //Otherwise, use rho_vec = ones.*(1/delta)
   s->rho_vec = OSQPVectorf_malloc(m);
   if (!polish) {
       if (rho_vec) OSQPVectorf_copy(s->rho_vec, rho_vec);
       else         OSQPVectorf_set_scalar(s->rho_vec, settings->rho);
   } else {
-      OSQPVectorf_set_scalar(s->rho_vec, 1/settings->sigma);
+      OSQPVectorf_set_scalar(s->rho_vec, 1/settings->delta);
   }
 
   //Link functions
-- 
2.43.0


From c2a6dcc815179606dfe6f82a2cc5bf56e786600b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:46 +0000
Subject: [PATCH 20/54] fix: do not accept a polished solution that spoils an
 already tiny residual

---
 src/polish.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polish.c b/src/polish.c
index 8578189..8c55c02 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -462,16 +462,19 @@ OSQPInt polish(OSQPSolver* solver) {
   update_info(solver, 0, 1);
 
   // Check if polish was successful
+  // A residual that is already tiny does not need to be reduced, but it must stay tiny
   polish_successful = (work->pol->prim_res < info->prim_res &&
                        work->pol->dual_res < info->dual_res) || // Residuals
                                                                     // are
                                                                     // reduced
                       (work->pol->prim_res < info->prim_res &&
+                       work->pol->dual_res < 1e-10 &&
                        info->dual_res < 1e-10) ||              // Dual
                                                                     // residual
                                                                     // already
                                                                     // tiny
                       (work->pol->dual_res < info->dual_res &&
+                       work->pol->prim_res < 1e-10 &&
                        info->prim_res < 1e-10);                // Primal
                                                                     // residual
                                                                     // already
-- 
2.43.0


From aef141d7ca2871e4892c12a42f5db47e01064bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:59 +0000
Subject: [PATCH 21/54] fix: refuse settings that are not a number

---
 src/auxil.c    | 28 ++++++++++++++--------------
 src/osqp_api.c |  2 +-
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/auxil.c b/src/auxil.c
index ecd0f19..38499ea 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -1086,7 +1086,7 @@ OSQPInt validate_settings(const OSQPSettings* settings,
     return 1;
   }
 
-  if (from_setup && settings->rho <= 0.0) {
+  if (from_setup && !(settings->rho > 0.0)) {
     c_eprint("rho must be positive");
     return 1;
   }
@@ -1098,13 +1098,13 @@ OSQPInt validate_settings(const OSQPSettings* settings,
     return 1;
   }
 
-  if (from_setup && settings->sigma <= 0.0) {
+  if (from_setup && !(settings->sigma > 0.0)) {
     c_eprint("sigma must be positive");
     return 1;
   }
 
-  if (settings->alpha <= 0.0 ||
-      settings->alpha >= 2.0) {
+  if (!(settings->alpha > 0.0) ||
+      !(settings->alpha < 2.0)) {
     c_eprint("alpha must be strictly between 0 and 2");
     return 1;
   }
@@ -1119,8 +1119,8 @@ OSQPInt validate_settings(const OSQPSettings* settings,
     return 1;
   }
 
-  if (settings->cg_tol_fraction <= 0.0 ||
-      settings->cg_tol_fraction >= 1.0) {
+  if (!(settings->cg_tol_fraction > 0.0) ||
+      !(settings->cg_tol_fraction < 1.0)) {
     c_eprint("cg_tol_fraction must be strictly between 0 and 1");
     return 1;
   }
@@ -1144,12 +1144,12 @@ OSQPInt validate_settings(const OSQPSettings* settings,
     return 1;
   }
 
-  if (from_setup && settings->adaptive_rho_fraction <= 0) {
+  if (from_setup && !(settings->adaptive_rho_fraction > 0)) {
     c_eprint("adaptive_rho_fraction must be positive");
     return 1;
   }
 
-  if (from_setup && settings->adaptive_rho_tolerance < 1.0) {
+  if (from_setup && !(settings->adaptive_rho_tolerance >= 1.0)) {
     c_eprint("adaptive_rho_tolerance must be >= 1");
     return 1;
   }
@@ -1159,12 +1159,12 @@ OSQPInt validate_settings(const OSQPSettings* settings,
     return 1;
   }
 
-  if (settings->eps_abs < 0.0) {
+  if (!(settings->eps_abs >= 0.0)) {
     c_eprint("eps_abs must be nonnegative");
     return 1;
   }
 
-  if (settings->eps_rel < 0.0) {
+  if (!(settings->eps_rel >= 0.0)) {
     c_eprint("eps_rel must be nonnegative");
     return 1;
   }
@@ -1175,12 +1175,12 @@ OSQPInt validate_settings(const OSQPSettings* settings,
     return 1;
   }
 
-  if (settings->eps_prim_inf <= 0.0) {
+  if (!(settings->eps_prim_inf > 0.0)) {
     c_eprint("eps_prim_inf must be positive");
     return 1;
   }
 
-  if (settings->eps_dual_inf <= 0.0) {
+  if (!(settings->eps_dual_inf > 0.0)) {
     c_eprint("eps_dual_inf must be positive");
     return 1;
   }
@@ -1202,12 +1202,12 @@ OSQPInt validate_settings(const OSQPSettings* settings,
     return 1;
   }
 
-  if (settings->time_limit <= 0.0) {
+  if (!(settings->time_limit > 0.0)) {
     c_eprint("time_limit must be positive\n");
     return 1;
   }
 
-  if (settings->delta <= 0.0) {
+  if (!(settings->delta > 0.0)) {
     c_eprint("delta must be positive");
     return 1;
   }
diff --git a/src/osqp_api.c b/src/osqp_api.c
index 50587b1..456aeb9 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1464,7 +1464,7 @@ OSQPInt osqp_update_rho(OSQPSolver* solver,
     work = solver->work;
 
   // Check value of rho
-  if (rho_new <= 0) {
+  if (!(rho_new > 0)) {
     c_eprint("rho must be positive");
     return 1;
   }
-- 
2.43.0


From a77531327ad1bcc67ece71071b0a3b8aef7c60c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:04 +0000
Subject: [PATCH 22/54] fix: refuse unknown preconditioners

---
 src/auxil.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/auxil.c b/src/auxil.c
index 38499ea..81b476a 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -1125,6 +1125,12 @@ OSQPInt validate_settings(const OSQPSettings* settings,
     return 1;
   }
 
+  if (settings->cg_precond != OSQP_NO_PRECONDITIONER &&
+      settings->cg_precond != OSQP_DIAGONAL_PRECONDITIONER) {
+    c_eprint("cg_precond not a valid choice");
+    return 1;
+  }
+
   if (from_setup &&
       (settings->adaptive_rho < 0 ||
        settings->adaptive_rho >= _OSQP_ADAPTIVE_RHO_UPDATE_LAST_VALUE)) {
-- 
2.43.0


From f97cf0975cf0358249baf4ff24f4d56be7954b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:10 +0000
Subject: [PATCH 23/54] fix: refuse bounds that are not a number at setup, as
 updates do

---
 src/auxil.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auxil.c b/src/auxil.c
index 81b476a..75c89a9 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -1004,7 +1004,7 @@ OSQPInt validate_data(const OSQPCscMatrix* P,
   }
 
   for (j = 0; j < m; j++) {
-    if (l[j] > u[j]) {
+    if (!(l[j] <= u[j])) {
       c_eprint("Lower bound at index %d is greater than upper bound: %.4e > %.4e",
                (int)j, l[j], u[j]);
       return 1;
-- 
2.43.0


From 1f6f23ba0d9d4917ae4a9920992cfcfc13a96d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:13 +0000
Subject: [PATCH 24/54] fix: refuse derivative calls when there is no solution,
 or nothing computed, to read

---
 include/private/types.h |  1 +
 src/derivative.c        | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/private/types.h b/include/private/types.h
index 59dd6d4..854b4e6 100644
--- a/include/private/types.h
+++ b/include/private/types.h
@@ -90,6 +90,7 @@ typedef struct {
     OSQPVectorf *ryu;  ///< for internal use, size m
     OSQPVectorf *rhs;  ///< rhs of linear system to solve for derivatives; length 2*(n + n_ineq_l + n_ineq_u + n_eq)
                        ///< conservatively allocated with length 2(n + 2m) in `osqp_setup`
+    OSQPInt computed;  ///< have the members above been computed by `adjoint_derivative_compute`
 } OSQPDerivativeData;
 
 /**
diff --git a/src/derivative.c b/src/derivative.c
index 095479a..e051094 100644
--- a/src/derivative.c
+++ b/src/derivative.c
@@ -36,6 +36,10 @@ OSQPInt adjoint_derivative_get_mat(OSQPSolver *solver,
     if (!solver || !solver->work || !solver->work->derivative_data)
       return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
 
+    // Check that the derivative has been computed
+    if (!solver->work->derivative_data->computed)
+      return osqp_error(OSQP_DATA_NOT_INITIALIZED);
+
     OSQPInt n = solver->work->data->n;
     OSQPDerivativeData *derivative_data = solver->work->derivative_data;
     OSQPVectorf* x = OSQPVectorf_new(solver->solution->x, n);  // unscaled solution
@@ -80,6 +84,10 @@ OSQPInt adjoint_derivative_get_vec(OSQPSolver *solver,
     if (!solver || !solver->work || !solver->work->derivative_data)
       return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
 
+    // Check that the derivative has been computed
+    if (!solver->work->derivative_data->computed)
+      return osqp_error(OSQP_DATA_NOT_INITIALIZED);
+
     OSQPInt n = solver->work->data->n;
     OSQPDerivativeData *derivative_data = solver->work->derivative_data;
 
@@ -107,6 +115,11 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
     if (!solver || !solver->work || !solver->work->derivative_data)
       return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
 
+    // Check that there is an optimal solution to differentiate
+    if (!solver->solution ||
+        (solver->info->status_val != OSQP_SOLVED && solver->info->status_val != OSQP_SOLVED_INACCURATE))
+      return osqp_error(OSQP_DATA_NOT_INITIALIZED);
+
     OSQPInt m = solver->work->data->m;
     OSQPInt n = solver->work->data->n;
     OSQPDerivativeData *derivative_data = solver->work->derivative_data;
@@ -327,5 +340,7 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
     //cleanup
     OSQPVectorf_free(y);
 
+    derivative_data->computed = 1;
+
     return 0;
 }
-- 
2.43.0


From 58dc4e3a3799b853c44fc1a50d84ae36dcf04612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:35 +0000
Subject: [PATCH 25/54] fix: report a failed factorisation in the derivative
 computation

---
 algebra/_common/lin_sys/qdldl/qdldl_interface.c |  6 +++++-
 src/derivative.c                                | 17 ++++++++++++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/algebra/_common/lin_sys/qdldl/qdldl_interface.c b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
index 6ec74e9..430520c 100644
--- a/algebra/_common/lin_sys/qdldl/qdldl_interface.c
+++ b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
@@ -813,7 +813,11 @@ OSQPInt adjoint_derivative_qdldl(qdldl_solver**     s,
         goto csc_alloc_fail;
     }
 
-    QDLDL_factor(An, adj_permuted->p, adj_permuted->i, adj_permuted->x, Lp, Li, Lx, D, Dinv, Lnz, etree, bwork, iwork, fwork);
+    if (QDLDL_factor(An, adj_permuted->p, adj_permuted->i, adj_permuted->x, Lp, Li, Lx, D, Dinv, Lnz, etree, bwork, iwork, fwork) < 0) {
+        c_eprint("Error in KKT matrix LDL factorization when computing the derivative");
+        retval = osqp_error(OSQP_LINSYS_SOLVER_INIT_ERROR);
+        goto csc_alloc_fail;
+    }
 
     x = (QDLDL_float*)malloc(sizeof(QDLDL_float)*An);
     x_work = (QDLDL_float*)malloc(sizeof(QDLDL_float)*An);
diff --git a/src/derivative.c b/src/derivative.c
index e051094..4e44dc3 100644
--- a/src/derivative.c
+++ b/src/derivative.c
@@ -155,6 +155,11 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
     // not 'upper loose' or 'lower loose', which we seem to need here.
     OSQPFloat infval = OSQP_INFTY * OSQP_MIN_SCALING;
 
+    OSQPInt exitflag = 0;
+
+    // What was computed before is overwritten from here on
+    derivative_data->computed = 0;
+
     OSQPInt n_ineq_l = 0;
     OSQPInt n_ineq_u = 0;
     OSQPInt n_eq = 0;
@@ -290,7 +295,7 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
 
     OSQPMatrix* P_full = OSQPMatrix_triu_to_symm(P);
     OSQPMatrix_free(P);
-    adjoint_derivative_linsys_solver(NULL /* No solver object is allocated for this solver yet */,
+    exitflag = adjoint_derivative_linsys_solver(NULL /* No solver object is allocated for this solver yet */,
                                      solver->settings, P_full, G, A_eq, GDiagLambda, slacks, rhs);
     OSQPMatrix_free(P_full);
     OSQPMatrix_free(G);
@@ -298,6 +303,16 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
     OSQPMatrix_free(GDiagLambda);
     OSQPVectorf_free(slacks);
 
+    if (exitflag) {
+        // The linear system could not be solved, so there is nothing to read
+        c_free(l_noninf_indices_vec);
+        c_free(u_noninf_indices_vec);
+        c_free(nu_sign_vec);
+        c_free(eq_indices_vec);
+        OSQPVectorf_free(y);
+        return exitflag;
+    }
+
     OSQPFloat* rhs_data = OSQPVectorf_data(rhs);
 
     OSQPFloat* r_yl = (OSQPFloat *) c_malloc(m * sizeof(OSQPFloat));
-- 
2.43.0


From 032c34dd8be331ebe86d896bb60ac69b10ce07f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:10 +0000
Subject: [PATCH 26/54] fix: release the Pardiso solver when it refuses a
 non-convex problem

---
 algebra/mkl/lin_sys/direct/pardiso_interface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/algebra/mkl/lin_sys/direct/pardiso_interface.c b/algebra/mkl/lin_sys/direct/pardiso_interface.c
index 0479c78..2d2c589 100644
--- a/algebra/mkl/lin_sys/direct/pardiso_interface.c
+++ b/algebra/mkl/lin_sys/direct/pardiso_interface.c
@@ -236,6 +236,8 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   if ( s->iparm[21] < n ) {
     // Error: Number of positive eigenvalues of KKT should be the same as dimension of P
     c_eprint("KKT matrix has fewer positive eigenvalues than it should. The problem seems to be non-convex.");
+    free_linsys_solver_pardiso(s);
+    *sp = OSQP_NULL;
     return OSQP_NONCVX_ERROR;
   }
 
-- 
2.43.0


From 9645039b1368be58db1c0bffb2f5bc4fc8429bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:15 +0000
Subject: [PATCH 27/54] fix: report a matrix update that makes the problem
 non-convex with Pardiso

---
 algebra/mkl/lin_sys/direct/pardiso_interface.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/algebra/mkl/lin_sys/direct/pardiso_interface.c b/algebra/mkl/lin_sys/direct/pardiso_interface.c
index 2d2c589..d77c629 100644
--- a/algebra/mkl/lin_sys/direct/pardiso_interface.c
+++ b/algebra/mkl/lin_sys/direct/pardiso_interface.c
@@ -324,6 +324,9 @@ OSQPInt update_linsys_solver_matrices_pardiso(pardiso_solver*   s,
            s->iparm, &(s->msglvl), &(s->fdum), &(s->fdum), &(s->error));
   osqp_profiler_sec_pop(OSQP_PROFILER_SEC_LINSYS_NUM_FAC);
 
+  // Number of positive eigenvalues of KKT should be the same as dimension of P
+  if (s->error == 0 && s->iparm[21] < s->n) return 1;
+
   // Return exit flag
   return s->error;
 }
-- 
2.43.0


From 7e1f85a9915257882afdf2170f73b9f83c35a2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:21 +0000
Subject: [PATCH 28/54] fix: cold start of an uninitialised solver does nothing

---
 src/osqp_api.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 456aeb9..d65b2d0 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1324,7 +1324,13 @@ OSQPInt osqp_warm_start(OSQPSolver*      solver,
 
 
 void osqp_cold_start(OSQPSolver *solver) {
-  OSQPWorkspace *work = solver->work;
+  OSQPWorkspace *work;
+
+  /* Nothing to reset in a solver that has not been initialized */
+  if (!solver || !solver->work) return;
+
+  work = solver->work;
+
   OSQPVectorf_set_scalar(work->x, 0.);
   OSQPVectorf_set_scalar(work->z, 0.);
   OSQPVectorf_set_scalar(work->y, 0.);
-- 
2.43.0


From 33da714494eeeec624b7a01faf236abfaee70e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:26 +0000
Subject: [PATCH 29/54] fix: do not check the MKL CG parameters in the middle
 of their use

---
 algebra/mkl/lin_sys/indirect/mkl-cg_interface.c | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index 25d80a3..9615f57 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -299,32 +299,22 @@ OSQPInt solve_linsys_mklcg(mklcg_solver* s,
 void update_settings_linsys_solver_mklcg(struct mklcg_solver_* s,
                                          const OSQPSettings*   settings) {
 
-  MKL_INT mkln = s->n;
-  MKL_INT rci_request = 1;
-
   // New precoditioner type requested
   if (s->precond_type != settings->cg_precond) {
     s->precond_type = settings->cg_precond;
 
-    // Enable the preconditioner if requested
-    s->iparm[10] = (s->precond_type == OSQP_NO_PRECONDITIONER) ? 0 : 1;
-
     // Compute the new preconditioner
     cg_update_precond(s);
   }
 
   // Maximum number of iterations
   s->max_iter = settings->cg_max_iter;
-  s->iparm[4] = settings->cg_max_iter;
 
   // Update adaptive tolerance parameters
   s->reduction_interval = settings->cg_tol_reduction;
   s->tol_fraction       = settings->cg_tol_fraction;
 
-  //returns -1 for dcg failure, 0 otherwise
-  dcg_check(&mkln, NULL, NULL, &rci_request,
-            s->iparm, s->dparm, OSQPVectorf_data(s->tmp));
-
+  // The MKL parameters are set from these values at the start of every solve
   return;
 }
 
-- 
2.43.0


From 39b736c1b86c77ed799e70e51b72e38e413b6be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:48 +0000
Subject: [PATCH 30/54] fix: handle every failing allocation in setup and in
 the CSC matrix constructors

---
 src/osqp_api.c | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index d65b2d0..b8a5f5f 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -67,6 +67,18 @@ OSQPCscMatrix* OSQPCscMatrix_diag_scalar(OSQPInt   m,
   mat->nz = -1;
   mat->p  = (OSQPInt*) c_calloc(n + 1, sizeof(OSQPInt));
 
+  mat->nzmax = min_elem;
+  mat->i     = (OSQPInt*) c_malloc(min_elem * sizeof(OSQPInt));
+  mat->x     = (OSQPFloat*) c_malloc(min_elem * sizeof(OSQPFloat));
+
+  // We own the arrays
+  mat->owned = 1;
+
+  if (!mat->p || (min_elem && (!mat->i || !mat->x))) {
+    OSQPCscMatrix_free(mat);
+    return OSQP_NULL;
+  }
+
   if( m < n) {
     // Fewer rows than columns
     for(i=0; i < n; i++) {
@@ -83,10 +95,6 @@ OSQPCscMatrix* OSQPCscMatrix_diag_scalar(OSQPInt   m,
     }
   }
 
-  mat->nzmax = min_elem;
-  mat->i     = (OSQPInt*) c_malloc(min_elem * sizeof(OSQPInt));
-  mat->x     = (OSQPFloat*) c_malloc(min_elem * sizeof(OSQPFloat));
-
   for(i=0; i < min_elem; i++) {
     mat->i[i] = i;
     mat->x[i] = scalar;
@@ -95,9 +103,6 @@ OSQPCscMatrix* OSQPCscMatrix_diag_scalar(OSQPInt   m,
   // Last element of column vector is always the number of entries
   mat->p[n] = min_elem;
 
-  // We own the arrays
-  mat->owned = 1;
-
   return mat;
 }
 
@@ -140,6 +145,11 @@ OSQPCscMatrix* OSQPCscMatrix_zeros(OSQPInt    m,
   // We own the arrays
   mat->owned = 1;
 
+  if (!mat->p) {
+    OSQPCscMatrix_free(mat);
+    return OSQP_NULL;
+  }
+
   return mat;
 }
 
@@ -417,13 +427,13 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   work->x           = OSQPVectorf_calloc(n);
   work->z           = OSQPVectorf_calloc(m);
   work->xz_tilde    = OSQPVectorf_calloc(n + m);
+  if (!(work->x) || !(work->z) || !(work->xz_tilde))
+    return osqp_error(OSQP_MEM_ALLOC_ERROR);
   work->xtilde_view = OSQPVectorf_view(work->xz_tilde,0,n);
   work->ztilde_view = OSQPVectorf_view(work->xz_tilde,n,m);
   work->x_prev      = OSQPVectorf_calloc(n);
   work->z_prev      = OSQPVectorf_calloc(m);
   work->y           = OSQPVectorf_calloc(m);
-  if (!(work->x) || !(work->z) || !(work->xz_tilde))
-    return osqp_error(OSQP_MEM_ALLOC_ERROR);
   if (!(work->xtilde_view) || !(work->ztilde_view))
       return osqp_error(OSQP_MEM_ALLOC_ERROR);
   if (!(work->x_prev) || !(work->z_prev) || !(work->y))
@@ -457,7 +467,7 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   // Perform scaling
   if (settings->scaling) {
     // Allocate scaling structure
-    work->scaling = c_malloc(sizeof(OSQPScaling));
+    work->scaling = c_calloc(1, sizeof(OSQPScaling));
     if (!(work->scaling)) return osqp_error(OSQP_MEM_ALLOC_ERROR);
     work->scaling->D    = OSQPVectorf_calloc(n);
     work->scaling->Dinv = OSQPVectorf_calloc(n);
@@ -513,7 +523,7 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   osqp_cold_start(solver);
 
   // Initialize active constraints structure
-  work->pol = c_malloc(sizeof(OSQPPolish));
+  work->pol = c_calloc(1, sizeof(OSQPPolish));
   if (!(work->pol)) return osqp_error(OSQP_MEM_ALLOC_ERROR);
   work->pol->active_flags = OSQPVectori_malloc(m);
   work->pol->x            = OSQPVectorf_malloc(n);
@@ -614,7 +624,8 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   work->derivative_data->ryu = OSQPVectorf_malloc(m);
   work->derivative_data->rhs = OSQPVectorf_malloc(2 * (n + 2*m));
   if (!(work->derivative_data->y_u) || !(work->derivative_data->y_l) ||
-    !(work->derivative_data->ryl) || !(work->derivative_data->ryu))
+    !(work->derivative_data->ryl) || !(work->derivative_data->ryu) ||
+    !(work->derivative_data->rhs))
     return osqp_error(OSQP_MEM_ALLOC_ERROR);
 # endif /* ifdef OSQP_ENABLE_DERIVATIVES */
 
-- 
2.43.0


From d1b22e36cac295bde380b2ba5ab8e5024c14c324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:50 +0000
Subject: [PATCH 31/54] fix: polishing releases everything it allocated when it
 fails

---
 src/polish.c | 74 +++++++++++++++++++---------------------------------
 1 file changed, 27 insertions(+), 47 deletions(-)

diff --git a/src/polish.c b/src/polish.c
index 8c55c02..58bf050 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -189,6 +189,7 @@ static OSQPInt iterative_refinement(OSQPSolver*   solver,
                                     OSQPVectorf*  z,
                                     OSQPVectorf*  b) {
   OSQPInt i, mred;
+  OSQPInt exitflag = 0;
   OSQPVectorf *rhs, *rhs1, *rhs2;
   OSQPVectorf *z1, *z2;
 
@@ -201,14 +202,17 @@ static OSQPInt iterative_refinement(OSQPSolver*   solver,
     // Allocate dz and rhs vectors
     rhs = OSQPVectorf_malloc(work->data->n + mred);
 
+    if (!rhs) return osqp_error(OSQP_MEM_ALLOC_ERROR);
+
     //form views of the top/bottom parts of rhs and z
     rhs1 = OSQPVectorf_view(rhs,0,work->data->n);
     rhs2 = OSQPVectorf_view(rhs,work->data->n,mred);
     z1   = OSQPVectorf_view(z,0,work->data->n);
     z2   = OSQPVectorf_view(z,work->data->n,mred);
 
-    if (!rhs || !rhs1 || !rhs2 || !z1 || !z2) {
-      return osqp_error(OSQP_MEM_ALLOC_ERROR);
+    if (!rhs1 || !rhs2 || !z1 || !z2) {
+      exitflag = osqp_error(OSQP_MEM_ALLOC_ERROR);
+      goto cleanup;
     }
 
     for (i = 0; i < settings->polish_refine_iter; i++) {
@@ -234,13 +238,14 @@ static OSQPInt iterative_refinement(OSQPSolver*   solver,
       OSQPVectorf_plus(z,z,rhs);
     }
 
+cleanup:
     OSQPVectorf_free(rhs);
     OSQPVectorf_view_free(rhs1);
     OSQPVectorf_view_free(rhs2);
     OSQPVectorf_view_free(z1);
     OSQPVectorf_view_free(z2);
   }
-  return 0;
+  return exitflag;
 }
 
 /**
@@ -361,11 +366,7 @@ OSQPInt polish(OSQPSolver* solver) {
   if (exitflag) {
     /* Failure to initialize the linear system */
     info->status_polish = OSQP_POLISH_LINSYS_ERROR;
-
-    /* Memory clean-up */
-    OSQPMatrix_free(work->pol->Ared);
-
-    return exitflag;
+    goto cleanup;
   }
 
   // Form reduced right-hand side rhs_red
@@ -374,11 +375,8 @@ OSQPInt polish(OSQPSolver* solver) {
   if (!rhs_red) {
     /* Failure to allocate memory */
     info->status_polish = OSQP_POLISH_FAILED;
-
-    /* Memory clean-up */
-    OSQPMatrix_free(work->pol->Ared);
-
-    return osqp_error(OSQP_MEM_ALLOC_ERROR);
+    exitflag = osqp_error(OSQP_MEM_ALLOC_ERROR);
+    goto cleanup;
   }
 
   exitflag = form_rhs_red(work, rhs_red);
@@ -386,11 +384,7 @@ OSQPInt polish(OSQPSolver* solver) {
   if (exitflag) {
     /* Failure to form reduced right hand side */
     info->status_polish = OSQP_POLISH_FAILED;
-
-    /* Memory clean-up */
-    OSQPMatrix_free(work->pol->Ared);
-
-    return exitflag;
+    goto cleanup;
   }
 
   pol_sol = OSQPVectorf_copy_new(rhs_red);
@@ -398,30 +392,18 @@ OSQPInt polish(OSQPSolver* solver) {
   if (!pol_sol) {
     /* Failure to allocate vector */
     info->status_polish = OSQP_POLISH_FAILED;
-
-    /* Memory clean-up */
-    OSQPMatrix_free(work->pol->Ared);
-    OSQPVectorf_free(rhs_red);
-
-    return osqp_error(OSQP_MEM_ALLOC_ERROR);
+    exitflag = osqp_error(OSQP_MEM_ALLOC_ERROR);
+    goto cleanup;
   }
 
   pol_sol_xview = OSQPVectorf_view(pol_sol,0,work->data->n);
   pol_sol_yview = OSQPVectorf_view(pol_sol,work->data->n, work->pol->n_active);
 
   if (!pol_sol_xview || !pol_sol_yview) {
-
     // Polishing failed
     info->status_polish = OSQP_POLISH_FAILED;
-
-    // Memory clean-up
-    OSQPMatrix_free(work->pol->Ared);
-    OSQPVectorf_free(rhs_red);
-    OSQPVectorf_free(pol_sol);
-    OSQPVectorf_view_free(pol_sol_xview);
-    OSQPVectorf_view_free(pol_sol_yview);
-
-    return osqp_error(OSQP_MEM_ALLOC_ERROR);
+    exitflag = osqp_error(OSQP_MEM_ALLOC_ERROR);
+    goto cleanup;
   }
 
   // Warm start the polished solution
@@ -436,21 +418,19 @@ OSQPInt polish(OSQPSolver* solver) {
   if (exitflag) {
     // Polishing failed
     info->status_polish = OSQP_POLISH_FAILED;
-
-    // Memory clean-up
-    OSQPMatrix_free(work->pol->Ared);
-    OSQPVectorf_free(rhs_red);
-    OSQPVectorf_free(pol_sol);
-    OSQPVectorf_view_free(pol_sol_xview);
-    OSQPVectorf_view_free(pol_sol_yview);
-
-    return exitflag;
+    goto cleanup;
   }
 
   // Store the polished solution (x,z,y)
   OSQPVectorf_copy(work->pol->x, pol_sol_xview);   // pol->x
   OSQPMatrix_Axpy(work->data->A, work->pol->x, work->pol->z, 1.0, 0.0);
-  get_ypol_from_yred(work, pol_sol_yview);     // pol->y
+  exitflag = get_ypol_from_yred(work, pol_sol_yview);     // pol->y
+
+  if (exitflag) {
+    // Polishing failed
+    info->status_polish = OSQP_POLISH_FAILED;
+    goto cleanup;
+  }
 
   // Ensure z is in C and y is in the normal cone N_C(z)
   // by doing: y <- y + z;  z <- proj_C(y);  y <- y - z
@@ -508,15 +488,15 @@ OSQPInt polish(OSQPSolver* solver) {
     //       and polished solution
   }
 
+cleanup:
   // Memory clean-up
-  plsh->free(plsh);
+  if (plsh) plsh->free(plsh);
 
-  // Checks that they are not NULL are already performed earlier
   OSQPMatrix_free(work->pol->Ared);
   OSQPVectorf_free(rhs_red);
   OSQPVectorf_free(pol_sol);
   OSQPVectorf_view_free(pol_sol_xview);
   OSQPVectorf_view_free(pol_sol_yview);
 
-  return OSQP_NO_ERROR;
+  return exitflag;
 }
-- 
2.43.0


From 4e62d562517a574c67cfed7543062715b753d6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:39 +0000
Subject: [PATCH 32/54] fix: QDLDL interface checks its allocations and the
 outcome of the KKT permutation

---
 .../_common/lin_sys/qdldl/qdldl_interface.c   | 56 ++++++++++++++++---
 1 file changed, 49 insertions(+), 7 deletions(-)

diff --git a/algebra/_common/lin_sys/qdldl/qdldl_interface.c b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
index 430520c..f2b582b 100644
--- a/algebra/_common/lin_sys/qdldl/qdldl_interface.c
+++ b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
@@ -111,6 +111,9 @@ static OSQPInt LDL_factor(OSQPCscMatrix* A,
     p->L->x = (OSQPFloat *)c_malloc(sizeof(OSQPFloat)*sum_Lnz);
     p->L->nzmax = sum_Lnz;
 
+    if (sum_Lnz && (!p->L->i || !p->L->x))
+      return osqp_error(OSQP_MEM_ALLOC_ERROR);
+
     // Factor matrix
     osqp_profiler_sec_push(OSQP_PROFILER_SEC_LINSYS_NUM_FAC);
     factor_status = QDLDL_factor(A->n, A->p, A->i, A->x,
@@ -145,12 +148,13 @@ static OSQPInt permute_KKT(OSQPCscMatrix** KKT,
     OSQPFloat* info;
     OSQPInt    amd_status;
     OSQPInt*   Pinv;
-    OSQPInt*   KtoPKPt;
+    OSQPInt*   KtoPKPt = OSQP_NULL;
     OSQPInt    i; // Indexing
 
     OSQPCscMatrix* KKT_temp;
 
     info = (OSQPFloat *)c_malloc(AMD_INFO * sizeof(OSQPFloat));
+    if (!info) return OSQP_MEM_ALLOC_ERROR;
 
     // Compute permutation matrix P using AMD
 #ifdef OSQP_USE_LONG
@@ -167,6 +171,10 @@ static OSQPInt permute_KKT(OSQPCscMatrix** KKT,
 
     // Inverse of the permutation vector
     Pinv = csc_pinv(p->P, (*KKT)->n);
+    if (!Pinv) {
+        c_free(info);
+        return OSQP_MEM_ALLOC_ERROR;
+    }
 
     // Permute KKT matrix
     if (!PtoKKT && !AtoKKT && !rhotoKKT){  // No vectors to be stored
@@ -176,8 +184,17 @@ static OSQPInt permute_KKT(OSQPCscMatrix** KKT,
     else {
         // Allocate vector of mappings from unpermuted to permuted
         KtoPKPt = c_malloc((*KKT)->p[(*KKT)->n] * sizeof(OSQPInt));
-        KKT_temp = csc_symperm((*KKT), Pinv, KtoPKPt, 1);
+        KKT_temp = KtoPKPt ? csc_symperm((*KKT), Pinv, KtoPKPt, 1) : OSQP_NULL;
+    }
 
+    if (!KKT_temp) {
+        c_free(KtoPKPt);
+        c_free(Pinv);
+        c_free(info);
+        return OSQP_MEM_ALLOC_ERROR;
+    }
+
+    if (KtoPKPt) {
         // Update vectors PtoKKT, AtoKKT and rhotoKKT
         if (PtoKKT){
             for (i = 0; i < Pnz; i++){
@@ -230,7 +247,10 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
 
     // Allocate private structure to store KKT factorization
     qdldl_solver* s = c_calloc(1, sizeof(qdldl_solver));
+    OSQPInt exitflag = 0;
+
     *sp = s;
+    if (!s) return OSQP_MEM_ALLOC_ERROR;
 
     // Size of KKT
     n = P->csc->n;
@@ -274,6 +294,11 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
     //      L will be allocated during the factorization depending on the
     //      resulting number of elements.
     s->L = c_calloc(1, sizeof(OSQPCscMatrix));
+    if (!s->L) {
+        free_linsys_solver_qdldl(s);
+        *sp = OSQP_NULL;
+        return OSQP_MEM_ALLOC_ERROR;
+    }
     s->L->m  = n_plus_m;
     s->L->n  = n_plus_m;
     s->L->nz = -1;
@@ -311,6 +336,14 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
     s->bwork = (QDLDL_bool *)c_malloc(sizeof(QDLDL_bool)*n_plus_m);
     s->fwork = (QDLDL_float *)c_malloc(sizeof(QDLDL_float)*n_plus_m);
 
+    if (!s->L->p || !s->Dinv || !s->D || !s->P || !s->bp || !s->sol ||
+        (rho_vec && m && !s->rho_inv_vec) ||
+        !s->etree || !s->Lnz || !s->iwork || !s->bwork || !s->fwork) {
+        free_linsys_solver_qdldl(s);
+        *sp = OSQP_NULL;
+        return OSQP_MEM_ALLOC_ERROR;
+    }
+
     // Form and permute KKT matrix
     if (polishing){ // Called from polish()
 
@@ -321,7 +354,7 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
 
         // Permute matrix
         if (KKT_temp)
-            permute_KKT(&KKT_temp, s, OSQP_NULL, OSQP_NULL, OSQP_NULL, OSQP_NULL, OSQP_NULL, OSQP_NULL);
+            exitflag = permute_KKT(&KKT_temp, s, OSQP_NULL, OSQP_NULL, OSQP_NULL, OSQP_NULL, OSQP_NULL, OSQP_NULL);
     }
     else { // Called from ADMM algorithm
 
@@ -330,6 +363,13 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
         s->AtoKKT = c_malloc(A->csc->p[n] * sizeof(OSQPInt));
         s->rhotoKKT = c_malloc(m * sizeof(OSQPInt));
 
+        if ((P->csc->p[n] && !s->PtoKKT) || (A->csc->p[n] && !s->AtoKKT) ||
+            (m && !s->rhotoKKT)) {
+            free_linsys_solver_qdldl(s);
+            *sp = OSQP_NULL;
+            return OSQP_MEM_ALLOC_ERROR;
+        }
+
         // Use p->rho_inv_vec for storing param2 = rho_inv_vec
         if (rho_vec) {
           rhov = rho_vec->values;
@@ -348,24 +388,26 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
 
         // Permute matrix
         if (KKT_temp){
-            permute_KKT(&KKT_temp, s, P->csc->p[n], A->csc->p[n], m, s->PtoKKT, s->AtoKKT, s->rhotoKKT);
+            exitflag = permute_KKT(&KKT_temp, s, P->csc->p[n], A->csc->p[n], m, s->PtoKKT, s->AtoKKT, s->rhotoKKT);
         }
     }
 
     // Check if matrix has been created
-    if (!KKT_temp){
+    if (!KKT_temp || exitflag){
         c_eprint("Error forming and permuting KKT matrix");
+        csc_spfree(KKT_temp);
         free_linsys_solver_qdldl(s);
         *sp = OSQP_NULL;
         return OSQP_LINSYS_SOLVER_INIT_ERROR;
     }
 
     // Factorize the KKT matrix
-    if (LDL_factor(KKT_temp, s, n) < 0) {
+    exitflag = LDL_factor(KKT_temp, s, n);
+    if (exitflag) {
         csc_spfree(KKT_temp);
         free_linsys_solver_qdldl(s);
         *sp = OSQP_NULL;
-        return OSQP_NONCVX_ERROR;
+        return exitflag < 0 ? OSQP_NONCVX_ERROR : exitflag;
     }
 
     if (polishing){ // If KKT passed, assign it to KKT_temp
-- 
2.43.0


From 641aa3fc2dc429011b31dc43f2f1ed8ef7baf676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:36 +0000
Subject: [PATCH 33/54] fix: MKL matrices check and release their allocations

---
 algebra/mkl/matrix.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/algebra/mkl/matrix.c b/algebra/mkl/matrix.c
index 1d1f0f4..f47ef37 100644
--- a/algebra/mkl/matrix.c
+++ b/algebra/mkl/matrix.c
@@ -19,6 +19,8 @@ OSQPInt OSQPMatrix_is_eq(const OSQPMatrix* A,
 
 /* Special routine to allocate a OSQPCscMatrix using the MKL memory routines
    instead of the normal memory routines */
+static void mkl_csc_spfree(OSQPCscMatrix* M);
+
 static OSQPCscMatrix* mkl_csc_spalloc(OSQPInt m, OSQPInt n, OSQPInt nzmax, OSQPInt hasData) {
   OSQPCscMatrix* csc = c_calloc(1, sizeof(OSQPCscMatrix));
 
@@ -34,6 +36,12 @@ static OSQPCscMatrix* mkl_csc_spalloc(OSQPInt m, OSQPInt n, OSQPInt nzmax, OSQPI
   csc->i     = hasData ? blas_malloc(nzmax * sizeof(OSQPInt)) : OSQP_NULL;
   csc->x     = hasData ? blas_malloc(nzmax * sizeof(OSQPFloat)) : OSQP_NULL;
 
+  /* The MKL memory routines return nothing for an empty array */
+  if (!csc->p || (hasData && nzmax > 0 && (!csc->i || !csc->x))) {
+    mkl_csc_spfree(csc);
+    return OSQP_NULL;
+  }
+
   return csc;
 }
 
@@ -345,7 +353,11 @@ static OSQPCscMatrix* mkl_submatrix_byrows(const OSQPCscMatrix* A,
 
   // Form R = A(rows,:), where nrows = sum(rows != 0)
   R = mkl_csc_spalloc(Rm, An, nzR, 1);
-  if (!R) return OSQP_NULL;
+  if (!R) {
+    // Free work index and return on error
+    c_free(rridx);
+    return OSQP_NULL;
+  }
 
   // no active constraints
   if (Rm == 0) {
-- 
2.43.0


From 96f0e3a65b046936cce9442609144268e39e0e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:42 +0000
Subject: [PATCH 34/54] fix: Pardiso interface checks its allocations

---
 .../mkl/lin_sys/direct/pardiso_interface.c    | 39 +++++++++++++++----
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/algebra/mkl/lin_sys/direct/pardiso_interface.c b/algebra/mkl/lin_sys/direct/pardiso_interface.c
index d77c629..67681e5 100644
--- a/algebra/mkl/lin_sys/direct/pardiso_interface.c
+++ b/algebra/mkl/lin_sys/direct/pardiso_interface.c
@@ -36,14 +36,16 @@ void warm_start_linsys_solver_pardiso(pardiso_solver*    s,
 void free_linsys_solver_pardiso(pardiso_solver* s) {
   if (s) {
 
-    // Free pardiso solver using internal function
-    s->phase = PARDISO_CLEANUP;
-    PARDISO (s->pt, &(s->maxfct), &(s->mnum), &(s->mtype), &(s->phase),
-             &(s->nKKT), &(s->fdum), s->KKT_p, s->KKT_i, &(s->idum), &(s->nrhs),
-             s->iparm, &(s->msglvl), &(s->fdum), &(s->fdum), &(s->error));
-
-    if ( s->error != 0 ){
-      c_eprint("Error during MKL Pardiso cleanup: %d", (int)s->error);
+    // Free pardiso solver using internal function (if Pardiso has been called at all)
+    if (s->phase) {
+      s->phase = PARDISO_CLEANUP;
+      PARDISO (s->pt, &(s->maxfct), &(s->mnum), &(s->mtype), &(s->phase),
+               &(s->nKKT), &(s->fdum), s->KKT_p, s->KKT_i, &(s->idum), &(s->nrhs),
+               s->iparm, &(s->msglvl), &(s->fdum), &(s->fdum), &(s->error));
+
+      if ( s->error != 0 ){
+        c_eprint("Error during MKL Pardiso cleanup: %d", (int)s->error);
+      }
     }
     // Check each attribute of the structure and free it if it exists
     if (s->KKT)         csc_spfree(s->KKT);
@@ -82,6 +84,7 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   // Allocate private structure to store KKT factorization
   pardiso_solver *s = c_calloc(1, sizeof(pardiso_solver));
   *sp = s;
+  if (!s) return OSQP_MEM_ALLOC_ERROR;
 
   // Size of KKT
   n = P->csc->n;
@@ -121,6 +124,12 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   }
   // else it is NULL
 
+  if (!s->bp || !s->sol || (rho_vec && !s->rho_inv_vec)) {
+    free_linsys_solver_pardiso(s);
+    *sp = OSQP_NULL;
+    return OSQP_MEM_ALLOC_ERROR;
+  }
+
   // Form KKT matrix
   if (polishing){ // Called from polish()
     s->KKT = form_KKT(P->csc,A->csc,
@@ -135,6 +144,13 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
     s->AtoKKT   = c_malloc(A->csc->p[n] * sizeof(OSQPInt));
     s->rhotoKKT = c_malloc(m * sizeof(OSQPInt));
 
+    if ((P->csc->p[n] && !s->PtoKKT) || (A->csc->p[n] && !s->AtoKKT) ||
+        (m && !s->rhotoKKT)) {
+      free_linsys_solver_pardiso(s);
+      *sp = OSQP_NULL;
+      return OSQP_MEM_ALLOC_ERROR;
+    }
+
     // Use s->rho_inv_vec for storing param2 = rho_inv_vec
     if (rho_vec) {
         rhov = rho_vec->values;
@@ -156,6 +172,7 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   if (!(s->KKT)) {
 	  c_eprint("Error in forming KKT matrix");
     free_linsys_solver_pardiso(s);
+    *sp = OSQP_NULL;
     return OSQP_LINSYS_SOLVER_INIT_ERROR;
   } else {
     // Adjust indexing for Pardiso
@@ -163,6 +180,12 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
     s->KKT_i = c_malloc((nnzKKT) * sizeof(OSQPInt));
     s->KKT_p = c_malloc((n_plus_m + 1) * sizeof(OSQPInt));
 
+    if (!s->KKT_i || !s->KKT_p) {
+      free_linsys_solver_pardiso(s);
+      *sp = OSQP_NULL;
+      return OSQP_MEM_ALLOC_ERROR;
+    }
+
     for(i = 0; i < nnzKKT; i++){
       s->KKT_i[i] = s->KKT->i[i] + 1;
     }
-- 
2.43.0


From d6a7841b2160070321ba4e90fda0a3d45faef155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:47 +0000
Subject: [PATCH 35/54] fix: MKL CG interface checks its allocations

---
 .../mkl/lin_sys/indirect/mkl-cg_interface.c   | 43 ++++++++++++-------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index 9615f57..b1cf5e2 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -92,8 +92,9 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   OSQPInt m = A->csc->m;
   OSQPInt n = P->csc->n;
   MKL_INT status;
-  mklcg_solver* s = (mklcg_solver *)c_malloc(sizeof(mklcg_solver));
+  mklcg_solver* s = (mklcg_solver *)c_calloc(1, sizeof(mklcg_solver));
   *sp = s;
+  if (!s) return OSQP_MEM_ALLOC_ERROR;
 
   //Just hold on to pointers to the problem
   //data, no copies or processing required
@@ -110,6 +111,7 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   //if polish is false, use the rho_vec we get (or the scalar rho if there is none).
   //Otherwise, use rho_vec = ones.*(1/delta)
   s->rho_vec = OSQPVectorf_malloc(m);
+  if (!s->rho_vec) goto alloc_error;
   if (!polish) {
       if (rho_vec) OSQPVectorf_copy(s->rho_vec, rho_vec);
       else         OSQPVectorf_set_scalar(s->rho_vec, settings->rho);
@@ -148,9 +150,11 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   //Initialise solver state to zero since it provides
   //cold start condition for the CG inner solver
   s->x = OSQPVectorf_calloc(n);
+  if (!s->x) goto alloc_error;
 
   //Workspace for CG products and polishing
   s->ywork = OSQPVectorf_malloc(m);
+  if (!s->ywork) goto alloc_error;
 
   //make subviews for the rhs.   OSQP passes
   //a different RHS pointer at every iteration,
@@ -158,6 +162,7 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   //time we solve. Just point them at x for now.
   s->r1 = OSQPVectorf_view(s->x, 0, 0);
   s->r2 = OSQPVectorf_view(s->x, 0, 0);
+  if (!s->r1 || !s->r2) goto alloc_error;
 
   //Allocate a 4*n vector for the MKL workspace
   // 1:n     = Vector to multiply by the matrix
@@ -165,6 +170,7 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   // 2n+1:3n = Vector to apply the preconditioner to
   // 3n+1:4n = Vector after application of the preconditioner
   s->tmp = OSQPVectorf_malloc(4*n);
+  if (!s->tmp) goto alloc_error;
 
   // Create subviews to tmp to aid the matrix-vector multiplication
   s->mvm_pre  = OSQPVectorf_view(s->tmp, 0, n);
@@ -173,15 +179,22 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   // Subviews to tmp to aid the preconditioner application
   s->precond_pre  = OSQPVectorf_view(s->tmp, 2*n, n);
   s->precond_post = OSQPVectorf_view(s->tmp, 3*n, n);
+  if (!s->mvm_pre || !s->mvm_post || !s->precond_pre || !s->precond_post) goto alloc_error;
 
   status = cg_solver_init(s);
 
   // Compute the preconditioner
   s->precond     = OSQPVectorf_malloc(n);
   s->precond_inv = OSQPVectorf_malloc(n);
+  if (!s->precond || !s->precond_inv) goto alloc_error;
   cg_update_precond(s);
 
   return status;
+
+alloc_error:
+  free_linsys_mklcg(s);
+  *sp = OSQP_NULL;
+  return OSQP_MEM_ALLOC_ERROR;
 }
 
 
@@ -367,19 +380,19 @@ OSQPInt update_rho_linsys_mklcg(mklcg_solver*    s,
 
 void free_linsys_mklcg(mklcg_solver* s) {
 
-  if (s->tmp) {
-    OSQPVectorf_free(s->tmp);
-    OSQPVectorf_free(s->rho_vec);
-    OSQPVectorf_free(s->x);
-    OSQPVectorf_free(s->ywork);
-    OSQPVectorf_free(s->precond);
-    OSQPVectorf_free(s->precond_inv);
-    OSQPVectorf_view_free(s->r1);
-    OSQPVectorf_view_free(s->r2);
-    OSQPVectorf_view_free(s->mvm_pre);
-    OSQPVectorf_view_free(s->mvm_post);
-    OSQPVectorf_view_free(s->precond_pre);
-    OSQPVectorf_view_free(s->precond_post);
-  }
+  if (!s) return;
+
+  OSQPVectorf_free(s->tmp);
+  OSQPVectorf_free(s->rho_vec);
+  OSQPVectorf_free(s->x);
+  OSQPVectorf_free(s->ywork);
+  OSQPVectorf_free(s->precond);
+  OSQPVectorf_free(s->precond_inv);
+  OSQPVectorf_view_free(s->r1);
+  OSQPVectorf_view_free(s->r2);
+  OSQPVectorf_view_free(s->mvm_pre);
+  OSQPVectorf_view_free(s->mvm_post);
+  OSQPVectorf_view_free(s->precond_pre);
+  OSQPVectorf_view_free(s->precond_post);
   c_free(s);
 }
-- 
2.43.0


From 9f423db5111abf9d28516cacedd6445aa838c609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:58 +0000
Subject: [PATCH 36/54] fix: a failing linear system solve ends the solve with
 an error instead of being ignored

---
 algebra/mkl/lin_sys/direct/pardiso_interface.c  |  1 +
 algebra/mkl/lin_sys/indirect/mkl-cg_interface.c |  2 ++
 include/private/auxil.h                         |  5 +++--
 src/auxil.c                                     |  6 +++---
 src/osqp_api.c                                  | 16 +++++++++++++---
 src/polish.c                                    | 11 +++++++++--
 6 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/algebra/mkl/lin_sys/direct/pardiso_interface.c b/algebra/mkl/lin_sys/direct/pardiso_interface.c
index 67681e5..a7514e1 100644
--- a/algebra/mkl/lin_sys/direct/pardiso_interface.c
+++ b/algebra/mkl/lin_sys/direct/pardiso_interface.c
@@ -297,6 +297,7 @@ OSQPInt solve_linsys_pardiso(pardiso_solver* s,
 
   if ( s->error != 0 ){
     c_eprint("Error during linear system solution: %d", (int)s->error);
+    osqp_profiler_sec_pop(OSQP_PROFILER_SEC_LINSYS_SOLVE);
     return 1;
   }
 
diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index b1cf5e2..0d71dc4 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -301,6 +301,8 @@ OSQPInt solve_linsys_mklcg(mklcg_solver* s,
       s->cg_zero_iters++;
     else
       s->cg_zero_iters = 0;
+
+    rci_request = 0;
   }
 
   osqp_profiler_sec_pop(OSQP_PROFILER_SEC_LINSYS_SOLVE);
diff --git a/include/private/auxil.h b/include/private/auxil.h
index 658042e..a99c72c 100644
--- a/include/private/auxil.h
+++ b/include/private/auxil.h
@@ -58,9 +58,10 @@ void swap_vectors(OSQPVectorf** a,
  * Update x_tilde and z_tilde variable (first ADMM step)
  * @param solver    Solver
  * @param admm_iter Current ADMM iteration
+ * @return          0 if the linear system has been solved
  */
-void update_xz_tilde(OSQPSolver* solver,
-                     OSQPInt     admm_iter);
+OSQPInt update_xz_tilde(OSQPSolver* solver,
+                        OSQPInt     admm_iter);
 
 
 /**
diff --git a/src/auxil.c b/src/auxil.c
index 75c89a9..efbcf2e 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -157,8 +157,8 @@ static void compute_rhs(OSQPSolver* solver) {
   }
 }
 
-void update_xz_tilde(OSQPSolver* solver,
-                     OSQPInt     admm_iter) {
+OSQPInt update_xz_tilde(OSQPSolver* solver,
+                        OSQPInt     admm_iter) {
 
   OSQPWorkspace* work = solver->work;
 
@@ -166,7 +166,7 @@ void update_xz_tilde(OSQPSolver* solver,
   compute_rhs(solver);
 
   // Solve linear system
-  work->linsys_solver->solve(work->linsys_solver, work->xz_tilde, admm_iter);
+  return work->linsys_solver->solve(work->linsys_solver, work->xz_tilde, admm_iter);
 }
 
 void update_x(OSQPSolver* solver) {
diff --git a/src/osqp_api.c b/src/osqp_api.c
index b8a5f5f..b1a56f2 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -723,9 +723,21 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
     /* ADMM STEPS */
     /* Compute \tilde{x}^{k+1}, \tilde{z}^{k+1} */
     osqp_profiler_sec_push(OSQP_PROFILER_SEC_ADMM_KKT_SOLVE);
-    update_xz_tilde(solver, iter);
+    exitflag = update_xz_tilde(solver, iter);
     osqp_profiler_sec_pop(OSQP_PROFILER_SEC_ADMM_KKT_SOLVE);
 
+    if (exitflag) {
+      c_eprint("Failed solving the linear system");
+      exitflag = 1;
+
+      // Keep the current iterate
+      swap_vectors(&(work->x), &(work->x_prev));
+      swap_vectors(&(work->z), &(work->z_prev));
+
+      osqp_profiler_sec_pop(OSQP_PROFILER_SEC_ADMM_ITER);
+      goto exit;
+    }
+
     osqp_profiler_sec_push(OSQP_PROFILER_SEC_ADMM_UPDATE);
 
     /* Compute x^{k+1} */
@@ -1028,9 +1040,7 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
 #endif /* ifndef OSQP_EMBEDDED_MODE */
 
 // Define exit flag for quitting function
-#if defined(OSQP_ENABLE_PROFILING) || defined(OSQP_ENABLE_INTERRUPT) || OSQP_EMBEDDED_MODE != 1
 exit:
-#endif /* if defined(OSQP_ENABLE_PROFILING) || defined(OSQP_ENABLE_INTERRUPT) || OSQP_EMBEDDED_MODE != 1 */
 
 #ifdef OSQP_ENABLE_PROFILING
   /* Update total time */
diff --git a/src/polish.c b/src/polish.c
index 58bf050..739337e 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -232,7 +232,8 @@ static OSQPInt iterative_refinement(OSQPSolver*   solver,
       OSQPMatrix_Axpy(work->pol->Ared, z1, rhs2, -1.0, 1.0);
 
       // Solve linear system. Store solution in rhs
-      p->solve(p, rhs, 1);
+      exitflag = p->solve(p, rhs, 1);
+      if (exitflag) goto cleanup;
 
       // Update solution
       OSQPVectorf_plus(z,z,rhs);
@@ -410,7 +411,13 @@ OSQPInt polish(OSQPSolver* solver) {
   plsh->warm_start(plsh, work->x);
 
   // Solve the reduced KKT system
-  plsh->solve(plsh, pol_sol, 1);
+  exitflag = plsh->solve(plsh, pol_sol, 1);
+
+  if (exitflag) {
+    // Polishing failed
+    info->status_polish = OSQP_POLISH_LINSYS_ERROR;
+    goto cleanup;
+  }
 
   // Perform iterative refinement to compensate for the regularization error
   exitflag = iterative_refinement(solver, plsh, pol_sol, rhs_red);
-- 
2.43.0


From 08b9d7ce5ef73d5d374a3f3eef53c09a219c9a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:59 +0000
Subject: [PATCH 37/54] fix: copy only the stored entries of a matrix on MKL

---
 algebra/mkl/matrix.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algebra/mkl/matrix.c b/algebra/mkl/matrix.c
index f47ef37..70e06ee 100644
--- a/algebra/mkl/matrix.c
+++ b/algebra/mkl/matrix.c
@@ -67,7 +67,7 @@ OSQPMatrix* OSQPMatrix_new_from_csc(const OSQPCscMatrix* A,
   OSQPInt i       = 0;
   OSQPInt n       = A->n;   /* Number of columns */
   OSQPInt m       = A->m;   /* Number of rows */
-  OSQPInt nzmax   = A->nzmax; /* Number of non-zeros */
+  OSQPInt nnz     = A->p[n]; /* Number of non-zeros (the input may have room for more) */
   OSQPInt hasData = (A->x != OSQP_NULL); /* Input A matrix has data */
 
   MKL_INT retval = 0;
@@ -84,7 +84,7 @@ OSQPMatrix* OSQPMatrix_new_from_csc(const OSQPCscMatrix* A,
 
   /* We specially allocate this matrix using the MKL memory routines,
      so it should NEVER touch the normal memory routines. */
-  out->csc = mkl_csc_spalloc(m, n, nzmax, hasData);
+  out->csc = mkl_csc_spalloc(m, n, nnz, hasData);
 
   if(!out->csc){
     c_free(out);
@@ -95,7 +95,7 @@ OSQPMatrix* OSQPMatrix_new_from_csc(const OSQPCscMatrix* A,
     out->csc->p[i] = A->p[i];
   }
 
-  for(i=0; i < nzmax; i++) {
+  for(i=0; i < nnz; i++) {
     out->csc->i[i] = A->i[i];
     out->csc->x[i] = A->x[i];
   }
-- 
2.43.0


From ceb26e0ca8c3588d97d77f8ed72313ca98b77658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:27 +0000
Subject: [PATCH 38/54] fix: unscale infeasibility certificates also with
 scaled termination

---
 src/auxil.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auxil.c b/src/auxil.c
index efbcf2e..0c903c8 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -907,7 +907,7 @@ OSQPInt check_termination(OSQPSolver* solver,
       update_status(info, OSQP_PRIMAL_INFEASIBLE);
     }
 
-    if (settings->scaling && !settings->scaled_termination) {
+    if (settings->scaling) {
       // Update infeasibility certificate
       OSQPVectorf_ew_prod(work->delta_y,
                           work->delta_y,
@@ -924,7 +924,7 @@ OSQPInt check_termination(OSQPSolver* solver,
       update_status(info, OSQP_DUAL_INFEASIBLE);
     }
 
-    if (settings->scaling && !settings->scaled_termination) {
+    if (settings->scaling) {
       // Update infeasibility certificate
       OSQPVectorf_ew_prod(work->delta_x,
                           work->delta_x,
-- 
2.43.0


From e8f57fe271137c068b137acc69c9774b0d89f16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 39/54] fix: do not accept a polished solution whose duality
 gap violates the tolerances

---
 include/private/auxil.h | 15 +++++++++++++++
 src/auxil.c             | 36 +++++++++++++++++++++---------------
 src/polish.c            |  7 +++++++
 3 files changed, 43 insertions(+), 15 deletions(-)

diff --git a/include/private/auxil.h b/include/private/auxil.h
index a99c72c..13de056 100644
--- a/include/private/auxil.h
+++ b/include/private/auxil.h
@@ -144,6 +144,21 @@ void update_status(OSQPInfo* info,
                    OSQPInt   status_val);
 
 
+/**
+ * Check if the most recently computed duality gap is within the tolerances
+ *
+ * @param  solver       Solver
+ * @param  duality_gap  Unscaled duality gap
+ * @param  eps_abs      Absolute tolerance
+ * @param  eps_rel      Relative tolerance
+ * @return              Boolean
+ */
+OSQPInt is_duality_gap_small(const OSQPSolver* solver,
+                             OSQPFloat         duality_gap,
+                             OSQPFloat         eps_abs,
+                             OSQPFloat         eps_rel);
+
+
 /**
  * Check if termination conditions are satisfied
  * If the boolean flag is ON, it checks for approximate conditions (10 x larger
diff --git a/src/auxil.c b/src/auxil.c
index 0c903c8..fba4dec 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -305,6 +305,25 @@ static OSQPFloat compute_duality_gap_tol(const OSQPSolver* solver,
   return eps_abs + eps_rel * max_rel_eps;
 }
 
+OSQPInt is_duality_gap_small(const OSQPSolver* solver,
+                             OSQPFloat         duality_gap,
+                             OSQPFloat         eps_abs,
+                             OSQPFloat         eps_rel) {
+  OSQPSettings*  settings = solver->settings;
+  OSQPWorkspace* work     = solver->work;
+
+  // Compute duality gap tolerance
+  OSQPFloat eps_duality_gap = compute_duality_gap_tol(solver, eps_abs, eps_rel);
+
+  if (settings->scaling && !settings->scaled_termination) {
+    // Use the unscaled duality gap value
+    return c_absval(duality_gap) < eps_duality_gap;
+  }
+
+  // Use the scaled duality gap value
+  return c_absval(work->scaled_dual_gap) < eps_duality_gap;
+}
+
 static OSQPFloat compute_prim_res(OSQPSolver*        solver,
                                   const OSQPVectorf* x,
                                   const OSQPVectorf* z) {
@@ -801,7 +820,7 @@ void update_status(OSQPInfo* info,
 OSQPInt check_termination(OSQPSolver* solver,
                           OSQPInt     approximate) {
 
-  OSQPFloat eps_prim, eps_dual, eps_duality_gap, eps_prim_inf, eps_dual_inf;
+  OSQPFloat eps_prim, eps_dual, eps_prim_inf, eps_dual_inf;
   OSQPInt   exitflag;
   OSQPInt   prim_res_check, dual_res_check, duality_gap_check, prim_inf_check, dual_inf_check;
   OSQPFloat eps_abs, eps_rel;
@@ -869,21 +888,8 @@ OSQPInt check_termination(OSQPSolver* solver,
   }
 
   if (settings->check_dualgap ) {
-    // Compute duality gap tolerance
-    eps_duality_gap = compute_duality_gap_tol(solver, eps_abs, eps_rel);
-
     // Duality gap check
-    if (settings->scaling && !settings->scaled_termination) {
-      // Use the unscaled duality gap value
-      if (c_absval(info->duality_gap) < eps_duality_gap) {
-        duality_gap_check = 1;
-      }
-    } else {
-      // Use the scaled duality gap value
-      if (c_absval(work->scaled_dual_gap) < eps_duality_gap) {
-        duality_gap_check = 1;
-      }
-    }
+    duality_gap_check = is_duality_gap_small(solver, info->duality_gap, eps_abs, eps_rel);
   } else {
     // Force to 1 to bypass the check
     duality_gap_check = 1;
diff --git a/src/polish.c b/src/polish.c
index 739337e..0cfa9c0 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -467,6 +467,13 @@ OSQPInt polish(OSQPSolver* solver) {
                                                                     // already
                                                                     // tiny
 
+  // The duality gap must not leave the tolerance either
+  if (polish_successful && settings->check_dualgap &&
+      c_absval(work->pol->duality_gap) > c_absval(info->duality_gap)) {
+    polish_successful = is_duality_gap_small(solver, work->pol->duality_gap,
+                                             settings->eps_abs, settings->eps_rel);
+  }
+
   if (polish_successful) {
     // Update solver information
     info->obj_val       = work->pol->obj_val;
-- 
2.43.0


From 5bc6c927f97a62092823c95e133c1417d10f5cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:26 +0000
Subject: [PATCH 40/54] fix: keep the caller's SIGINT handler when solves
 overlap in several threads

---
 src/interrupt_unix.c | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/interrupt_unix.c b/src/interrupt_unix.c
index 8965cb8..43977c0 100644
--- a/src/interrupt_unix.c
+++ b/src/interrupt_unix.c
@@ -3,31 +3,55 @@
  */
 
 #include "interrupt.h"
+#include <sched.h>
 #include <signal.h>
 
-static int int_detected;
+/*
+ * The signal handler belongs to the whole process, but several solvers may be
+ * solving in different threads: the first one to start listening installs the
+ * handler and the last one to stop puts the previous one back.
+ */
+static volatile sig_atomic_t num_interrupts;  /* Interrupts received so far */
+static __thread sig_atomic_t num_at_start;    /* Interrupts received before this thread's solve */
+static int  num_listeners;                    /* Solves listening now */
+static char listeners_lock;                   /* Protects num_listeners and oact */
 struct sigaction oact;
 
 static void handle_ctrlc(int dummy) {
-  int_detected = dummy ? dummy : -1;
+  (void)dummy;
+  num_interrupts = num_interrupts + 1;
+}
+
+static void lock_listeners(void) {
+  while (__atomic_test_and_set(&listeners_lock, __ATOMIC_ACQUIRE)) sched_yield();
+}
+
+static void unlock_listeners(void) {
+  __atomic_clear(&listeners_lock, __ATOMIC_RELEASE);
 }
 
 void osqp_start_interrupt_listener(void) {
   struct sigaction act;
 
-  int_detected = 0;
-  act.sa_flags = 0;
-  sigemptyset(&act.sa_mask);
-  act.sa_handler = handle_ctrlc;
-  sigaction(SIGINT, &act, &oact);
+  lock_listeners();
+  num_at_start = num_interrupts;
+  if (num_listeners++ == 0) {
+    act.sa_flags = 0;
+    sigemptyset(&act.sa_mask);
+    act.sa_handler = handle_ctrlc;
+    sigaction(SIGINT, &act, &oact);
+  }
+  unlock_listeners();
 }
 
 void osqp_end_interrupt_listener(void) {
   struct sigaction act;
 
-  sigaction(SIGINT, &oact, &act);
+  lock_listeners();
+  if (--num_listeners == 0) sigaction(SIGINT, &oact, &act);
+  unlock_listeners();
 }
 
 int osqp_is_interrupted(void) {
-  return int_detected;
+  return num_interrupts != num_at_start;
 }
-- 
2.43.0


From 03c202b731ebc3175780be5b5cbdf9606291be7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:18 +0000
Subject: [PATCH 41/54] fix: leave no half-built workspace behind when setup
 fails

---
 src/osqp_api.c | 103 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 68 insertions(+), 35 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index b1a56f2..eff309c 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -339,15 +339,19 @@ void osqp_set_default_settings(OSQPSettings* settings) {
 #ifndef OSQP_EMBEDDED_MODE
 
 
-OSQPInt osqp_setup(OSQPSolver**         solverp,
-                   const OSQPCscMatrix* P,
-                   const OSQPFloat*     q,
-                   const OSQPCscMatrix* A,
-                   const OSQPFloat*     l,
-                   const OSQPFloat*     u,
-                   OSQPInt              m,
-                   OSQPInt              n,
-                   const OSQPSettings*  settings) {
+/* Free the workspace. */
+static void free_workspace(OSQPWorkspace* work);
+
+/* Build the solver. If this fails, what has been built so far is left in solverp. */
+static OSQPInt setup_solver(OSQPSolver**         solverp,
+                            const OSQPCscMatrix* P,
+                            const OSQPFloat*     q,
+                            const OSQPCscMatrix* A,
+                            const OSQPFloat*     l,
+                            const OSQPFloat*     u,
+                            OSQPInt              m,
+                            OSQPInt              n,
+                            const OSQPSettings*  settings) {
 
   OSQPInt exitflag;
 
@@ -641,6 +645,34 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   return 0;
 }
 
+OSQPInt osqp_setup(OSQPSolver**         solverp,
+                   const OSQPCscMatrix* P,
+                   const OSQPFloat*     q,
+                   const OSQPCscMatrix* A,
+                   const OSQPFloat*     l,
+                   const OSQPFloat*     u,
+                   OSQPInt              m,
+                   OSQPInt              n,
+                   const OSQPSettings*  settings) {
+
+  OSQPInt     exitflag;
+  OSQPSolver* solver = OSQP_NULL;
+
+  exitflag = setup_solver(&solver, P, q, A, l, u, m, n, settings);
+
+  if (solver) {
+    // A half-built workspace cannot be used, so the solver is left without one
+    if (exitflag) {
+      free_workspace(solver->work);
+      solver->work = OSQP_NULL;
+    }
+    *solverp = solver;
+  }
+
+  return exitflag;
+}
+
+
 #endif /* ifndef OSQP_EMBEDDED_MODE */
 
 
@@ -1104,14 +1136,7 @@ OSQPInt osqp_get_solution(OSQPSolver* solver, OSQPSolution* solution) {
 
 #ifndef OSQP_EMBEDDED_MODE
 
-OSQPInt osqp_cleanup(OSQPSolver* solver) {
-
-  OSQPInt exitflag = 0;
-  OSQPWorkspace* work;
-
-  if(!solver) return 0;   //exit on null
-
-  work = solver->work;
+static void free_workspace(OSQPWorkspace* work) {
 
   if (work) { // If workspace has been allocated
     // Free algebra library handlers
@@ -1182,21 +1207,6 @@ OSQPInt osqp_cleanup(OSQPSolver* solver) {
     OSQPVectorf_free(work->Pdelta_x);
     OSQPVectorf_free(work->Adelta_x);
 
-    // Free Settings
-    if (solver->settings) c_free(solver->settings);
-
-    // Free solution
-    if (solver->solution) {
-      c_free(solver->solution->x);
-      c_free(solver->solution->y);
-      c_free(solver->solution->prim_inf_cert);
-      c_free(solver->solution->dual_inf_cert);
-      c_free(solver->solution);
-    }
-
-    // Free information
-    if (solver->info) c_free(solver->info);
-
 # ifdef OSQP_ENABLE_PROFILING
     // Free timer
     if (work->timer) OSQPTimer_free(work->timer);
@@ -1216,11 +1226,34 @@ OSQPInt osqp_cleanup(OSQPSolver* solver) {
     // Free work
     c_free(work);
   }
+}
+
+OSQPInt osqp_cleanup(OSQPSolver* solver) {
+
+  if(!solver) return 0;   //exit on null
+
+  // Free workspace
+  free_workspace(solver->work);
+
+  // Free Settings
+  if (solver->settings) c_free(solver->settings);
+
+  // Free solution
+  if (solver->solution) {
+    c_free(solver->solution->x);
+    c_free(solver->solution->y);
+    c_free(solver->solution->prim_inf_cert);
+    c_free(solver->solution->dual_inf_cert);
+    c_free(solver->solution);
+  }
+
+  // Free information
+  if (solver->info) c_free(solver->info);
 
   // Free solver
   c_free(solver);
 
-  return exitflag;
+  return 0;
 }
 
 #endif /* ifndef OSQP_EMBEDDED_MODE */
@@ -1614,7 +1647,7 @@ OSQPInt osqp_codegen(OSQPSolver*         solver,
   OSQPInt exitflag = 0;
 
 #ifdef OSQP_CODEGEN
-  if (!solver || !solver->work || !solver->settings || !solver->info) {
+  if (!solver || !solver->settings || !solver->info) {
     return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
   }
   /* Don't allow codegen for a non-convex problem. */
@@ -1622,7 +1655,7 @@ OSQPInt osqp_codegen(OSQPSolver*         solver,
     return osqp_error(OSQP_NONCVX_ERROR);
   }
   /* Test after non-convex error to ensure we throw a useful error code*/
-  else if (!solver->work->data || !solver->work->linsys_solver) {
+  else if (!solver->work || !solver->work->data || !solver->work->linsys_solver) {
     return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
   }
   else if (!defines || (defines->embedded_mode != 1    && defines->embedded_mode != 2)
-- 
2.43.0


From 092bf666c441faf9ef7103bbf6181cbd09cff012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:37 +0000
Subject: [PATCH 42/54] fix: write the values of generated code so that they
 read back exactly

---
 src/codegen.c | 53 +++++++++++++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/src/codegen.c b/src/codegen.c
index a444641..aa93402 100644
--- a/src/codegen.c
+++ b/src/codegen.c
@@ -18,6 +18,9 @@
 /* Define the maximum allowed length of the filename (no extension)*/
 #define FILE_LENGTH 100
 
+/* Number of digits that lets every (double precision) value be read back exactly */
+#define OSQP_ROUNDTRIP_FMT "%.17g"
+
 #define PROPAGATE_ERROR(f) \
   exitflag = f; \
   if (exitflag) { return exitflag; }
@@ -40,7 +43,7 @@ static OSQPInt write_vecf(FILE*            f,
   if (n && vecf) {
     fprintf(f, "OSQPFloat %s[%" OSQP_INT_FMT "] = {\n", name, n);
     for (i = 0; i < n; i++) {
-      fprintf(f, "  (OSQPFloat)%.20f,\n", vecf[i]);
+      fprintf(f, "  (OSQPFloat)" OSQP_ROUNDTRIP_FMT ",\n", vecf[i]);
     }
     fprintf(f, "};\n");
   }
@@ -177,29 +180,29 @@ static OSQPInt write_settings(FILE*               f,
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->warm_starting);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->scaling);
   fprintf(f, "  0,\n"); // polishing
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->rho);
+  fprintf(f, "  (OSQPFloat)" OSQP_ROUNDTRIP_FMT ",\n", settings->rho);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->rho_is_vec);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->sigma);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->alpha);
+  fprintf(f, "  (OSQPFloat)" OSQP_ROUNDTRIP_FMT ",\n", settings->sigma);
+  fprintf(f, "  (OSQPFloat)" OSQP_ROUNDTRIP_FMT ",\n", settings->alpha);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->cg_max_iter);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->cg_tol_reduction);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->cg_tol_fraction);
+  fprintf(f, "  (OSQPFloat)" OSQP_ROUNDTRIP_FMT ",\n", settings->cg_tol_fraction);
   fprintf(f, "  %u,\n", settings->cg_precond);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->adaptive_rho);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->adaptive_rho_interval);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->adaptive_rho_fraction);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->adaptive_rho_tolerance);
+  fprintf(f, "  (OSQPFloat)" OSQP_ROUNDTRIP_FMT ",\n", settings->adaptive_rho_fraction);
+  fprintf(f, "  (OSQPFloat)" OSQP_ROUNDTRIP_FMT ",\n", settings->adaptive_rho_tolerance);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->max_iter);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->eps_abs);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->eps_rel);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->eps_prim_inf);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->eps_dual_inf);
+  fprintf(f, "  (OSQPFloat)" OSQP_ROUNDTRIP_FMT ",\n", settings->eps_abs);
+  fprintf(f, "  (OSQPFloat)" OSQP_ROUNDTRIP_FMT ",\n", settings->eps_rel);
+  fprintf(f, "  (OSQPFloat)" OSQP_ROUNDTRIP_FMT ",\n", settings->eps_prim_inf);
+  fprintf(f, "  (OSQPFloat)" OSQP_ROUNDTRIP_FMT ",\n", settings->eps_dual_inf);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->scaled_termination);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->check_termination);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->check_dualgap);
 
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->time_limit);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", settings->delta);
+  fprintf(f, "  (OSQPFloat)" OSQP_ROUNDTRIP_FMT ",\n", settings->time_limit);
+  fprintf(f, "  (OSQPFloat)" OSQP_ROUNDTRIP_FMT ",\n", settings->delta);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", settings->polish_refine_iter);
   fprintf(f, "};\n\n");
 
@@ -222,14 +225,14 @@ static OSQPInt write_info(FILE*           f,
   fprintf(f, "  \"%s\",\n", OSQP_STATUS_MESSAGE[OSQP_UNSOLVED]);
   fprintf(f, "  %d,\n", OSQP_UNSOLVED);
   fprintf(f, "  0,\n"); // status_polish
-  fprintf(f, "  (OSQPFloat)%.20f,\n", OSQP_INFTY); // obj_val
-  fprintf(f, "  (OSQPFloat)%.20f,\n", OSQP_INFTY); // dual_obj_val
-  fprintf(f, "  (OSQPFloat)%.20f,\n", OSQP_INFTY); // prim_res
-  fprintf(f, "  (OSQPFloat)%.20f,\n", OSQP_INFTY); // dual_res
-  fprintf(f, "  (OSQPFloat)%.20f,\n", OSQP_INFTY); // duality_gap
+  fprintf(f, "  (OSQPFloat)" OSQP_ROUNDTRIP_FMT ",\n", OSQP_INFTY); // obj_val
+  fprintf(f, "  (OSQPFloat)" OSQP_ROUNDTRIP_FMT ",\n", OSQP_INFTY); // dual_obj_val
+  fprintf(f, "  (OSQPFloat)" OSQP_ROUNDTRIP_FMT ",\n", OSQP_INFTY); // prim_res
+  fprintf(f, "  (OSQPFloat)" OSQP_ROUNDTRIP_FMT ",\n", OSQP_INFTY); // dual_res
+  fprintf(f, "  (OSQPFloat)" OSQP_ROUNDTRIP_FMT ",\n", OSQP_INFTY); // duality_gap
   fprintf(f, "  0,\n"); // iter (iteration count)
   fprintf(f, "  0,\n"); // rho_updates
-  fprintf(f, "  (OSQPFloat)%.20f,\n", info->rho_estimate);
+  fprintf(f, "  (OSQPFloat)" OSQP_ROUNDTRIP_FMT ",\n", info->rho_estimate);
   fprintf(f, "  (OSQPFloat)0.0,\n"); // setup_time
   fprintf(f, "  (OSQPFloat)0.0,\n"); // solve_time
   fprintf(f, "  (OSQPFloat)0.0,\n"); // update_time
@@ -295,10 +298,10 @@ static OSQPInt write_scaling(FILE*              f,
   sprintf(name, "%sscaling_Einv", prefix);
   GENERATE_ERROR(write_OSQPVectorf(f, scaling->Einv, name))
   fprintf(f, "OSQPScaling %sscaling = {\n", prefix);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", scaling->c);
+  fprintf(f, "  (OSQPFloat)" OSQP_ROUNDTRIP_FMT ",\n", scaling->c);
   fprintf(f, "  &%sscaling_D,\n", prefix);
   fprintf(f, "  &%sscaling_E,\n", prefix);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", scaling->cinv);
+  fprintf(f, "  (OSQPFloat)" OSQP_ROUNDTRIP_FMT ",\n", scaling->cinv);
   fprintf(f, "  &%sscaling_Dinv,\n", prefix);
   fprintf(f, "  &%sscaling_Einv\n", prefix);
   fprintf(f, "};\n\n");
@@ -422,8 +425,8 @@ static OSQPInt write_linsys(FILE*               f,
     fprintf(f, "  OSQP_NULL,\n");
   }
 
-  fprintf(f, "  (OSQPFloat)%.20f,\n", linsys->sigma);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", linsys->rho_inv);
+  fprintf(f, "  (OSQPFloat)" OSQP_ROUNDTRIP_FMT ",\n", linsys->sigma);
+  fprintf(f, "  (OSQPFloat)" OSQP_ROUNDTRIP_FMT ",\n", linsys->rho_inv);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", n);
   fprintf(f, "  %" OSQP_INT_FMT ",\n", m);
   if (embedded > 1) {
@@ -601,10 +604,10 @@ static OSQPInt write_workspace(FILE*             f,
   }
   fprintf(f, "  (OSQPFloat)0.0,\n"); // scaled_prim_res
   fprintf(f, "  (OSQPFloat)0.0,\n"); // scaled_dual_res
-  fprintf(f, "  (OSQPFloat)%.20f,\n", work->rho_inv);
+  fprintf(f, "  (OSQPFloat)" OSQP_ROUNDTRIP_FMT ",\n", work->rho_inv);
 
   fprintf(f, "  %" OSQP_INT_FMT ",\n", work->rho_updated);
-  fprintf(f, "  (OSQPFloat)%.20f,\n", work->last_rel_kkt);
+  fprintf(f, "  (OSQPFloat)" OSQP_ROUNDTRIP_FMT ",\n", work->last_rel_kkt);
 
   fprintf(f, "};\n\n");
 
-- 
2.43.0


From b24cafb9b431310b3b0225c86c7fe5d3908bb400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:42 +0000
Subject: [PATCH 43/54] fix: generated code initialises the workspace fields of
 enabled features

---
 src/codegen.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/codegen.c b/src/codegen.c
index aa93402..a7fc231 100644
--- a/src/codegen.c
+++ b/src/codegen.c
@@ -606,6 +606,20 @@ static OSQPInt write_workspace(FILE*             f,
   fprintf(f, "  (OSQPFloat)0.0,\n"); // scaled_dual_res
   fprintf(f, "  (OSQPFloat)" OSQP_ROUNDTRIP_FMT ",\n", work->rho_inv);
 
+  /* These are only part of the workspace when the feature is enabled in the embedded code */
+  fprintf(f, "#ifdef OSQP_ENABLE_PROFILING\n");
+  fprintf(f, "  OSQP_NULL,\n"); // timer
+  fprintf(f, "  1,\n"); // first_run
+  fprintf(f, "  0,\n"); // clear_update_time
+  fprintf(f, "  0,\n"); // rho_update_from_solve
+  fprintf(f, "#endif\n");
+  fprintf(f, "#ifdef OSQP_ENABLE_PRINTING\n");
+  fprintf(f, "  0,\n"); // summary_printed
+  fprintf(f, "#endif\n");
+  fprintf(f, "#ifdef OSQP_ENABLE_DERIVATIVES\n");
+  fprintf(f, "  OSQP_NULL,\n"); // derivative_data
+  fprintf(f, "#endif\n");
+
   fprintf(f, "  %" OSQP_INT_FMT ",\n", work->rho_updated);
   fprintf(f, "  (OSQPFloat)" OSQP_ROUNDTRIP_FMT ",\n", work->last_rel_kkt);
 
-- 
2.43.0


From 9f0376eca3455e2f709faabc4c643715cb1d2d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:46 +0000
Subject: [PATCH 44/54] fix: refuse to generate code when a file name or prefix
 is too long

---
 src/codegen.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/codegen.c b/src/codegen.c
index a7fc231..4bbf9ed 100644
--- a/src/codegen.c
+++ b/src/codegen.c
@@ -674,8 +674,10 @@ OSQPInt codegen_inc(const char* output_dir,
   time_t now;
   OSQPInt i = 0;
 
-  sprintf(fname,  "%sworkspace", file_prefix);
-  sprintf(hfname, "%s%s.h", output_dir, fname);
+  /* The prefix also starts the name of every variable, so its length is limited as well */
+  if (snprintf(fname, FILE_LENGTH, "%sworkspace", file_prefix) >= FILE_LENGTH ||
+      snprintf(hfname, PATH_LENGTH, "%s%s.h", output_dir, fname) >= PATH_LENGTH)
+    return osqp_error(OSQP_FOPEN_ERROR);
 
   /* Open include file */
   incFile = fopen(hfname, "w");
@@ -729,12 +731,12 @@ OSQPInt codegen_src(const char* output_dir,
                     OSQPInt     embedded) {
 
   OSQPInt exitflag = OSQP_NO_ERROR;
-  char fname[PATH_LENGTH], cfname[PATH_LENGTH+2];
+  char cfname[PATH_LENGTH];
   FILE *srcFile;
   time_t now;
 
-  sprintf(fname,  "%s%sworkspace", output_dir, file_prefix);
-  sprintf(cfname, "%s.c",        fname);
+  if (snprintf(cfname, PATH_LENGTH, "%s%sworkspace.c", output_dir, file_prefix) >= PATH_LENGTH)
+    return osqp_error(OSQP_FOPEN_ERROR);
 
   /* Open source file */
   srcFile = fopen(cfname, "w");
@@ -770,7 +772,8 @@ OSQPInt codegen_defines(const char*         output_dir,
   FILE *incFile;
   time_t now;
 
-  sprintf(cfname,  "%sosqp_configure.h", output_dir);
+  if (snprintf(cfname, PATH_LENGTH, "%sosqp_configure.h", output_dir) >= PATH_LENGTH)
+    return osqp_error(OSQP_FOPEN_ERROR);
 
   /* Open source file */
   incFile = fopen(cfname, "w");
@@ -837,7 +840,8 @@ OSQPInt codegen_example(const char* output_dir,
   FILE *srcFile;
   time_t now;
 
-  sprintf(cfname, "%semosqp.c", output_dir);
+  if (snprintf(cfname, PATH_LENGTH, "%semosqp.c", output_dir) >= PATH_LENGTH)
+    return osqp_error(OSQP_FOPEN_ERROR);
 
   /* Open source file */
   srcFile = fopen(cfname, "w");
-- 
2.43.0


From 8f925f9cae1383fda063195e3d8b3fb4ad2717d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:50 +0000
Subject: [PATCH 45/54] fix: report when generated code could not be written
 completely

---
 src/codegen.c | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/codegen.c b/src/codegen.c
index 4bbf9ed..5a27768 100644
--- a/src/codegen.c
+++ b/src/codegen.c
@@ -666,6 +666,18 @@ static OSQPInt write_solver(FILE*             f,
 * Codegen API
 **************/
 
+/* Close a generated file, reporting whether all of it could be written */
+static OSQPInt close_file(FILE* f) {
+
+  OSQPInt failed = ferror(f);
+
+  if (fclose(f)) failed = 1;
+
+  if (failed) return osqp_error(OSQP_FOPEN_ERROR);
+
+  return OSQP_NO_ERROR;
+}
+
 OSQPInt codegen_inc(const char* output_dir,
                     const char* file_prefix) {
 
@@ -719,9 +731,7 @@ OSQPInt codegen_inc(const char* output_dir,
   fprintf(incFile, "#endif /* ifndef %s */\n", incGuard);
 
   /* Close header file */
-  fclose(incFile);
-
-  return 0;
+  return close_file(incFile);
 }
 
 
@@ -760,9 +770,12 @@ OSQPInt codegen_src(const char* output_dir,
   exitflag = write_solver(srcFile, solver, file_prefix, embedded);
 
   /* Close header file */
-  fclose(srcFile);
+  if (exitflag) {
+    fclose(srcFile);
+    return exitflag;
+  }
 
-  return exitflag;
+  return close_file(srcFile);
 }
 
 
@@ -827,9 +840,7 @@ OSQPInt codegen_defines(const char*         output_dir,
   fprintf(incFile, "#endif /* ifndef OSQP_CONFIGURE_H */\n");
 
   /* Close header file */
-  fclose(incFile);
-
-  return OSQP_NO_ERROR;
+  return close_file(incFile);
 }
 
 
@@ -876,7 +887,5 @@ OSQPInt codegen_example(const char* output_dir,
   fprintf(srcFile, "}\n");
 
   /* Close header file */
-  fclose(srcFile);
-
-  return OSQP_NO_ERROR;
+  return close_file(srcFile);
 }
-- 
2.43.0


From a6f76c41a182a2449551810124c70843359bba17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:44 +0000
Subject: [PATCH 46/54] fix: use the derivative for y, not -y, at lower bounds
 in adjoint derivatives

---
 include/private/derivative.h |  3 +--
 src/derivative.c             | 15 ++++++---------
 src/osqp_api.c               |  2 +-
 3 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/include/private/derivative.h b/include/private/derivative.h
index 783bdc9..c2a2e44 100644
--- a/include/private/derivative.h
+++ b/include/private/derivative.h
@@ -20,8 +20,7 @@ OSQPInt adjoint_derivative_get_vec(OSQPSolver *solver,
 
 OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
                                    OSQPFloat*     dx,
-                                   OSQPFloat*     dy_l,
-                                   OSQPFloat*     dy_u);
+                                   OSQPFloat*     dy);
 
 #ifdef __cplusplus
 }
diff --git a/src/derivative.c b/src/derivative.c
index 4e44dc3..3a71816 100644
--- a/src/derivative.c
+++ b/src/derivative.c
@@ -108,8 +108,7 @@ OSQPInt adjoint_derivative_get_vec(OSQPSolver *solver,
 
 OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
                                    OSQPFloat*     dx,
-                                   OSQPFloat*     dy_l,
-                                   OSQPFloat*     dy_u) {
+                                   OSQPFloat*     dy) {
 
     // Check if solver has been initialized
     if (!solver || !solver->work || !solver->work->derivative_data)
@@ -148,8 +147,10 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
     OSQPInt* u_noninf_indices_vec = (OSQPInt *) c_malloc(m * sizeof(OSQPInt));
     OSQPInt* nu_sign_vec = (OSQPInt *) c_malloc(m * sizeof(OSQPInt));
 
-    OSQPVectorf* dy_l_vec = OSQPVectorf_new(dy_l, m);
-    OSQPVectorf* dy_u_vec = OSQPVectorf_new(dy_u, m);
+    // y = y_u - y_l, so derivatives with respect to y_l have the opposite sign
+    OSQPVectorf* dy_l_vec = OSQPVectorf_new(dy, m);
+    OSQPVectorf_mult_scalar(dy_l_vec, -1);
+    OSQPVectorf* dy_u_vec = OSQPVectorf_new(dy, m);
 
     // TODO: We could use constr_type in OSQPWorkspace but it only tells us whether a constraint is 'loose'
     // not 'upper loose' or 'lower loose', which we seem to need here.
@@ -280,11 +281,7 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
 
     OSQPFloat* d_nu_vec = (OSQPFloat *) c_malloc(n_eq * sizeof(OSQPFloat));
     for (j=0; j<n_eq; j++) {
-      if (nu_sign_vec[j]==1) {
-        d_nu_vec[j] = dy_u[eq_indices_vec[j]];
-      } else if (nu_sign_vec[j]==-1) {
-        d_nu_vec[j] = -dy_l[eq_indices_vec[j]];
-      } else {}  // should never happen
+      d_nu_vec[j] = dy[eq_indices_vec[j]];
     }
     OSQPVectorf_subvector_assign(rhs, d_nu_vec, pos, n_eq, -1);
     c_free(d_nu_vec);
diff --git a/src/osqp_api.c b/src/osqp_api.c
index eff309c..4f9be1d 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1691,7 +1691,7 @@ OSQPInt osqp_adjoint_derivative_compute(OSQPSolver* solver,
   OSQPInt status = 0;
 
 #ifdef OSQP_ENABLE_DERIVATIVES
-  status = adjoint_derivative_compute(solver, dx, dy, dy);
+  status = adjoint_derivative_compute(solver, dx, dy);
 #else
   OSQP_UnusedVar(solver);
   OSQP_UnusedVar(dx);
-- 
2.43.0


From 2d3ce383def31618603d36411051a297bc340ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:19 +0000
Subject: [PATCH 47/54] fix: adjoint derivatives of equality constraints whose
 multiplier is zero

---
 src/derivative.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/derivative.c b/src/derivative.c
index 3a71816..935107f 100644
--- a/src/derivative.c
+++ b/src/derivative.c
@@ -310,7 +310,10 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
         return exitflag;
     }
 
+    OSQPInt i;
     OSQPFloat* rhs_data = OSQPVectorf_data(rhs);
+    OSQPFloat* y_l_data = OSQPVectorf_data(derivative_data->y_l);
+    OSQPFloat* y_u_data = OSQPVectorf_data(derivative_data->y_u);
 
     OSQPFloat* r_yl = (OSQPFloat *) c_malloc(m * sizeof(OSQPFloat));
     OSQPFloat* r_yu = (OSQPFloat *) c_malloc(m * sizeof(OSQPFloat));
@@ -320,22 +323,22 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
 
     pos += n;
     for (j=0; j<derivative_data->n_ineq_l; j++) {
-        r_yl[l_noninf_indices_vec[j]] = -rhs_data[pos+j];
+        i = l_noninf_indices_vec[j];
+        r_yl[i] = rhs_data[pos+j] * y_l_data[i];
     }
     c_free(l_noninf_indices_vec);
     pos += derivative_data->n_ineq_l;
     for (j=0; j<derivative_data->n_ineq_u; j++) {
-        r_yu[u_noninf_indices_vec[j]] = rhs_data[pos+j];
+        i = u_noninf_indices_vec[j];
+        r_yu[i] = rhs_data[pos+j] * y_u_data[i];
     }
     c_free(u_noninf_indices_vec);
     pos += derivative_data->n_ineq_u;
     for (j=0; j<derivative_data->n_eq; j++) {
         if (nu_sign_vec[j]==1) {
-            r_yl[eq_indices_vec[j]] = 0;
-            r_yu[eq_indices_vec[j]] = rhs_data[pos+j] / y_data[eq_indices_vec[j]];
+            r_yu[eq_indices_vec[j]] = rhs_data[pos+j];
         } else {
-            r_yl[eq_indices_vec[j]] = -rhs_data[pos+j] / y_data[eq_indices_vec[j]];
-            r_yu[eq_indices_vec[j]] = 0;
+            r_yl[eq_indices_vec[j]] = -rhs_data[pos+j];
         }
     }
     c_free(nu_sign_vec);
@@ -343,11 +346,8 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
 
     OSQPVectorf_from_raw(derivative_data->ryl, r_yl);
     c_free(r_yl);
-    OSQPVectorf_ew_prod(derivative_data->ryl, derivative_data->ryl, derivative_data->y_l);
-    OSQPVectorf_mult_scalar(derivative_data->ryl, -1);
     OSQPVectorf_from_raw(derivative_data->ryu, r_yu);
     c_free(r_yu);
-    OSQPVectorf_ew_prod(derivative_data->ryu, derivative_data->ryu, derivative_data->y_u);
 
     //cleanup
     OSQPVectorf_free(y);
-- 
2.43.0


From 35b32c4902a9d643941a16c27563d724bf004f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:01 +0000
Subject: [PATCH 48/54] fix: deliver adjoint derivatives of the solution they
 were computed for

---
 include/private/types.h | 1 +
 src/derivative.c        | 5 ++---
 src/osqp_api.c          | 4 +++-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/private/types.h b/include/private/types.h
index 854b4e6..cb21204 100644
--- a/include/private/types.h
+++ b/include/private/types.h
@@ -84,6 +84,7 @@ typedef struct {
     OSQPInt n_ineq_l;  ///< number of inequalities where -inf < l < u
     OSQPInt n_ineq_u;  ///< number of inequalities where l < u < inf
     OSQPInt n_eq;      ///< number of equalities where l == u
+    OSQPVectorf *x;    ///< solution the derivatives belong to, size n
     OSQPVectorf *y_l;  ///< for internal use, size m
     OSQPVectorf *y_u;  ///< for internal use, size m
     OSQPVectorf *ryl;  ///< for internal use, size m
diff --git a/src/derivative.c b/src/derivative.c
index 935107f..ac25ab0 100644
--- a/src/derivative.c
+++ b/src/derivative.c
@@ -42,8 +42,7 @@ OSQPInt adjoint_derivative_get_mat(OSQPSolver *solver,
 
     OSQPInt n = solver->work->data->n;
     OSQPDerivativeData *derivative_data = solver->work->derivative_data;
-    OSQPVectorf* x = OSQPVectorf_new(solver->solution->x, n);  // unscaled solution
-    OSQPFloat* x_data = OSQPVectorf_data(x);
+    OSQPFloat* x_data = OSQPVectorf_data(derivative_data->x);
 
     OSQPFloat* y_u_data = OSQPVectorf_data(derivative_data->y_u);
     OSQPFloat* y_l_data = OSQPVectorf_data(derivative_data->y_l);
@@ -68,7 +67,6 @@ OSQPInt adjoint_derivative_get_mat(OSQPSolver *solver,
     }
 
     OSQPVectorf_view_free(rx);
-    OSQPVectorf_free(x);
 
     return 0;
 }
@@ -160,6 +158,7 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
 
     // What was computed before is overwritten from here on
     derivative_data->computed = 0;
+    OSQPVectorf_copy(derivative_data->x, x);
 
     OSQPInt n_ineq_l = 0;
     OSQPInt n_ineq_u = 0;
diff --git a/src/osqp_api.c b/src/osqp_api.c
index 4f9be1d..dc155d0 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -622,12 +622,13 @@ static OSQPInt setup_solver(OSQPSolver**         solverp,
 # ifdef OSQP_ENABLE_DERIVATIVES
   work->derivative_data = c_calloc(1, sizeof(OSQPDerivativeData));
   if (!(work->derivative_data)) return osqp_error(OSQP_MEM_ALLOC_ERROR);
+  work->derivative_data->x   = OSQPVectorf_malloc(n);
   work->derivative_data->y_u = OSQPVectorf_malloc(m);
   work->derivative_data->y_l = OSQPVectorf_malloc(m);
   work->derivative_data->ryl = OSQPVectorf_malloc(m);
   work->derivative_data->ryu = OSQPVectorf_malloc(m);
   work->derivative_data->rhs = OSQPVectorf_malloc(2 * (n + 2*m));
-  if (!(work->derivative_data->y_u) || !(work->derivative_data->y_l) ||
+  if (!(work->derivative_data->x) || !(work->derivative_data->y_u) || !(work->derivative_data->y_l) ||
     !(work->derivative_data->ryl) || !(work->derivative_data->ryu) ||
     !(work->derivative_data->rhs))
     return osqp_error(OSQP_MEM_ALLOC_ERROR);
@@ -1214,6 +1215,7 @@ static void free_workspace(OSQPWorkspace* work) {
 
 # ifdef OSQP_ENABLE_DERIVATIVES
       if (work->derivative_data){
+          if (work->derivative_data->x)   OSQPVectorf_free(work->derivative_data->x);
           if (work->derivative_data->y_l) OSQPVectorf_free(work->derivative_data->y_l);
           if (work->derivative_data->y_u) OSQPVectorf_free(work->derivative_data->y_u);
           if (work->derivative_data->ryl) OSQPVectorf_free(work->derivative_data->ryl);
-- 
2.43.0


From 92e23d4ebc95b33e60e738f0fa3d8ddb42d0e9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:32 +0000
Subject: [PATCH 49/54] fix: survive running out of memory in the adjoint
 derivatives

---
 algebra/_common/csc_utils.c                   |   4 +-
 .../_common/lin_sys/qdldl/qdldl_interface.c   |  36 +--
 src/derivative.c                              | 243 ++++++++++--------
 3 files changed, 161 insertions(+), 122 deletions(-)

diff --git a/algebra/_common/csc_utils.c b/algebra/_common/csc_utils.c
index 478ce92..a0afeff 100644
--- a/algebra/_common/csc_utils.c
+++ b/algebra/_common/csc_utils.c
@@ -571,7 +571,7 @@ OSQPCscMatrix* triu_to_csc(OSQPCscMatrix* M) {
 
     // Convert triplet matrix to csc format
     M_symm = triplet_to_csc(M_trip, OSQP_NULL);
-    M_symm->nzmax = z_M;
+    if (M_symm) M_symm->nzmax = z_M;
 
     csc_spfree(M_trip);
     return M_symm;
@@ -622,7 +622,7 @@ OSQPCscMatrix* vstack(OSQPCscMatrix* A, OSQPCscMatrix* B) {
 
     // Convert triplet matrix to csc format
     M = triplet_to_csc(M_trip, OSQP_NULL);
-    M->nzmax = z_M;
+    if (M) M->nzmax = z_M;
 
     csc_spfree(M_trip);
     return M;
diff --git a/algebra/_common/lin_sys/qdldl/qdldl_interface.c b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
index f2b582b..2e5ca7b 100644
--- a/algebra/_common/lin_sys/qdldl/qdldl_interface.c
+++ b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
@@ -770,6 +770,11 @@ OSQPInt adjoint_derivative_qdldl(qdldl_solver**     s,
     OSQPCscMatrix* adj = csc_spalloc(dim, dim, nnzKKT, 1, 0);
     if (!adj) return osqp_error(OSQP_MEM_ALLOC_ERROR);
 
+    // Everything that is only available later on
+    OSQPCscMatrix *adj_permuted = OSQP_NULL;
+    OSQPVectorf *sol      = OSQP_NULL;
+    OSQPVectorf *residual = OSQP_NULL;
+
     _adj_assemble_csc(adj, P_full, G, A_eq, GDiagLambda, slacks);
 
     OSQPMatrix *adj_matrix = OSQPMatrix_new_from_csc(adj, 1);
@@ -793,23 +798,23 @@ OSQPInt adjoint_derivative_qdldl(qdldl_solver**     s,
     QDLDL_float *Lx = OSQP_NULL;
     QDLDL_int   *Li = OSQP_NULL;
 
-    QDLDL_int   *Lp   = (QDLDL_int*)malloc(sizeof(QDLDL_int)*(An+1));
-    QDLDL_float *D    = (QDLDL_float*)malloc(sizeof(QDLDL_float)*An);
-    QDLDL_float *Dinv = (QDLDL_float*)malloc(sizeof(QDLDL_float)*An);
+    QDLDL_int   *Lp   = (QDLDL_int*)c_malloc(sizeof(QDLDL_int)*(An+1));
+    QDLDL_float *D    = (QDLDL_float*)c_malloc(sizeof(QDLDL_float)*An);
+    QDLDL_float *Dinv = (QDLDL_float*)c_malloc(sizeof(QDLDL_float)*An);
 
     //permutation
-    QDLDL_int   *P    = (QDLDL_int*)malloc(sizeof(QDLDL_int)*(An));
+    QDLDL_int   *P    = (QDLDL_int*)c_malloc(sizeof(QDLDL_int)*(An));
     QDLDL_int   *Pinv = OSQP_NULL;
 
     //data for elim tree calculation
-    QDLDL_int *etree = (QDLDL_int*)malloc(sizeof(QDLDL_int)*An);
-    QDLDL_int *Lnz   = (QDLDL_int*)malloc(sizeof(QDLDL_int)*An);
+    QDLDL_int *etree = (QDLDL_int*)c_malloc(sizeof(QDLDL_int)*An);
+    QDLDL_int *Lnz   = (QDLDL_int*)c_malloc(sizeof(QDLDL_int)*An);
     QDLDL_int  sumLnz;
 
     //working data for factorisation
-    QDLDL_int   *iwork = (QDLDL_int*)malloc(sizeof(QDLDL_int)*(3*An));
-    QDLDL_bool  *bwork = (QDLDL_bool*)malloc(sizeof(QDLDL_bool)*An);
-    QDLDL_float *fwork = (QDLDL_float*)malloc(sizeof(QDLDL_float)*An);
+    QDLDL_int   *iwork = (QDLDL_int*)c_malloc(sizeof(QDLDL_int)*(3*An));
+    QDLDL_bool  *bwork = (QDLDL_bool*)c_malloc(sizeof(QDLDL_bool)*An);
+    QDLDL_float *fwork = (QDLDL_float*)c_malloc(sizeof(QDLDL_float)*An);
 
     //Data for results of A\b
     QDLDL_float *x = OSQP_NULL;
@@ -838,7 +843,6 @@ OSQPInt adjoint_derivative_qdldl(qdldl_solver**     s,
         goto inv_perm_fail;
     }
 
-    OSQPCscMatrix* adj_permuted = OSQP_NULL;
     adj_permuted = csc_symperm(adj, Pinv, OSQP_NULL, 1);
     if (!adj_permuted) {
         retval = OSQP_MEM_ALLOC_ERROR;
@@ -847,8 +851,8 @@ OSQPInt adjoint_derivative_qdldl(qdldl_solver**     s,
 
     sumLnz = QDLDL_etree(An, adj_permuted->p, adj_permuted->i, iwork, Lnz, etree);
 
-    Li    = (QDLDL_int*)malloc(sizeof(QDLDL_int)*sumLnz);
-    Lx    = (QDLDL_float*)malloc(sizeof(QDLDL_float)*sumLnz);
+    Li    = (QDLDL_int*)c_malloc(sizeof(QDLDL_int)*sumLnz);
+    Lx    = (QDLDL_float*)c_malloc(sizeof(QDLDL_float)*sumLnz);
 
     if (!Li || !Lx) {
         retval = OSQP_MEM_ALLOC_ERROR;
@@ -861,8 +865,8 @@ OSQPInt adjoint_derivative_qdldl(qdldl_solver**     s,
         goto csc_alloc_fail;
     }
 
-    x = (QDLDL_float*)malloc(sizeof(QDLDL_float)*An);
-    x_work = (QDLDL_float*)malloc(sizeof(QDLDL_float)*An);
+    x = (QDLDL_float*)c_malloc(sizeof(QDLDL_float)*An);
+    x_work = (QDLDL_float*)c_malloc(sizeof(QDLDL_float)*An);
 
     if (!x || !x_work) {
         retval = OSQP_MEM_ALLOC_ERROR;
@@ -874,8 +878,8 @@ OSQPInt adjoint_derivative_qdldl(qdldl_solver**     s,
     QDLDL_solve(Ln, Lp, Li, Lx, Dinv, x_work);
     for (i = 0 ; i < An ; i++) x[P[i]] = x_work[i];
 
-    OSQPVectorf *sol = OSQPVectorf_new(x, An);
-    OSQPVectorf *residual = OSQPVectorf_malloc(An);
+    sol = OSQPVectorf_new(x, An);
+    residual = OSQPVectorf_malloc(An);
 
     if (!sol || !residual) {
         retval = OSQP_MEM_ALLOC_ERROR;
diff --git a/src/derivative.c b/src/derivative.c
index ac25ab0..85f0e64 100644
--- a/src/derivative.c
+++ b/src/derivative.c
@@ -51,6 +51,8 @@ OSQPInt adjoint_derivative_get_mat(OSQPSolver *solver,
 
     OSQPInt pos = n + derivative_data->n_ineq_l + derivative_data->n_ineq_u + derivative_data->n_eq;
     OSQPVectorf* rx = OSQPVectorf_view(derivative_data->rhs, pos, n);
+    if (!rx) return osqp_error(OSQP_MEM_ALLOC_ERROR);
+
     OSQPFloat* rx_data  = OSQPVectorf_data(rx);
 
     OSQPInt col;
@@ -91,6 +93,7 @@ OSQPInt adjoint_derivative_get_vec(OSQPSolver *solver,
 
     OSQPInt pos = n + derivative_data->n_ineq_l + derivative_data->n_ineq_u + derivative_data->n_eq;
     OSQPVectorf* rx = OSQPVectorf_view(derivative_data->rhs, pos, n);
+    if (!rx) return osqp_error(OSQP_MEM_ALLOC_ERROR);
 
     // Assign vector derivatives to function arguments
     OSQPVectorf_to_raw(dq, rx);
@@ -121,12 +124,66 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
     OSQPInt n = solver->work->data->n;
     OSQPDerivativeData *derivative_data = solver->work->derivative_data;
 
+    OSQPInt exitflag = 0;
+    OSQPInt i, j;
+
+    // What was computed before is overwritten from here on
+    derivative_data->computed = 0;
+
+    // Everything below that is only allocated later on
+    OSQPVectori* A_ineq_l_i = OSQP_NULL;
+    OSQPVectori* A_ineq_u_i = OSQP_NULL;
+    OSQPVectori* A_eq_i     = OSQP_NULL;
+    OSQPMatrix*  A_ineq_l   = OSQP_NULL;
+    OSQPMatrix*  A_ineq_u   = OSQP_NULL;
+    OSQPMatrix*  A_eq       = OSQP_NULL;
+    OSQPMatrix*  G          = OSQP_NULL;
+    OSQPMatrix*  GDiagLambda = OSQP_NULL;
+    OSQPMatrix*  P_full     = OSQP_NULL;
+    OSQPVectorf* y_l_ineq   = OSQP_NULL;
+    OSQPVectorf* y_u_ineq   = OSQP_NULL;
+    OSQPVectorf* lambda     = OSQP_NULL;
+    OSQPVectorf* l_ineq     = OSQP_NULL;
+    OSQPVectorf* u_ineq     = OSQP_NULL;
+    OSQPVectorf* slacks     = OSQP_NULL;
+    OSQPVectorf* dy_l_ineq  = OSQP_NULL;
+    OSQPVectorf* dy_u_ineq  = OSQP_NULL;
+
     OSQPMatrix*  P = OSQPMatrix_copy_new(solver->work->data->P);
     OSQPMatrix*  A = OSQPMatrix_copy_new(solver->work->data->A);
     OSQPVectorf* l = OSQPVectorf_copy_new(solver->work->data->l);
     OSQPVectorf* u = OSQPVectorf_copy_new(solver->work->data->u);
     OSQPVectorf* x = OSQPVectorf_new(solver->solution->x, n);  // Note: x/y are unscaled solutions
     OSQPVectorf* y = OSQPVectorf_new(solver->solution->y, m);
+    OSQPVectorf* m_zeros = OSQPVectorf_calloc(m);
+
+    // y = y_u - y_l, so derivatives with respect to y_l have the opposite sign
+    OSQPVectorf* dy_l_vec = OSQPVectorf_new(dy, m);
+    OSQPVectorf* dy_u_vec = OSQPVectorf_new(dy, m);
+
+    // Row selections and indices (a spare entry avoids allocating nothing without constraints)
+    OSQPInt* A_ineq_l_vec         = (OSQPInt *) c_malloc((m + 1) * sizeof(OSQPInt));
+    OSQPInt* A_ineq_u_vec         = (OSQPInt *) c_malloc((m + 1) * sizeof(OSQPInt));
+    OSQPInt* A_eq_vec             = (OSQPInt *) c_malloc((m + 1) * sizeof(OSQPInt));
+    OSQPInt* eq_indices_vec       = (OSQPInt *) c_malloc((m + 1) * sizeof(OSQPInt));
+    OSQPInt* l_noninf_indices_vec = (OSQPInt *) c_malloc((m + 1) * sizeof(OSQPInt));
+    OSQPInt* u_noninf_indices_vec = (OSQPInt *) c_malloc((m + 1) * sizeof(OSQPInt));
+    OSQPInt* nu_sign_vec          = (OSQPInt *) c_malloc((m + 1) * sizeof(OSQPInt));
+
+    OSQPFloat* d_nu_vec = (OSQPFloat *) c_malloc((m + 1) * sizeof(OSQPFloat));
+    OSQPFloat* r_yl     = (OSQPFloat *) c_calloc(m + 1, sizeof(OSQPFloat));
+    OSQPFloat* r_yu     = (OSQPFloat *) c_calloc(m + 1, sizeof(OSQPFloat));
+
+    if (!P || !A || !l || !u || !x || !y || !m_zeros || !dy_l_vec || !dy_u_vec ||
+        !A_ineq_l_vec || !A_ineq_u_vec || !A_eq_vec || !eq_indices_vec ||
+        !l_noninf_indices_vec || !u_noninf_indices_vec || !nu_sign_vec ||
+        !d_nu_vec || !r_yl || !r_yu) {
+        exitflag = OSQP_MEM_ALLOC_ERROR;
+        goto cleanup;
+    }
+
+    OSQPVectorf_mult_scalar(dy_l_vec, -1);
+    OSQPVectorf_copy(derivative_data->x, x);
 
     // TODO: If we didn't have to unscale P/A/l/u we would not have to copy these
     if (solver->settings->scaling) unscale_PA(solver, P, A);
@@ -136,35 +193,14 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
     OSQPFloat* u_data = OSQPVectorf_data(u);
     OSQPFloat* y_data = OSQPVectorf_data(y);
 
-    OSQPInt* A_ineq_l_vec = (OSQPInt *) c_malloc(m * sizeof(OSQPInt));
-    OSQPInt* A_ineq_u_vec = (OSQPInt *) c_malloc(m * sizeof(OSQPInt));
-    OSQPInt* A_eq_vec = (OSQPInt *) c_malloc(m * sizeof(OSQPInt));
-
-    OSQPInt* eq_indices_vec = (OSQPInt *) c_malloc(m * sizeof(OSQPInt));
-    OSQPInt* l_noninf_indices_vec = (OSQPInt *) c_malloc(m * sizeof(OSQPInt));
-    OSQPInt* u_noninf_indices_vec = (OSQPInt *) c_malloc(m * sizeof(OSQPInt));
-    OSQPInt* nu_sign_vec = (OSQPInt *) c_malloc(m * sizeof(OSQPInt));
-
-    // y = y_u - y_l, so derivatives with respect to y_l have the opposite sign
-    OSQPVectorf* dy_l_vec = OSQPVectorf_new(dy, m);
-    OSQPVectorf_mult_scalar(dy_l_vec, -1);
-    OSQPVectorf* dy_u_vec = OSQPVectorf_new(dy, m);
-
     // TODO: We could use constr_type in OSQPWorkspace but it only tells us whether a constraint is 'loose'
     // not 'upper loose' or 'lower loose', which we seem to need here.
     OSQPFloat infval = OSQP_INFTY * OSQP_MIN_SCALING;
 
-    OSQPInt exitflag = 0;
-
-    // What was computed before is overwritten from here on
-    derivative_data->computed = 0;
-    OSQPVectorf_copy(derivative_data->x, x);
-
     OSQPInt n_ineq_l = 0;
     OSQPInt n_ineq_u = 0;
     OSQPInt n_eq = 0;
 
-    OSQPInt j;
     for (j = 0; j < m; j++) {
         OSQPFloat _l = l_data[j];
         OSQPFloat _u = u_data[j];
@@ -202,136 +238,102 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
     derivative_data->n_ineq_u = n_ineq_u;
     derivative_data->n_eq = n_eq;
 
-    OSQPVectori* A_ineq_l_i = OSQPVectori_new(A_ineq_l_vec, m);
-    c_free(A_ineq_l_vec);
-    OSQPMatrix*  A_ineq_l = OSQPMatrix_submatrix_byrows(A, A_ineq_l_i);
-    OSQPMatrix_mult_scalar(A_ineq_l, -1);
-
-    OSQPVectori* A_ineq_u_i = OSQPVectori_new(A_ineq_u_vec, m);
-    c_free(A_ineq_u_vec);
-    OSQPMatrix*  A_ineq_u = OSQPMatrix_submatrix_byrows(A, A_ineq_u_i);
-
-    OSQPMatrix* G = OSQPMatrix_vstack(A_ineq_l, A_ineq_u);
+    // --------- constraint rows
+    A_ineq_l_i = OSQPVectori_new(A_ineq_l_vec, m);
+    A_ineq_u_i = OSQPVectori_new(A_ineq_u_vec, m);
+    A_eq_i     = OSQPVectori_new(A_eq_vec, m);
+    if (!A_ineq_l_i || !A_ineq_u_i || !A_eq_i) {
+        exitflag = OSQP_MEM_ALLOC_ERROR;
+        goto cleanup;
+    }
 
-    OSQPMatrix_free(A_ineq_l);
-    OSQPMatrix_free(A_ineq_u);
+    A_ineq_l = OSQPMatrix_submatrix_byrows(A, A_ineq_l_i);
+    A_ineq_u = OSQPMatrix_submatrix_byrows(A, A_ineq_u_i);
+    A_eq     = OSQPMatrix_submatrix_byrows(A, A_eq_i);
+    if (!A_ineq_l || !A_ineq_u || !A_eq) {
+        exitflag = OSQP_MEM_ALLOC_ERROR;
+        goto cleanup;
+    }
 
-    OSQPVectori* A_eq_i = OSQPVectori_new(A_eq_vec, m);
-    c_free(A_eq_vec);
-    OSQPMatrix*  A_eq = OSQPMatrix_submatrix_byrows(A, A_eq_i);
-    OSQPVectori_free(A_eq_i);
-    OSQPMatrix_free(A);
+    OSQPMatrix_mult_scalar(A_ineq_l, -1);
+    G = OSQPMatrix_vstack(A_ineq_l, A_ineq_u);
 
     // --------- lambda
-    OSQPVectorf* m_zeros = OSQPVectorf_malloc(m);
-    OSQPVectorf_set_scalar(m_zeros, 0);
     OSQPVectorf_ew_max_vec(derivative_data->y_u, y, m_zeros);
     OSQPVectorf_ew_min_vec(derivative_data->y_l, y, m_zeros);
     OSQPVectorf_mult_scalar(derivative_data->y_l, -1);
-    OSQPVectorf_free(m_zeros);
 
-    OSQPVectorf* y_l_ineq = OSQPVectorf_subvector_byrows(derivative_data->y_l, A_ineq_l_i);
-    OSQPVectorf* y_u_ineq = OSQPVectorf_subvector_byrows(derivative_data->y_u, A_ineq_u_i);
-    OSQPVectorf* lambda = OSQPVectorf_concat(y_l_ineq, y_u_ineq);
+    y_l_ineq = OSQPVectorf_subvector_byrows(derivative_data->y_l, A_ineq_l_i);
+    y_u_ineq = OSQPVectorf_subvector_byrows(derivative_data->y_u, A_ineq_u_i);
+    l_ineq   = OSQPVectorf_subvector_byrows(l, A_ineq_l_i);
+    u_ineq   = OSQPVectorf_subvector_byrows(u, A_ineq_u_i);
+    if (!G || !y_l_ineq || !y_u_ineq || !l_ineq || !u_ineq) {
+        exitflag = OSQP_MEM_ALLOC_ERROR;
+        goto cleanup;
+    }
 
-    OSQPVectorf_free(y_l_ineq);
-    OSQPVectorf_free(y_u_ineq);
-    // ---------- lambda
+    lambda = OSQPVectorf_concat(y_l_ineq, y_u_ineq);
 
     // --------- slacks
-    OSQPVectorf* l_ineq = OSQPVectorf_subvector_byrows(l, A_ineq_l_i);
-    OSQPVectorf_free(l);
     OSQPVectorf_mult_scalar(l_ineq, -1);
-    OSQPVectorf* u_ineq = OSQPVectorf_subvector_byrows(u, A_ineq_u_i);
-    OSQPVectorf_free(u);
-    OSQPVectorf* h = OSQPVectorf_concat(l_ineq, u_ineq);
+    slacks = OSQPVectorf_concat(l_ineq, u_ineq);
 
-    OSQPVectorf_free(l_ineq);
-    OSQPVectorf_free(u_ineq);
+    // ---------- GDiagLambda
+    GDiagLambda = OSQPMatrix_copy_new(G);
 
-    OSQPVectorf* slacks = OSQPVectorf_copy_new(h);
-    OSQPVectorf_free(h);
-    OSQPMatrix_Axpy(G, x, slacks, 1, -1);
-    OSQPVectorf_free(x);
+    // ---------- Seeds of the inequality rows
+    dy_l_ineq = OSQPVectorf_subvector_byrows(dy_l_vec, A_ineq_l_i);
+    dy_u_ineq = OSQPVectorf_subvector_byrows(dy_u_vec, A_ineq_u_i);
 
-    // ---------- GDiagLambda
-    OSQPMatrix* GDiagLambda = OSQPMatrix_copy_new(G);
+    P_full = OSQPMatrix_triu_to_symm(P);
+
+    if (!lambda || !slacks || !GDiagLambda || !dy_l_ineq || !dy_u_ineq || !P_full) {
+        exitflag = OSQP_MEM_ALLOC_ERROR;
+        goto cleanup;
+    }
+
+    OSQPMatrix_Axpy(G, x, slacks, 1, -1);
     OSQPMatrix_lmult_diag(GDiagLambda, lambda);
-    OSQPVectorf_free(lambda);
 
     // ---------- Assemble RHS of the linear system
-    OSQPVectorf* dy_l_ineq = OSQPVectorf_subvector_byrows(dy_l_vec, A_ineq_l_i);
-    OSQPVectorf_free(dy_l_vec);
-    OSQPVectori_free(A_ineq_l_i);
-    OSQPVectorf* dy_u_ineq = OSQPVectorf_subvector_byrows(dy_u_vec, A_ineq_u_i);
-    OSQPVectorf_free(dy_u_vec);
-    OSQPVectori_free(A_ineq_u_i);
-
     OSQPVectorf *rhs = derivative_data->rhs;
     OSQPInt pos = 0;
     OSQPVectorf_subvector_assign(rhs, dx, pos, n, -1);
     pos += n;
     OSQPVectorf_subvector_assign(rhs, OSQPVectorf_data(dy_l_ineq), pos, n_ineq_l, -1);
-    OSQPVectorf_free(dy_l_ineq);
     pos += n_ineq_l;
     OSQPVectorf_subvector_assign(rhs, OSQPVectorf_data(dy_u_ineq), pos, n_ineq_u, -1);
-    OSQPVectorf_free(dy_u_ineq);
     pos += n_ineq_u;
 
-    OSQPFloat* d_nu_vec = (OSQPFloat *) c_malloc(n_eq * sizeof(OSQPFloat));
     for (j=0; j<n_eq; j++) {
       d_nu_vec[j] = dy[eq_indices_vec[j]];
     }
     OSQPVectorf_subvector_assign(rhs, d_nu_vec, pos, n_eq, -1);
-    c_free(d_nu_vec);
     pos += n_eq;
 
     OSQPVectorf_subvector_assign_scalar(rhs, 0, pos, n + n_ineq_l + n_ineq_u + n_eq);
     // ---------- Assemble RHS of the linear system
 
-    OSQPMatrix* P_full = OSQPMatrix_triu_to_symm(P);
-    OSQPMatrix_free(P);
     exitflag = adjoint_derivative_linsys_solver(NULL /* No solver object is allocated for this solver yet */,
                                      solver->settings, P_full, G, A_eq, GDiagLambda, slacks, rhs);
-    OSQPMatrix_free(P_full);
-    OSQPMatrix_free(G);
-    OSQPMatrix_free(A_eq);
-    OSQPMatrix_free(GDiagLambda);
-    OSQPVectorf_free(slacks);
 
-    if (exitflag) {
-        // The linear system could not be solved, so there is nothing to read
-        c_free(l_noninf_indices_vec);
-        c_free(u_noninf_indices_vec);
-        c_free(nu_sign_vec);
-        c_free(eq_indices_vec);
-        OSQPVectorf_free(y);
-        return exitflag;
-    }
+    // Without a solution of the linear system there is nothing to read
+    if (exitflag) goto cleanup;
 
-    OSQPInt i;
     OSQPFloat* rhs_data = OSQPVectorf_data(rhs);
     OSQPFloat* y_l_data = OSQPVectorf_data(derivative_data->y_l);
     OSQPFloat* y_u_data = OSQPVectorf_data(derivative_data->y_u);
 
-    OSQPFloat* r_yl = (OSQPFloat *) c_malloc(m * sizeof(OSQPFloat));
-    OSQPFloat* r_yu = (OSQPFloat *) c_malloc(m * sizeof(OSQPFloat));
-    // TODO: We shouldn't have to do this if we assemble r_yl/r_yu judiciously
-    for (j=0; j<m; j++) r_yl[j] = 0;
-    for (j=0; j<m; j++) r_yu[j] = 0;
-
     pos += n;
     for (j=0; j<derivative_data->n_ineq_l; j++) {
         i = l_noninf_indices_vec[j];
         r_yl[i] = rhs_data[pos+j] * y_l_data[i];
     }
-    c_free(l_noninf_indices_vec);
     pos += derivative_data->n_ineq_l;
     for (j=0; j<derivative_data->n_ineq_u; j++) {
         i = u_noninf_indices_vec[j];
         r_yu[i] = rhs_data[pos+j] * y_u_data[i];
     }
-    c_free(u_noninf_indices_vec);
     pos += derivative_data->n_ineq_u;
     for (j=0; j<derivative_data->n_eq; j++) {
         if (nu_sign_vec[j]==1) {
@@ -340,18 +342,51 @@ OSQPInt adjoint_derivative_compute(OSQPSolver *solver,
             r_yl[eq_indices_vec[j]] = -rhs_data[pos+j];
         }
     }
-    c_free(nu_sign_vec);
-    c_free(eq_indices_vec);
 
     OSQPVectorf_from_raw(derivative_data->ryl, r_yl);
-    c_free(r_yl);
     OSQPVectorf_from_raw(derivative_data->ryu, r_yu);
-    c_free(r_yu);
 
-    //cleanup
+    derivative_data->computed = 1;
+
+cleanup:
+    c_free(A_ineq_l_vec);
+    c_free(A_ineq_u_vec);
+    c_free(A_eq_vec);
+    c_free(eq_indices_vec);
+    c_free(l_noninf_indices_vec);
+    c_free(u_noninf_indices_vec);
+    c_free(nu_sign_vec);
+    c_free(d_nu_vec);
+    c_free(r_yl);
+    c_free(r_yu);
+    OSQPVectori_free(A_ineq_l_i);
+    OSQPVectori_free(A_ineq_u_i);
+    OSQPVectori_free(A_eq_i);
+    OSQPMatrix_free(P);
+    OSQPMatrix_free(P_full);
+    OSQPMatrix_free(A);
+    OSQPMatrix_free(A_ineq_l);
+    OSQPMatrix_free(A_ineq_u);
+    OSQPMatrix_free(A_eq);
+    OSQPMatrix_free(G);
+    OSQPMatrix_free(GDiagLambda);
+    OSQPVectorf_free(l);
+    OSQPVectorf_free(u);
+    OSQPVectorf_free(x);
     OSQPVectorf_free(y);
+    OSQPVectorf_free(m_zeros);
+    OSQPVectorf_free(y_l_ineq);
+    OSQPVectorf_free(y_u_ineq);
+    OSQPVectorf_free(lambda);
+    OSQPVectorf_free(l_ineq);
+    OSQPVectorf_free(u_ineq);
+    OSQPVectorf_free(slacks);
+    OSQPVectorf_free(dy_l_vec);
+    OSQPVectorf_free(dy_u_vec);
+    OSQPVectorf_free(dy_l_ineq);
+    OSQPVectorf_free(dy_u_ineq);
 
-    derivative_data->computed = 1;
+    if (exitflag == OSQP_MEM_ALLOC_ERROR) osqp_error(OSQP_MEM_ALLOC_ERROR);
 
-    return 0;
+    return exitflag;
 }
-- 
2.43.0


From d4068903f3edb28ae6cdb0820d30d954aa7bad80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:23 +0000
Subject: [PATCH 50/54] fix: an empty list of matrix entries updates nothing

---
 src/osqp_api.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index dc155d0..0d78092 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1439,7 +1439,7 @@ OSQPInt osqp_update_data_mat(OSQPSolver*      solver,
   }
 
   // Handle legacy behavior that allowed passing 0 as the length when updating all values
-  if(P_new_n == 0) {
+  if(P_new_n == 0 && Px_new_idx == OSQP_NULL) {
     P_new_n = nnzP;
   }
 
@@ -1457,7 +1457,7 @@ OSQPInt osqp_update_data_mat(OSQPSolver*      solver,
   }
 
     // Handle legacy behavior that allowed passing 0 as the length when updating all values
-  if(A_new_n == 0) {
+  if(A_new_n == 0 && Ax_new_idx == OSQP_NULL) {
     A_new_n = nnzA;
   }
 
-- 
2.43.0


From 062784e6fb80355316e402d732c76d20b5f6305a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:56 +0000
Subject: [PATCH 51/54] fix: accept matrices whose row indices are not in order

---
 algebra/_common/kkt.c | 120 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 106 insertions(+), 14 deletions(-)

diff --git a/algebra/_common/kkt.c b/algebra/_common/kkt.c
index 3bed039..9867e24 100644
--- a/algebra/_common/kkt.c
+++ b/algebra/_common/kkt.c
@@ -55,6 +55,18 @@ static void _kkt_colcount_diag(OSQPCscMatrix* K,
     return;
 }
 
+//does column j of M store an entry on the diagonal?  M must be TRIU, but
+//its row indices need not be in order (they usually are, so look from the end).
+static OSQPInt _has_diagonal_entry(OSQPCscMatrix* M,
+                                   OSQPInt        j) {
+
+    OSQPInt ptr;
+    for (ptr = M->p[j+1] - 1; ptr >= M->p[j]; ptr--){
+        if(M->i[ptr] == j) {return 1;}
+    }
+    return 0;
+}
+
 //same as _kkt_colcount_diag, but counts places
 //where the input matrix M has a missing
 //diagonal entry.  M must be square and TRIU
@@ -64,8 +76,7 @@ static void _kkt_colcount_missing_diag(OSQPCscMatrix* K,
 
     OSQPInt j;
     for (j = 0; j < M->n; j++){
-        //if empty column or last entry not on diagonal..
-        if((M->p[j] == M->p[j+1]) || (M->i[M->p[j+1]-1] != j)) {
+        if(!_has_diagonal_entry(M,j)) {
             K->p[j + initcol]++;
         }
     }
@@ -156,11 +167,8 @@ static void _kkt_fill_missing_diag_zeros(OSQPCscMatrix* K,
 
     OSQPInt j, dest;
     for(j = 0; j < M->n; j++){
-        //fill out missing diagonal terms only:
-        //if completely empty column last element is not on diagonal..
-        if((M->p[j] == M->p[j+1]) ||
-           (M->i[M->p[j+1]-1] != j))
-        {
+        //fill out missing diagonal terms only
+        if(!_has_diagonal_entry(M,j)) {
             dest           = K->p[j + offset];
             K->i[dest]  = j + offset;
             K->x[dest]  = 0.0;  //structural zero
@@ -200,9 +208,7 @@ static OSQPInt _count_diagonal_entries(OSQPCscMatrix* P) {
   OSQPInt count = 0;
 
   for(j = 0; j < P->n; j++){
-    //look for nonempty columns with final element
-    //on the diagonal.  Assumes triu format.
-    if((P->p[j+1] != P->p[j]) && (P->i[P->p[j+1]-1] == j) ){
+    if(_has_diagonal_entry(P,j)){
       count++;
     }
   }
@@ -290,6 +296,85 @@ static void _kkt_assemble_csc(OSQPCscMatrix* K,
 }
 
 
+//put the entries of every column (or row, for CSR format) of the assembled
+//K in order, and renumber the maps into K accordingly.  Nothing to do unless
+//the row indices of P or A are out of order.  Returns 1 when out of memory.
+static OSQPInt _kkt_sort(OSQPCscMatrix* K,
+                         OSQPInt*       PtoKKT,
+                         OSQPInt        nnzP,
+                         OSQPInt*       AtoKKT,
+                         OSQPInt        nnzA,
+                         OSQPInt*       rhotoKKT,
+                         OSQPInt        m) {
+
+  OSQPInt    j, k, row, dest;
+  OSQPInt    N      = K->n;
+  OSQPInt    nnz    = K->p[N];
+  OSQPInt    sorted = 1;
+  OSQPInt    failed = 0;
+  OSQPInt   *start, *next, *order, *col, *newpos, *newi;
+  OSQPFloat *newx;
+
+  for(j = 0; j < N; j++){
+    for(k = K->p[j] + 1; k < K->p[j+1]; k++){
+      if(K->i[k] < K->i[k-1]) {sorted = 0;}
+    }
+  }
+  if(sorted) {return 0;}
+
+  start  = c_calloc(N + 1, sizeof(OSQPInt));  //of every row in order
+  next   = c_malloc(N   * sizeof(OSQPInt));   //place to fill in every column
+  order  = c_malloc(nnz * sizeof(OSQPInt));   //entries by ascending row
+  col    = c_malloc(nnz * sizeof(OSQPInt));   //column of every entry
+  newpos = c_malloc(nnz * sizeof(OSQPInt));   //new place of every entry
+  newi   = c_malloc(nnz * sizeof(OSQPInt));
+  newx   = c_malloc(nnz * sizeof(OSQPFloat));
+
+  if(start && next && order && col && newpos && newi && newx){
+    for(k = 0; k < nnz; k++) {start[K->i[k] + 1]++;}
+    for(j = 0; j < N; j++)   {start[j+1] += start[j];}
+
+    for(j = 0; j < N; j++){
+      next[j] = K->p[j];
+      for(k = K->p[j]; k < K->p[j+1]; k++){
+        row = K->i[k];
+        col[k] = j;
+        order[start[row]++] = k;
+      }
+    }
+
+    for(j = 0; j < nnz; j++){
+      k          = order[j];
+      dest       = next[col[k]]++;
+      newpos[k]  = dest;
+      newi[dest] = K->i[k];
+      newx[dest] = K->x[k];
+    }
+
+    for(k = 0; k < nnz; k++){
+      K->i[k] = newi[k];
+      K->x[k] = newx[k];
+    }
+    if(PtoKKT)   {for(k = 0; k < nnzP; k++) {PtoKKT[k]   = newpos[PtoKKT[k]];}}
+    if(AtoKKT)   {for(k = 0; k < nnzA; k++) {AtoKKT[k]   = newpos[AtoKKT[k]];}}
+    if(rhotoKKT) {for(k = 0; k < m;    k++) {rhotoKKT[k] = newpos[rhotoKKT[k]];}}
+  }
+  else {
+    failed = 1;
+  }
+
+  c_free(start);
+  c_free(next);
+  c_free(order);
+  c_free(col);
+  c_free(newpos);
+  c_free(newi);
+  c_free(newx);
+
+  return failed;
+}
+
+
 OSQPCscMatrix* form_KKT(OSQPCscMatrix* P,
                         OSQPCscMatrix* A,
                         OSQPInt        format,
@@ -331,6 +416,13 @@ OSQPCscMatrix* form_KKT(OSQPCscMatrix* P,
   else {          //KKT should be built in CSR format
     _kkt_assemble_csr(KKT,PtoKKT,AtoKKT,rhotoKKT,P,A);
   }
+
+  //the diagonal has to be last (CSC) or first (CSR) from here on
+  if(_kkt_sort(KKT,PtoKKT,P->p[n],AtoKKT,A->p[n],rhotoKKT,m)){
+    csc_spfree(KKT);
+    return OSQP_NULL;
+  }
+
   //apply positive shifts to upper LH diagonal
   _kkt_shifts_param1(KKT,param1,n,format);
 
@@ -355,7 +447,7 @@ void update_KKT_P(OSQPCscMatrix* KKT,
                   OSQPInt        format) {
   OSQPInt j, Pidx, Kidx, row, doall;
 
-  //P itself is triu CSC (diagonal last in its column) whatever the KKT format
+  //P itself is triu CSC whatever the KKT format
   (void) format;
 
   if(P_new_n <= 0){return;}
@@ -369,10 +461,10 @@ void update_KKT_P(OSQPCscMatrix* KKT,
     Kidx = PtoKKT[Pidx];
     KKT->x[Kidx] = P->x[Pidx];
 
-    //is the corresonding column nonempty with
-    //the current element on the diagonal (i.e. row==col)?
+    //is the current element on the diagonal, i.e.
+    //does it belong to the column of the same number (row==col)?
     row  = P->i[Pidx];
-    if((P->p[row] < P->p[row+1]) && ((P->p[row+1] - 1) == Pidx)){
+    if((P->p[row] <= Pidx) && (Pidx < P->p[row+1])){
       KKT->x[Kidx] += param1;
     }
   }
-- 
2.43.0


From 507f9743fde04d3624cc604339f7db6a8e4bbeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:39 +0000
Subject: [PATCH 52/54] fix: Pardiso solution vector handed out uninitialised
 when the solver leaves it unwritten

---
 algebra/mkl/lin_sys/direct/pardiso_interface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/mkl/lin_sys/direct/pardiso_interface.c b/algebra/mkl/lin_sys/direct/pardiso_interface.c
index a7514e1..b380f9e 100644
--- a/algebra/mkl/lin_sys/direct/pardiso_interface.c
+++ b/algebra/mkl/lin_sys/direct/pardiso_interface.c
@@ -116,7 +116,7 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   s->bp = (OSQPFloat *)c_malloc(sizeof(OSQPFloat) * n_plus_m);
 
   // Solution vector
-  s->sol = (OSQPFloat *)c_malloc(sizeof(OSQPFloat) * n_plus_m);
+  s->sol = (OSQPFloat *)c_calloc(n_plus_m, sizeof(OSQPFloat));
 
   // Parameter vector
   if (rho_vec) {
-- 
2.43.0


From 343ded1ac6506176d78cf4ea19e13c853c890be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:55 +0000
Subject: [PATCH 53/54] fix: MKL matrices hand out an exact CSC copy of
 themselves

---
 algebra/mkl/matrix.c | 37 +++----------------------------------
 1 file changed, 3 insertions(+), 34 deletions(-)

diff --git a/algebra/mkl/matrix.c b/algebra/mkl/matrix.c
index 70e06ee..eaacffa 100644
--- a/algebra/mkl/matrix.c
+++ b/algebra/mkl/matrix.c
@@ -140,40 +140,9 @@ OSQPInt*   OSQPMatrix_get_p(const OSQPMatrix* M)  {return M->csc->p;}
 OSQPInt    OSQPMatrix_get_nz(const OSQPMatrix* M) {return M->csc->p[M->csc->n];}
 
 OSQPCscMatrix* OSQPMatrix_get_csc(const OSQPMatrix* M) {
-  /* Values returned from the MKL object */
-  sparse_index_base_t idx_method = 0;
-  MKL_INT numrows = 0;
-  MKL_INT numcols = 0;
-
-  MKL_INT *p_start;
-  MKL_INT *p_end;
-  MKL_INT *row_idx;
-  OSQPFloat *vals;
-
-  /* Computed values */
-  OSQPCscMatrix* B;
-  OSQPInt i = 0;
-  OSQPInt nnz = 0;
-
-  spblas_export_csc(M->mkl_mat, &idx_method, &numrows, &numcols, &p_start, &p_end, &row_idx, &vals);
-
-  /* Create the CSC using the returned data */
-  nnz = p_end[numcols-1]+1;
-  B = csc_spalloc(numcols, numrows, nnz, 1, 0);
-
-  /* MKL doesn't give back the actual p we need, we need to take the last value from p_end and concatenate
-     it onto the array returned in p_start */
-  for (i = 0; i < numcols; i++) {
-    B->p[i] = p_start[i];
-  }
-  B->p[numcols] = p_end[numcols-1] + 1;
-
-  for (i=0; i < nnz; i++) {
-    B->i[i] = row_idx[i];
-    B->x[i] = vals[i];
-  }
-
-  return B;
+  /* This operates on the assumption that the stored shadow csc matrix is the backing memory for
+     the actual MKL matrix handle, which seems to be the case in all the testing done. */
+  return csc_copy(M->csc);
 }
 
 
-- 
2.43.0


From 56aa1b5c2d4269048498773a3a6a98ae065a88fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:31 +0000
Subject: [PATCH 54/54] fix: refuse new bounds that are not a number, as setup
 does

---
 algebra/builtin/vector.c | 2 +-
 algebra/mkl/vector.c     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebra/builtin/vector.c b/algebra/builtin/vector.c
index 1b31950..11ca529 100644
--- a/algebra/builtin/vector.c
+++ b/algebra/builtin/vector.c
@@ -650,7 +650,7 @@ OSQPInt OSQPVectorf_all_leq(const OSQPVectorf* l,
   OSQPFloat* uv = u->values;
 
   for (i = 0; i < length; i++) {
-    if (lv[i] > uv[i]) return 0;
+    if (!(lv[i] <= uv[i])) return 0;
   }
   return 1;
 }
diff --git a/algebra/mkl/vector.c b/algebra/mkl/vector.c
index 8fbda24..7125e2a 100644
--- a/algebra/mkl/vector.c
+++ b/algebra/mkl/vector.c
@@ -487,7 +487,7 @@ OSQPInt OSQPVectorf_all_leq(const OSQPVectorf* l,
   OSQPFloat* uv = u->values;
 
   for (i = 0; i < length; i++) {
-    if (lv[i] > uv[i]) return 0;
+    if (!(lv[i] <= uv[i])) return 0;
   }
   return 1;
 }
-- 
2.43.0

