From 12b6a0348f01ad27132080e4afc3510839ace20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:51 +0000
Subject: [PATCH 01/17] fix: save the first iterate before any exit can fall
 back to it

---
 src/ecos.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index e5e321d..bf53f52 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1129,6 +1129,10 @@ idxint ECOS_solve(pwork* w)
 		/* Update statistics */
 		updateStatistics(w);
 
+        /* The first iterate is the best one seen so far (nothing to compare with yet);
+         * it has to be saved before any of the exits below can fall back to it */
+        if( w->info->iter == 0 ){ saveIterateAsBest( w ); }
+
 #if PRINTLEVEL > 1
 		/* Print info */
 		if( w->stgs->verbose ) printProgress(w->info);
@@ -1276,10 +1280,7 @@ idxint ECOS_solve(pwork* w)
          * Check whether current iterate is worth keeping as the best solution so far,
          * before doing another iteration
          */
-        if (w->info->iter == 0) {
-            /* we're at the first iterate, so there's nothing to compare yet */
-            saveIterateAsBest( w );
-        } else if( compareStatistics( w->info, w->best_info) ){
+        if( w->info->iter > 0 && compareStatistics( w->info, w->best_info) ){
             /* PRINTTEXT("Better solution found, saving as best so far \n"); */
             saveIterateAsBest( w );
         }
-- 
2.43.0


From 6b7f599fee52474b174d86265c63d6737b406f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:51 +0000
Subject: [PATCH 02/17] fix: leave the solver through its epilogue on every
 exit (unscale, restore signal handler, record time)

---
 src/ecos.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index bf53f52..ad2931b 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1114,6 +1114,16 @@ idxint ECOS_solve(pwork* w)
 	if( initcode == ECOS_FATAL ){
 #if PRINTLEVEL > 0
         if( w->stgs->verbose ) PRINTTEXT("\nFatal error during initialization, aborting.");
+#endif
+        /* there is no iterate to scale back, but the rest has to be left as it was found */
+#if defined EQUILIBRATE && EQUILIBRATE > 0
+        for(i = 0; i < w->n; i++) { w->c[i] *= w->xequil[i]; }
+#endif
+#if PROFILING > 0
+        w->info->tsolve = toc(&tsolve);
+#endif
+#if CTRLC > 0
+        remove_ctrlc();
 #endif
         return ECOS_FATAL;
     }
@@ -1305,11 +1315,9 @@ idxint ECOS_solve(pwork* w)
 #if PRINTLEVEL > 0
                 if( w->stgs->verbose ) PRINTTEXT("\nNUMERICAL PROBLEMS (reached feastol=%3.1e, reltol=%3.1e, abstol=%3.1e).", MAX(w->info->dres, w->info->pres), w->info->relgap, w->info->gap);
 #endif
-                return ECOS_OUTCONE;
-
-            } else {
-                break;
+                exitcode = ECOS_OUTCONE;
             }
+            break;
         }
 
 		/* Update KKT matrix with scalings */
@@ -1340,7 +1348,8 @@ idxint ECOS_solve(pwork* w)
 #if PRINTLEVEL > 0
 	    if( w->stgs->verbose ) PRINTTEXT("\nProblem in factoring KKT system, aborting.");
 #endif
-	        return ECOS_FATAL;
+	        exitcode = ECOS_FATAL;
+	        break;
 	    }
 
 		/* Solve for RHS1, which is used later also in combined direction */
-- 
2.43.0


From a96e5a636553a2bfad9ff3b95be6f61115ff1696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:59 +0000
Subject: [PATCH 03/17] fix: line search advances past a second-order cone
 whose scaled point is on the boundary

---
 src/ecos.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecos.c b/src/ecos.c
index ad2931b..38908e7 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -997,8 +997,10 @@ pfloat lineSearch(pfloat* lambda, pfloat* ds, pfloat* dz, pfloat tau, pfloat dta
 
 		/* normalize */
 		lknorm2 = lk[0]*lk[0] - eddot(conesize-1, lk+1, lk+1);
-		if (lknorm2 <= 0.0)
+		if (lknorm2 <= 0.0){
+			cone_start += conesize;
 			continue;
+		}
 
 		lknorm = sqrt( lknorm2 );
 		for( j=0; j < conesize; j++ ){ lkbar[j] = lk[j] / lknorm; }
-- 
2.43.0


From 0ce6803d4364b844a02f414fec07fe55b5572f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:49 +0000
Subject: [PATCH 04/17] fix: exponential-cone membership tests reject points at
 which the cone function is undefined

---
 src/expcone.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expcone.c b/src/expcone.c
index b131c85..840c309 100644
--- a/src/expcone.c
+++ b/src/expcone.c
@@ -154,7 +154,7 @@ idxint evalExpPrimalFeas(pfloat *s, idxint nexc)
        x3 = s[3*j+2];
        tmp1 = log(x2/x3);
        psi   = x3*tmp1 - x1;
-       if(psi<0||x2<0||x3<0)
+       if(!(psi>=0)||x2<0||x3<0) /* psi is undefined where a logarithm is: not inside */
        {
             return 0;
        }
@@ -180,7 +180,7 @@ idxint evalExpDualFeas(pfloat *z, idxint nexc)
        x3 = z[3*j+2];
        tmp1 = log(-x2/x1);
        psi   = -x1-x1*tmp1+x3;
-       if(0<x1||x2<0||psi<0)
+       if(0<x1||x2<0||!(psi>=0)) /* psi is undefined where a logarithm is: not inside */
        {
             return 0;
        }
-- 
2.43.0


From 328b8926d33f9ed7a17eee5fba80d73737b16581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 05/17] fix: updateScalings reports a slack or multiplier in
 the negated second-order cone as outside

---
 src/cone.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cone.c b/src/cone.c
index fca4eb8..d70c7a4 100644
--- a/src/cone.c
+++ b/src/cone.c
@@ -162,7 +162,7 @@ idxint updateScalings(cone* C, pfloat* s, pfloat* z, pfloat* lambda)
 
 		/* check residuals and quit if they're negative */
 		sres = socres(sk, p);  zres = socres(zk, p);
-        if( sres <= 0 || zres <= 0 ){ return OUTSIDE_CONE; }
+        if( sres <= 0 || zres <= 0 || sk[0] <= 0 || zk[0] <= 0 ){ return OUTSIDE_CONE; }
 
 		/* normalize variables */
 		snorm = sqrt(sres);    znorm = sqrt(zres);
-- 
2.43.0


From 5e00872a70a8001f08b81d5e69f9fc21248ef9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 06/17] fix: transposing a matrix without entries left its
 column pointers uninitialised

---
 src/splamm.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/splamm.c b/src/splamm.c
index a3308ee..722bd92 100644
--- a/src/splamm.c
+++ b/src/splamm.c
@@ -68,7 +68,10 @@ spmat* transposeSparseMatrix(spmat* M, idxint* MtoMt)
 	idxint* w;
   
   spmat* A = newSparseMatrix(M->n, M->m, M->nnz);
-  if (M->nnz == 0) return A;
+  if (M->nnz == 0) {
+    for( i=0; i <= M->m; i++ ) { A->jc[i] = 0; }
+    return A;
+  }
   
 	w = (idxint *)MALLOC(M->m*sizeof(idxint));
 
-- 
2.43.0


From 4e5191c2867c50a44b10ed1bbd7de92181baffc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:54 +0000
Subject: [PATCH 07/17] fix: updateData gives old arrays back unscaled without
 equality constraints and when the new arrays are adjacent

---
 src/ecos.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index 38908e7..8175d0b 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1652,6 +1652,18 @@ void ecos_updateDataEntry_c(pwork* w, idxint idx, pfloat value)
 }
 
 
+#if defined EQUILIBRATE && EQUILIBRATE > 0
+/*
+ * Returns 1 if two arrays of len elements do not overlap (there is nothing
+ * to tell apart if they are empty, e.g. without equality constraints).
+ */
+static int differentLocation(const pfloat *a, const pfloat *b, idxint len)
+{
+    return len == 0 || a + len <= b || b + len <= a;
+}
+#endif
+
+
 /*
  * Updates numerical data for G, A, c, h, and b,
  * and re-equilibrates.
@@ -1667,11 +1679,11 @@ void ECOS_updateData(pwork *w, pfloat *Gpr, pfloat *Apr,
     /* Only unequilibrate the old data if the new data is in a different location in memory. */
     /* This is required for backward compatibility since existing code might need this step. */
     if (
-        ((Gpr + w->G->nnz < w->G->pr) || (w->G->pr + w->G->nnz < Gpr)) &&
-        ((Apr + w->A->nnz < w->A->pr) || (w->A->pr + w->A->nnz < Apr)) &&
-        ((c + w->n < w->c) || (w->c + w->n < c)) &&
-        ((h + w->m < w->h) || (w->h + w->m < h)) &&
-        ((b + w->p < w->b) || (w->b + w->p < b))
+        differentLocation(Gpr, w->G->pr, w->G->nnz) &&
+        (!w->A || differentLocation(Apr, w->A->pr, w->A->nnz)) &&
+        differentLocation(c, w->c, w->n) &&
+        differentLocation(h, w->h, w->m) &&
+        differentLocation(b, w->b, w->p)
     ){
     unset_equilibration(w);
     }
-- 
2.43.0


From 4158217a3901c8e078968b68aba544b7e77f0e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:02 +0000
Subject: [PATCH 08/17] fix: AMD_valid read beyond the row indices before
 rejecting non-ascending column pointers

---
 external/amd/src/amd_valid.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/external/amd/src/amd_valid.c b/external/amd/src/amd_valid.c
index 609abca..970cba7 100644
--- a/external/amd/src/amd_valid.c
+++ b/external/amd/src/amd_valid.c
@@ -62,9 +62,9 @@ GLOBAL Int AMD_valid
 	p1 = Ap [j] ;
 	p2 = Ap [j+1] ;
 	AMD_DEBUG2 (("\nColumn: "ID" p1: "ID" p2: "ID"\n", j, p1, p2)) ;
-	if (p1 > p2)
+	if (p1 > p2 || p2 > nz)
 	{
-	    /* column pointers must be ascending */
+	    /* column pointers must be ascending, hence at most Ap [n_col] */
 	    AMD_DEBUG0 (("column "ID" pointer bad\n", j)) ;
 	    return (AMD_INVALID) ;
 	}
-- 
2.43.0


From 2637cc5184ce323b5233e5c0ad268c4eba68cb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:04 +0000
Subject: [PATCH 09/17] fix: the bound rows of integer variables follow the
 index lists, not the column order

Branching addresses the rows 2k and 2k+1 for the k-th listed variable
(booleans first), but setup numbered the rows in column order. With lists in
any other order the bounds ended up on the wrong variables.
---
 ecos_bb/ecos_bb_preproc.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/ecos_bb/ecos_bb_preproc.c b/ecos_bb/ecos_bb_preproc.c
index f052e6f..2a2cec8 100644
--- a/ecos_bb/ecos_bb_preproc.c
+++ b/ecos_bb/ecos_bb_preproc.c
@@ -43,19 +43,22 @@
 #define CALLOC calloc
 #endif
 
-static int contains(idxint idx, idxint num_int, idxint *bool_vars_idx)
+/* Position of variable idx in the list of num variables, -1 if it is not listed */
+static idxint position(idxint idx, idxint num, idxint *vars_idx)
 {
     idxint i;
-    idxint ans = 0;
-    for (i = 0; i < num_int; ++i)
+    for (i = 0; i < num; ++i)
     {
-        ans += (bool_vars_idx[i] == idx);
+        if (vars_idx[i] == idx)
+            return i;
     }
-    return (int)ans;
+    return -1;
 }
 
 /* Augments the G and b arrays to take lb and ub constraints
- * for all of the variables marked integer
+ * for all of the variables marked integer. The bounds of the k-th variable
+ * (boolean variables first, then integer variables, each in the order in which
+ * they are listed) are the rows 2k and 2k+1, see set_prob in ecos_bb.c
  * USES MALLOC
  */
 static void socp_to_ecos_bb(
@@ -74,10 +77,9 @@ static void socp_to_ecos_bb(
         Gjc_out[i] = Gjc_in[i];
     }
 
-    j = 0;
     for (i = 0; i < n; ++i)
     {
-        if (contains(i, num_bool_vars, bool_vars_idx))
+        if ((j = position(i, num_bool_vars, bool_vars_idx)) >= 0)
         {
             Gpr_out[Gjc_out[i]] = -1;
             Gpr_out[Gjc_out[i] + 1] = 1;
@@ -103,11 +105,11 @@ static void socp_to_ecos_bb(
                 Gpr_out[Gjc_out[i] + 2 + k] = Gpr_in[Gjc_in[i] + k];
                 Gir_out[Gjc_out[i] + 2 + k] = Gir_in[Gjc_in[i] + k] + 2 * num_bool_vars + 2 * num_int_vars;
             }
-
-            ++j;
         }
-        else if (contains(i, num_int_vars, int_vars_idx))
+        else if ((j = position(i, num_int_vars, int_vars_idx)) >= 0)
         {
+            j += num_bool_vars;
+
             Gpr_out[Gjc_out[i]] = -1;
             Gpr_out[Gjc_out[i] + 1] = 1;
 
@@ -132,8 +134,6 @@ static void socp_to_ecos_bb(
                 Gpr_out[Gjc_out[i] + 2 + k] = Gpr_in[Gjc_in[i] + k];
                 Gir_out[Gjc_out[i] + 2 + k] = Gir_in[Gjc_in[i] + k] + 2 * num_bool_vars + 2 * num_int_vars;
             }
-
-            ++j;
         }
         else
         {
-- 
2.43.0


From fbf62d8919b00cd7d45d7d01187a86dbdf55e222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:04 +0000
Subject: [PATCH 10/17] fix: updateDataEntry_h skips the bound rows of integer
 variables as well as those of booleans

---
 ecos_bb/ecos_bb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 1a76213..a845e3b 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -1184,7 +1184,7 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
 
 void updateDataEntry_h(ecos_bb_pwork *w, idxint idx, pfloat value)
 {
-    ecos_updateDataEntry_h(w->ecos_prob, idx + (2 * w->num_bool_vars), value);
+    ecos_updateDataEntry_h(w->ecos_prob, idx + 2 * (w->num_bool_vars + w->num_int_vars), value);
 }
 
 void updateDataEntry_c(ecos_bb_pwork *w, idxint idx, pfloat value)
-- 
2.43.0


From 788cd541b2e48936f2e12f29ea3bd5ac9e3bdb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:04 +0000
Subject: [PATCH 11/17] fix: keep the incumbent found by rounding the root
 relaxation

get_bounds stores it and sets global_U; ECOS_BB_solve then overwrote global_U
with the bound of the root node, which is infinite when the root is branched.
---
 ecos_bb/ecos_bb.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index a845e3b..9732243 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -1143,7 +1143,6 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
     get_bounds(curr_node_idx, prob);
 
     prob->global_L = prob->nodes[curr_node_idx].L;
-    prob->global_U = prob->nodes[curr_node_idx].U;
 
     while (should_continue(prob, curr_node_idx))
     {
-- 
2.43.0


From b93cd50cff76fc3da2fd174b3823a0e254ee5a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:04 +0000
Subject: [PATCH 12/17] fix: do not load a mixed-integer solution that was
 never found

Without an incumbent prob->x, y, z, s and info are uninitialised (or left from
an earlier solve).
---
 ecos_bb/ecos_bb.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 9732243..1ffc019 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -1170,7 +1170,10 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
 
         curr_node_idx = get_next_node(prob);
     }
-    load_solution(prob);
+    if (!isinf(prob->global_U))
+    {
+        load_solution(prob);
+    }
 
 #if MI_PRINTLEVEL > 0
     if (prob->stgs->verbose)
-- 
2.43.0


From cb6c8ad48e5358d36f6178e071aaf2f5ec651269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:04 +0000
Subject: [PATCH 13/17] fix: report an unbounded root relaxation as unbounded
 instead of infeasible

---
 ecos_bb/ecos_bb.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 1ffc019..e2040e7 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -1055,6 +1055,13 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
             prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
         }
     }
+    else if (prob->iter == 0 && (ret_code == ECOS_DINF || ret_code == ECOS_DINF + ECOS_INACC_OFFSET))
+    { /* The root relaxation is unbounded */
+        prob->nodes[node_idx].L = -ECOS_INFINITY;
+        prob->nodes[node_idx].U = -ECOS_INFINITY;
+        prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
+        prob->global_U = -ECOS_INFINITY;
+    }
     else
     { /*Assume node infeasible*/
         prob->nodes[node_idx].L = ECOS_INFINITY;
-- 
2.43.0


From 715ef144804779bb28f6288c682d29d4301a1b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:04 +0000
Subject: [PATCH 14/17] fix: reliability branching chooses among the fractional
 variables of the node itself

Strong branching overwrites the solver's solution, so later candidates were
judged by the solution of another relaxation, and split_idx kept its previous
value when every candidate had an infeasible side.
---
 ecos_bb/ecos_bb.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index e2040e7..d9b1387 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -752,7 +752,13 @@ static void get_branch_var_reliability_branching(ecos_bb_pwork *problem, idxint
 
     idxint ecos_result;
     pfloat q;
-    pfloat *x_values = NULL;
+
+    /* strong branching overwrites the solution of this node */
+    pfloat *x_values = MALLOC(sizeof(pfloat) * problem->ecos_prob->n);
+    memcpy(x_values, problem->ecos_prob->x, sizeof(pfloat) * problem->ecos_prob->n);
+
+    /* set split idx to something impossible */
+    *split_idx = -1;
 
     idxint *random_idx = get_shuffled_array(problem->num_bool_vars + problem->num_int_vars);
     idxint rand_i;
@@ -769,7 +775,7 @@ static void get_branch_var_reliability_branching(ecos_bb_pwork *problem, idxint
             var_idx = problem->int_vars_idx[(i - problem->num_bool_vars)];
         }
 
-        const pfloat y = problem->ecos_prob->x[var_idx];
+        const pfloat y = x_values[var_idx];
         if (float_eqls(y, pfloat_floor(y, problem->stgs->integer_tol), problem->stgs->integer_tol) ||
             float_eqls(y, pfloat_ceil(y, problem->stgs->integer_tol), problem->stgs->integer_tol))
         {
@@ -793,8 +799,6 @@ static void get_branch_var_reliability_branching(ecos_bb_pwork *problem, idxint
                 strong_initialized = 1;
 
                 calc_tmp_branching_problem(problem, &q, &ecos_result);
-                x_values = MALLOC(sizeof(pfloat) * problem->ecos_prob->n);
-                memcpy(x_values, problem->ecos_prob->x, sizeof(pfloat) * problem->ecos_prob->n);
             }
 
             var_idx = i;
-- 
2.43.0


From 72095b4ef0300b8717856c850c9966f9ee4f7d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:12 +0000
Subject: [PATCH 15/17] fix: ECOS_setup checks the dimensions before allocating
 anything

---
 src/preproc.c | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/preproc.c b/src/preproc.c
index b0e57aa..c51fb70 100644
--- a/src/preproc.c
+++ b/src/preproc.c
@@ -612,6 +612,27 @@ pwork* ECOS_setup(idxint n, idxint m, idxint p, idxint l, idxint ncones, idxint*
 #endif
     PRINTTEXT("\n");
 
+#endif
+
+    /* The number of conic variables has to equal l+sum(q)+3*nexp else terminate*/
+    cidx = 0;
+    for( i=0; i<ncones; i++ ){ cidx += q[i]; }
+#ifdef EXPCONE
+    if(cidx+l+3*nexc!=m)
+    {
+#if PRINTLEVEL > 2
+        PRINTTEXT("Number of conic variables does not match l+sum(q)+3*nexc\n");
+#endif
+        return NULL;
+    }
+#else
+    if(cidx+l!=m)
+    {
+#if PRINTLEVEL > 2
+        PRINTTEXT("Number of conic variables does not match l+sum(q)\n");
+#endif
+        return NULL;
+    }
 #endif
 
 	/* get work data structure */
@@ -715,25 +736,6 @@ pwork* ECOS_setup(idxint n, idxint m, idxint p, idxint l, idxint ncones, idxint*
 #endif
 #endif
 
-    /* The number of conic variables has to equal l+sum(q)+3*nexp else terminate*/
-#ifdef EXPCONE
-    if(cidx+l+3*nexc!=m)
-    {
-#if PRINTLEVEL > 2
-        PRINTTEXT("Number of conic variables does not match l+sum(q)+3*nexc\n");
-#endif
-        return NULL;
-    }
-#else
-    if(cidx+l!=m)
-    {
-#if PRINTLEVEL > 2
-        PRINTTEXT("Number of conic variables does not match l+sum(q)\n");
-#endif
-        return NULL;
-    }
-#endif
-
 	/* info struct */
     mywork->info = (stats *)MALLOC(sizeof(stats));
 #if PROFILING > 1
-- 
2.43.0


From 821568ee14387e9f16a044168a4b4e06a2e490e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:38 +0000
Subject: [PATCH 16/17] fix: ECOS_setup gives memory and scaling back when the
 ordering fails

---
 src/preproc.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/preproc.c b/src/preproc.c
index c51fb70..ce74d46 100644
--- a/src/preproc.c
+++ b/src/preproc.c
@@ -940,6 +940,23 @@ pwork* ECOS_setup(idxint n, idxint m, idxint p, idxint l, idxint ncones, idxint*
 		PRINTTEXT("Problem in AMD ordering, exiting.\n");
         AMD_info(Info);
 #endif
+        /* give everything back; ECOS_cleanup undoes the scaling of the data */
+        mywork->KKT->P = P;
+        mywork->KKT->L = newSparseMatrix(nK, nK, 0);
+        mywork->rx = NULL;
+        mywork->ry = NULL;
+        mywork->rz = NULL;
+        FREE(Sign);
+        if(At) {
+            freeSparseMatrix(At);
+            FREE(AtoAt);
+            FREE(AttoK);
+        }
+        freeSparseMatrix(Gt);
+        freeSparseMatrix(KU);
+        FREE(GtoGt);
+        FREE(GttoK);
+        ECOS_cleanup(mywork, 0);
         return NULL;
 	}
 
-- 
2.43.0


From 3551d268b3986476b94ebf35b6f5980860d5bad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:43 +0000
Subject: [PATCH 17/17] fix: ECOS_BB_setup returns NULL when ECOS_setup does

---
 ecos_bb/ecos_bb_preproc.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ecos_bb/ecos_bb_preproc.c b/ecos_bb/ecos_bb_preproc.c
index 2a2cec8..41f4a10 100644
--- a/ecos_bb/ecos_bb_preproc.c
+++ b/ecos_bb/ecos_bb_preproc.c
@@ -282,6 +282,12 @@ ecos_bb_pwork *ECOS_BB_setup(
         Apr, Ajc, Air,
         c, prob->h_new, b);
 
+    if (prob->ecos_prob == NULL)
+    {
+        ECOS_BB_cleanup(prob, 0);
+        return NULL;
+    }
+
     /* Store the number of integer variables in the problem*/
     prob->num_bool_vars = num_bool_vars;
     prob->num_int_vars = num_int_vars;
@@ -327,7 +333,10 @@ ecos_bb_pwork *ECOS_BB_setup(
 void ECOS_BB_cleanup(ecos_bb_pwork *prob, idxint num_vars_keep)
 {
     /* FREE solver memory*/
-    ECOS_cleanup(prob->ecos_prob, num_vars_keep);
+    if (prob->ecos_prob)
+    {
+        ECOS_cleanup(prob->ecos_prob, num_vars_keep);
+    }
     FREE(prob->tmp_bool_node_id);
     FREE(prob->tmp_int_node_id);
     FREE(prob->tmp_branching_bool_node_id);
-- 
2.43.0

