From f6e1d116ea617b3a20f2842eea2054721d901489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:38 +0000
Subject: [PATCH 01/45] fix: keep the FCG's typed-fusion matrices in the
 program, not in globals

par_preventing_adj_mat and dep_dist_mat were process-wide variables, so two
programs scheduled at the same time with the dfp framework overwrote each
other's matrices (and a second run freed the first one's dep_dist_mat again
when lpcolour was set without SCC clustering).
---
 lib/framework-dfp.c | 91 +++++++++++++++++++++++++--------------------
 lib/pluto.h         |  6 +++
 lib/program.cpp     |  2 +
 3 files changed, 58 insertions(+), 41 deletions(-)

diff --git a/lib/framework-dfp.c b/lib/framework-dfp.c
index 0a0d528..a46e107 100644
--- a/lib/framework-dfp.c
+++ b/lib/framework-dfp.c
@@ -36,8 +36,6 @@ double *pluto_fusion_constraints_feasibility_solve(PlutoConstraints *cst,
 bool colour_scc(int scc_id, int *colour, int c, int stmt_pos, int pv,
                 PlutoProg *prog);
 void pluto_print_colours(int *colour, PlutoProg *prog);
-PlutoMatrix *par_preventing_adj_mat;
-PlutoMatrix *dep_dist_mat;
 
 static double rtclock() {
   struct timezone Tzp;
@@ -543,7 +541,7 @@ void fcg_scc_cluster_add_inter_scc_edges(Graph *fcg, int *colour,
             fcg->adj->val[scc1_fcg_offset + dim1][scc2_fcg_offset + dim2] = 1;
           } else {
             if (options->lpcolour) {
-              dep_dist_mat
+              prog->dep_dist_mat
                   ->val[scc1_fcg_offset + dim1][scc2_fcg_offset + dim2] =
                   get_dep_dist_from_pluto_sol(sol, npar);
               IF_DEBUG(
@@ -551,14 +549,14 @@ void fcg_scc_cluster_add_inter_scc_edges(Graph *fcg, int *colour,
                       "Dependence distance between dims %d and %d\n of SCCs %d "
                       "and %d: %ld\n",
                       dim1, dim2, scc1, scc2,
-                      dep_dist_mat->val[scc1_fcg_offset + dim1]
-                                       [scc2_fcg_offset + dim2]););
+                      prog->dep_dist_mat->val[scc1_fcg_offset + dim1]
+                                             [scc2_fcg_offset + dim2]););
             }
             if (check_parallel && !is_lp_solution_parallel(sol, npar)) {
               IF_DEBUG(printf("Adding Parallelism preventing edge"););
               IF_DEBUG(printf("%d to %d in fcg \n", scc1_fcg_offset + dim1,
                               scc2_fcg_offset + dim2););
-              par_preventing_adj_mat
+              prog->par_preventing_adj_mat
                   ->val[scc1_fcg_offset + dim1][scc2_fcg_offset + dim2] = 1;
             }
             free(sol);
@@ -815,7 +813,7 @@ void fcg_scc_cluster_add_permute_preventing_edges(Graph *fcg, int *colour,
           } else {
             if (options->fuse == kTypedFuse) {
               if (!is_lp_solution_parallel(sol, prog->npar)) {
-                par_preventing_adj_mat
+                prog->par_preventing_adj_mat
                     ->val[fcg_scc_offset + j][fcg_scc_offset + j] = 1;
 
               } else {
@@ -885,9 +883,9 @@ void update_scc_cluster_fcg_between_sccs(Graph *fcg, int scc1, int scc2,
             fcg->adj->val[scc1_fcg_offset + dim1][scc2_fcg_offset + dim2] = 0;
             fcg->adj->val[scc2_fcg_offset + dim2][scc1_fcg_offset + dim1] = 0;
             if (options->fuse == kTypedFuse) {
-              par_preventing_adj_mat
+              prog->par_preventing_adj_mat
                   ->val[scc1_fcg_offset + dim1][scc2_fcg_offset + dim2] = 0;
-              par_preventing_adj_mat
+              prog->par_preventing_adj_mat
                   ->val[scc2_fcg_offset + dim2][scc1_fcg_offset + dim1] = 0;
             }
           }
@@ -1093,15 +1091,16 @@ Graph *build_fusion_conflict_graph(PlutoProg *prog, int *colour, int num_nodes,
   Graph *fcg = graph_alloc(num_nodes, context);
 
   if (options->fuse == kTypedFuse) {
-    par_preventing_adj_mat = pluto_matrix_alloc(num_nodes, num_nodes, context);
+    prog->par_preventing_adj_mat =
+        pluto_matrix_alloc(num_nodes, num_nodes, context);
     for (int i = 0; i < num_nodes; i++) {
-      bzero(par_preventing_adj_mat->val[i], num_nodes * sizeof(int64_t));
+      bzero(prog->par_preventing_adj_mat->val[i], num_nodes * sizeof(int64_t));
     }
   }
   if (options->lpcolour && options->scc_cluster) {
-    dep_dist_mat = pluto_matrix_alloc(num_nodes, num_nodes, context);
+    prog->dep_dist_mat = pluto_matrix_alloc(num_nodes, num_nodes, context);
     for (int i = 0; i < num_nodes; i++) {
-      bzero(dep_dist_mat->val[i], num_nodes * sizeof(int64_t));
+      bzero(prog->dep_dist_mat->val[i], num_nodes * sizeof(int64_t));
     }
   }
 
@@ -1216,7 +1215,7 @@ Graph *build_fusion_conflict_graph(PlutoProg *prog, int *colour, int num_nodes,
   IF_DEBUG(pluto_matrix_print(stdout, fcg->adj));
   if (options->fuse == kTypedFuse && options->debug) {
     printf("Parallelism preventing edges\n");
-    pluto_matrix_print(stdout, par_preventing_adj_mat);
+    pluto_matrix_print(stdout, prog->par_preventing_adj_mat);
   }
 
   IF_DEBUG(printf("[Pluto] Build FCG: Total number of LP calls in building the "
@@ -1257,7 +1256,8 @@ void pluto_print_colours(int *colour, PlutoProg *prog) {
 /// Check if it is valid to give colour c to a vertex v in the fcg. The flag
 /// is_parallel set if parallelism preventing edges is supposed to be considered
 /// while colouring.
-bool is_valid_colour(int v, int c, Graph *fcg, int *colour, bool is_parallel) {
+bool is_valid_colour(int v, int c, Graph *fcg, int *colour, bool is_parallel,
+                     PlutoProg *prog) {
   int fcg_nVertices = fcg->nVertices;
   for (int i = 0; i < fcg_nVertices; i++) {
     if ((fcg->adj->val[i][v] == 1 || fcg->adj->val[v][i] == 1) &&
@@ -1266,8 +1266,8 @@ bool is_valid_colour(int v, int c, Graph *fcg, int *colour, bool is_parallel) {
     }
 
     if (is_parallel) {
-      bool par_preventing_edge = par_preventing_adj_mat->val[v][i] ||
-                                 par_preventing_adj_mat->val[i][v];
+      bool par_preventing_edge = prog->par_preventing_adj_mat->val[v][i] ||
+                                 prog->par_preventing_adj_mat->val[i][v];
       if (par_preventing_edge && colour[i] == c) {
         return false;
       }
@@ -1560,7 +1560,7 @@ bool colour_scc(int scc_id, int *colour, int c, int stmt_pos, int pv,
     }
 
     /* Check if this is a valid colour */
-    if (is_valid_colour(v, c, fcg, colour, is_parallel)) {
+    if (is_valid_colour(v, c, fcg, colour, is_parallel, prog)) {
       colour[v] = c;
       /* If this is a valid colour, then try colouring the next vertex in the
        * SCC */
@@ -1674,10 +1674,12 @@ int *get_convex_parallel_successors(int scc_id, PlutoProg *prog,
 
 /// Returns true if there is a parallelism preventing edge between vertex v and
 /// any vertex i which has been coloured with the current_colour.
-bool is_colour_par_preventing(int v, int *colour, int current_colour) {
-  for (int i = 0; i < par_preventing_adj_mat->nrows; i++) {
-    if (colour[i] == current_colour && (par_preventing_adj_mat->val[v][i] ||
-                                        par_preventing_adj_mat->val[i][v])) {
+bool is_colour_par_preventing(int v, int *colour, int current_colour,
+                              PlutoProg *prog) {
+  for (int i = 0; i < prog->par_preventing_adj_mat->nrows; i++) {
+    if (colour[i] == current_colour &&
+        (prog->par_preventing_adj_mat->val[v][i] ||
+         prog->par_preventing_adj_mat->val[i][v])) {
       return true;
     }
   }
@@ -1713,10 +1715,11 @@ int *get_common_parallel_dims(int scc_id, int *convex_successors,
          * must not hinder parallelism */
         if (colour[v] == 0 && !fcg->adj->val[v][v] &&
             !is_adjacent(fcg, v, scc_offset + k) &&
-            is_valid_colour(v, current_colour, fcg, colour, is_parallel) &&
-            !par_preventing_adj_mat->val[v][v] &&
-            !(par_preventing_adj_mat->val[v][scc_offset + k] ||
-              par_preventing_adj_mat->val[scc_offset + k][v])) {
+            is_valid_colour(v, current_colour, fcg, colour, is_parallel,
+                            prog) &&
+            !prog->par_preventing_adj_mat->val[v][v] &&
+            !(prog->par_preventing_adj_mat->val[v][scc_offset + k] ||
+              prog->par_preventing_adj_mat->val[scc_offset + k][v])) {
           if (common_dims == NULL) {
             common_dims = (int *)malloc(sizeof(int) * sccs[scc_id].max_dim);
             bzero(common_dims, sccs[scc_id].max_dim * sizeof(int));
@@ -1772,9 +1775,9 @@ void colour_convex_successors(int k, int *convex_successors, int num_successors,
       int v = scc_offset + j;
       bool colourable_successor =
           colour[v] == 0 && !fcg->adj->val[v][v] &&
-          !par_preventing_adj_mat->val[v][k] &&
-          !par_preventing_adj_mat->val[v][v] &&
-          is_valid_colour(v, current_colour, fcg, colour, is_parallel);
+          !prog->par_preventing_adj_mat->val[v][k] &&
+          !prog->par_preventing_adj_mat->val[v][v] &&
+          is_valid_colour(v, current_colour, fcg, colour, is_parallel, prog);
       if (!colourable_successor)
         continue;
 
@@ -1817,8 +1820,9 @@ bool colour_scc_cluster_greedy(int scc_id, int *colour, int current_colour,
   for (int i = 0; i < max_dim; i++) {
     bool is_dim_parallel =
         (colour[v + i] == 0 && !fcg->adj->val[v + i][v + i] &&
-         !par_preventing_adj_mat->val[v + i][v + i] &&
-         is_valid_colour(v + i, current_colour, fcg, colour, is_parallel));
+         !prog->par_preventing_adj_mat->val[v + i][v + i] &&
+         is_valid_colour(v + i, current_colour, fcg, colour, is_parallel,
+                         prog));
     if (is_dim_parallel) {
       parallel_dims[i] = true;
       num_parallel_dims++;
@@ -1945,9 +1949,9 @@ int get_min_vertex_from_lp_sol(int scc1, int scc2, PlutoProg *prog,
       /* check if v2 is not coloured with current colour */
       if (is_adjacent(fcg, v1, v2))
         continue;
-      if (dep_dist_mat->val[v1][v2] < min_dist) {
-        IF_DEBUG(printf("Dep distance: %ld\n", dep_dist_mat->val[i][j]););
-        min_dist = dep_dist_mat->val[v1][v2];
+      if (prog->dep_dist_mat->val[v1][v2] < min_dist) {
+        IF_DEBUG(printf("Dep distance: %ld\n", prog->dep_dist_mat->val[i][j]););
+        min_dist = prog->dep_dist_mat->val[v1][v2];
         min = v1;
       }
     }
@@ -2008,7 +2012,8 @@ int *get_common_dims(int scc_id, int *scc_list, int num_sccs,
           continue;
         if (is_adjacent(fcg, v, v2) || fcg->adj->val[v2][v2])
           continue;
-        if (!is_valid_colour(v2, current_colour, fcg, colour, check_parallel))
+        if (!is_valid_colour(v2, current_colour, fcg, colour, check_parallel,
+                             prog))
           continue;
         if (common_dims == NULL) {
           common_dims = (int *)malloc(max_dim * sizeof(int));
@@ -2277,9 +2282,9 @@ bool colour_scc_cluster(int scc_id, int *colour, int current_colour,
     /* Check if there is an adjacent vertex with the same colour.
      * In case of typed fuse it checks if there is an adjacent vertex
      * with the same colour and has a parallelism preventing edge  */
-    if (is_valid_colour(v, current_colour, fcg, colour, check_parallel)) {
+    if (is_valid_colour(v, current_colour, fcg, colour, check_parallel, prog)) {
       if (options->fuse == kTypedFuse && sccs[scc_id].is_parallel &&
-          is_colour_par_preventing(v, colour, current_colour)) {
+          is_colour_par_preventing(v, colour, current_colour, prog)) {
         disc_list[num_discarded] = v;
         num_discarded++;
         continue;
@@ -2434,10 +2439,12 @@ int *rebuild_scc_cluster_fcg(PlutoProg *prog, int *colour, int c) {
     free(is_stencil);
   }
   if (options->fuse == kTypedFuse) {
-    pluto_matrix_free(par_preventing_adj_mat);
+    pluto_matrix_free(prog->par_preventing_adj_mat);
+    prog->par_preventing_adj_mat = NULL;
   }
   if (options->lpcolour) {
-    pluto_matrix_free(dep_dist_mat);
+    pluto_matrix_free(prog->dep_dist_mat);
+    prog->dep_dist_mat = NULL;
   }
   prog->fcg = build_fusion_conflict_graph(prog, scc_colour, nvertices, c);
 
@@ -2844,10 +2851,12 @@ void find_permutable_dimensions_scc_based(int *colour, PlutoProg *prog) {
 
   free(colour);
   if (options->fuse == kTypedFuse) {
-    pluto_matrix_free(par_preventing_adj_mat);
+    pluto_matrix_free(prog->par_preventing_adj_mat);
+    prog->par_preventing_adj_mat = NULL;
   }
   if (options->lpcolour) {
-    pluto_matrix_free(dep_dist_mat);
+    pluto_matrix_free(prog->dep_dist_mat);
+    prog->dep_dist_mat = NULL;
   }
   for (int i = 0; i < prog->ddg->num_sccs; i++) {
     free(prog->ddg->sccs[i].vertices);
diff --git a/lib/pluto.h b/lib/pluto.h
index ea37d2d..192b8d3 100644
--- a/lib/pluto.h
+++ b/lib/pluto.h
@@ -406,6 +406,12 @@ struct plutoProg {
    * statements */
   int coloured_dims;
 
+  /* Parallelism preventing edges of the FCG (typed fusion) */
+  PlutoMatrix *par_preventing_adj_mat;
+
+  /* Dependence distances between the vertices of the FCG (hybrid fusion) */
+  PlutoMatrix *dep_dist_mat;
+
   /* Used to store constraint solving times */
   double mipTime, ilpTime, cst_solve_time, cst_const_time, cst_write_time,
       scaling_cst_sol_time, skew_time, stencil_check_time;
diff --git a/lib/program.cpp b/lib/program.cpp
index 391f1f6..90ddc49 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -747,6 +747,8 @@ PlutoProg *pluto_prog_alloc(PlutoContext *context) {
   prog->ntransdeps = 0;
   prog->ddg = NULL;
   prog->fcg = NULL;
+  prog->par_preventing_adj_mat = NULL;
+  prog->dep_dist_mat = NULL;
   prog->hProps = NULL;
   prog->num_hyperplanes = 0;
   prog->decls = (char *)malloc(16384 * 9);
-- 
2.43.0


From 3c54c341532b4db9a93431948ec6cbe6f510e172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:57 +0000
Subject: [PATCH 02/45] fix: pluto_constraints_unionize_simple returned the
 tail of the union

A statement domain with three or more disjuncts lost all but the last two
of them (extract_basic_set stores the result back).
---
 lib/constraints.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index bb8a334..1568883 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -1930,10 +1930,11 @@ int pluto_constraints_is_empty(const PlutoConstraints *cst) {
 PlutoConstraints *
 pluto_constraints_unionize_simple(PlutoConstraints *cst1,
                                   const PlutoConstraints *cst2) {
-  while (cst1->next != NULL) {
-    cst1 = cst1->next;
+  PlutoConstraints *last = cst1;
+  while (last->next != NULL) {
+    last = last->next;
   }
-  cst1->next = pluto_constraints_dup(cst2);
+  last->next = pluto_constraints_dup(cst2);
   return cst1;
 }
 
-- 
2.43.0


From f22b97e298eaf7d5b5ae2515fd9bcb0d1bfdfeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:57 +0000
Subject: [PATCH 03/45] fix: release the scratch system in check_redundancy

---
 lib/constraints.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/constraints.c b/lib/constraints.c
index 1568883..e7caef3 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -1859,6 +1859,7 @@ void check_redundancy(PlutoConstraints *cst) {
     }
     pluto_constraints_free(row);
   }
+  pluto_constraints_free(check);
   IF_DEBUG(printf("%d constraints redundant\n", count););
 }
 
-- 
2.43.0


From eaf5f0684de18e9b7f4eb30145a6d2c81da3748e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:57 +0000
Subject: [PATCH 04/45] fix: isl round trips of unions: own context, and no
 release of the caller's object

pluto_constraints_project_out_isl freed its argument behind the caller's
back and leaked the result; it and pluto_constraints_union_isl passed a
NULL isl context. The prototype of the basic map callback said keep for
an argument it takes.
---
 lib/constraints.h     |  2 +-
 lib/constraints_isl.c | 15 ++++++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/constraints.h b/lib/constraints.h
index 0003ff3..2671b80 100644
--- a/lib/constraints.h
+++ b/lib/constraints.h
@@ -189,7 +189,7 @@ isl_basic_set_to_pluto_constraints(__isl_keep isl_basic_set *bset,
 PlutoConstraints *
 isl_basic_map_to_pluto_constraints(__isl_keep isl_basic_map *bmap,
                                    PlutoContext *context);
-int isl_basic_map_to_pluto_constraints_func_arg(__isl_keep isl_basic_map *bmap,
+int isl_basic_map_to_pluto_constraints_func_arg(__isl_take isl_basic_map *bmap,
                                                 void *user);
 __isl_give isl_basic_map *
 isl_basic_map_from_pluto_constraints(isl_ctx *ctx, const PlutoConstraints *cst,
diff --git a/lib/constraints_isl.c b/lib/constraints_isl.c
index 85b40c2..d420fd3 100644
--- a/lib/constraints_isl.c
+++ b/lib/constraints_isl.c
@@ -42,11 +42,14 @@ void pluto_constraints_project_out_isl(PlutoConstraints *cst, int start,
   assert(start >= 0 && end <= (int)cst->ncols - 2);
 
   PlutoContext *context = cst->context;
-  isl_set *set = isl_set_from_pluto_constraints(cst, NULL);
+  isl_ctx *ctx = isl_ctx_alloc();
+  isl_set *set = isl_set_from_pluto_constraints(cst, ctx);
   set = isl_set_project_out(set, isl_dim_set, start, num);
-  pluto_constraints_free(cst);
-  cst = isl_set_to_pluto_constraints(set, context);
+  PlutoConstraints *projected = isl_set_to_pluto_constraints(set, context);
   isl_set_free(set);
+  isl_ctx_free(ctx);
+  pluto_constraints_copy(cst, projected);
+  pluto_constraints_free(projected);
 }
 
 /* start: 0-indexed */
@@ -404,13 +407,15 @@ int64_t *pluto_constraints_lexmin_isl(const PlutoConstraints *cst, int negvar) {
 
 PlutoConstraints *pluto_constraints_union_isl(const PlutoConstraints *cst1,
                                               const PlutoConstraints *cst2) {
-  isl_set *set1 = isl_set_from_pluto_constraints(cst1, NULL);
-  isl_set *set2 = isl_set_from_pluto_constraints(cst2, NULL);
+  isl_ctx *ctx = isl_ctx_alloc();
+  isl_set *set1 = isl_set_from_pluto_constraints(cst1, ctx);
+  isl_set *set2 = isl_set_from_pluto_constraints(cst2, ctx);
   isl_set *set3 = isl_set_union(set1, set2);
 
   PlutoConstraints *ucst = isl_set_to_pluto_constraints(set3, cst1->context);
 
   isl_set_free(set3);
+  isl_ctx_free(ctx);
 
   return ucst;
 }
-- 
2.43.0


From 6c41a1185eb4c05e1ad5e235669ac602b1655755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:57 +0000
Subject: [PATCH 05/45] fix: read the row count before releasing the
 constraints

---
 lib/framework.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/framework.cpp b/lib/framework.cpp
index 29467df..e63f071 100644
--- a/lib/framework.cpp
+++ b/lib/framework.cpp
@@ -645,10 +645,11 @@ get_feautrier_schedule_constraints(PlutoProg *prog,
 
     pluto_constraints_add(fcst, fcst_d);
     assert(fcst->nrows >= fcst_d->nrows);
+    unsigned fcst_d_nrows = fcst_d->nrows;
     pluto_constraints_free(fcst_d);
 
     if (fcst->nrows >= CONSTRAINTS_SIMPLIFY_THRESHOLD + (1000 * inc) &&
-        fcst->nrows - fcst_d->nrows <
+        fcst->nrows - fcst_d_nrows <
             CONSTRAINTS_SIMPLIFY_THRESHOLD + (1000 * inc)) {
       pluto_constraints_simplify(fcst);
       IF_DEBUG(fprintf(stdout,
-- 
2.43.0


From d08be381c98a29f1f95de71ba8da0893dd235911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:57 +0000
Subject: [PATCH 06/45] fix: release the bounding constraints when not all
 statements are coloured

---
 lib/framework-dfp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/framework-dfp.c b/lib/framework-dfp.c
index a46e107..97b4149 100644
--- a/lib/framework-dfp.c
+++ b/lib/framework-dfp.c
@@ -2982,6 +2982,7 @@ int scale_shift_permutations(PlutoProg *prog, int *colour, int c) {
   if (prog->total_coloured_stmts[c] != nstmts) {
     IF_DEBUG(printf("Not all statements have been coloured\n"););
     pluto_constraints_free(coeffcst);
+    pluto_constraints_free(boundcst);
     return 0;
   }
 
-- 
2.43.0


From f57dcc155e4db0c8d90b83d099c7c2f54e43d3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:57 +0000
Subject: [PATCH 07/45] fix: index set splitting: dangling dependences, leaked
 half spaces, clobbered loop counter

---
 lib/iss.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/lib/iss.c b/lib/iss.c
index 475b786..a6531e1 100644
--- a/lib/iss.c
+++ b/lib/iss.c
@@ -377,12 +377,10 @@ void pluto_update_deps_after_iss(PlutoProg *prog, PlutoConstraints **cuts,
     pluto_dep_free(dep);
   }
 
-  if (num_iss_deps >= 1) {
-    free(prog->deps);
+  free(prog->deps);
 
-    prog->deps = iss_deps;
-    prog->ndeps = num_iss_deps;
-  }
+  prog->deps = iss_deps;
+  prog->ndeps = num_iss_deps;
 }
 
 /*
@@ -504,14 +502,17 @@ void pluto_iss_dep(PlutoProg *prog) {
       } else if (num_cuts <= 2) {
         cuts = (PlutoConstraints **)realloc(
             cuts, 2 * num_cuts * sizeof(PlutoConstraints *));
-        for (i = 0; i < num_cuts; i++) {
-          cuts[num_cuts + i] = pluto_constraints_dup(cuts[i]);
-          pluto_constraints_add(cuts[i], negh);
-          pluto_constraints_add(cuts[num_cuts + i], posh);
+        for (int c = 0; c < num_cuts; c++) {
+          cuts[num_cuts + c] = pluto_constraints_dup(cuts[c]);
+          pluto_constraints_add(cuts[c], negh);
+          pluto_constraints_add(cuts[num_cuts + c], posh);
         }
         num_cuts *= 2;
         pluto_constraints_free(negh);
         pluto_constraints_free(posh);
+      } else {
+        pluto_constraints_free(negh);
+        pluto_constraints_free(posh);
       }
       pluto_constraints_free(h);
     }
-- 
2.43.0


From 86a47ee53a8ee6e1ada392e9e9f5a3d5be66830e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:57 +0000
Subject: [PATCH 08/45] fix: close .fst/.precut on every path, release saved
 transformations on failure

---
 lib/pluto.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/pluto.c b/lib/pluto.c
index 7ccd33f..1765e0c 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -899,6 +899,7 @@ bool precut(PlutoProg *prog, Graph *ddg, int depth) {
       printf("You have an .fst in your directory that is invalid for this "
              "source\n");
       printf("No fusion/distribution forced\n");
+      fclose(cutFp);
       return false;
     }
 
@@ -1003,6 +1004,8 @@ bool precut(PlutoProg *prog, Graph *ddg, int depth) {
         stmts[i]->tile = tile;
       }
 
+      fclose(precut);
+
       /* Set hProps correctly and update satisfied dependences */
       for (k = 0; k < rows; k++) {
         pluto_prog_add_hyperplane(prog, prog->num_hyperplanes, H_UNKNOWN);
@@ -1805,11 +1808,16 @@ int pluto_auto_transform(PlutoProg *prog) {
                    "transformation (if they exist)\n");
             /* Restore original ones */
             for (i = 0; i < nstmts; i++) {
+              pluto_matrix_free(stmts[i]->trans);
+              free(stmts[i]->hyp_types);
               stmts[i]->trans = orig_trans[i];
               stmts[i]->hyp_types = orig_hyp_types[i];
-              prog->num_hyperplanes = orig_num_hyperplanes;
-              prog->hProps = orig_hProps;
             }
+            free(prog->hProps);
+            prog->num_hyperplanes = orig_num_hyperplanes;
+            prog->hProps = orig_hProps;
+            free(orig_trans);
+            free(orig_hyp_types);
             return 1;
           }
         }
@@ -2225,6 +2233,7 @@ bool pluto_diamond_tile(PlutoProg *prog) {
     }
     if (s == band->loop->nstmts) {
       printf("row normal\n");
+      pluto_matrix_free(conc_start_faces);
       continue;
     }
 
-- 
2.43.0


From 37786a896123ea54981cdd164eee21f3af8a2e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:57 +0000
Subject: [PATCH 09/45] fix: libpluto string and remapping interfaces released
 isl objects twice

pluto_schedule_str freed objects that had already been taken, used a
printer after it was consumed, leaked its scratch string and read
uninitialised parallel loops; reads/writes leaked if only one is given.
---
 lib/plutolib.c | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/lib/plutolib.c b/lib/plutolib.c
index db5221c..68c0d4a 100644
--- a/lib/plutolib.c
+++ b/lib/plutolib.c
@@ -317,7 +317,7 @@ pluto_schedules_to_isl(PlutoProg *prog, __isl_take isl_space *space,
 /// are not set to NULL.
 static PlutoProg *pluto_prog_from_isl_domains_dependences(
     __isl_take isl_union_set *domains, __isl_take isl_union_map *dependences,
-    __isl_take __isl_take isl_union_map *reads, isl_union_map *writes,
+    __isl_take isl_union_map *reads, __isl_take isl_union_map *writes,
     PlutoContext *context) {
   PlutoProg *prog = pluto_prog_alloc(context);
 
@@ -364,9 +364,9 @@ static PlutoProg *pluto_prog_from_isl_domains_dependences(
       isl_union_map_free(reads_s);
       isl_union_map_free(writes_s);
     }
-    isl_union_map_free(reads);
-    isl_union_map_free(writes);
   }
+  isl_union_map_free(reads);
+  isl_union_map_free(writes);
 
   prog->ndeps = 0;
   isl_union_map_foreach_map(dependences, &isl_map_count, &prog->ndeps);
@@ -430,7 +430,7 @@ __isl_give isl_union_map *pluto_schedule(__isl_take isl_union_map *schedules,
                                          __isl_take isl_union_map *reads,
                                          __isl_take isl_union_map *writes,
                                          PlutoContext *context) {
-  isl_union_map *dep_raw, *dep_war, *dep_waw, *dep_rar;
+  isl_union_map *dep_raw, *dep_war, *dep_waw, *dep_rar = NULL;
 
   isl_union_map *empty = isl_union_map_empty(isl_union_map_get_space(reads));
 
@@ -439,6 +439,8 @@ __isl_give isl_union_map *pluto_schedule(__isl_take isl_union_map *schedules,
   compute_deps_isl(reads, writes, schedules, empty, &dep_raw, &dep_war,
                    &dep_waw, &dep_rar, NULL, NULL, options);
   isl_union_map_free(empty);
+  /* Input dependences do not constrain the schedule */
+  isl_union_map_free(dep_rar);
 
   isl_union_map *dependences = isl_union_map_union(dep_raw, dep_war);
   dependences = isl_union_map_union(dependences, dep_waw);
@@ -510,9 +512,14 @@ __isl_give isl_union_map *pluto_parallel_schedule_with_remapping(
   IF_MORE_DEBUG(printf("Extracted PlutoProg\n"));
   IF_DEBUG(pluto_prog_print(stdout, prog));
 
+  *ploops = NULL;
+  *nploops = 0;
+  *remap = NULL;
+
   if (pluto_schedule_prog(prog)) {
     /* Failure */
     pluto_prog_free(prog);
+    isl_space_free(space);
 
     if (!context->options->silent) {
       printf("[libpluto] failure, returning NULL schedules\n");
@@ -520,13 +527,12 @@ __isl_give isl_union_map *pluto_parallel_schedule_with_remapping(
     return NULL;
   }
 
-  Remapping *remapping = pluto_get_remapping(prog);
-  *remap = remapping;
+  *ploops = pluto_get_dom_parallel_loops(prog, nploops);
+  *remap = pluto_get_remapping(prog);
 
   isl_union_map *schedules = pluto_schedules_to_isl(prog, space, ctx);
 
   pluto_prog_free(prog);
-  isl_space_free(space);
 
   return schedules;
 }
@@ -544,9 +550,9 @@ void pluto_schedule_str(const char *domains_str, const char *dependences_str,
                         char **schedules_str_buffer_ptr, char **p_loops,
                         Remapping **remapping_ptr, PlutoContext *context) {
   isl_ctx *ctx = isl_ctx_alloc();
-  Ploop **ploop;
+  Ploop **ploop = NULL;
   unsigned nploop = 0, i;
-  Remapping *remapping;
+  Remapping *remapping = NULL;
 
   isl_union_set *domains = isl_union_set_read_from_str(ctx, domains_str);
   isl_union_map *dependences =
@@ -558,10 +564,6 @@ void pluto_schedule_str(const char *domains_str, const char *dependences_str,
   *remapping_ptr = remapping;
 
   if (context->options->parallel) {
-    if (!context->options->silent) {
-      pluto_loops_print(ploop, nploop);
-    }
-
     // NOTE: assuming max 4 digits
     // number of parallel loops
     char *str = (char *)(malloc(sizeof(char) * 5));
@@ -579,18 +581,18 @@ void pluto_schedule_str(const char *domains_str, const char *dependences_str,
       sprintf(str, "%d", ploop[i - 1]->depth + 1);
       strcat(p_loops[0], str);
     }
+    free(str);
   }
+  pluto_loops_free(ploop, nploop);
 
   isl_printer *printer = isl_printer_to_str(ctx);
-  isl_printer_print_union_map(printer, schedule);
+  printer = isl_printer_print_union_map(printer, schedule);
 
   *schedules_str_buffer_ptr = isl_printer_get_str(printer);
   assert(*schedules_str_buffer_ptr != NULL && "isl printer providing empty"
                                               " string");
 
   isl_printer_free(printer);
-  isl_union_set_free(domains);
-  isl_union_map_free(dependences);
   isl_union_map_free(schedule);
 
   isl_ctx_free(ctx);
@@ -606,8 +608,14 @@ void pluto_get_remapping_str(const char *domains_str,
 
   Remapping *remapping_l =
       pluto_schedule_and_get_remapping(domains, dependences, context);
-  *remapping = *remapping_l;
-  free(remapping_l);
+  if (remapping_l) {
+    *remapping = *remapping_l;
+    free(remapping_l);
+  } else {
+    remapping->nstmts = 0;
+    remapping->stmt_inv_matrices = NULL;
+    remapping->stmt_divs = NULL;
+  }
   isl_ctx_free(ctx);
 };
 
-- 
2.43.0


From ee0a8d2de1a910efa43ece5628c557900c982b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:57 +0000
Subject: [PATCH 10/45] fix: release the loop lists the band/loop queries are
 computed from

---
 lib/polyloop.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/polyloop.c b/lib/polyloop.c
index bdb8da7..8504e67 100644
--- a/lib/polyloop.c
+++ b/lib/polyloop.c
@@ -671,10 +671,12 @@ Ploop **pluto_get_outermost_loops(const PlutoProg *prog, int *ndploops) {
         break;
     }
     if (j == nploops) {
-      dom_loops = pluto_loops_cat(dom_loops, ndomloops++, &loops[i], 1);
+      Ploop *loop = pluto_loop_dup(loops[i]);
+      dom_loops = pluto_loops_cat(dom_loops, ndomloops++, &loop, 1);
     }
   }
   *ndploops = ndomloops;
+  pluto_loops_free(loops, nploops);
 
   return dom_loops;
 }
@@ -929,6 +931,7 @@ Band **pluto_get_dom_parallel_bands(PlutoProg *prog, unsigned *nbands,
     }
   }
   *nbands = nb;
+  pluto_loops_free(loops, num);
 
   printf("parallel dominating bands:\n");
   pluto_bands_print(bands, *nbands);
@@ -1011,6 +1014,7 @@ Ploop **pluto_get_innermost_loops(PlutoProg *prog, int *nloops) {
       iloops = pluto_loops_cat(iloops, (*nloops)++, &loop, 1);
     }
   }
+  pluto_loops_free(loops, num);
 
   return iloops;
 }
-- 
2.43.0


From e85d9fd1a8b9820a58edd54bb8d2bf60dfe42122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:57 +0000
Subject: [PATCH 11/45] fix: release access functions and loops on early exits
 of intra-tile optimization

---
 lib/post_transform.c              | 14 +++++++++++---
 lib/tile_size_selection_model.cpp |  8 ++++++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/lib/post_transform.c b/lib/post_transform.c
index 7995386..d801e1b 100644
--- a/lib/post_transform.c
+++ b/lib/post_transform.c
@@ -35,8 +35,11 @@ int has_spatial_reuse(Stmt *stmt, PlutoAccess *acc, int depth) {
   assert(depth <= (int)newacc->ncols - 1);
 
   /* Scalars */
-  if (newacc->nrows == 0)
+  if (newacc->nrows == 0) {
+    pluto_matrix_free(newacc);
+    free(divs);
     return 0;
+  }
 
   for (int i = 0; i < (int)newacc->nrows - 1; i++) {
     /* No spatial reuse when the func is varying at a non-innermost dim */
@@ -424,9 +427,12 @@ static bool make_parallel_loop_innermost(Band *band, unsigned num_tiled_levels,
     }
   }
   if (nploops == 0) {
+    free(par_loops);
+    pluto_loops_free(loops, nloops);
     return false;
   }
 
+  bool retval = false;
   Ploop *best_loop = get_best_vectorizable_loop(par_loops, nploops, prog);
   if (best_loop && !pluto_loop_is_innermost(best_loop, prog)) {
     IF_DEBUG(printf("[pluto] intra_tile_opt: loop to be made innermost: "););
@@ -435,9 +441,11 @@ static bool make_parallel_loop_innermost(Band *band, unsigned num_tiled_levels,
     bool move_across_scalar_hyperplanes = true;
     pluto_make_innermost_loop(best_loop, innermost_loop_depth + 1,
                               move_across_scalar_hyperplanes, prog);
-    return true;
+    retval = true;
   }
-  return false;
+  free(par_loops);
+  pluto_loops_free(loops, nloops);
+  return retval;
 }
 
 /// Optimize the intra-tile loop order for locality and vectorization.
diff --git a/lib/tile_size_selection_model.cpp b/lib/tile_size_selection_model.cpp
index 20c62a7..c4e9e1e 100644
--- a/lib/tile_size_selection_model.cpp
+++ b/lib/tile_size_selection_model.cpp
@@ -453,11 +453,15 @@ static std::vector<bool> get_vectorizable_dimensions(Band *band,
     }
 
     // Do not select outermost parallel loop
-    if (best_loop->depth - band->loop->depth == 0)
+    if (best_loop->depth - band->loop->depth == 0) {
+      pluto_loops_free(loops, nloops);
       continue;
+    }
     // Do not assign vector tile sizes to concurrent start dimensions.
-    if (prog->is_diamond_tiled && best_loop->depth - band->loop->depth <= 1)
+    if (prog->is_diamond_tiled && best_loop->depth - band->loop->depth <= 1) {
+      pluto_loops_free(loops, nloops);
       continue;
+    }
     vectorizableDims[best_loop->depth - depth] = true;
     pluto_loops_free(loops, nloops);
   }
-- 
2.43.0


From 4781a1366af2fd24268daca40188980568a04be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:57 +0000
Subject: [PATCH 12/45] fix: use-after-take of an access relation, leaks of the
 codegen context and a bound query

---
 lib/program.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/program.cpp b/lib/program.cpp
index 90ddc49..92fd12f 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -532,7 +532,7 @@ isl_basic_map_extract_access_func(__isl_take isl_basic_map *bmap, void *user) {
   }
   (*info->accs)[info->index] = (PlutoAccess *)malloc(sizeof(PlutoAccess));
   PlutoAccess *acc = (*info->accs)[info->index];
-  acc->name = strdup(isl_basic_map_get_tuple_name(bmap, isl_dim_out));
+  acc->name = strdup(isl_map_get_tuple_name(map, isl_dim_out));
   acc->mat = acc_mat;
   info->index++;
   isl_map_free(map);
@@ -702,10 +702,13 @@ int read_codegen_context_from_file(PlutoConstraints *codegen_context) {
   if (fp) {
     IF_DEBUG(printf("[Pluto] Reading from codegen.context\n"););
     PlutoConstraints *cc = pluto_constraints_read(fp, context);
+    fclose(fp);
     if (cc && cc->ncols == codegen_context->ncols) {
       pluto_constraints_add(codegen_context, cc);
+      pluto_constraints_free(cc);
       return 0;
     }
+    pluto_constraints_free(cc);
     IF_DEBUG(printf("[WARNING] Failed to read from codegen.context\n"););
   }
 
@@ -1512,8 +1515,10 @@ int get_const_bound_difference(const PlutoConstraints *cnst, int depth) {
       break;
   }
   /* Variable doesn't appear */
-  if (r == cst->nrows)
+  if (r == cst->nrows) {
+    pluto_constraints_free(cst);
     return -1;
+  }
 
   /* Scale rows so that the coefficient of depth var is the same */
   _lcm = 1;
-- 
2.43.0


From d47decfa135ddaf96bac4ec4787d89ab4cc69837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:21 +0000
Subject: [PATCH 13/45] fix: release the successor list when there is no
 minimum convex successor

---
 lib/framework-dfp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/framework-dfp.c b/lib/framework-dfp.c
index 97b4149..db8e14d 100644
--- a/lib/framework-dfp.c
+++ b/lib/framework-dfp.c
@@ -2107,6 +2107,7 @@ int get_next_min_vertex_scc_cluster(int scc_id, PlutoProg *prog,
       for (int i = 0; i < max_dim; i++) {
         if (colourable_dims[i]) {
           free(colourable_dims);
+          free(convex_successors);
           IF_DEBUG(
               printf(
                   "No convex successors. Returning vertex %d for colouring\n",
-- 
2.43.0


From 8124777230e3608f897f6a69a939a0a4f621572a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:07 +0000
Subject: [PATCH 14/45] fix: saturate numerators with the right sign, warn on
 stderr, no mpz leak

---
 lib/isl_support.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/isl_support.c b/lib/isl_support.c
index a37e731..5b56c8f 100644
--- a/lib/isl_support.c
+++ b/lib/isl_support.c
@@ -128,8 +128,6 @@ long long isl_val_get_num_ll(__isl_keep isl_val *v) {
   int sign;
   long long result;
 
-  mpz_init(tmp);
-
   if (!v)
     return 0;
   if (!isl_val_is_rat(v))
@@ -140,16 +138,18 @@ long long isl_val_get_num_ll(__isl_keep isl_val *v) {
   isl_val_get_num_gmp(v, z);
 
   if (!mpz_fits_ll(z)) {
-    printf("[pluto_math_support] numerator too large; returning "
-           "largest/smallest signed 64-bit number\n");
+    fprintf(stderr, "[pluto_math_support] numerator too large; returning "
+                    "largest/smallest signed 64-bit number\n");
     sign = mpz_sgn(z);
     mpz_clear(z);
 
     /* 2^63-1 is the largest positive signed number for 64-bit */
     /* -2^63 is the largest negative signed number for 64-bit */
-    return sign ? (long long)((1ULL << 63) - 1) : (long long)((1ULL << 63));
+    return sign > 0 ? (long long)((1ULL << 63) - 1) : (long long)((1ULL << 63));
   }
 
+  mpz_init(tmp);
+
   /* tmp = (lower 64 bits of r) */
   mpz_mod_2exp(tmp, z, 64);
   mpz_clear(z);
-- 
2.43.0


From 79d179de1f5bc97078722c7fd1bca2ea707c5d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:07 +0000
Subject: [PATCH 15/45] fix: keep 64-bit coefficients in 64-bit variables

---
 lib/constraints.c     |  4 ++--
 lib/constraints_isl.c |  3 ++-
 lib/framework-dfp.c   |  4 ++--
 lib/framework.cpp     | 12 +++++++-----
 lib/iss.c             |  5 ++++-
 lib/math_support.c    | 19 +++++++++++--------
 lib/pluto.c           |  4 ++--
 lib/program.cpp       | 20 +++++++++++---------
 lib/program.h         |  2 +-
 9 files changed, 42 insertions(+), 31 deletions(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index e7caef3..9a6040f 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -2426,7 +2426,7 @@ void pluto_constraints_remove_const_ub(PlutoConstraints *cst, int pos) {
 
   for (i = 0, r = 0; r < cst->nrows; r++) {
     if (pluto_constraints_is_ub(cst, i, pos)) {
-      int sum = 0;
+      int64_t sum = 0;
       for (j = 0; j < cst->ncols - 1 && j != pos; j++) {
         sum += labs(cst->val[i][j]);
       }
@@ -2566,7 +2566,7 @@ void fourier_motzkin_eliminate_smart(PlutoConstraints *cst, unsigned pos) {
 
 void pluto_constraints_gaussian_eliminate(PlutoConstraints *cst, int pos) {
   int r, r2, c;
-  int factor1, factor2;
+  int64_t factor1, factor2;
 
   assert(pos >= 0);
   assert(pos <= cst->ncols - 2);
diff --git a/lib/constraints_isl.c b/lib/constraints_isl.c
index d420fd3..07c6a35 100644
--- a/lib/constraints_isl.c
+++ b/lib/constraints_isl.c
@@ -228,7 +228,8 @@ isl_basic_map_from_pluto_constraints(isl_ctx *ctx, const PlutoConstraints *cst,
     }
 
     for (unsigned j = 0; j < cst->ncols; ++j) {
-      *m = isl_mat_set_element_si(*m, row, j, cst->val[i][j]);
+      *m = isl_mat_set_element_val(*m, row, j,
+                                   isl_val_int_from_si(ctx, cst->val[i][j]));
     }
   }
 
diff --git a/lib/framework-dfp.c b/lib/framework-dfp.c
index db8e14d..a1e50a6 100644
--- a/lib/framework-dfp.c
+++ b/lib/framework-dfp.c
@@ -998,8 +998,8 @@ static bool are_sccs_fused(PlutoProg *prog, unsigned scc1, unsigned scc2) {
       continue;
     }
 
-    int cut_id1 = stmts[stmt1]->trans->val[i][nvar + npar];
-    int cut_id2 = stmts[stmt2]->trans->val[i][nvar + npar];
+    int64_t cut_id1 = stmts[stmt1]->trans->val[i][nvar + npar];
+    int64_t cut_id2 = stmts[stmt2]->trans->val[i][nvar + npar];
 
     if (cut_id1 != cut_id2) {
       sccs_fused = false;
diff --git a/lib/framework.cpp b/lib/framework.cpp
index e63f071..f6fbe82 100644
--- a/lib/framework.cpp
+++ b/lib/framework.cpp
@@ -28,6 +28,7 @@
 #include "isl/constraint.h"
 #include "isl/mat.h"
 #include "isl/set.h"
+#include "isl/val.h"
 
 #define CONSTRAINTS_SIMPLIFY_THRESHOLD 10000U
 #define MAX_FARKAS_CST 2000
@@ -743,7 +744,8 @@ PlutoConstraints **get_stmt_lin_ind_constraints(Stmt *stmt,
       for (unsigned j = 0; j < stmt->trans->nrows; j++) {
         /* Skip rows of h that are zero */
         if (hProps[j].type != H_SCALAR) {
-          h = isl_mat_set_element_si(h, q, p, stmt->trans->val[j][i]);
+          h = isl_mat_set_element_val(
+              h, q, p, isl_val_int_from_si(ctx, stmt->trans->val[j][i]));
           q++;
         }
       }
@@ -781,12 +783,12 @@ PlutoConstraints **get_stmt_lin_ind_constraints(Stmt *stmt,
   for (unsigned j = 0; j < ortho->ncols; j++) {
     if (ortho->val[0][j] == 0)
       continue;
-    int colgcd = abs(ortho->val[0][j]);
+    int64_t colgcd = llabs(ortho->val[0][j]);
     unsigned i;
     for (i = 1; i < ortho->nrows; i++) {
       if (ortho->val[i][j] == 0)
         break;
-      colgcd = gcd(colgcd, abs(ortho->val[i][j]));
+      colgcd = gcd(colgcd, llabs(ortho->val[i][j]));
     }
     if (i == ortho->nrows) {
       if (colgcd > 1) {
@@ -972,7 +974,7 @@ PlutoConstraints *get_coeff_bounding_constraints(const PlutoProg *prog) {
     }
   } else {
     /* Add upper bounds for transformation coefficients */
-    int ub = pluto_prog_get_largest_const_in_domains(prog);
+    int64_t ub = pluto_prog_get_largest_const_in_domains(prog);
 
     /* Putting too small an upper bound can prevent useful transformations;
      * also, note that an upper bound is added for all statements globally due
@@ -983,7 +985,7 @@ PlutoConstraints *get_coeff_bounding_constraints(const PlutoProg *prog) {
     if (ub >= 10) {
       for (int i = trans_coeff_offset; i < (int)cst->ncols - 1; i++) {
         IF_DEBUG2(
-            printf("Adding upper bound %d for transformation coefficients\n",
+            printf("Adding upper bound %ld for transformation coefficients\n",
                    ub););
         pluto_constraints_add_ub(cst, i, ub);
       }
diff --git a/lib/iss.c b/lib/iss.c
index a6531e1..0c13706 100644
--- a/lib/iss.c
+++ b/lib/iss.c
@@ -25,6 +25,8 @@
 #include "pluto/pluto.h"
 #include "program.h"
 
+#include "isl/val.h"
+
 PlutoConstraints **get_lin_ind_constraints(PlutoMatrix *mat, int *orthonum) {
   int i, j, k;
   PlutoConstraints **orthcst;
@@ -42,7 +44,8 @@ PlutoConstraints **get_lin_ind_constraints(PlutoMatrix *mat, int *orthonum) {
 
   for (i = 0; i < mat->ncols; i++) {
     for (j = 0; j < mat->nrows; j++) {
-      h = isl_mat_set_element_si(h, j, i, mat->val[j][i]);
+      h = isl_mat_set_element_val(h, j, i,
+                                  isl_val_int_from_si(ctx, mat->val[j][i]));
     }
   }
 
diff --git a/lib/math_support.c b/lib/math_support.c
index bb23abd..a27e528 100644
--- a/lib/math_support.c
+++ b/lib/math_support.c
@@ -204,10 +204,10 @@ void pluto_matrix_interchange_rows(PlutoMatrix *mat, int r1, int r2) {
 }
 
 void pluto_matrix_interchange_cols(PlutoMatrix *mat, int c1, int c2) {
-  int tmp, i;
+  int i;
 
   for (i = 0; i < mat->nrows; i++) {
-    tmp = mat->val[i][c1];
+    int64_t tmp = mat->val[i][c1];
     mat->val[i][c1] = mat->val[i][c2];
     mat->val[i][c2] = tmp;
   }
@@ -333,7 +333,7 @@ void pluto_matrix_normalize_row(PlutoMatrix *mat, int pos) {
   for (i = 0; i < mat->nrows; i++) {
     if (mat->val[i][0] == 0)
       continue;
-    int rowgcd = llabs(mat->val[i][0]);
+    int64_t rowgcd = llabs(mat->val[i][0]);
     for (j = 1; j < mat->ncols; j++) {
       if (mat->val[i][j] == 0)
         break;
@@ -352,7 +352,7 @@ void pluto_matrix_normalize_row(PlutoMatrix *mat, int pos) {
 /* pos: 0-indexed */
 void gaussian_eliminate_var(PlutoMatrix *mat, int pos) {
   int r, r2, c;
-  int factor1, factor2;
+  int64_t factor1, factor2;
 
   for (r = 0; r < mat->nrows; r++) {
     if (mat->val[r][pos] != 0) {
@@ -452,7 +452,8 @@ PlutoMatrix *pluto_matrix_product(const PlutoMatrix *mat1,
 
 /* Converts matrix to row-echelon form in-place */
 PlutoMatrix *pluto_matrix_to_row_echelon(PlutoMatrix *mat) {
-  int i, j, k, r, _lcm, factor1;
+  int i, j, k, r;
+  int64_t _lcm, factor1;
 
   r = 0;
   for (i = 0; i < PLMIN(mat->ncols, mat->nrows); i++) {
@@ -491,7 +492,7 @@ unsigned pluto_matrix_get_rank(const PlutoMatrix *mat) {
 
   unsigned null = 0;
   for (unsigned i = 0; i < re->nrows; i++) {
-    int sum = 0;
+    int64_t sum = 0;
     for (unsigned j = 0; j < re->ncols; j++) {
       sum += llabs(re->val[i][j]);
     }
@@ -643,7 +644,8 @@ char *pluto_affine_function_sprint(int64_t *func, int ndims,
  */
 int pluto_vector_is_parallel(PlutoMatrix *mat1, int r1, PlutoMatrix *mat2,
                              int r2) {
-  int num, den, j;
+  int j;
+  int64_t num, den;
 
   assert(mat1->ncols == mat2->ncols);
 
@@ -674,7 +676,8 @@ int pluto_vector_is_parallel(PlutoMatrix *mat1, int r1, PlutoMatrix *mat2,
 
 int pluto_vector_is_normal(PlutoMatrix *mat1, int r1, PlutoMatrix *mat2,
                            int r2) {
-  int j, dot;
+  int j;
+  int64_t dot;
 
   assert(mat1->ncols == mat2->ncols);
 
diff --git a/lib/pluto.c b/lib/pluto.c
index 1765e0c..4ae3cef 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -1249,8 +1249,8 @@ void normalize_domains(PlutoProg *prog) {
       continue;
 
     for (j = 2 * nvar; j < 2 * nvar + npar; j++) {
-      int min = dpoly->val[0][j];
-      int max = dpoly->val[0][j];
+      int64_t min = dpoly->val[0][j];
+      int64_t max = dpoly->val[0][j];
       for (unsigned i = 1; i < dpoly->nrows; i++) {
         min = PLMIN(dpoly->val[i][j], min);
         max = PLMAX(dpoly->val[i][j], max);
diff --git a/lib/program.cpp b/lib/program.cpp
index 92fd12f..4cbde1a 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -173,7 +173,7 @@ void pluto_stmt_print(FILE *fp, const Stmt *stmt) {
  *
  */
 static int64_t *pluto_check_supernode(const Stmt *stmt, unsigned pos,
-                                      int *tile_size) {
+                                      int64_t *tile_size) {
   int lb_pos, ub_pos;
   int64_t *tile_hyp;
 
@@ -220,7 +220,7 @@ static int64_t *pluto_check_supernode(const Stmt *stmt, unsigned pos,
 
 /// Returns true if the input loop is a tile space loop.
 bool is_tile_space_loop(Ploop *loop, const PlutoProg *prog) {
-  int tile_size;
+  int64_t tile_size;
   int64_t *tiling_hyp =
       pluto_check_supernode(loop->stmts[0], loop->depth, &tile_size);
   if (tiling_hyp == NULL) {
@@ -268,7 +268,7 @@ void pluto_stmt_print_hyperplane(FILE *fp, const Stmt *stmt, int level) {
     /* Detect if this dimension is an affine function of other dimensions
      * divided by a constant -- useful to print tiled hyperplanes, the
      * dividing constant being the tile size */
-    int div;
+    int64_t div;
     int64_t *super_func;
     super_func = pluto_check_supernode(stmt, j, &div);
     if (super_func) {
@@ -282,11 +282,11 @@ void pluto_stmt_print_hyperplane(FILE *fp, const Stmt *stmt, int level) {
                                   1 + strlen(vars[j]) + 2 + log10(div) + 1 + 1);
         sprintf(vars[j], "(%s", tmp = strdup(vars[j]));
         free(tmp);
-        sprintf(vars[j] + strlen(vars[j]), ")/%d", div);
+        sprintf(vars[j] + strlen(vars[j]), ")/%ld", div);
       } else {
         vars[j] =
             (char *)realloc(vars[j], strlen(vars[j]) + 1 + log10(div) + 1 + 1);
-        sprintf(vars[j] + strlen(vars[j]), "/%d", div);
+        sprintf(vars[j] + strlen(vars[j]), "/%ld", div);
       }
       free(super_func);
     }
@@ -719,8 +719,8 @@ int read_codegen_context_from_file(PlutoConstraints *codegen_context) {
  * transformations that represent shifts or skews proportional to trip counts:
  * this happens when loop bounds are constants
  */
-int pluto_prog_get_largest_const_in_domains(const PlutoProg *prog) {
-  int max = 0;
+int64_t pluto_prog_get_largest_const_in_domains(const PlutoProg *prog) {
+  int64_t max = 0;
   for (unsigned i = 0; i < prog->nstmts; i++) {
     Stmt *stmt = prog->stmts[i];
     for (unsigned r = 0; r < stmt->domain->nrows; r++) {
@@ -1499,7 +1499,8 @@ PlutoConstraints *pluto_get_new_domain(const Stmt *stmt) {
  *
  * */
 int get_const_bound_difference(const PlutoConstraints *cnst, int depth) {
-  int constdiff, c, _lcm;
+  int constdiff, c;
+  int64_t _lcm;
 
   assert(cnst != NULL);
   PlutoConstraints *cst = pluto_constraints_dup(cnst);
@@ -1594,7 +1595,8 @@ int get_const_bound_difference(const PlutoConstraints *cnst, int depth) {
  * Returned string should be freed with 'free' */
 char *get_expr(PlutoConstraints *cst, int pos, const char **params,
                int bound_type) {
-  int c, sum;
+  int c;
+  int64_t sum;
 
   char *expr = (char *)malloc(512);
   strcpy(expr, "");
diff --git a/lib/program.h b/lib/program.h
index 51dda38..cd8aeb5 100644
--- a/lib/program.h
+++ b/lib/program.h
@@ -119,7 +119,7 @@ void pluto_dep_free(Dep *dep);
 Dep *pluto_dep_dup(Dep *d);
 void pluto_remove_stmt(PlutoProg *prog, unsigned stmt_id);
 
-int pluto_prog_get_largest_const_in_domains(const PlutoProg *prog);
+int64_t pluto_prog_get_largest_const_in_domains(const PlutoProg *prog);
 
 void compute_deps_isl(isl_union_map *reads, isl_union_map *writes,
                       isl_union_map *schedule, isl_union_map *empty,
-- 
2.43.0


From 050112387ecc7532a243f04fb04545a71e5ced7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:03 +0000
Subject: [PATCH 16/45] fix: refuse divisors that do not fit the remapping
 interface instead of truncating them

---
 lib/program.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/program.cpp b/lib/program.cpp
index 4cbde1a..bb85578 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -1966,7 +1966,9 @@ PlutoMatrix *pluto_stmt_get_remapping(const Stmt *stmt, int **divs) {
     if (remap->val[i][i] <= -1) {
       pluto_matrix_negate_row(remap, i);
     }
-    (*divs)[i] = llabs(remap->val[i][i]);
+    int64_t div = llabs(remap->val[i][i]);
+    assert(div <= INT_MAX && "divisor too large");
+    (*divs)[i] = (int)div;
   }
 
   for (unsigned i = 0; i < stmt->dim; i++) {
@@ -2010,7 +2012,7 @@ PlutoMatrix *pluto_get_new_access_func(const PlutoMatrix *acc, const Stmt *stmt,
   PlutoMatrix *remap = pluto_stmt_get_remapping(stmt, &remap_divs);
   assert(remap->nrows == stmt->dim + npar + 1);
 
-  int _lcm = 1;
+  int64_t _lcm = 1;
   for (unsigned r = 0; r < remap->nrows; r++) {
     assert(remap_divs[r] != 0);
     _lcm = lcm(_lcm, remap_divs[r]);
@@ -2021,10 +2023,12 @@ PlutoMatrix *pluto_get_new_access_func(const PlutoMatrix *acc, const Stmt *stmt,
     }
   }
 
+  assert(_lcm >= INT_MIN && _lcm <= INT_MAX && "divisor too large");
+
   PlutoMatrix *newacc = pluto_matrix_product(acc, remap);
 
   for (unsigned r = 0; r < newacc->nrows; r++) {
-    (*divs)[r] = _lcm;
+    (*divs)[r] = (int)_lcm;
   }
 
   assert(newacc->ncols == stmt->trans->nrows + npar + 1);
-- 
2.43.0


From 8e86084342a95516b900093ec6b199fe3eb7a57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:08 +0000
Subject: [PATCH 17/45] fix: compute constant extents in integers, not in
 single precision

---
 lib/program.cpp | 40 +++++++++++++++++++++++-----------------
 lib/program.h   |  2 +-
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/lib/program.cpp b/lib/program.cpp
index bb85578..668a552 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -1488,6 +1488,15 @@ PlutoConstraints *pluto_get_new_domain(const Stmt *stmt) {
   return newdom;
 }
 
+/* Floor and ceiling of a/b for b > 0 */
+static int64_t floor_div(int64_t a, int64_t b) {
+  return a / b - (a % b < 0 ? 1 : 0);
+}
+
+static int64_t ceil_div(int64_t a, int64_t b) {
+  return a / b + (a % b > 0 ? 1 : 0);
+}
+
 /*
  * Checks if the range of the variable at depth 'depth' can be bound by a
  * constant; returns the constant of -1 if it can't be
@@ -1498,9 +1507,9 @@ PlutoConstraints *pluto_get_new_domain(const Stmt *stmt) {
  * other inequalities
  *
  * */
-int get_const_bound_difference(const PlutoConstraints *cnst, int depth) {
-  int constdiff, c;
-  int64_t _lcm;
+int64_t get_const_bound_difference(const PlutoConstraints *cnst, int depth) {
+  int c;
+  int64_t constdiff, _lcm;
 
   assert(cnst != NULL);
   PlutoConstraints *cst = pluto_constraints_dup(cnst);
@@ -1508,7 +1517,7 @@ int get_const_bound_difference(const PlutoConstraints *cnst, int depth) {
   pluto_constraints_project_out(cst, depth + 1, cst->ncols - 1 - depth - 1);
   assert(depth >= 0 && depth <= (int)cst->ncols - 2);
 
-  constdiff = INT_MAX;
+  constdiff = INT64_MAX;
 
   unsigned r;
   for (r = 0; r < cst->nrows; r++) {
@@ -1565,10 +1574,9 @@ int get_const_bound_difference(const PlutoConstraints *cnst, int depth) {
             }
           }
           if (c == (int)cst->ncols - 1) {
-            constdiff = PLMIN(
-                constdiff,
-                floorf(cst->val[r][c] / (float)-cst->val[r][depth]) +
-                    ceilf(cst->val[r1][c] / (float)cst->val[r1][depth]) + 1);
+            int64_t diff = floor_div(cst->val[r][c], -cst->val[r][depth]) +
+                           ceil_div(cst->val[r1][c], cst->val[r1][depth]) + 1;
+            constdiff = PLMIN(constdiff, diff);
           }
         }
       }
@@ -1576,7 +1584,7 @@ int get_const_bound_difference(const PlutoConstraints *cnst, int depth) {
   }
   pluto_constraints_free(cst);
 
-  if (constdiff == INT_MAX) {
+  if (constdiff == INT64_MAX) {
     return -1;
   }
 
@@ -1617,13 +1625,11 @@ char *get_expr(PlutoConstraints *cst, int pos, const char **params,
   if (sum == 0) {
     /* constant */
     if (bound_type == MINF) {
-      sprintf(expr + strlen(expr), "%d",
-              (int)floorf(cst->val[pos][cst->ncols - 1] /
-                          -(float)cst->val[pos][0]));
+      sprintf(expr + strlen(expr), "%ld",
+              floor_div(cst->val[pos][cst->ncols - 1], -cst->val[pos][0]));
     } else {
-      sprintf(
-          expr + strlen(expr), "%d",
-          (int)ceilf(-cst->val[pos][cst->ncols - 1] / (float)cst->val[pos][0]));
+      sprintf(expr + strlen(expr), "%ld",
+              ceil_div(-cst->val[pos][cst->ncols - 1], cst->val[pos][0]));
     }
   } else {
     /* if it's being divided by 1, make it better by not putting
@@ -1757,11 +1763,11 @@ char *get_parametric_bounding_box(const PlutoConstraints *cst, int start,
 void get_parametric_extent_const(const PlutoConstraints *cst, int pos, int npar,
                                  const char **params, char **extent,
                                  char **p_lbexpr) {
-  int constdiff = get_const_bound_difference(cst, pos);
+  int64_t constdiff = get_const_bound_difference(cst, pos);
 
   if ((p_lbexpr == NULL) && (constdiff != -1)) {
     *extent = (char *)malloc(sizeof(int) * 8);
-    sprintf(*extent, "%d", constdiff);
+    sprintf(*extent, "%ld", constdiff);
   } else {
     get_parametric_extent(cst, pos, npar, params, extent, p_lbexpr);
   }
diff --git a/lib/program.h b/lib/program.h
index cd8aeb5..95483cb 100644
--- a/lib/program.h
+++ b/lib/program.h
@@ -66,7 +66,7 @@ void pluto_stmt_add_dim(Stmt *stmt, unsigned pos, int time_pos,
 void pluto_stmt_remove_dim(Stmt *stmt, unsigned pos, PlutoProg *prog);
 void pluto_prog_add_hyperplane(PlutoProg *prog, int pos, PlutoHypType type);
 
-int get_const_bound_difference(const PlutoConstraints *cst, int depth);
+int64_t get_const_bound_difference(const PlutoConstraints *cst, int depth);
 PlutoMatrix *get_alpha(const Stmt *stmt, const PlutoProg *prog);
 PlutoMatrix *pluto_stmt_get_remapping(const Stmt *stmt, int **strides);
 
-- 
2.43.0


From a3706ae5265f420d44fbf0bbfeb32e55bd4a3562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:09 +0000
Subject: [PATCH 18/45] fix: print nothing on stdout in silent mode

---
 lib/framework-dfp.c               | 15 ++++++++-------
 lib/framework.cpp                 |  2 +-
 lib/pluto.c                       | 24 ++++++++++++++----------
 lib/plutolib.c                    |  2 +-
 lib/post_transform.c              |  4 ++--
 lib/tile.c                        |  4 ++--
 lib/tile_size_selection_model.cpp |  2 +-
 7 files changed, 29 insertions(+), 24 deletions(-)

diff --git a/lib/framework-dfp.c b/lib/framework-dfp.c
index a1e50a6..53bf50c 100644
--- a/lib/framework-dfp.c
+++ b/lib/framework-dfp.c
@@ -43,7 +43,7 @@ static double rtclock() {
   int stat;
   stat = gettimeofday(&Tp, &Tzp);
   if (stat != 0)
-    printf("Error return from gettimeofday: %d", stat);
+    fprintf(stderr, "Error return from gettimeofday: %d", stat);
   return (Tp.tv_sec + Tp.tv_usec * 1.0e-6);
 }
 
@@ -150,7 +150,7 @@ void mark_parallel_sccs(int *colour, PlutoProg *prog) {
       /* If sol is null, test again with a precise satisfaction check */
       if (sol == NULL) {
         pluto_compute_dep_satisfaction_precise(prog);
-        pluto_transformations_pretty_print(prog);
+        IF_DEBUG(pluto_transformations_pretty_print(prog););
         ddg_update(prog->ddg, prog);
         ddg_compute_scc(prog);
         assert(num_sccs == prog->ddg->num_sccs);
@@ -2700,12 +2700,13 @@ int *colour_fcg_scc_based(int c, int *colour, PlutoProg *prog) {
       }
       /* Needed in case of partial satisfaction. */
       if (is_distributed == false) {
-        printf("Num Deps satisfied with precise check %d\n",
-               pluto_compute_dep_satisfaction_precise(prog));
+        int nsatisfied = pluto_compute_dep_satisfaction_precise(prog);
+        IF_DEBUG(
+            printf("Num Deps satisfied with precise check %d\n", nsatisfied););
 
-        pluto_transformations_pretty_print(prog);
+        IF_DEBUG(pluto_transformations_pretty_print(prog););
         pluto_compute_dep_directions(prog);
-        pluto_print_dep_directions(prog);
+        IF_DEBUG(pluto_print_dep_directions(prog););
 
         prog->fcg_colour_time += rtclock() - t_start;
         prog->fcg =
@@ -3021,7 +3022,7 @@ int scale_shift_permutations(PlutoProg *prog, int *colour, int c) {
     pluto_constraints_free(coeffcst);
     return 1;
   } else {
-    printf("[pluto] No Hyperplane found\n");
+    IF_DEBUG(printf("[pluto] No Hyperplane found\n"););
     if (options->delayed_cut) {
       coeffcst->nrows = coeffcst->nrows - basecst->nrows;
       cut_smart(prog, prog->ddg);
diff --git a/lib/framework.cpp b/lib/framework.cpp
index f6fbe82..9dc0d9e 100644
--- a/lib/framework.cpp
+++ b/lib/framework.cpp
@@ -369,7 +369,7 @@ PlutoConstraints *get_permutability_constraints(PlutoProg *prog) {
     while (!feof(skipfp)) {
       fscanf(skipfp, "%d", &num);
       skipdeps[num - 1] = 1;
-      printf("\tskipping dep %d\n", num);
+      PLUTO_MESSAGE(printf("\tskipping dep %d\n", num););
     }
   }
 
diff --git a/lib/pluto.c b/lib/pluto.c
index 4ae3cef..95f9c73 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -46,7 +46,7 @@ static double rtclock() {
   int stat;
   stat = gettimeofday(&Tp, NULL);
   if (stat != 0)
-    printf("Error return from gettimeofday: %d", stat);
+    fprintf(stderr, "Error return from gettimeofday: %d", stat);
   return (Tp.tv_sec + Tp.tv_usec * 1.0e-6);
 }
 
@@ -896,9 +896,11 @@ bool precut(PlutoProg *prog, Graph *ddg, int depth) {
     fscanf(cutFp, "%d", &ncomps);
 
     if (ncomps > nstmts) {
-      printf("You have an .fst in your directory that is invalid for this "
-             "source\n");
-      printf("No fusion/distribution forced\n");
+      if (!prog->context->options->silent) {
+        printf("You have an .fst in your directory that is invalid for this "
+               "source\n");
+        printf("No fusion/distribution forced\n");
+      }
       fclose(cutFp);
       return false;
     }
@@ -1408,8 +1410,8 @@ find_cone_complement_hyperplane(Band *band, PlutoMatrix *conc_start_faces,
   pluto_constraints_free(con_start_cst);
 
   if (bestsol == NULL) {
-    printf("[pluto] Cone complement hyperplane not found!\n");
-    printf("[pluto] No tiled concurrent start possible.\n");
+    PLUTO_MESSAGE(printf("[pluto] Cone complement hyperplane not found!\n");
+                  printf("[pluto] No tiled concurrent start possible.\n"););
   } else {
     IF_DEBUG(printf("[pluto] Tiled concurrent start possible.\n"););
     for (unsigned j = 0; j < nstmts; j++) {
@@ -1574,7 +1576,8 @@ int pluto_auto_transform(PlutoProg *prog) {
     /* Distributed based on .fst or .precut file (customized user-supplied
      * fusion structure */
     num_ind_sols_found = pluto_get_max_ind_hyps(prog);
-    printf("[pluto] Forced custom fusion structure from .fst/.precut\n");
+    PLUTO_MESSAGE(
+        printf("[pluto] Forced custom fusion structure from .fst/.precut\n"););
     IF_DEBUG(
         fprintf(stdout, "%d ind solns in .precut file\n", num_ind_sols_found));
   } else {
@@ -1804,8 +1807,9 @@ int pluto_auto_transform(PlutoProg *prog) {
               pluto_print_dep_directions(prog);
             }
             denormalize_domains(prog);
-            printf("[pluto] WARNING: working with original (identity) "
-                   "transformation (if they exist)\n");
+            PLUTO_MESSAGE(
+                printf("[pluto] WARNING: working with original (identity) "
+                       "transformation (if they exist)\n"););
             /* Restore original ones */
             for (i = 0; i < nstmts; i++) {
               pluto_matrix_free(stmts[i]->trans);
@@ -2232,7 +2236,7 @@ bool pluto_diamond_tile(PlutoProg *prog) {
         break;
     }
     if (s == band->loop->nstmts) {
-      printf("row normal\n");
+      IF_DEBUG(printf("row normal\n"););
       pluto_matrix_free(conc_start_faces);
       continue;
     }
diff --git a/lib/plutolib.c b/lib/plutolib.c
index 68c0d4a..ba240a6 100644
--- a/lib/plutolib.c
+++ b/lib/plutolib.c
@@ -80,7 +80,7 @@ static int pluto_schedule_prog(PlutoProg *prog) {
 
     /* If the user hasn't supplied --tile and there is only pipelined
      * parallelism, we will warn the user */
-    if (retval) {
+    if (retval && !options->silent) {
       printf("[pluto] WARNING: pipelined parallelism exists and --tile is not "
              "used.\n");
       printf("[pluto] WARNING: use --tile for better parallelization \n");
diff --git a/lib/post_transform.c b/lib/post_transform.c
index d801e1b..e300ec9 100644
--- a/lib/post_transform.c
+++ b/lib/post_transform.c
@@ -414,7 +414,7 @@ static bool make_parallel_loop_innermost(Band *band, unsigned num_tiled_levels,
   unsigned nloops;
   Ploop **loops = pluto_get_loops_under(band->loop->stmts, band->loop->nstmts,
                                         depth, prog, &nloops);
-  pluto_loops_print(loops, nloops);
+  IF_DEBUG(pluto_loops_print(loops, nloops););
   unsigned nploops = 0;
   Ploop **par_loops = (Ploop **)malloc(nloops * sizeof(Ploop *));
   unsigned innermost_loop_depth = band->loop->depth;
@@ -436,7 +436,7 @@ static bool make_parallel_loop_innermost(Band *band, unsigned num_tiled_levels,
   Ploop *best_loop = get_best_vectorizable_loop(par_loops, nploops, prog);
   if (best_loop && !pluto_loop_is_innermost(best_loop, prog)) {
     IF_DEBUG(printf("[pluto] intra_tile_opt: loop to be made innermost: "););
-    pluto_loop_print(best_loop);
+    IF_DEBUG(pluto_loop_print(best_loop););
 
     bool move_across_scalar_hyperplanes = true;
     pluto_make_innermost_loop(best_loop, innermost_loop_depth + 1,
diff --git a/lib/tile.c b/lib/tile.c
index 9939b8a..c8a549b 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -56,7 +56,7 @@ static int read_tile_sizes(int *tile_sizes, int *second_level_tile_size_ratios,
   }
 
   if (i < num_tile_dims) {
-    printf("WARNING: not enough tile sizes provided\n");
+    PLUTO_MESSAGE(printf("WARNING: not enough tile sizes provided\n"););
     fclose(tsfile);
     return 0;
   }
@@ -67,7 +67,7 @@ static int read_tile_sizes(int *tile_sizes, int *second_level_tile_size_ratios,
   }
 
   if (i < num_tile_dims) {
-    if (options->second_level_tile)
+    if (options->second_level_tile && !options->silent)
       printf("WARNING: not enough second level tile sizes provided; using "
              "default\n");
     for (i = 0; i < num_tile_dims; i++) {
diff --git a/lib/tile_size_selection_model.cpp b/lib/tile_size_selection_model.cpp
index c4e9e1e..32c5c9a 100644
--- a/lib/tile_size_selection_model.cpp
+++ b/lib/tile_size_selection_model.cpp
@@ -67,7 +67,7 @@ static double rtclock() {
   struct timeval Tp;
   int stat = gettimeofday(&Tp, NULL);
   if (stat != 0)
-    printf("Error return from gettimeofday: %d", stat);
+    fprintf(stderr, "Error return from gettimeofday: %d", stat);
   return (Tp.tv_sec + Tp.tv_usec * 1.0e-6);
 }
 
-- 
2.43.0


From 64b16e83bf891ba51abde08240b790bd03f82f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:51 +0000
Subject: [PATCH 19/45] fix: printers write to the stream they are given, not
 to stdout

---
 lib/constraints.c | 12 ++++++------
 lib/program.cpp   | 47 +++++++++++++++++++++++++++--------------------
 2 files changed, 33 insertions(+), 26 deletions(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index 9a6040f..138374c 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -832,11 +832,11 @@ void pluto_constraints_compact_print_single(FILE *fp,
   nrows = cst->nrows;
   ncols = cst->ncols;
 
-  printf("Set #%d\n", set_num + 1);
+  fprintf(fp, "Set #%d\n", set_num + 1);
 
   if (nrows == 0) {
-    printf("Universal polyhedron -- No constraints (%d dims)!\n",
-           cst->ncols - 1);
+    fprintf(fp, "Universal polyhedron -- No constraints (%d dims)!\n",
+            cst->ncols - 1);
     return;
   }
 
@@ -899,8 +899,8 @@ void pluto_constraints_pretty_print(FILE *fp, const PlutoConstraints *cst) {
   assert(cst->next == NULL);
 
   if (nrows == 0) {
-    printf("Universal polyhedron -- no constraints (%d dims)!\n",
-           cst->ncols - 1);
+    fprintf(fp, "Universal polyhedron -- no constraints (%d dims)!\n",
+            cst->ncols - 1);
     return;
   }
 
@@ -958,7 +958,7 @@ void pluto_constraints_cplex_print(FILE *fp, const PlutoConstraints *cst) {
   assert(cst->next == NULL);
 
   if (nrows == 0) {
-    printf("No constraints!\n");
+    fprintf(fp, "No constraints!\n");
   }
 
   for (i = 0; i < nrows; i++) {
diff --git a/lib/program.cpp b/lib/program.cpp
index 668a552..266dae6 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -82,7 +82,7 @@ void pluto_dep_print(FILE *fp, const Dep *dep) {
 void pluto_deps_print(FILE *fp, PlutoProg *prog) {
   int i;
   if (prog->ndeps == 0)
-    printf("** No dependences **\n\n");
+    fprintf(fp, "** No dependences **\n\n");
   for (i = 0; i < prog->ndeps; i++) {
     pluto_dep_print(fp, prog->deps[i]);
   }
@@ -113,21 +113,22 @@ void pluto_access_print(FILE *fp, const PlutoAccess *acc, const Stmt *stmt) {
         vars[stmt->dim + j] = "p?";
       }
     }
-    pluto_affine_function_print(stdout, acc->mat->val[i], stmt->dim + npar,
-                                vars);
+    pluto_affine_function_print(fp, acc->mat->val[i], stmt->dim + npar, vars);
     fprintf(fp, "]");
     free(vars);
   }
   fprintf(fp, "\n");
 }
 
+static void stmt_transformation_fprint(FILE *fp, const Stmt *stmt);
+
 void pluto_stmt_print(FILE *fp, const Stmt *stmt) {
   fprintf(fp, "S%d \"%s\"\n", stmt->id + 1, stmt->text);
 
   fprintf(fp, "ndims: %d; orig_depth: %d\n", stmt->dim, stmt->dim_orig);
   fprintf(fp, "Index set\n");
   pluto_constraints_compact_print(fp, stmt->domain);
-  pluto_stmt_transformation_print(stmt);
+  stmt_transformation_fprint(fp, stmt);
 
   if (stmt->nreads == 0) {
     fprintf(fp, "No Read accesses\n");
@@ -148,8 +149,8 @@ void pluto_stmt_print(FILE *fp, const Stmt *stmt) {
   }
 
   for (unsigned i = 0; i < stmt->dim; i++) {
-    printf("Original loop: %d -> %s\n", i,
-           stmt->is_orig_loop[i] ? "yes" : "no");
+    fprintf(fp, "Original loop: %d -> %s\n", i,
+            stmt->is_orig_loop[i] ? "yes" : "no");
   }
 
   fprintf(fp, "\n");
@@ -323,7 +324,9 @@ void pluto_prog_print(FILE *fp, PlutoProg *prog) {
 
   pluto_stmts_print(fp, prog->stmts, prog->nstmts);
   pluto_deps_print(fp, prog);
-  pluto_transformations_pretty_print(prog);
+  for (unsigned i = 0; i < prog->nstmts; i++) {
+    stmt_transformation_fprint(fp, prog->stmts[i]);
+  }
 }
 
 void pluto_dep_free(Dep *dep) {
@@ -2357,30 +2360,34 @@ void pluto_transformations_print(const PlutoProg *prog) {
   }
 }
 
-void pluto_stmt_transformation_print(const Stmt *stmt) {
-  fprintf(stdout, "T(S%d): ", stmt->id + 1);
-  printf("(");
+static void stmt_transformation_fprint(FILE *fp, const Stmt *stmt) {
+  fprintf(fp, "T(S%d): ", stmt->id + 1);
+  fprintf(fp, "(");
   for (unsigned level = 0; level < stmt->trans->nrows; level++) {
-    pluto_stmt_print_hyperplane(stdout, stmt, level);
+    pluto_stmt_print_hyperplane(fp, stmt, level);
     if ((int)level <= (int)stmt->trans->nrows - 2)
-      printf(", ");
+      fprintf(fp, ", ");
   }
-  printf(")\n");
+  fprintf(fp, ")\n");
 
-  printf("loop types (");
+  fprintf(fp, "loop types (");
   for (unsigned level = 0; level < stmt->trans->nrows; level++) {
     if (level > 0)
-      printf(", ");
+      fprintf(fp, ", ");
     if (stmt->hyp_types[level] == H_SCALAR)
-      printf("scalar");
+      fprintf(fp, "scalar");
     else if (stmt->hyp_types[level] == H_LOOP)
-      printf("loop");
+      fprintf(fp, "loop");
     else if (stmt->hyp_types[level] == H_TILE_SPACE_LOOP)
-      printf("tloop");
+      fprintf(fp, "tloop");
     else
-      printf("unknown");
+      fprintf(fp, "unknown");
   }
-  printf(")\n\n");
+  fprintf(fp, ")\n\n");
+}
+
+void pluto_stmt_transformation_print(const Stmt *stmt) {
+  stmt_transformation_fprint(stdout, stmt);
 }
 
 ///
-- 
2.43.0


From e6e8a73020f89017d6a4796609b2570efcc011c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:52 +0000
Subject: [PATCH 20/45] fix: debugging output does not recompute dependence
 satisfaction

---
 lib/framework-dfp.c | 3 ---
 lib/pluto.c         | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/lib/framework-dfp.c b/lib/framework-dfp.c
index 53bf50c..e99d7e2 100644
--- a/lib/framework-dfp.c
+++ b/lib/framework-dfp.c
@@ -2843,9 +2843,6 @@ void find_permutable_dimensions_scc_based(int *colour, PlutoProg *prog) {
       reset_scc_colouring(ddg);
     }
     IF_DEBUG2(pluto_transformations_pretty_print(prog););
-    IF_DEBUG2(pluto_compute_dep_directions(prog););
-    IF_DEBUG2(pluto_compute_dep_satisfaction(prog););
-    IF_DEBUG2(pluto_print_dep_directions(prog););
   }
 
   IF_DEBUG(printf("[Pluto] Colouring Successful\n"););
diff --git a/lib/pluto.c b/lib/pluto.c
index 95f9c73..f18cbd7 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -1802,9 +1802,6 @@ int pluto_auto_transform(PlutoProg *prog) {
                               "working directory.\n");
               fprintf(stdout, "\tTransformation found so far:\n");
               pluto_transformations_pretty_print(prog);
-              pluto_compute_dep_directions(prog);
-              pluto_compute_dep_satisfaction(prog);
-              pluto_print_dep_directions(prog);
             }
             denormalize_domains(prog);
             PLUTO_MESSAGE(
-- 
2.43.0


From a2d77c0fa3fe9174c0c28f081285ed0b12843aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:25 +0000
Subject: [PATCH 21/45] fix: constructors initialise every field of the object
 they return

---
 lib/ddg.c       |  3 +++
 lib/program.cpp | 17 +++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/lib/ddg.c b/lib/ddg.c
index ad49d2f..88ea13d 100644
--- a/lib/ddg.c
+++ b/lib/ddg.c
@@ -51,6 +51,9 @@ Graph *graph_alloc(int nVertices, PlutoContext *context) {
 
   /* Not computed yet */
   g->num_ccs = -1;
+
+  g->num_coloured_vertices = 0;
+  g->to_be_rebuilt = false;
   return g;
 }
 
diff --git a/lib/program.cpp b/lib/program.cpp
index 266dae6..f265f9f 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -760,7 +760,12 @@ PlutoProg *pluto_prog_alloc(PlutoContext *context) {
   prog->decls = (char *)malloc(16384 * 9);
   prog->data_names = NULL;
   prog->num_data = 0;
+  prog->evicted_hyp_pos = -1;
   prog->is_diamond_tiled = false;
+  prog->num_stmts_to_be_coloured = 0;
+  prog->scaled_dims = NULL;
+  prog->total_coloured_stmts = NULL;
+  prog->coloured_dims = 0;
 
   strcpy(prog->decls, "");
 
@@ -939,6 +944,7 @@ PlutoOptions *pluto_options_alloc() {
   options->scalpriv = 0;
 
   options->silent = 0;
+  options->quiet = 0;
 
   options->out_file = NULL;
 
@@ -1305,6 +1311,10 @@ Dep *pluto_dep_alloc() {
   Dep *dep = (Dep *)malloc(sizeof(Dep));
 
   dep->id = -1;
+  dep->src = -1;
+  dep->dest = -1;
+  dep->type = PLUTO_DEP_UNDEFINED;
+  dep->skipdep = false;
   dep->satvec = NULL;
   dep->dpolytope = NULL;
   dep->bounding_poly = NULL;
@@ -1341,6 +1351,7 @@ Dep *pluto_dep_dup(Dep *d) {
   dep->satvec = NULL; // TODO
   dep->type = d->type;
   dep->satisfied = d->satisfied;
+  dep->skipdep = d->skipdep;
   dep->satisfaction_level = d->satisfaction_level;
   dep->dirvec = NULL; // TODO
   dep->cst = d->cst ? pluto_constraints_dup(d->cst) : NULL;
@@ -1396,11 +1407,17 @@ Stmt *pluto_stmt_alloc(unsigned dim, const PlutoConstraints *domain,
 
   stmt->type = STMT_UNKNOWN;
   stmt->ploop_id = -1;
+  stmt->scc_id = -1;
+  stmt->cc_id = -1;
+  stmt->parent_compute_stmt = NULL;
+  stmt->intra_stmt_dep_cst = NULL;
+  stmt->pstmt = NULL;
 
   if (dim >= 1) {
     stmt->is_orig_loop = (bool *)malloc(dim * sizeof(bool));
     stmt->iterators = (char **)malloc(sizeof(char *) * dim);
     for (unsigned i = 0; i < stmt->dim; i++) {
+      stmt->is_orig_loop[i] = true;
       stmt->iterators[i] = NULL;
     }
   } else {
-- 
2.43.0


From 497d55629c2355d5f7d5f949bcc55fd4082f74b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:32 +0000
Subject: [PATCH 22/45] fix: destructors release every object their argument
 owns

---
 lib/constraints.c |  2 ++
 lib/pluto.c       |  4 ++++
 lib/program.cpp   | 27 +++++++++++++++------------
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index 138374c..9f18023 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -2156,6 +2156,7 @@ void pluto_deps_list_free(PlutoDepList *deplist) {
   if (deplist == NULL)
     return;
   pluto_deps_list_free(deplist->next);
+  free(deplist);
 }
 
 PlutoDepList *pluto_deps_list_dup(PlutoDepList *src) {
@@ -2199,6 +2200,7 @@ void pluto_constraints_list_free(PlutoConstraintsList *cstlist) {
   pluto_constraints_list_free(cstlist->next);
   pluto_constraints_free(cstlist->constraints);
   pluto_deps_list_free(cstlist->deps);
+  free(cstlist);
 }
 
 /*adds a new element to constraints list
diff --git a/lib/pluto.c b/lib/pluto.c
index f18cbd7..837010a 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -1553,6 +1553,7 @@ int pluto_auto_transform(PlutoProg *prog) {
         pluto_matrix_alloc(2 * stmt->dim + 1, stmt->dim + npar + 1, context);
     stmt->trans->nrows = 0;
     stmt->hyp_types = NULL;
+    pluto_constraints_free(stmt->intra_stmt_dep_cst);
     stmt->intra_stmt_dep_cst = NULL;
   }
 
@@ -1696,7 +1697,9 @@ int pluto_auto_transform(PlutoProg *prog) {
     }
 
     free(prog->total_coloured_stmts);
+    prog->total_coloured_stmts = NULL;
     free(prog->scaled_dims);
+    prog->scaled_dims = NULL;
 #endif
   } else {
 
@@ -1837,6 +1840,7 @@ int pluto_auto_transform(PlutoProg *prog) {
 #if defined GLPK || defined GUROBI
     ddg = prog->ddg;
     graph_free(prog->fcg);
+    prog->fcg = NULL;
 #endif
   }
   if (options->diamondtile && !conc_start_found) {
diff --git a/lib/program.cpp b/lib/program.cpp
index f265f9f..3a022c6 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -333,12 +333,9 @@ void pluto_dep_free(Dep *dep) {
   pluto_constraints_free(dep->dpolytope);
   pluto_constraints_free(dep->bounding_poly);
   pluto_constraints_free(dep->depsat_poly);
-  if (dep->dirvec) {
-    free(dep->dirvec);
-  }
-  if (dep->dirvec) {
-    free(dep->satvec);
-  }
+  pluto_constraints_free(dep->src_unique_dpolytope);
+  free(dep->dirvec);
+  free(dep->satvec);
   pluto_constraints_free(dep->cst);
   pluto_constraints_free(dep->bounding_cst);
   free(dep);
@@ -810,6 +807,15 @@ void pluto_prog_free(PlutoProg *prog) {
     graph_free(prog->ddg);
   }
 
+  /* Free the fusion conflict graph and what was computed for it */
+  if (prog->fcg != NULL) {
+    graph_free(prog->fcg);
+  }
+  free(prog->scaled_dims);
+  free(prog->total_coloured_stmts);
+  pluto_matrix_free(prog->par_preventing_adj_mat);
+  pluto_matrix_free(prog->dep_dist_mat);
+
   if (prog->hProps != NULL) {
     free(prog->hProps);
   }
@@ -817,17 +823,13 @@ void pluto_prog_free(PlutoProg *prog) {
   for (int i = 0; i < prog->npar; i++) {
     free(prog->params[i]);
   }
-  if (prog->npar >= 1) {
-    free(prog->params);
-  }
+  free(prog->params);
 
   /* Statements */
   for (unsigned i = 0; i < prog->nstmts; i++) {
     pluto_stmt_free(prog->stmts[i]);
   }
-  if (prog->nstmts >= 1) {
-    free(prog->stmts);
-  }
+  free(prog->stmts);
 
   pluto_constraints_free(prog->param_context);
   pluto_constraints_free(prog->codegen_context);
@@ -1484,6 +1486,7 @@ void pluto_stmt_free(Stmt *stmt) {
   }
 
   pluto_matrix_free(stmt->evicted_hyp);
+  pluto_constraints_free(stmt->intra_stmt_dep_cst);
 
   free(stmt);
 }
-- 
2.43.0


From fb5872d5d09fdcc1699125ff207cc897156cee79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:33 +0000
Subject: [PATCH 23/45] fix: copies of statements and dependences carry every
 field

---
 lib/program.cpp | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/lib/program.cpp b/lib/program.cpp
index 3a022c6..472faed 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -1341,8 +1341,9 @@ Dep *pluto_dep_dup(Dep *d) {
   dep->dest = d->dest;
   dep->src_acc = d->src_acc;
   dep->dest_acc = d->dest_acc;
-  dep->dpolytope = pluto_constraints_dup(d->dpolytope);
-  dep->bounding_poly = pluto_constraints_dup(d->bounding_poly);
+  dep->dpolytope = d->dpolytope ? pluto_constraints_dup(d->dpolytope) : NULL;
+  dep->bounding_poly =
+      d->bounding_poly ? pluto_constraints_dup(d->bounding_poly) : NULL;
 
   dep->src_unique_dpolytope =
       d->src_unique_dpolytope ? pluto_constraints_dup(d->src_unique_dpolytope)
@@ -2241,9 +2242,30 @@ Stmt *pluto_stmt_dup(const Stmt *stmt) {
 
   nstmt->dim_orig = stmt->dim_orig;
   nstmt->type = stmt->type;
+  nstmt->tile = stmt->tile;
+  nstmt->num_tiled_loops = stmt->num_tiled_loops;
+  nstmt->scc_id = stmt->scc_id;
+  nstmt->cc_id = stmt->cc_id;
+  nstmt->first_tile_dim = stmt->first_tile_dim;
+  nstmt->last_tile_dim = stmt->last_tile_dim;
+  nstmt->ploop_id = stmt->ploop_id;
+  nstmt->parent_compute_stmt = stmt->parent_compute_stmt;
+  nstmt->pstmt = stmt->pstmt;
+
+  for (unsigned i = 0; i < stmt->trans->nrows; i++) {
+    nstmt->hyp_types[i] = stmt->hyp_types[i];
+  }
+
+  if (stmt->evicted_hyp)
+    nstmt->evicted_hyp = pluto_matrix_dup(stmt->evicted_hyp);
+  nstmt->evicted_hyp_pos = stmt->evicted_hyp_pos;
+
+  if (stmt->intra_stmt_dep_cst)
+    nstmt->intra_stmt_dep_cst = pluto_constraints_dup(stmt->intra_stmt_dep_cst);
 
   for (unsigned i = 0; i < stmt->dim; i++) {
-    nstmt->iterators[i] = strdup(stmt->iterators[i]);
+    if (stmt->iterators[i])
+      nstmt->iterators[i] = strdup(stmt->iterators[i]);
     nstmt->is_orig_loop[i] = stmt->is_orig_loop[i];
   }
   if (stmt->text)
-- 
2.43.0


From 09579c3068edd22fdcf928272d148d95525e9fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:30 +0000
Subject: [PATCH 24/45] fix: removing a dimension next to an unnamed one left
 its released name in place

---
 lib/constraints.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index 9f18023..ead7868 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -1545,7 +1545,7 @@ void pluto_constraints_remove_dim(PlutoConstraints *cst, int pos) {
   }
 
   for (int j = pos; j < (int)cst->ncols - 1; j++) {
-    if (cst->names && j < (int)cst->ncols - 2 && cst->names[j + 1]) {
+    if (cst->names && j < (int)cst->ncols - 2) {
       cst->names[j] = cst->names[j + 1];
     }
   }
-- 
2.43.0


From b107e05859851c0e30d874196a97d82581ad387d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:22 +0000
Subject: [PATCH 25/45] fix: solutions kept per SCC leaked when SCCs are
 recomputed

---
 lib/ddg.c           | 4 +++-
 lib/framework-dfp.c | 5 +++--
 lib/pluto.c         | 1 +
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/ddg.c b/lib/ddg.c
index 88ea13d..41a2744 100644
--- a/lib/ddg.c
+++ b/lib/ddg.c
@@ -44,7 +44,7 @@ Graph *graph_alloc(int nVertices, PlutoContext *context) {
       g->adj->val[i][j] = 0;
   }
 
-  g->sccs = (Scc *)malloc(nVertices * sizeof(Scc));
+  g->sccs = (Scc *)calloc(nVertices, sizeof(Scc));
 
   /* Not computed yet */
   g->num_sccs = -1;
@@ -263,6 +263,8 @@ void free_scc_vertices(Graph *ddg) {
 void graph_free(Graph *g) {
   pluto_matrix_free(g->adj);
   free(g->vertices);
+  for (int i = 0; i < g->num_sccs; i++)
+    free(g->sccs[i].sol);
   free(g->sccs);
   free(g);
 }
diff --git a/lib/framework-dfp.c b/lib/framework-dfp.c
index e99d7e2..1c6be01 100644
--- a/lib/framework-dfp.c
+++ b/lib/framework-dfp.c
@@ -154,8 +154,8 @@ void mark_parallel_sccs(int *colour, PlutoProg *prog) {
         ddg_update(prog->ddg, prog);
         ddg_compute_scc(prog);
         assert(num_sccs == prog->ddg->num_sccs);
-        free(permutecst);
-        free(indcst);
+        pluto_constraints_free(permutecst);
+        pluto_constraints_free(indcst);
         permutecst = get_scc_permutability_constraints(i, prog);
         indcst = dfp_get_scc_ortho_constraints(colour, i, prog);
         pluto_constraints_add(indcst, boundcst);
@@ -179,6 +179,7 @@ void mark_parallel_sccs(int *colour, PlutoProg *prog) {
        * to be found for the SCC */
       prog->ddg->sccs[i].is_parallel = 1;
     }
+    free(prog->ddg->sccs[i].sol);
     prog->ddg->sccs[i].sol = sol;
     if (permutecst != NULL) {
       pluto_constraints_free(permutecst);
diff --git a/lib/pluto.c b/lib/pluto.c
index 837010a..1ad1e65 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -2056,6 +2056,7 @@ void ddg_compute_scc(PlutoProg *prog) {
     g->sccs[i].max_dim = get_max_orig_dim_in_scc(prog, i);
     g->sccs[i].size = get_scc_size(prog, i);
     g->sccs[i].id = gT->sccs[i].id;
+    free(g->sccs[i].sol);
     g->sccs[i].sol = NULL;
     g->sccs[i].is_parallel = 0;
   }
-- 
2.43.0


From dfc216ccabe99e80fe802383c1c24a8b3f592a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:22 +0000
Subject: [PATCH 26/45] fix: matrices of an earlier fusion conflict graph
 leaked when it is rebuilt

---
 lib/framework-dfp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/framework-dfp.c b/lib/framework-dfp.c
index 1c6be01..a094b89 100644
--- a/lib/framework-dfp.c
+++ b/lib/framework-dfp.c
@@ -1092,6 +1092,7 @@ Graph *build_fusion_conflict_graph(PlutoProg *prog, int *colour, int num_nodes,
   Graph *fcg = graph_alloc(num_nodes, context);
 
   if (options->fuse == kTypedFuse) {
+    pluto_matrix_free(prog->par_preventing_adj_mat);
     prog->par_preventing_adj_mat =
         pluto_matrix_alloc(num_nodes, num_nodes, context);
     for (int i = 0; i < num_nodes; i++) {
@@ -1099,6 +1100,7 @@ Graph *build_fusion_conflict_graph(PlutoProg *prog, int *colour, int num_nodes,
     }
   }
   if (options->lpcolour && options->scc_cluster) {
+    pluto_matrix_free(prog->dep_dist_mat);
     prog->dep_dist_mat = pluto_matrix_alloc(num_nodes, num_nodes, context);
     for (int i = 0; i < num_nodes; i++) {
       bzero(prog->dep_dist_mat->val[i], num_nodes * sizeof(int64_t));
-- 
2.43.0


From 5969ff5b6f3c0ebb4869e446be2e387c9e45c2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:06 +0000
Subject: [PATCH 27/45] fix: the scaling problem was read after it had been
 deleted as infeasible

---
 lib/constraints.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/constraints.c b/lib/constraints.c
index ead7868..2489d07 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -1375,6 +1375,11 @@ int64_t *pluto_prog_constraints_lexmin_glpk(const PlutoConstraints *cst,
                              cst->context);
 
     scale_sols = pluto_mip_scale_solutions_glpk(lp, context);
+    if (scale_sols == NULL) {
+      /* No scaling exists; lp has already been deleted. */
+      free(fpsol);
+      return NULL;
+    }
     int64_t *sol = (int64_t *)malloc(sizeof(int64_t) * (num_sols));
 
     /* Ideally u and w have to be set to be computed on a per CC basis. Since it
-- 
2.43.0


From dd2a898442daba25fe548f3469462700188bab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:04 +0000
Subject: [PATCH 28/45] fix: compact printing stopped at a universal disjunct,
 leaving out the rest of the union

---
 lib/constraints.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/constraints.c b/lib/constraints.c
index 2489d07..f3cfb2d 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -837,6 +837,9 @@ void pluto_constraints_compact_print_single(FILE *fp,
   if (nrows == 0) {
     fprintf(fp, "Universal polyhedron -- No constraints (%d dims)!\n",
             cst->ncols - 1);
+    if (cst->next != NULL) {
+      pluto_constraints_compact_print_single(fp, cst->next, set_num + 1);
+    }
     return;
   }
 
-- 
2.43.0


From bc3e40cc49a0cf3cb3de3dad4293fe2a3c9070e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:05 +0000
Subject: [PATCH 29/45] fix: simplification stopped at a disjunct without
 constraints, leaving the rest of the union as it was

---
 lib/constraints.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/constraints.c b/lib/constraints.c
index f3cfb2d..dc94e62 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -379,6 +379,8 @@ void pluto_constraints_simplify(PlutoConstraints *const cst) {
   int64_t _gcd;
 
   if (cst->nrows == 0) {
+    if (cst->next != NULL)
+      pluto_constraints_simplify(cst->next);
     return;
   }
 
-- 
2.43.0


From 4bec96e51a46afc588f79e548ce1b0778eb8428f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:26 +0000
Subject: [PATCH 30/45] fix: gaussian elimination removed the dimension twice
 from the other disjuncts of a union

---
 lib/constraints.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index dc94e62..ee23369 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -2615,8 +2615,12 @@ void pluto_constraints_gaussian_eliminate(PlutoConstraints *cst, int pos) {
   }
   pluto_constraints_remove_row(cst, r);
 
+  /* Only from this one: the rest of the list is taken care of below */
+  PlutoConstraints *next = cst->next;
+  cst->next = NULL;
   pluto_constraints_remove_dim(cst, pos);
+  cst->next = next;
 
-  if (cst->next != NULL)
-    pluto_constraints_gaussian_eliminate(cst->next, pos);
+  if (next != NULL)
+    pluto_constraints_gaussian_eliminate(next, pos);
 }
-- 
2.43.0


From 0fdb200ddb7a795482164647f80f7a2bbdede53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:26 +0000
Subject: [PATCH 31/45] fix: elimination by an equality of the first disjunct
 assumed one in every disjunct of a union

---
 lib/constraints.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/constraints.c b/lib/constraints.c
index ee23369..6b99682 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -2492,8 +2492,14 @@ void fourier_motzkin_eliminate_smart(PlutoConstraints *cst, unsigned pos) {
 
   for (i = 0; i < cst->nrows; i++) {
     if (cst->is_eq[i] && cst->val[i][pos] != 0) {
+      /* The rest of the list may not have such an equality */
+      PlutoConstraints *next = cst->next;
+      cst->next = NULL;
       pluto_constraints_gaussian_eliminate(cst, pos);
       pluto_constraints_simplify(cst);
+      cst->next = next;
+      if (next != NULL)
+        fourier_motzkin_eliminate_smart(next, pos);
       return;
     }
   }
-- 
2.43.0


From 0fa932ff8e592821bd5cb6f66e23c5da63c38eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:52 +0000
Subject: [PATCH 32/45] fix: tile sizes depended on the addresses of the
 accesses (sums over a set ordered by pointer)

---
 lib/tile_size_selection_model.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lib/tile_size_selection_model.cpp b/lib/tile_size_selection_model.cpp
index 32c5c9a..468f727 100644
--- a/lib/tile_size_selection_model.cpp
+++ b/lib/tile_size_selection_model.cpp
@@ -7,7 +7,6 @@
 #include <algorithm>
 #include <cassert>
 #include <math.h>
-#include <set>
 #include <sys/time.h>
 #include <vector>
 
@@ -196,17 +195,17 @@ std::vector<unsigned> TileSizeSelectionModel::infer_tile_sizes(unsigned root) {
 }
 
 /// Returns distinct accesses in the band as a set.
-std::set<PlutoAccess *> get_distinct_accesses_in_band(Band *band,
-                                                      PlutoProg *prog) {
+std::vector<PlutoAccess *> get_distinct_accesses_in_band(Band *band,
+                                                         PlutoProg *prog) {
   unsigned nstmts = band->loop->nstmts;
-  std::set<PlutoAccess *> distinctAccesses;
+  std::vector<PlutoAccess *> distinctAccesses;
   Stmt **stmts = band->loop->stmts;
   unsigned num_unique_accesses;
   PlutoAccess **accesses =
       get_unique_accesses_in_stmts(stmts, nstmts, prog, &num_unique_accesses);
 
   for (unsigned i = 0; i < num_unique_accesses; i++)
-    distinctAccesses.insert(accesses[i]);
+    distinctAccesses.push_back(accesses[i]);
   free(accesses);
 
   return distinctAccesses;
@@ -354,7 +353,7 @@ void TileSizeSelectionModel::construct_expression_for_tile_volume(
       num_loop_dimensions++;
   }
 
-  std::set<PlutoAccess *> distinctAccesses =
+  std::vector<PlutoAccess *> distinctAccesses =
       get_distinct_accesses_in_band(band, prog);
   unsigned max_degree = 0;
 
-- 
2.43.0


From 0733b46dddc840147e2534bd007d06a939fd8455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:24 +0000
Subject: [PATCH 33/45] fix: a .precut file without tiling levels set the
 statements' tile flag from an uninitialised variable

---
 lib/pluto.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pluto.c b/lib/pluto.c
index 1ad1e65..a329a9c 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -943,7 +943,7 @@ bool precut(PlutoProg *prog, Graph *ddg, int depth) {
     return true;
   } else {
     FILE *precut = fopen(".precut", "r");
-    int ignore, rows, tile, tiling_depth;
+    int ignore, rows = 0, tile = 0, tiling_depth;
     unsigned cols;
 
     if (precut) {
-- 
2.43.0


From 8df1f65084ec93b45de4bc846544a4ea522fc2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:16 +0000
Subject: [PATCH 34/45] fix: compute_deps_isl dereferenced absent transitive
 dependences when coalescing with lastwriter

---
 lib/program.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/program.cpp b/lib/program.cpp
index 472faed..673071c 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -689,8 +689,10 @@ void compute_deps_isl(__isl_keep isl_union_map *reads,
     *dep_waw = isl_union_map_coalesce(*dep_waw);
 
     if (options->lastwriter) {
-      *trans_dep_war = isl_union_map_coalesce(*trans_dep_war);
-      *trans_dep_waw = isl_union_map_coalesce(*trans_dep_waw);
+      if (trans_dep_war)
+        *trans_dep_war = isl_union_map_coalesce(*trans_dep_war);
+      if (trans_dep_waw)
+        *trans_dep_waw = isl_union_map_coalesce(*trans_dep_waw);
     }
   }
 }
-- 
2.43.0


From df8cdf6cf83315999596134913f03e8b90ad4b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:17 +0000
Subject: [PATCH 35/45] fix: print_polylib_visual_sets_internal looked into an
 absent set before testing for it

---
 lib/constraints.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index 6b99682..c34d4c3 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -2026,10 +2026,10 @@ void print_polylib_visual_sets_internal(char *str, int k,
   int i, j, first = 0;
   char name[100];
 
-  if (!cst->context->options->moredebug)
+  if (cst == NULL)
     return;
 
-  if (cst == NULL)
+  if (!cst->context->options->moredebug)
     return;
 
   sprintf(name, "%si%d", str, k);
-- 
2.43.0


From 89c8cf41ee6525986bea00f408eaa289c45b02bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:51 +0000
Subject: [PATCH 36/45] fix: pluto_affine_function_sprint cut names and
 constants and could write past its buffer

---
 lib/math_support.c | 61 ++++++----------------------------------------
 1 file changed, 8 insertions(+), 53 deletions(-)

diff --git a/lib/math_support.c b/lib/math_support.c
index a27e528..0ffe4c6 100644
--- a/lib/math_support.c
+++ b/lib/math_support.c
@@ -539,7 +539,8 @@ void pluto_affine_function_print(FILE *fp, int64_t *func, int ndims,
     if (vars && vars[j]) {
       var[j] = strdup(vars[j]);
     } else {
-      var[j] = (char *)malloc(5);
+      /* 'x', an int, and the null character */
+      var[j] = (char *)malloc(13);
       sprintf(var[j], "x%d", j + 1);
     }
   }
@@ -583,58 +584,12 @@ void pluto_affine_function_print(FILE *fp, int64_t *func, int ndims,
 /* Returned string should be freed with malloc */
 char *pluto_affine_function_sprint(int64_t *func, int ndims,
                                    const char **vars) {
-  char *var[ndims], *out;
-  int j, n;
-
-  /* max 5 chars for var, 3 for coefficient + 1 if ndims is 0 + 1 null char */
-  n = 9 * ndims + 1 + 1;
-  out = (char *)malloc(n);
-  *out = '\0';
-
-  for (j = 0; j < ndims; j++) {
-    if (vars && vars[j]) {
-      var[j] = strdup(vars[j]);
-    } else {
-      var[j] = (char *)malloc(5);
-      sprintf(var[j], "x%d", j + 1);
-    }
-  }
-
-  int first = 0;
-  for (j = 0; j < ndims; j++) {
-    if (func[j] == 1) {
-      if (first)
-        strcat(out, "+");
-      snprintf(out + strlen(out), 5, "%s", var[j]);
-    } else if (func[j] == -1) {
-      snprintf(out + strlen(out), 6, "-%s", var[j]);
-    } else if (func[j] != 0) {
-      if (func[j] >= 1) {
-        snprintf(out + strlen(out), n - strlen(out), "%s%ld%s",
-                 first ? "+" : "", func[j], var[j]);
-      } else {
-        snprintf(out + strlen(out), n - strlen(out), "%ld%s", func[j], var[j]);
-      }
-    }
-    if (func[j] != 0)
-      first = 1;
-  }
-  /* Constant part */
-  if (func[ndims] >= 1) {
-    if (first)
-      strcat(out, "+");
-    snprintf(out + strlen(out), 3, "%ld", func[ndims]);
-  } else if (func[ndims] <= -1) {
-    snprintf(out + strlen(out), 3, "%ld", func[ndims]);
-  } else {
-    /* 0 */
-    if (!first)
-      strcat(out, "0");
-  }
-
-  for (j = 0; j < ndims; j++) {
-    free(var[j]);
-  }
+  char *out = NULL;
+  size_t size;
+  FILE *fp = open_memstream(&out, &size);
+  assert(fp != NULL && "out of memory");
+  pluto_affine_function_print(fp, func, ndims, vars);
+  fclose(fp);
 
   return out;
 }
-- 
2.43.0


From 6aca4e0ed9873a5e6459c4d0ed9b016b9ddc3a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:11 +0000
Subject: [PATCH 37/45] fix: bound expressions were written into buffers of a
 fixed size

---
 lib/program.cpp | 85 ++++++++++++++++++++++++-------------------------
 1 file changed, 41 insertions(+), 44 deletions(-)

diff --git a/lib/program.cpp b/lib/program.cpp
index 673071c..00c6e39 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -1632,8 +1632,10 @@ char *get_expr(PlutoConstraints *cst, int pos, const char **params,
   int c;
   int64_t sum;
 
-  char *expr = (char *)malloc(512);
-  strcpy(expr, "");
+  char *expr = NULL;
+  size_t size;
+  FILE *fp = open_memstream(&expr, &size);
+  assert(fp != NULL && "out of memory");
 
   // printf("Get expr\n");
   // pluto_constraints_print(stdout, cst);
@@ -1651,10 +1653,10 @@ char *get_expr(PlutoConstraints *cst, int pos, const char **params,
   if (sum == 0) {
     /* constant */
     if (bound_type == MINF) {
-      sprintf(expr + strlen(expr), "%ld",
+      fprintf(fp, "%ld",
               floor_div(cst->val[pos][cst->ncols - 1], -cst->val[pos][0]));
     } else {
-      sprintf(expr + strlen(expr), "%ld",
+      fprintf(fp, "%ld",
               ceil_div(-cst->val[pos][cst->ncols - 1], cst->val[pos][0]));
     }
   } else {
@@ -1662,20 +1664,20 @@ char *get_expr(PlutoConstraints *cst, int pos, const char **params,
      * floor/ceil */
     if (llabs(cst->val[pos][0]) != 1) {
       if (bound_type == MINF) {
-        sprintf(expr + strlen(expr), "floorf((");
+        fprintf(fp, "floorf((");
       } else {
-        sprintf(expr + strlen(expr), "ceilf((");
+        fprintf(fp, "ceilf((");
       }
     }
 
     for (c = 1; c < (int)cst->ncols - 1; c++) {
       if (cst->val[pos][c] != 0) {
         if (bound_type == MINF) {
-          sprintf(expr + strlen(expr),
+          fprintf(fp,
                   (cst->val[pos][c] >= 1) ? "+%ld*%s" : "%ld*%s",
                   cst->val[pos][c], params[c - 1]);
         } else {
-          sprintf(expr + strlen(expr),
+          fprintf(fp,
                   (cst->val[pos][c] <= -1) ? "+%ld*%s" : "%ld*%s",
                   -cst->val[pos][c], params[c - 1]);
         }
@@ -1684,10 +1686,10 @@ char *get_expr(PlutoConstraints *cst, int pos, const char **params,
 
     if (cst->val[pos][c] != 0) {
       if (bound_type == MINF) {
-        sprintf(expr + strlen(expr), (cst->val[pos][c] >= 1) ? "+%ld" : "%ld",
+        fprintf(fp, (cst->val[pos][c] >= 1) ? "+%ld" : "%ld",
                 cst->val[pos][c]);
       } else {
-        sprintf(expr + strlen(expr), (cst->val[pos][c] <= -1) ? "+%ld" : "%ld",
+        fprintf(fp, (cst->val[pos][c] <= -1) ? "+%ld" : "%ld",
                 -cst->val[pos][c]);
       }
     }
@@ -1695,11 +1697,13 @@ char *get_expr(PlutoConstraints *cst, int pos, const char **params,
     /* If it's being divided by 1, make it better by not putting
      * floor/ceil. */
     if (llabs(cst->val[pos][0]) != 1) {
-      sprintf(expr + strlen(expr), ")/(float)%ld)",
+      fprintf(fp, ")/(float)%ld)",
               (bound_type == MINF) ? -cst->val[pos][0] : cst->val[pos][0]);
     }
   }
 
+  fclose(fp);
+
   return expr;
 }
 
@@ -1709,32 +1713,22 @@ char *get_expr(PlutoConstraints *cst, int pos, const char **params,
  */
 char *get_func_of_expr(PlutoConstraints *cst, int offset, int bound_type,
                        const char **params) {
-  char *expr, *expr1;
-
-  char *fexpr = (char *)malloc(512);
-
-  strcpy(fexpr, "");
-
-  char func[5];
-  if (bound_type == MINF)
-    strcpy(func, "min(");
-  else
-    strcpy(func, "max(");
-
-  if (cst->nrows - offset == 1) {
-    expr = get_expr(cst, offset, params, bound_type);
-    strcat(fexpr, expr);
-  } else {
-    /* cst->nrows >= 2 */
-    expr = get_expr(cst, offset, params, bound_type);
-    strcat(fexpr, func);
-    strcat(fexpr, expr);
-    expr1 = get_func_of_expr(cst, offset + 1, bound_type, params);
-    strcat(fexpr, ",");
-    strcat(fexpr, expr1);
-    strcat(fexpr, ")");
-    free(expr1);
-  }
+  char *expr = get_expr(cst, offset, params, bound_type);
+
+  if (cst->nrows - offset == 1)
+    return expr;
+
+  /* cst->nrows >= 2 */
+  const char *func = (bound_type == MINF) ? "min(" : "max(";
+  char *expr1 = get_func_of_expr(cst, offset + 1, bound_type, params);
+  char *fexpr = (char *)malloc(strlen(func) + strlen(expr) + 1 +
+                               strlen(expr1) + 1 + 1);
+  strcpy(fexpr, func);
+  strcat(fexpr, expr);
+  strcat(fexpr, ",");
+  strcat(fexpr, expr1);
+  strcat(fexpr, ")");
+  free(expr1);
   free(expr);
 
   return fexpr;
@@ -1758,24 +1752,27 @@ char *get_func_of_expr(PlutoConstraints *cst, int offset, int bound_type,
 char *get_parametric_bounding_box(const PlutoConstraints *cst, int start,
                                   int num, int npar, const char **params) {
   int k;
-  char *buf_size;
-
-  buf_size = (char *)malloc(2048 * 8);
-  strcpy(buf_size, "(");
+  char *buf_size = NULL;
+  size_t size;
+  FILE *fp = open_memstream(&buf_size, &size);
+  assert(fp != NULL && "out of memory");
+  fprintf(fp, "(");
 
   const PlutoConstraints *cst_tmp = cst;
   while (cst_tmp != NULL) {
-    sprintf(buf_size + strlen(buf_size), "+1");
+    fprintf(fp, "+1");
     for (k = 0; k < num; k++) {
       char *extent;
       get_parametric_extent_const(cst_tmp, start + k, npar, params, &extent,
                                   NULL);
-      sprintf(buf_size + strlen(buf_size), "*(%s)", extent);
+      fprintf(fp, "*(%s)", extent);
       free(extent);
     }
     cst_tmp = cst_tmp->next;
   }
-  sprintf(buf_size + strlen(buf_size), ")");
+  fprintf(fp, ")");
+
+  fclose(fp);
 
   return buf_size;
 }
-- 
2.43.0


From 7c3ad00752c9b20447d8763fc5560899f23f45bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:12 +0000
Subject: [PATCH 38/45] fix: the list of parallel loops could be written past
 its buffer

---
 lib/plutolib.c | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/lib/plutolib.c b/lib/plutolib.c
index ba240a6..6832aa1 100644
--- a/lib/plutolib.c
+++ b/lib/plutolib.c
@@ -564,24 +564,17 @@ void pluto_schedule_str(const char *domains_str, const char *dependences_str,
   *remapping_ptr = remapping;
 
   if (context->options->parallel) {
-    // NOTE: assuming max 4 digits
-    // number of parallel loops
-    char *str = (char *)(malloc(sizeof(char) * 5));
-    sprintf(str, "%d", nploop);
-
-    // NOTE: assuming max 4 digits per integer, and 1 char for comma
-    // 1 place for 'nploop' int itself, and nploop places for the rest
-    p_loops[0] = (char *)malloc(sizeof(char) * 6 * (nploop + 1));
-    strcpy(p_loops[0], str);
-
-    for (i = 1; i < nploop + 1; i++) {
-      // the result is a csv list
-      strcat(p_loops[0], ",");
+    // the result is a csv list: the number of parallel loops and their dims
+    size_t size;
+    p_loops[0] = NULL;
+    FILE *fp = open_memstream(&p_loops[0], &size);
+    assert(fp != NULL && "out of memory");
+    fprintf(fp, "%d", nploop);
+    for (i = 0; i < nploop; i++) {
       // add the i'th parallel loop dim
-      sprintf(str, "%d", ploop[i - 1]->depth + 1);
-      strcat(p_loops[0], str);
+      fprintf(fp, ",%d", ploop[i]->depth + 1);
     }
-    free(str);
+    fclose(fp);
   }
   pluto_loops_free(ploop, nploop);
 
-- 
2.43.0


From 401d35b3f394b45766cf7aaff06343900e470929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:12 +0000
Subject: [PATCH 39/45] fix: the name of a tile iterator could be written past
 its buffer

---
 lib/tile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tile.c b/lib/tile.c
index c8a549b..e74c14e 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -125,7 +125,7 @@ void pluto_tile_band(PlutoProg *prog, Band *band, int *tile_sizes) {
        * NOTE: tile shape info comes in here */
 
       /* 1.1 Add additional dimensions */
-      char iter[6];
+      char iter[14];
       sprintf(iter, "zT%d", stmt->dim);
 
       PlutoHypType hyp_type =
-- 
2.43.0


From 4e50db2a1ef366461142eff83cf19da9f5f9c18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:34 +0000
Subject: [PATCH 40/45] fix: names read from a file could be written past their
 buffers

---
 lib/constraints.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index c34d4c3..fa9d12c 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -810,12 +810,12 @@ PlutoConstraints *pluto_constraints_read(FILE *fp, PlutoContext *context) {
     }
   }
 
-  if (fscanf(fp, "%d", &num) != EOF) {
-    if (num >= 1)
-      cst->names = (char **)malloc(num * sizeof(char *));
-    for (int i = 0; i < num; i++) {
-      cst->names[i] = (char *)malloc(6);
-      fscanf(fp, "%s", cst->names[i]);
+  if (fscanf(fp, "%d", &num) == 1 && num >= 1) {
+    cst->names = (char **)malloc((ncols - 1) * sizeof(char *));
+    for (int i = 0; i < ncols - 1; i++) {
+      cst->names[i] = NULL;
+      if (i < num)
+        fscanf(fp, "%ms", &cst->names[i]);
     }
   }
 
-- 
2.43.0


From 5c23e2019d39705c8c0db1202af3dada53ba0327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:34 +0000
Subject: [PATCH 41/45] fix: variable and set names could be written past their
 buffers when printing

---
 lib/constraints.c | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index fa9d12c..968f64b 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -968,7 +968,7 @@ void pluto_constraints_cplex_print(FILE *fp, const PlutoConstraints *cst) {
 
   for (i = 0; i < nrows; i++) {
     int first = 1;
-    for (unsigned char j = 0; j < ncols; j++) {
+    for (int j = 0; j < ncols; j++) {
       if (j == ncols - 1) {
         /* constant */
         /* Not supported in CPLEX format */
@@ -976,11 +976,12 @@ void pluto_constraints_cplex_print(FILE *fp, const PlutoConstraints *cst) {
         if (!first)
           fprintf(fp, "%s %ld\n", cst->is_eq[i] ? "=" : ">=", -cst->val[i][j]);
       } else {
-        char var[6];
+        char var[14];
+        var[5] = '\0';
         if (cst->names)
           strncpy(var, cst->names[j], 5);
         else
-          snprintf(var, 6, "c_%d", j);
+          sprintf(var, "c_%d", j);
 
         if (cst->val[i][j] == 1) {
           fprintf(fp, "+%s ", var);
@@ -2024,7 +2025,6 @@ int pluto_constraints_get_const_ub(const PlutoConstraints *cnst, int pos,
 void print_polylib_visual_sets_internal(char *str, int k,
                                         PlutoConstraints *cst) {
   int i, j, first = 0;
-  char name[100];
 
   if (cst == NULL)
     return;
@@ -2032,9 +2032,7 @@ void print_polylib_visual_sets_internal(char *str, int k,
   if (!cst->context->options->moredebug)
     return;
 
-  sprintf(name, "%si%d", str, k);
-
-  printf("%s := { ", name);
+  printf("%si%d := { ", str, k);
   for (i = 0; i < cst->ncols - 1; i++) {
     if (i == cst->ncols - 2)
       printf("t%d | ", i);
@@ -2089,11 +2087,8 @@ void print_polylib_visual_sets_internal_new(char *str, int k,
                                             PlutoConstraints *cst) {
 
   int i, j, first = 0;
-  char name[100];
-
-  sprintf(name, "%s%d", str, k);
 
-  printf("%s := { ", name);
+  printf("%s%d := { ", str, k);
   for (i = 0; i < cst->ncols - 1; i++) {
     if (i == cst->ncols - 2)
       printf("t%d | ", i);
-- 
2.43.0


From 2e82d7865fbb8d986e7d14e4c9684f173f127c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:54 +0000
Subject: [PATCH 42/45] fix: pluto_stmt_remove_dim leaves the bounding
 polyhedra of dependences with the removed dimension

---
 lib/program.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/program.cpp b/lib/program.cpp
index 00c6e39..5bb4797 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -1142,10 +1142,13 @@ void pluto_stmt_remove_dim(Stmt *stmt, unsigned pos, PlutoProg *prog) {
   for (int i = 0; i < prog->ndeps; i++) {
     if (prog->deps[i]->src == stmt->id) {
       pluto_constraints_remove_dim(prog->deps[i]->dpolytope, pos);
+      pluto_constraints_remove_dim(prog->deps[i]->bounding_poly, pos);
     }
     if (prog->deps[i]->dest == stmt->id) {
       pluto_constraints_remove_dim(prog->deps[i]->dpolytope,
                                    prog->stmts[prog->deps[i]->src]->dim + pos);
+      pluto_constraints_remove_dim(prog->deps[i]->bounding_poly,
+                                   prog->stmts[prog->deps[i]->src]->dim + pos);
     }
   }
 
@@ -1153,11 +1156,15 @@ void pluto_stmt_remove_dim(Stmt *stmt, unsigned pos, PlutoProg *prog) {
     assert(prog->transdeps[i] != NULL);
     if (prog->transdeps[i]->src == stmt->id) {
       pluto_constraints_remove_dim(prog->transdeps[i]->dpolytope, pos);
+      pluto_constraints_remove_dim(prog->transdeps[i]->bounding_poly, pos);
     }
     if (prog->transdeps[i]->dest == stmt->id) {
       pluto_constraints_remove_dim(prog->transdeps[i]->dpolytope,
                                    prog->stmts[prog->transdeps[i]->src]->dim +
                                        pos);
+      pluto_constraints_remove_dim(prog->transdeps[i]->bounding_poly,
+                                   prog->stmts[prog->transdeps[i]->src]->dim +
+                                       pos);
     }
   }
 }
-- 
2.43.0


From daf44c59b155856b7fdfe7a2292c125b6761c7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:56 +0000
Subject: [PATCH 43/45] fix: pluto_prog_add_param leaves bounding polyhedra and
 transitive dependences without the parameter

---
 lib/program.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/program.cpp b/lib/program.cpp
index 5bb4797..f19794b 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -988,6 +988,17 @@ void pluto_prog_add_param(PlutoProg *prog, const char *param, int pos) {
     pluto_constraints_add_dim(
         prog->deps[i]->dpolytope,
         prog->deps[i]->dpolytope->ncols - 1 - prog->npar + pos, NULL);
+    pluto_constraints_add_dim(
+        prog->deps[i]->bounding_poly,
+        prog->deps[i]->bounding_poly->ncols - 1 - prog->npar + pos, NULL);
+  }
+  for (int i = 0; i < prog->ntransdeps; i++) {
+    pluto_constraints_add_dim(
+        prog->transdeps[i]->dpolytope,
+        prog->transdeps[i]->dpolytope->ncols - 1 - prog->npar + pos, NULL);
+    pluto_constraints_add_dim(
+        prog->transdeps[i]->bounding_poly,
+        prog->transdeps[i]->bounding_poly->ncols - 1 - prog->npar + pos, NULL);
   }
   pluto_constraints_add_dim(prog->param_context,
                             prog->param_context->ncols - 1 - prog->npar + pos,
-- 
2.43.0


From 2e6a889ffa647c268c4ca5a7bffafed4388602fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:31 +0000
Subject: [PATCH 44/45] fix: pluto_stmt_loop_interchange leaves the types of
 the interchanged hyperplanes behind

---
 lib/transforms.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/transforms.c b/lib/transforms.c
index afaecbf..eb3ca14 100644
--- a/lib/transforms.c
+++ b/lib/transforms.c
@@ -63,6 +63,10 @@ void pluto_stmt_loop_interchange(Stmt *stmt, int level1, int level2) {
     stmt->trans->val[level1][j] = stmt->trans->val[level2][j];
     stmt->trans->val[level2][j] = tmp;
   }
+
+  PlutoHypType type = stmt->hyp_types[level1];
+  stmt->hyp_types[level1] = stmt->hyp_types[level2];
+  stmt->hyp_types[level2] = type;
 }
 
 void pluto_interchange(PlutoProg *prog, int level1, int level2) {
-- 
2.43.0


From 01d5cad3354c9a93e88c75a4d39742120bb20d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:58 +0000
Subject: [PATCH 45/45] fix: pluto_remove_stmt leaves the statement numbers in
 transitive dependences behind

---
 lib/program.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/program.cpp b/lib/program.cpp
index f19794b..f14db33 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -2320,6 +2320,16 @@ static void decrement_stmt_id(PlutoProg *prog, int id) {
       dep->dest--;
     }
   }
+
+  for (i = 0; i < prog->ntransdeps; i++) {
+    Dep *dep = prog->transdeps[i];
+    if (dep->src == id) {
+      dep->src--;
+    }
+    if (dep->dest == id) {
+      dep->dest--;
+    }
+  }
 }
 
 /* Add statement to program; can't reuse arg stmt pointer any more */
-- 
2.43.0

