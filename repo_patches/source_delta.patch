From bd9fa34f12daf752a3b536d2ac874a66bab2b27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:42 +0000
Subject: [PATCH 01/51] fix: function train rounding honours its relative
 threshold

truncated_svd takes a bound on the sum of squared singular values, while
function_train_round and function_train_round_maxrank_all passed a bound
on the norm, so the error allowed depended on the scale of the function.
---
 c3/lib_clinalg/ft.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index b430784..e0addc3 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -2593,6 +2593,7 @@ function_train_round(struct FunctionTrain * ain, double epsilon,
 
     double delta = function_train_norm2(a);
     delta = delta * epsilon / sqrt(a->dim-1);
+    delta = delta * delta; // truncated_svd bounds the sum of squared singular values
     //double delta = epsilon;
 
     /* printf("Rounding Starting norm = %G\n",function_train_norm2(a)); */
@@ -2694,6 +2695,7 @@ function_train_round_maxrank_all(struct FunctionTrain * ain, double epsilon,
 
     double delta = function_train_norm2(a);
     delta = delta * epsilon / sqrt(a->dim-1);
+    delta = delta * delta; // truncated_svd bounds the sum of squared singular values
     //double delta = epsilon;
 
     /* printf("Rounding Starting norm = %G\n",function_train_norm2(a)); */
-- 
2.43.0


From 069697cb46e6fee1e32938d86875261fb1c5d17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:42 +0000
Subject: [PATCH 02/51] fix: const_elem_exp_deriv differences the function at
 the last node

The last quotient read a coefficient that had already been overwritten
with a derivative value.
---
 c3/lib_funcs/constelm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_funcs/constelm.c b/c3/lib_funcs/constelm.c
index 3a31952..e3c19fa 100644
--- a/c3/lib_funcs/constelm.c
+++ b/c3/lib_funcs/constelm.c
@@ -697,7 +697,7 @@ struct ConstElemExp * const_elem_exp_deriv(const struct ConstElemExp * f)
     for (size_t ii = 1; ii < le->num_nodes-1; ii++){
         le->coeff[ii] = (le->coeff[ii+1] - le->coeff[ii]) / (le->nodes[ii+1] - le->nodes[ii]);
     }
-    le->coeff[le->num_nodes-1] = (le->coeff[le->num_nodes-1] - le->coeff[le->num_nodes-2]) /
+    le->coeff[le->num_nodes-1] = (f->coeff[f->num_nodes-1] - f->coeff[f->num_nodes-2]) /
         (le->nodes[le->num_nodes-1] - le->nodes[le->num_nodes-2]);
 
     return le;
-- 
2.43.0


From b83ca15498858c187956ff21e3b67a4b0bbe9633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:09 +0000
Subject: [PATCH 03/51] fix: constant element parameter gradient writes every
 entry and returns the value

---
 c3/lib_funcs/constelm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c3/lib_funcs/constelm.c b/c3/lib_funcs/constelm.c
index e3c19fa..4e95d6b 100644
--- a/c3/lib_funcs/constelm.c
+++ b/c3/lib_funcs/constelm.c
@@ -753,7 +753,7 @@ int const_elem_exp_param_grad_eval(
             grad[ii*nparam+jj] = 0.0;
         }
 
-        for (size_t jj = indmin+2; jj < nparam; jj++)
+        for (size_t jj = indmin+1; jj < nparam; jj++)
         {
             grad[ii*nparam+jj] = 0.0;
         }
@@ -787,14 +787,14 @@ double const_elem_exp_param_grad_eval2(
         grad[jj] = 0.0;
     }
 
-    for (size_t jj = indmin+2; jj < nparam; jj++)
+    for (size_t jj = indmin+1; jj < nparam; jj++)
     {
         grad[jj] = 0.0;
     }
 
     grad[indmin] = 1.0;
 
-    return f->nodes[indmin];
+    return f->coeff[indmin];
 }
 
 /********************************************************//**
-- 
2.43.0


From 263ce64def8cae2bf5de78548415cafc8703ee6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:09 +0000
Subject: [PATCH 04/51] fix: linear element squared norm gradient matches the
 norm it differentiates

---
 c3/lib_funcs/linelm.c | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/c3/lib_funcs/linelm.c b/c3/lib_funcs/linelm.c
index 746fb23..47c0946 100755
--- a/c3/lib_funcs/linelm.c
+++ b/c3/lib_funcs/linelm.c
@@ -1085,28 +1085,14 @@ lin_elem_exp_squared_norm_param_grad(const struct LinElemExp * f,
         return 0;
     }
 
-    double dx = f->nodes[1]-f->nodes[0];
-    double term1 = ((f->coeff[0]-1.0)/3.0 + f->coeff[1]/2.0) * dx;
-    grad[0] += 2.0 * scale * term1;
-    double dx2,df;
-    for (size_t ii = 1; ii < f->num_nodes-1; ii++){
-        // left side of ii
-        df = f->coeff[ii] - f->coeff[ii-1];
-        grad[ii] += 2.0 * scale * (0.5 * f->coeff[ii] * dx + 1.0/3.0 * df * dx);
-
-        // right side
-        dx2 = dx * dx;
-        term1 = ((f->coeff[ii]-1.0)/3.0 + f->coeff[ii+1]/2.0) * dx;
-        grad[ii] += 2.0 * scale * term1;
-        
-        dx = dx2;
+    // the squared norm is sum_i w_i coeff_i^2, see lin_elem_exp_inner
+    size_t last = f->num_nodes-1;
+    for (size_t ii = 0; ii < f->num_nodes; ii++){
+        double left = ii > 0 ? f->nodes[ii-1] : f->nodes[ii];
+        double right = ii < last ? f->nodes[ii+1] : f->nodes[ii];
+        grad[ii] += 2.0 * scale * 0.5 * (right-left) * f->coeff[ii];
     }
 
-    // left side of last node node
-    size_t ii = f->num_nodes-1;
-    df = f->coeff[ii] - f->coeff[ii-1];
-    grad[ii] += 2.0 * scale * (0.5 * f->coeff[ii] * dx + 1.0/3.0 * df * dx);
-
     return 0;
 }
 
-- 
2.43.0


From 94b0176f5cbee71cbd94e23ced386ffd7630661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:53 +0000
Subject: [PATCH 05/51] fix: linear element axpy drops the cached periodic
 operator of the old grid

---
 c3/lib_funcs/linelm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c3/lib_funcs/linelm.c b/c3/lib_funcs/linelm.c
index 47c0946..b8eda66 100755
--- a/c3/lib_funcs/linelm.c
+++ b/c3/lib_funcs/linelm.c
@@ -1510,6 +1510,7 @@ int lin_elem_exp_axpy(double a,
         free(g->nodes); g->nodes = x;
 //        printf("bad!\n");
         free(g->coeff); g->coeff = coeff;
+        free(g->Lp); g->Lp = NULL; // cached operator belongs to the old nodes
 //        printf("word\n");
     }
     return res;
-- 
2.43.0


From f4e4b700cc01025dac19687f482b0b16394a304b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:47 +0000
Subject: [PATCH 06/51] fix: c3opt_print_stored_values indexes stored vectors
 by dimension

---
 c3/lib_optimization/optimization.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index 8954b92..eeb1603 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -844,12 +844,12 @@ void c3opt_print_stored_values(struct c3Opt * opt, FILE * fp, int width, int pre
         }
         if (opt->store_grad == 1){
             for (size_t jj = 0; jj < opt->d; jj++){
-                fprintf(fp,"%*.*G ",width,prec,opt->stored_grad[ii*opt->niters+jj]);
+                fprintf(fp,"%*.*G ",width,prec,opt->stored_grad[ii*opt->d+jj]);
             }
         }
         if (opt->store_x== 1){
             for (size_t jj = 0; jj < opt->d; jj++){
-                fprintf(fp,"%*.*G ",width,prec,opt->stored_x[ii*opt->niters+jj]);
+                fprintf(fp,"%*.*G ",width,prec,opt->stored_x[ii*opt->d+jj]);
             }
         }
         fprintf(fp,"\n");
-- 
2.43.0


From 07e31b87f283cf17df78041234d45158b5b9513b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:47 +0000
Subject: [PATCH 07/51] fix: L-BFGS history works with a single stored vector
 and frees when empty

---
 c3/lib_optimization/optimization.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index eeb1603..4abeab7 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -2376,7 +2376,7 @@ void c3opt_lbfgs_list_insert(struct c3opt_lbfgs_list * list, size_t iter,
     }
     else{//(list->size == 0){
         new->next = NULL;
-        new->prev = NULL;
+        new->prev = (list->m == 1) ? new : NULL; // the head is also the oldest
         list->size = 1;
     }
     
@@ -2490,8 +2490,10 @@ void c3opt_lbfgs_list_free(struct c3opt_lbfgs_list * list)
     if (list != NULL){
         struct c3opt_lbfgs_data * current = list->most_recent;
         struct c3opt_lbfgs_data * next;
-        c3opt_lbfgs_data_free_contents(current);
-        current->prev = NULL;
+        if (current != NULL){
+            c3opt_lbfgs_data_free_contents(current);
+            current->prev = NULL;
+        }
         for (size_t ii = 1; ii < list->size; ii++){
             next = current->next;
             free(current); current=NULL;
-- 
2.43.0


From 6adf6e4ff717d3cf80c929dd8a72d7df28bd3b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:47 +0000
Subject: [PATCH 08/51] fix: c3opt_copy copies only the workspace a gradient
 descent object has

---
 c3/lib_optimization/optimization.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index 4abeab7..37eb51b 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -545,7 +545,8 @@ struct c3Opt * c3opt_copy(struct c3Opt * old)
     opt->nlocs   = old->nlocs;
     if ((opt->alg == BFGS) || (opt->alg == BATCHGRAD) || (opt->alg == LBFGS)){
         opt->grad = 1;
-        memmove(opt->workspace,old->workspace,4*opt->d*sizeof(double));
+        size_t nwork = (opt->alg == BATCHGRAD) ? 2 : 4;
+        memmove(opt->workspace,old->workspace,nwork*opt->d*sizeof(double));
         c3ls_free(opt->ls); opt->ls = NULL;
         opt->ls = c3ls_copy(old->ls);
     }
-- 
2.43.0


From 98c102e33fdd6c88474c10587ffe2062f9574bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:47 +0000
Subject: [PATCH 09/51] fix: c3opt storage options and brute force values can
 be set again without leaking

---
 c3/lib_optimization/optimization.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index 37eb51b..f3a4f32 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -800,6 +800,9 @@ void c3opt_set_storage_options(struct c3Opt * opt, int store_func, int store_gra
     opt->store_func = store_func;
     opt->store_grad = store_grad;
     opt->store_x = store_x;
+    free(opt->stored_grad); opt->stored_grad = NULL;
+    free(opt->stored_func); opt->stored_func = NULL;
+    free(opt->stored_x); opt->stored_x = NULL;
 
     if (opt->store_grad == 1){
         opt->stored_grad = calloc_double(opt->d*sizeof(double)*opt->maxiter);
@@ -927,6 +930,7 @@ void c3opt_set_brute_force_vals(struct c3Opt * opt, size_t nvals, double * loc)
         fprintf(stderr,"in order to add brute force values\n");
     }
     opt->nlocs = nvals;
+    free(opt->workspace);
     opt->workspace = calloc_double(nvals * opt->d);
     memmove(opt->workspace,loc,opt->d*nvals*sizeof(double));
 }
-- 
2.43.0


From 0ab364e06b9bc767f86f4e27c0ae9d67c0004695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:47 +0000
Subject: [PATCH 10/51] fix: strong Wolfe line search neither aborts on a small
 decrease nor loops forever

---
 c3/lib_optimization/optimization.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index f3a4f32..fd1a335 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -1428,7 +1428,10 @@ double c3opt_ls_zoom(struct c3Opt * opt, double tlow,
     /* if (fabs(th - tl) < 1e-){ */
     /*     exit(1); */
     /* } */
-    while (fabs(th-tl) >= 1e-20){
+    size_t iter = 0;
+    size_t maxiter = c3opt_ls_get_maxiter(opt);
+    while ((fabs(th-tl) >= 1e-20) && (iter < maxiter)){
+        iter++;
         /* printf("(tlow,thigh) = (%3.15G,%3.15G),\n",tl,th); */
 
         t = (tl + th)/2.0;
@@ -1558,11 +1561,6 @@ double c3opt_ls_strong_wolfe(struct c3Opt * opt, double * x, double fx,
         }
         if ((*newf > checkval) || ( (*newf >= f_prev) && (iter > 1))){
             /* printf("found range (%G,%G) \n",t_prev,t); */
-            if (f_prev > *newf){
-                /* printf("f_prev = %G\n",f_prev); */
-                /* printf("*newf = %G\n",*newf); */
-                assert (f_prev < *newf);
-            }
             t = c3opt_ls_zoom(opt,t_prev,f_prev,t,x,dir,newx,fx,dg,grad,newf);
             return t * alpha;
         }
-- 
2.43.0


From 62593ad388e70b577962d463497a101cc169de3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:02 +0000
Subject: [PATCH 11/51] fix: constant element options keep their upper bound

---
 c3/lib_funcs/constelm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_funcs/constelm.c b/c3/lib_funcs/constelm.c
index 4e95d6b..becc7b9 100644
--- a/c3/lib_funcs/constelm.c
+++ b/c3/lib_funcs/constelm.c
@@ -110,7 +110,7 @@ struct ConstElemExpAopts * const_elem_exp_aopts_alloc(size_t N, double * x)
     aopts->node_alloc = 0;
     aopts->nodes = x;
     aopts->lb = x[0];
-    aopts->lb = x[N-1];
+    aopts->ub = x[N-1];
         
     aopts->adapt = 0;
     aopts->delta = DBL_MAX;
-- 
2.43.0


From 005fcc170d9d1b3ce9d5efe52bb066f6c1cc893f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:02 +0000
Subject: [PATCH 12/51] fix: default starts of heterogeneous cross ranks have
 enough nodes

---
 c3/lib_interface/approximate.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/c3/lib_interface/approximate.c b/c3/lib_interface/approximate.c
index 825ce9a..e362170 100644
--- a/c3/lib_interface/approximate.c
+++ b/c3/lib_interface/approximate.c
@@ -317,12 +317,12 @@ void c3approx_init_cross_het(struct C3Approx * c3a, const size_t *init_ranks, in
         for (size_t ii = 0; ii < c3a->dim; ii++){
             double lb = multi_approx_opts_get_dim_lb(c3a->fapp, ii);
             double ub = multi_approx_opts_get_dim_ub(c3a->fapp, ii);
-			if (ii == 0) {
-				start[ii] = linspace(lb, ub, init_ranks[1]);
-			}
-			else {
-				start[ii] = linspace(lb, ub, init_ranks[ii]);
+			/* left indices use ranks[ii+1] nodes, right indices ranks[ii] */
+			size_t nstart = init_ranks[ii];
+			if (init_ranks[ii+1] > nstart) {
+				nstart = init_ranks[ii+1];
 			}
+			start[ii] = linspace(lb, ub, nstart);
         }
     }
     
-- 
2.43.0


From 98c835ed5cde2a2f0341dbbeb3abd587e71ebbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:10 +0000
Subject: [PATCH 13/51] fix: re-initialising a cross approximation frees the
 old index sets

---
 c3/lib_interface/approximate.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/c3/lib_interface/approximate.c b/c3/lib_interface/approximate.c
index e362170..56d7555 100644
--- a/c3/lib_interface/approximate.c
+++ b/c3/lib_interface/approximate.c
@@ -269,6 +269,10 @@ void c3approx_init_cross(struct C3Approx * c3a, size_t init_rank, int verbose,
     ft_cross_args_set_round_tol(c3a->fca,1e-14);
     
     size_t * ranks = ft_cross_args_get_ranks(c3a->fca);
+    for (size_t ii = 0; ii < c3a->dim; ii++){
+        cross_index_free(c3a->isl[ii]); c3a->isl[ii] = NULL;
+        cross_index_free(c3a->isr[ii]); c3a->isr[ii] = NULL;
+    }
     cross_index_array_initialize(c3a->dim,c3a->isr,0,1,ranks,(void**)start,sizeof(double));
     cross_index_array_initialize(c3a->dim,c3a->isl,0,0,ranks+1,(void**)start,sizeof(double));
     if (c3a->ftref != NULL){
@@ -334,6 +338,10 @@ void c3approx_init_cross_het(struct C3Approx * c3a, const size_t *init_ranks, in
     ft_cross_args_set_round_tol(c3a->fca,1e-14);
     
     size_t * ranks = ft_cross_args_get_ranks(c3a->fca);
+    for (size_t ii = 0; ii < c3a->dim; ii++){
+        cross_index_free(c3a->isl[ii]); c3a->isl[ii] = NULL;
+        cross_index_free(c3a->isr[ii]); c3a->isr[ii] = NULL;
+    }
     cross_index_array_initialize(c3a->dim,c3a->isr,0,1,ranks,(void**)start,sizeof(double));
     cross_index_array_initialize(c3a->dim,c3a->isl,0,0,ranks+1,(void**)start,sizeof(double));
     if (c3a->ftref != NULL){
-- 
2.43.0


From a189c34977c0ef10e003c1a6cbc63d70180e37b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:41 +0000
Subject: [PATCH 14/51] fix: nested index sets keep their element size

---
 c3/lib_clinalg/indmanage.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_clinalg/indmanage.c b/c3/lib_clinalg/indmanage.c
index 19e3796..f6dca80 100644
--- a/c3/lib_clinalg/indmanage.c
+++ b/c3/lib_clinalg/indmanage.c
@@ -144,7 +144,7 @@ void cross_node_add_nested(struct CrossNode ** cn, int left, size_t nold, void *
         memmove(x,xnew,size_elem * nnew ) ;
         memmove((char*)x+( size_elem * nnew ),xold,size_elem * nold);
     }
-    cross_node_add(cn,n,x,sizeof(double));
+    cross_node_add(cn,n,x,size_elem);
     free(x); x = NULL;
 }
 
-- 
2.43.0


From 9e4a45a10656fa357bd31d72f1fb956fd34be656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:54 +0000
Subject: [PATCH 15/51] fix: cross_index_merge pairs each right index with its
 own left index

---
 c3/lib_clinalg/indmanage.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/c3/lib_clinalg/indmanage.c b/c3/lib_clinalg/indmanage.c
index f6dca80..f2bab01 100644
--- a/c3/lib_clinalg/indmanage.c
+++ b/c3/lib_clinalg/indmanage.c
@@ -439,7 +439,6 @@ cross_index_merge(struct CrossIndex * left, struct CrossIndex * right)
     struct CrossNode * cl = left->nodes;
     struct CrossNode * cr = right->nodes;
     for (size_t ii = 0; ii < right->n;ii++){
-        cl = left->nodes;
         vals[ii] = calloc_double(d);
         memmove(vals[ii],cl->x,dl*sizeof(double));
         memmove(vals[ii]+dl,cr->x,dr*sizeof(double));
-- 
2.43.0


From b88bb56638289421f872711ec378afce34cbe7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:54 +0000
Subject: [PATCH 16/51] fix: evaluating a fiber of an index function frees its
 work space

---
 c3/lib_funcs/fwrap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c3/lib_funcs/fwrap.c b/c3/lib_funcs/fwrap.c
index da00cdb..4fc57eb 100644
--- a/c3/lib_funcs/fwrap.c
+++ b/c3/lib_funcs/fwrap.c
@@ -497,6 +497,7 @@ int fwrap_eval_fiber(size_t nevals, const void * x, double * out, void * fwin)
         for (size_t ii = 0; ii < nevals; ii++){
             out[ii] = fw->intf(xeval + ii*fw->d,fw->fargs);
         }
+        free(xeval);
     }
     else{
         const double * xin = x;
-- 
2.43.0


From 8aec528dd58d4bf3560dac85bfa1ee4b32b101b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:00 +0000
Subject: [PATCH 17/51] fix: vec_kron lays out its result by the columns of the
 second factor

---
 c3/lib_linalg/linalg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_linalg/linalg.c b/c3/lib_linalg/linalg.c
index 8404f1a..e07e0f7 100755
--- a/c3/lib_linalg/linalg.c
+++ b/c3/lib_linalg/linalg.c
@@ -666,7 +666,7 @@ void vec_kron(size_t m, size_t n, double * a, size_t lda, size_t k, size_t l,
                 b, ldb, v, k, 0.0, temp, m);
     
     cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasTrans, n, l, m, 1.0,
-                    a, lda, temp, m, scale, out, n);
+                    a, lda, temp, m, scale, out, l);
     free(temp);
 }
 
-- 
2.43.0


From 0d612d9c03d8d41f874debb85ae6cd47fb3daa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:38 +0000
Subject: [PATCH 18/51] fix: maxvol starts from the pivots of the LU
 decomposition of the whole matrix

---
 c3/lib_linalg/linalg.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c3/lib_linalg/linalg.c b/c3/lib_linalg/linalg.c
index e07e0f7..f3e27f1 100755
--- a/c3/lib_linalg/linalg.c
+++ b/c3/lib_linalg/linalg.c
@@ -1427,7 +1427,7 @@ int maxvol_rhs(const double * A, size_t n, size_t r, size_t * rows, double * Asi
 
     temp2 = calloc_double(n*r);
     memmove(temp2, A, n*r*siz);
-    dgetrf_((int*)&r,(int*)&r, temp2, (int*)&r, ipiv, &info); //lu decomp
+    dgetrf_((int*)&n,(int*)&r, temp2, (int*)&n, ipiv, &info); //lu decomp
     if (info < 0) printf("Input %d of LU is not correct\n ", info);
     //if (info > 0) printf("Rank is too high, suggest lowering it\n");
 
@@ -1449,6 +1449,7 @@ int maxvol_rhs(const double * A, size_t n, size_t r, size_t * rows, double * Asi
     }
 
     for (ii = 0; ii < r; ii++){
+        ipiv[ii] -= 1; // LAPACK pivots count from one
         jj = (size_t) ipiv[ii];
         
         if (jj != ii){
-- 
2.43.0


From 668e2590add97ede4317fbbae78a48fc3f405869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:52 +0000
Subject: [PATCH 19/51] fix: qmatqmat and qmarray_vec_kron lay out non-square
 products correctly

---
 c3/lib_clinalg/qmarray.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/c3/lib_clinalg/qmarray.c b/c3/lib_clinalg/qmarray.c
index b6b2d4a..ae83897 100644
--- a/c3/lib_clinalg/qmarray.c
+++ b/c3/lib_clinalg/qmarray.c
@@ -958,7 +958,7 @@ qmatqmat(const struct Qmarray * a, const struct Qmarray * b)
     for (jj = 0; jj < b->nrows; jj++){
         for (ii = 0; ii < a->ncols; ii++){
             // c[jj*a->ncols+ii] = a[:,ii]^T b[jj,:]
-            c->funcs[ii*c->nrows+jj] =  generic_function_sum_prod(b->ncols, 1, 
+            c->funcs[jj*c->nrows+ii] =  generic_function_sum_prod(b->ncols, 1, 
                     a->funcs + ii*a->nrows, b->nrows, b->funcs + jj);
         }
     }
@@ -1218,8 +1218,7 @@ qmarray_vec_kron(const double * a,const struct Qmarray * b,const struct Qmarray
 
     struct Qmarray * temp = qmatm(b,a,c->nrows); // b->ncols * c->ncols
     //printf("got qmatm\n");
-    //d = qmaqma(temp,c);
-    d = qmatqmat(c,temp);
+    d = qmaqma(temp,c);
     qmarray_free(temp); temp = NULL;
     return d;
 }
-- 
2.43.0


From 70f844575d7fe461314a3e9485a5a0d5d7111e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:39 +0000
Subject: [PATCH 20/51] fix: qmarray_maxvol1d keeps the dominant rows it
 converged to

---
 c3/lib_clinalg/qmarray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_clinalg/qmarray.c b/c3/lib_clinalg/qmarray.c
index ae83897..e6bfc9f 100644
--- a/c3/lib_clinalg/qmarray.c
+++ b/c3/lib_clinalg/qmarray.c
@@ -2388,7 +2388,7 @@ int qmarray_maxvol1d(struct Qmarray * A, double * Asinv, size_t * pivi,
         iter++;
     }
 
-    if (iter > 0){
+    if (maxval > (1.0 + delta)){ // ran out of iterations: still swap in the largest element
         pivi[maxcol] = maxrow;
         pivx[maxcol] = maxx;
     }
-- 
2.43.0


From beab31eb1f3375af18baf7628133b7dff8b06230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:13 +0000
Subject: [PATCH 21/51] fix: ifft_base honours the input stride and leaves its
 const input alone

---
 c3/lib_fft/fft.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/c3/lib_fft/fft.c b/c3/lib_fft/fft.c
index ce9921f..35ffe95 100644
--- a/c3/lib_fft/fft.c
+++ b/c3/lib_fft/fft.c
@@ -131,15 +131,16 @@ int fft_base(size_t N, const double complex * x, size_t sx,
 /***********************************************************//**
    IFFT                                                            
 ***************************************************************/
-int ifft_base(size_t N, double complex * x, size_t sx, 
+int ifft_base(size_t N, const double complex * x, size_t sx, 
              double complex * X, size_t sX)
 {
+    double complex * xc = malloc(N * sizeof(double complex));
     for (size_t ii = 0; ii < N; ii++){
-        x[ii] = conj(x[ii*sX]);
+        xc[ii] = conj(x[ii*sx]);
     }
-    int res = fft_base(N,x,sx,X,sX);
+    int res = fft_base(N,xc,1,X,sX);
+    free(xc); xc = NULL;
     for (size_t ii = 0; ii < N; ii++){
-        x[ii*sX] = conj(x[ii*sX]);
         X[ii*sX] = conj(X[ii*sX]);
         X[ii*sX] /= (double)N;
     }
@@ -181,7 +182,7 @@ int fft(size_t N, const double complex * x, size_t sx,
     return res;
 }
 
-int ifft(size_t N, double complex * x, size_t sx, 
+int ifft(size_t N, const double complex * x, size_t sx, 
         double complex * X, size_t sX)
 {
     assert (sx == 1);
-- 
2.43.0


From e3208ce1723b8ade7a1a4a89e078579386b99944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:32 +0000
Subject: [PATCH 22/51] fix: fejer2 returns the weights of Fejer's second rule

---
 c3/lib_quadrature/quadrature.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/c3/lib_quadrature/quadrature.c b/c3/lib_quadrature/quadrature.c
index 944c92c..88f69c9 100755
--- a/c3/lib_quadrature/quadrature.c
+++ b/c3/lib_quadrature/quadrature.c
@@ -193,20 +193,22 @@ void rescale_cc(size_t N, double * pts, double * wts, double a, double b){
 *     \param[in,out] weights - weights (space alread alloc)
 *************************************************************/
 void fejer2(size_t N, double * pts, double * weights){
-    if (N > 2){
-        double * ptemp = calloc_double(N+2);
-        double * wtemp = calloc_double(N+2);
+    double * ptemp = calloc_double(N+2);
+    double * wtemp = calloc_double(N+2);
 
-        clenshaw_curtis(N+2,ptemp,wtemp);
-        memmove(pts,ptemp+1,N*sizeof(double));
-        memmove(weights,wtemp+1,N*sizeof(double));
-        //dprint(N,pts);
-        free(ptemp); ptemp = NULL;
-        free(wtemp); wtemp = NULL;
-    }
-    else{
-        clenshaw_curtis(N,pts,weights);
+    // the nodes are the interior Clenshaw-Curtis nodes, the weights are not
+    clenshaw_curtis(N+2,ptemp,wtemp);
+    memmove(pts,ptemp+1,N*sizeof(double));
+    for (size_t ii = 0; ii < N; ii++){
+        double theta = M_PI * (double)(ii+1) / (double)(N+1);
+        double sum = 0.0;
+        for (size_t jj = 1; jj <= (N+1)/2; jj++){
+            sum += sin((double)(2*jj-1) * theta) / (double)(2*jj-1);
+        }
+        weights[ii] = 4.0 * sin(theta) * sum / (double)(N+1);
     }
+    free(ptemp); ptemp = NULL;
+    free(wtemp); wtemp = NULL;
 }
  
 /***********************************************************//**
-- 
2.43.0


From 204b65d5e393fa4a7296238d35b10fe45d029caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:57 +0000
Subject: [PATCH 23/51] fix: simpson_w with two points is the trapezoidal rule

---
 c3/lib_quadrature/quadrature.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c3/lib_quadrature/quadrature.c b/c3/lib_quadrature/quadrature.c
index 88f69c9..6ec57ef 100755
--- a/c3/lib_quadrature/quadrature.c
+++ b/c3/lib_quadrature/quadrature.c
@@ -93,7 +93,10 @@ double * simpson_w(size_t N, double h)
     }
     if (odd == 0){
         weights[N-1] = 0.5*h;
-        weights[N-2] = 1.0/3.0 * h + 0.5*h;
+        weights[N-2] = 0.5*h;
+        if (N > 2){
+            weights[N-2] += 1.0/3.0 * h;
+        }
     }
     else{
         weights[N-1] = 1.0 / 3.0 * h;
-- 
2.43.0


From 84fc97159f631aa8377ce4eac4444e53982043cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:19 +0000
Subject: [PATCH 24/51] fix: strip_ends and strip_blank_ends keep the
 terminator and stop at the start

---
 c3/lib_stringmanip/stringmanip.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/c3/lib_stringmanip/stringmanip.c b/c3/lib_stringmanip/stringmanip.c
index 0753621..f43c4e2 100755
--- a/c3/lib_stringmanip/stringmanip.c
+++ b/c3/lib_stringmanip/stringmanip.c
@@ -57,9 +57,9 @@ void strip_blank_ends(char * strin)
     }
 
     n = strlen(str);
-    while (str[n]==' ' || str[n]=='\0')
+    while (n > 0 && str[n-1]==' ')
         n--;
-    str[n+1]='\0';
+    str[n]='\0';
 }
 
 void strip_ends(char * strin, char left, char right)
@@ -69,14 +69,14 @@ void strip_ends(char * strin, char left, char right)
     char * str = strin;
     while (str[ii] == left)
     {
-        memmove(str,str+1,strlen(str+1));
+        memmove(str,str+1,strlen(str+1)+1);
     }
     
     n = strlen(str);
-    while (str[n] == right || str[n]=='\0'){
+    while (n > 0 && str[n-1] == right){
         n--;
     }
-    str[n+1] = '\0';
+    str[n] = '\0';
 }
 
 char * bite_string(char * strin, char tok)
-- 
2.43.0


From 75bc3c783c5f551b903eae62b44798c772438214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:50 +0000
Subject: [PATCH 25/51] fix: bite_string2 finds every occurrence of the token

---
 c3/lib_stringmanip/stringmanip.c | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/c3/lib_stringmanip/stringmanip.c b/c3/lib_stringmanip/stringmanip.c
index f43c4e2..08dd3d2 100755
--- a/c3/lib_stringmanip/stringmanip.c
+++ b/c3/lib_stringmanip/stringmanip.c
@@ -110,27 +110,13 @@ char * bite_string(char * strin, char tok)
 char * bite_string2(char * strin, char * tok)
 {
     char * out = NULL;
-    size_t ii = 0;
-    size_t cut = 0;
-    size_t nMatch = 0;
-    for (ii = 0; ii < strlen(strin); ii++){
-        if (strin[ii] == tok[nMatch]){
-            nMatch++;
-        }
-        else{
-            nMatch = 0;
-        }
-        if (nMatch == strlen(tok)){
-            cut = ii+1 - nMatch;
-            break;
-        }
-    }
-    
-    if (cut > 0){
+    char * match = strstr(strin,tok);
+    if (match != NULL){
+        size_t cut = (size_t)(match - strin);
         out = malloc((cut+1)*sizeof(char));
         memmove(out,strin,cut);
         out[cut] = '\0';
-        memmove(strin, strin+cut+strlen(tok), strlen(strin)+1-ii-1);
+        memmove(strin, match+strlen(tok), strlen(match)-strlen(tok)+1);
     }
     return out;
 }
-- 
2.43.0


From 47722133633002f85146612a11c74127208e3221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:16 +0000
Subject: [PATCH 26/51] fix: readtxt_double_array reads tab separated values

---
 c3/lib_stringmanip/stringmanip.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_stringmanip/stringmanip.c b/c3/lib_stringmanip/stringmanip.c
index 08dd3d2..6eb8b52 100755
--- a/c3/lib_stringmanip/stringmanip.c
+++ b/c3/lib_stringmanip/stringmanip.c
@@ -343,13 +343,13 @@ double * readtxt_double_array(char * str,size_t *nrows, size_t *ncols)
     /* printf("number of rows = %zu\n",*nrows); */
     /* printf("number of cols = %zu\n",*ncols); */
 
-    token = strtok(str3," ,\n");
+    token = strtok(str3,"\t ,\n");
     size_t ind = 0;
     /* printf("%s %zu \n",token,ind); */
     while (token != NULL){
         data[ind] = atof(token);
         ind++;
-        token = strtok(NULL," ,\n");
+        token = strtok(NULL,"\t ,\n");
         /* printf("%s %zu\n",token,ind); */
     }
 
-- 
2.43.0


From 9c507f66071575a144318be845dcde15532ebb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:28 +0000
Subject: [PATCH 27/51] fix: strip_blank_ends stays inside the string

---
 c3/lib_stringmanip/stringmanip.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_stringmanip/stringmanip.c b/c3/lib_stringmanip/stringmanip.c
index 6eb8b52..14ea44e 100755
--- a/c3/lib_stringmanip/stringmanip.c
+++ b/c3/lib_stringmanip/stringmanip.c
@@ -53,7 +53,7 @@ void strip_blank_ends(char * strin)
     char * str = strin;
     while (str[ii] == ' ')
     {
-        memmove(str,str+1,strlen(str)+1);
+        memmove(str,str+1,strlen(str));
     }
 
     n = strlen(str);
-- 
2.43.0


From 735107a7f3936addb54a8dcb0b5f85e94d5ed376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:08 +0000
Subject: [PATCH 28/51] fix: destroy_operator_for_laplace frees every dimension

---
 c3/lib_clinalg/diffusion.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_clinalg/diffusion.c b/c3/lib_clinalg/diffusion.c
index b38f5d4..9c16fd5 100644
--- a/c3/lib_clinalg/diffusion.c
+++ b/c3/lib_clinalg/diffusion.c
@@ -829,8 +829,8 @@ void destroy_operator_for_laplace(struct OperatorForLaplace * op)
 {
     if (op != NULL) {
         for (size_t ii = 0; ii < op->dim; ii++){
-            free(op->op[ii]); op->op = NULL;
-            free(op->opLP[ii]); op->opLP = NULL;
+            free(op->op[ii]); op->op[ii] = NULL;
+            free(op->opLP[ii]); op->opLP[ii] = NULL;
         } 
         free(op->op); op->op = NULL;
         free(op->opLP); op->opLP = NULL;
-- 
2.43.0


From ae0d7f71d51c5e8743833666a1af1931af85315d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:30 +0000
Subject: [PATCH 29/51] fix: dmrg_super_r includes the triangular factor of the
 previous right side

---
 c3/lib_clinalg/dmrg.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/c3/lib_clinalg/dmrg.c b/c3/lib_clinalg/dmrg.c
index 6d51366..c4f6ccf 100644
--- a/c3/lib_clinalg/dmrg.c
+++ b/c3/lib_clinalg/dmrg.c
@@ -196,8 +196,14 @@ dmrg_super_r(size_t dim,
 
     double * val = qmaqmat_integrate(prev->Q,z);
 
+    // the right side is prev->mat * prev->Q
+    double * right = calloc_double(prev->mr * z->nrows);
+    cblas_dgemm(CblasColMajor,CblasNoTrans,CblasNoTrans,prev->mr,z->nrows,
+                prev->mc,1.0,prev->mat,prev->mr,val,prev->mc,0.0,right,prev->mr);
+
     struct Qmarray * temp = NULL;
-    f('R',dim,z->nrows,val,&temp,args);
+    f('R',dim,z->nrows,right,&temp,args);
+    free(right); right = NULL;
 
     struct QR * lq = qr_reduced(temp,0,o);
     qmarray_free(temp); temp = NULL;
-- 
2.43.0


From fc09d7917e37a18cbf411ba0c7e27dc69891c3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:02 +0000
Subject: [PATCH 30/51] fix: Householder factorisations of function arrays use
 relative thresholds

---
 c3/lib_clinalg/qmarray.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c3/lib_clinalg/qmarray.c b/c3/lib_clinalg/qmarray.c
index e6bfc9f..407172e 100644
--- a/c3/lib_clinalg/qmarray.c
+++ b/c3/lib_clinalg/qmarray.c
@@ -3892,7 +3892,7 @@ int qmarray_qr(struct Qmarray * A, struct Qmarray ** Q, double ** R,
                                            A->funcs+ii*nrows);
         
         /* printf("\t rho=%G, \t  alpha=%G\n",rho,alpha); */
-        if (fabs(alpha) < ZERO){
+        if (fabs(alpha) <= ZERO * rho){
             alpha = 0.0;
             s = 0.0;
         }
@@ -3933,7 +3933,7 @@ int qmarray_qr(struct Qmarray * A, struct Qmarray ** Q, double ** R,
         // weird that this line is needed for stabilization
         // Need to add reorthoganlization
         //sigma = sigma + 1e-16;
-        if (fabs(sigma) < ZERO){
+        if (fabs(sigma) <= ZERO * rho){
             //printf("less than zero sigma = %G,Zero=%G\n",sigma,ZERO);
             //V=E
             for (kk = 0; kk < nrows; kk++){
@@ -4052,7 +4052,7 @@ int qmarray_lq(struct Qmarray * A, struct Qmarray ** Q, double ** L,
         alpha = generic_function_inner_sum(ncols,nrows,(*Q)->funcs+ii,nrows, A->funcs+ii);
         
         //printf("alpha=%G\n",alpha);
-        if (fabs(alpha) < ZERO){
+        if (fabs(alpha) <= ZERO * rho){
             alpha = 0.0;
             s = 0.0;
         }
@@ -4091,7 +4091,7 @@ int qmarray_lq(struct Qmarray * A, struct Qmarray ** Q, double ** L,
         // weird that this line is needed for stabilization
         // Need to add reorthoganlization
         //sigma = sigma + ZERO*1e-3;
-        if (fabs(sigma) < ZERO){
+        if (fabs(sigma) <= ZERO * rho){
             //printf("less than zero sigma = %G,Zero=%G\n",sigma,ZERO);
             //V=E
             for (kk = 0; kk < ncols; kk++){
-- 
2.43.0


From 87a0342229649330aabdd696fac58e16164b5059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:45 +0000
Subject: [PATCH 31/51] fix: restricted rank adaptation keeps the whole rounded
 fit

---
 c3/lib_superlearn/regress.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_superlearn/regress.c b/c3/lib_superlearn/regress.c
index 6c547d8..cc6a755 100644
--- a/c3/lib_superlearn/regress.c
+++ b/c3/lib_superlearn/regress.c
@@ -1373,8 +1373,8 @@ ft_regress_run_rankadapt(struct FTRegress * ftr,
         kicked = 0;
 
         for (size_t ii = 1; ii < ft->dim; ii++){
+            ftr->regopts->restrict_rank_opt[ii-1] = ftr_ranks[ii];
             if (ftr_ranks[ii] == ranks[ii]){
-                ftr->regopts->restrict_rank_opt[ii-1] = ranks[ii];
                 ranks[ii] += kickrank;
                 if (ranks[ii] > maxrank){
                     ranks[ii] = maxrank;
@@ -1382,7 +1382,7 @@ ft_regress_run_rankadapt(struct FTRegress * ftr,
                 kicked = 1;
             }
         }
-
+        ftr->regopts->restrict_rank_opt[ft->dim-1] = ftr_ranks[ft->dim];
 
 
         /* printf("kicked == %zu\n",kicked); */
-- 
2.43.0


From 4be5dae132c12b41537cded60775ab67464b4f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:03 +0000
Subject: [PATCH 32/51] fix: tensor train compression truncates at the squared
 error level

---
 c3/lib_tensdecomp/tensortrain.c    | 1 +
 c3/lib_tensdecomp/tt_multilinalg.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/c3/lib_tensdecomp/tensortrain.c b/c3/lib_tensdecomp/tensortrain.c
index 4cd62f2..e3434a9 100755
--- a/c3/lib_tensdecomp/tensortrain.c
+++ b/c3/lib_tensdecomp/tensortrain.c
@@ -230,6 +230,7 @@ struct tt * full_to_tt(const struct tensor * a, double epsilon)
     double nrm = norm2(a->vals, nElements);
     double delta = nrm * epsilon;
     if (a->dim > 1) delta = delta / sqrt(a->dim-1.0);
+    delta = delta * delta; // truncated_svd compares squared singular values
     size_t nl = a->nvals[0];
     size_t nr = nElements/nl;
     
diff --git a/c3/lib_tensdecomp/tt_multilinalg.c b/c3/lib_tensdecomp/tt_multilinalg.c
index 87437ea..65b989e 100755
--- a/c3/lib_tensdecomp/tt_multilinalg.c
+++ b/c3/lib_tensdecomp/tt_multilinalg.c
@@ -70,6 +70,7 @@ struct tt * tt_round(struct tt * a, double epsilon)
     double nrm = tt_norm(a);
     double delta = nrm * epsilon;
     if (a->dim > 1) delta = delta / sqrt(a->dim-1.0);
+    delta = delta * delta; // truncated_svd compares squared singular values
 
     double * s;
     double * vt;
-- 
2.43.0


From a7e119351d59b0ba2d295db816e14f3cc5ca9bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:27 +0000
Subject: [PATCH 33/51] fix: ttelem uses the size of each dimension

---
 c3/lib_tensdecomp/tensortrain.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_tensdecomp/tensortrain.c b/c3/lib_tensdecomp/tensortrain.c
index e3434a9..38c9c51 100755
--- a/c3/lib_tensdecomp/tensortrain.c
+++ b/c3/lib_tensdecomp/tensortrain.c
@@ -196,7 +196,7 @@ double ttelem(struct tt * ttc, size_t * elem)
         cblas_dgemv(CblasColMajor, CblasTrans, ttc->ranks[ii+1], 
                 ttc->ranks[ii+2], 1.0, 
                 ttc->cores[ii+1]->vals + elem[ii+1] * ttc->ranks[ii+1],
-                ttc->ranks[ii+1] * ttc->nvals[1],
+                ttc->ranks[ii+1] * ttc->nvals[ii+1],
                 vec, 1, 0.0, temp, 1);
 
         free(vec);
-- 
2.43.0


From fddee2057388f7723a77ce56f7e419b12580a6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:57 +0000
Subject: [PATCH 34/51] fix: tt_x builds cores of the right shape

---
 c3/lib_tensdecomp/tensortrain.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_tensdecomp/tensortrain.c b/c3/lib_tensdecomp/tensortrain.c
index 38c9c51..0b5778a 100755
--- a/c3/lib_tensdecomp/tensortrain.c
+++ b/c3/lib_tensdecomp/tensortrain.c
@@ -162,7 +162,7 @@ tt_x(const double * x, size_t dimx, size_t dim, size_t * nvals)
     // before dimx
     for (ii = 0; ii < dimx; ii++){
         new->ranks[ii] = 1;
-        new->cores[ii] = tensor_ones_3d(1,1,nvals[ii]);
+        new->cores[ii] = tensor_ones_3d(1,nvals[ii],1);
     }
     // dim x
     new->ranks[dimx] = 1;
@@ -171,7 +171,7 @@ tt_x(const double * x, size_t dimx, size_t dim, size_t * nvals)
     // after dimx
     for (ii = dimx+1; ii < dim; ii++){
         new->ranks[ii] = 1;
-        new->cores[ii] = tensor_ones_3d(1,1,nvals[ii]);
+        new->cores[ii] = tensor_ones_3d(1,nvals[ii],1);
     }
     new->ranks[dim] = 1;
     return new;
-- 
2.43.0


From 2d2ccf699321930d3fc9175ac9a7cb68ea556f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:25 +0000
Subject: [PATCH 35/51] fix: tensor_copy_3d transposes the extents

---
 c3/lib_tensor/tensor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_tensor/tensor.c b/c3/lib_tensor/tensor.c
index f39b60d..56f5830 100755
--- a/c3/lib_tensor/tensor.c
+++ b/c3/lib_tensor/tensor.c
@@ -470,7 +470,7 @@ struct tensor * tensor_copy_3d(const struct tensor * t, int transpose){
         nvals[0] = t->nvals[2];
         nvals[1] = t->nvals[1];
         nvals[2] = t->nvals[0];
-        init_tensor(&out, 3, t->nvals);
+        init_tensor(&out, 3, nvals);
         size_t ii,jj,kk;
         for (ii = 0; ii < nvals[0]; ii++){
             for (jj = 0; jj < nvals[1]; jj++){
-- 
2.43.0


From 4f0aaf9f1d103d1eb2116ad0c1df5e1cb4a7b1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:54 +0000
Subject: [PATCH 36/51] fix: right orthogonalisation of cores with more rows
 than columns

---
 c3/lib_tensdecomp/tensortrain.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/c3/lib_tensdecomp/tensortrain.c b/c3/lib_tensdecomp/tensortrain.c
index 0b5778a..27a75e1 100755
--- a/c3/lib_tensdecomp/tensortrain.c
+++ b/c3/lib_tensdecomp/tensortrain.c
@@ -336,6 +336,28 @@ struct tt * full_to_tt(const struct tensor * a, double epsilon)
 void right_ortho_core(struct tt ** a, size_t core){
     
     size_t jj;
+    size_t nr = (*a)->ranks[core];
+    size_t nc = (*a)->ranks[core+1] * (*a)->nvals[core];
+    if (nr > nc){ // more rows than columns: the core itself is the remainder
+        struct tensor * prev = (*a)->cores[core-1];
+        size_t np = (*a)->ranks[core-1] * (*a)->nvals[core-1];
+        double * vals = calloc_double(np * nc);
+        cblas_dgemm(CblasColMajor, CblasNoTrans, CblasNoTrans, np, nc, nr, 1.0,
+                    prev->vals, np, (*a)->cores[core]->vals, nr, 0.0, vals, np);
+        free(prev->vals);
+        prev->vals = vals;
+        prev->nvals[2] = nc;
+
+        free((*a)->cores[core]->vals);
+        (*a)->cores[core]->vals = calloc_double(nc * nc);
+        for (jj = 0; jj < nc; jj++){
+            (*a)->cores[core]->vals[jj * nc + jj] = 1.0;
+        }
+        (*a)->cores[core]->nvals[0] = nc;
+        (*a)->ranks[core] = nc;
+        return;
+    }
+
     double * r = calloc_double( (*a)->ranks[core] * (*a)->ranks[core] );
     for (jj = 0; jj < (*a)->ranks[core]; jj++){
         r[jj * (*a)->ranks[core] + jj] = 1.0;
-- 
2.43.0


From e447c4af218db8ac947b7129c85783bf39794517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:24 +0000
Subject: [PATCH 37/51] fix: right indices in cross approximation use the right
 rank

---
 c3/lib_tensdecomp/cross.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_tensdecomp/cross.c b/c3/lib_tensdecomp/cross.c
index 402db8a..d96104a 100755
--- a/c3/lib_tensdecomp/cross.c
+++ b/c3/lib_tensdecomp/cross.c
@@ -634,7 +634,7 @@ process_cores_rl(struct tt * a, size_t kk,
     }
     free(Atemp);
     
-    nValsMulti[0] = opts->ranks[kk];
+    nValsMulti[0] = opts->ranks[kk+1];
     nValsMulti[1] = opts->nvals[kk];
     size_t jj;
     //printf("core = %zu \n",kk);
-- 
2.43.0


From 7dfc289855d1931a7dbef3c54046c471e7c1b562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:55 +0000
Subject: [PATCH 38/51] fix: initial cross indices stay inside the tensor

---
 c3/lib_tensdecomp/cross.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/c3/lib_tensdecomp/cross.c b/c3/lib_tensdecomp/cross.c
index d96104a..19ccbc1 100755
--- a/c3/lib_tensdecomp/cross.c
+++ b/c3/lib_tensdecomp/cross.c
@@ -314,15 +314,15 @@ init_cross_opts(size_t dim, size_t *ranks, size_t *nvals)
 
 void create_naive_index_set(struct index_set * r, size_t * nvals)
 {   
-    size_t ii;
-    size_t onDim = 0;
+    size_t ii, jj, rem;
     for ( ii = 0; ii < r->N; ii++)
     {
-        if (nvals[onDim] < (ii+1)){
-            onDim += 1;
-        }
         if( r->indices[ii] != NULL){
-            r->indices[ii][onDim] =  ii;
+            rem = ii;
+            for (jj = 0; jj < r->dim; jj++){
+                r->indices[ii][jj] = rem % nvals[jj];
+                rem = rem / nvals[jj];
+            }
         }
     }   
 }
@@ -333,7 +333,7 @@ init_cross_opts_with_naive_set(size_t dim, size_t * ranks, size_t * nvals)
     struct tt_cross_opts * opt = init_cross_opts(dim, ranks, nvals);
     size_t ii;
     for (ii = 0; ii < opt->dim-1; ii++){
-        create_naive_index_set(opt->right[ii], nvals + ii);
+        create_naive_index_set(opt->right[ii], nvals + ii + 1);
         create_naive_index_set(opt->left[ii], nvals);
     }
     return opt;
@@ -873,7 +873,7 @@ tt_cross_adapt(void (*A)(size_t, size_t *, size_t, double *, void *),
         }
 
         for (ii = 0; ii < opts->dim-1; ii++){
-            create_naive_index_set(opts->right[ii], opts->nvals + ii);
+            create_naive_index_set(opts->right[ii], opts->nvals + ii + 1);
             create_naive_index_set(opts->left[ii], opts->nvals);
         }
         iter += 1;
-- 
2.43.0


From 07ac04df33d185b75449a3e5c6ba99b296933782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:23 +0000
Subject: [PATCH 39/51] fix: adaptive cross keeps ranks within the unfolding
 sizes

---
 c3/lib_tensdecomp/cross.c | 45 ++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/c3/lib_tensdecomp/cross.c b/c3/lib_tensdecomp/cross.c
index 19ccbc1..1624378 100755
--- a/c3/lib_tensdecomp/cross.c
+++ b/c3/lib_tensdecomp/cross.c
@@ -789,6 +789,36 @@ tt_cross(void (*A)(size_t, size_t *, size_t, double *, void *),
     return a;
 }
 
+// increase the ranks that rounding could not reduce, as far as the sizes of
+// the unfoldings permit; returns 1 if no rank changed
+static int 
+kick_ranks(struct tt_cross_opts * opts, const size_t * rounded, size_t kickrank)
+{
+    size_t ii;
+    int done = 1;
+    size_t * ranks = calloc_size_t(opts->dim+1);
+    memmove(ranks, opts->ranks, (opts->dim+1) * sizeof(size_t));
+    for (ii = 1; ii < opts->dim; ii++){
+        if (ranks[ii] == rounded[ii]) ranks[ii] += kickrank;
+    }
+    for (ii = 1; ii < opts->dim; ii++){
+        if (ranks[ii] > ranks[ii-1] * opts->nvals[ii-1]){
+            ranks[ii] = ranks[ii-1] * opts->nvals[ii-1];
+        }
+    }
+    for (ii = opts->dim-1; ii > 0; ii--){
+        if (ranks[ii] > ranks[ii+1] * opts->nvals[ii]){
+            ranks[ii] = ranks[ii+1] * opts->nvals[ii];
+        }
+    }
+    for (ii = 1; ii < opts->dim; ii++){
+        if (ranks[ii] > opts->ranks[ii]) done = 0;
+    }
+    memmove(opts->ranks, ranks, (opts->dim+1) * sizeof(size_t));
+    free(ranks);
+    return done;
+}
+
 struct tt *
 tt_cross_adapt(void (*A)(size_t, size_t *, size_t, double *, void *), 
     struct tt_cross_opts * opts, size_t kickrank, size_t maxiter, 
@@ -804,12 +834,7 @@ tt_cross_adapt(void (*A)(size_t, size_t *, size_t, double *, void *),
     a = tt_cross(A,opts,args);
     rounded = tt_round(a, epsilon);
     freett(a);
-    for (ii = 1; ii < rounded->dim; ii++){
-        if (opts->ranks[ii] == rounded->ranks[ii]) {
-            done = 0;
-            opts->ranks[ii] += kickrank;
-        }
-    }
+    done = kick_ranks(opts, rounded->ranks, kickrank);
     
     if (maxiter == 0){
         return rounded;
@@ -877,16 +902,10 @@ tt_cross_adapt(void (*A)(size_t, size_t *, size_t, double *, void *),
             create_naive_index_set(opts->left[ii], opts->nvals);
         }
         iter += 1;
-        done = 1;
         a = tt_cross(A,opts,args);
         rounded = tt_round(a, epsilon);
         freett(a);
-        for (ii = 1; ii < rounded->dim; ii++){
-            if (opts->ranks[ii] == rounded->ranks[ii]) {
-                done = 0;
-                opts->ranks[ii] += kickrank;
-            }
-        }
+        done = kick_ranks(opts, rounded->ranks, kickrank);
         if (iter > maxiter){
             done = 1;
         }
-- 
2.43.0


From a7ee34237a53971970aa82655d0981901680c67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:14 +0000
Subject: [PATCH 40/51] fix: turning centre adaptation off restores the number
 of kernel parameters

---
 c3/lib_funcs/kernels.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c3/lib_funcs/kernels.c b/c3/lib_funcs/kernels.c
index 2e517d7..e6fc94e 100644
--- a/c3/lib_funcs/kernels.c
+++ b/c3/lib_funcs/kernels.c
@@ -552,6 +552,9 @@ void kernel_approx_opts_set_center_adapt(struct KernelApproxOpts * opts,int adap
     if (adapt == 1){
         opts->nregress_params = 2*opts->nnodes;
     }
+    else{
+        opts->nregress_params = opts->nnodes;
+    }
 }
 
 /********************************************************//**
-- 
2.43.0


From 82f171a397bde8520481b3c27e74014c80f3ccda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:45 +0000
Subject: [PATCH 41/51] fix: ft_param_alloc without parameters takes those of
 its train

---
 c3/lib_superlearn/parameterization.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c3/lib_superlearn/parameterization.c b/c3/lib_superlearn/parameterization.c
index 9b9cff7..7482855 100644
--- a/c3/lib_superlearn/parameterization.c
+++ b/c3/lib_superlearn/parameterization.c
@@ -134,6 +134,9 @@ ft_param_alloc(size_t dim,
         memmove(ftr->params,params,ftr->nparams*sizeof(double));
         function_train_update_params(ftr->ft,ftr->params);
     }
+    else{
+        function_train_get_params(ftr->ft,ftr->params);
+    }
     return ftr;
 }
 
-- 
2.43.0


From 80595cbfa0ee572522d14f7356c8f883b6faf334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:14 +0000
Subject: [PATCH 42/51] fix: quantiles of the normal distribution

---
 c3/lib_probability/probability_utils.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c3/lib_probability/probability_utils.c b/c3/lib_probability/probability_utils.c
index 9e30a9c..4844f5b 100644
--- a/c3/lib_probability/probability_utils.c
+++ b/c3/lib_probability/probability_utils.c
@@ -114,7 +114,7 @@ double icdfnorm_rational(double pin)
     else if (p <= p_high){
         double r = p - 0.5;
         double q = r*r;
-        val = (((((a1*q+a2)*q + a3)*q + a4)*q + a5)*q + a6)*q;
+        val = (((((a1*q+a2)*q + a3)*q + a4)*q + a5)*q + a6)*r;
         val /= (((((b1*q + b2)*q + b3)*q + b4)*q + b5)*q + 1.0);
 
     }
@@ -144,7 +144,8 @@ double icdfnorm(double p)
     //printf("dval = %G\n",dval);
     val -= dval;
 
-    while (dval > 1e-15){
+    // quadratic convergence: a few corrections reach machine precision
+    for (size_t ii = 0; (ii < 10) && (fabs(dval) > 1e-15); ii++){
 
         e = 0.5 * erfc(-val/sqrt(2.0))-p;
         u = e * sqrt(2.0*M_PI) * exp(val * val / 2.0);
-- 
2.43.0


From 2feee2d5b2b76fb721a3375e8180979fd6b46426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:56 +0000
Subject: [PATCH 43/51] fix: copying a linear transform copies its matrix type

---
 c3/lib_probability/probability.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c3/lib_probability/probability.c b/c3/lib_probability/probability.c
index 1927569..99f37a5 100755
--- a/c3/lib_probability/probability.c
+++ b/c3/lib_probability/probability.c
@@ -652,7 +652,9 @@ struct LinearTransform * linear_transform_copy(struct LinearTransform * lt)
         newlt->binv = calloc_double(lt->dimin);
         memmove(newlt->binv, lt->binv, lt->dimin * sizeof(double));
         newlt->detinv = lt->detinv;
+        newlt->mti = lt->mti;
     }
+    newlt->mt = lt->mt;
     return newlt;
     
 }
-- 
2.43.0


From 93ec9f28931943c2a9d4d83823702779ede2724e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:14 +0000
Subject: [PATCH 44/51] fix: densities without a transform can be serialized

---
 c3/lib_probability/probability.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/c3/lib_probability/probability.c b/c3/lib_probability/probability.c
index 99f37a5..16fd062 100755
--- a/c3/lib_probability/probability.c
+++ b/c3/lib_probability/probability.c
@@ -891,9 +891,11 @@ probability_density_serialize(unsigned char * ser,
     assert(pdf->extra == NULL);
     size_t totSize;
     if (totSizeIn != NULL){
-        size_t size_pdf, size_lt;
+        size_t size_pdf, size_lt = 0;
         function_train_serialize(NULL,pdf->pdf,&size_pdf);
-        linear_transform_serialize(NULL,pdf->lt,&size_lt);
+        if (pdf->transform == 1){
+            linear_transform_serialize(NULL,pdf->lt,&size_lt);
+        }
         totSize = size_pdf + size_lt + sizeof(int) + sizeof(enum pdf_type);
         *totSizeIn = totSize;
         return ser;
@@ -903,7 +905,9 @@ probability_density_serialize(unsigned char * ser,
     ptr = serialize_int(ptr,pdf->transform);
     ptr = serialize_int(ptr,pdf->type);
     ptr = function_train_serialize(ptr,pdf->pdf,NULL);
-    ptr = linear_transform_serialize(ptr,pdf->lt,NULL);
+    if (pdf->transform == 1){
+        ptr = linear_transform_serialize(ptr,pdf->lt,NULL);
+    }
     return ptr;
 }
 
@@ -926,7 +930,9 @@ probability_density_deserialize(unsigned char * ser,
     ptr = deserialize_int(ptr,&ptype);
     (*pdf)->type = (enum pdf_type) ptype;
     ptr = function_train_deserialize(ptr,&((*pdf)->pdf));
-    ptr = linear_transform_deserialize(ptr,&((*pdf)->lt));
+    if ((*pdf)->transform == 1){
+        ptr = linear_transform_deserialize(ptr,&((*pdf)->lt));
+    }
     
     return ptr;
 }
-- 
2.43.0


From 0e77c006c6e14b06596ea5e42949861ed044e653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:33 +0000
Subject: [PATCH 45/51] fix: normal densities can be built

---
 c3/lib_probability/probability.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c3/lib_probability/probability.c b/c3/lib_probability/probability.c
index 16fd062..098f858 100755
--- a/c3/lib_probability/probability.c
+++ b/c3/lib_probability/probability.c
@@ -1072,7 +1072,8 @@ struct ProbabilityDensity * probability_density_standard_normal(size_t dim)
     /* struct FtApproxArgs * fapp = c3approx_get_approx_args(c3a); */
     
     struct ProbabilityDensity * pdf = probability_density_alloc();
-    struct Fwrap * fw = fwrap_create(1,"MOVEC");
+    multi_approx_opts_set_all_same(fopts,qmopts);
+    struct Fwrap * fw = fwrap_create(1,"mo-vec");
     fwrap_set_mofvec(fw,pdf_stdmvn_helper,&dim);
     
     pdf->pdf = function_train_rankone(fopts,fw);
-- 
2.43.0


From d2d95d17af67dbc1c5e7cd80e5d6290e62a6a2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:33 +0000
Subject: [PATCH 46/51] fix: sampling a density without a transform

---
 c3/lib_probability/probability.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c3/lib_probability/probability.c b/c3/lib_probability/probability.c
index 098f858..b43f9ef 100755
--- a/c3/lib_probability/probability.c
+++ b/c3/lib_probability/probability.c
@@ -1152,6 +1152,9 @@ double * probability_density_sample(struct ProbabilityDensity * pdf)
         for (ii = 0; ii < dim; ii++){
             norm[ii] = randn();
         }
+        if (pdf->transform == 0){
+            return norm;
+        }
         out = linear_transform_apply(dim,dim,pdf->lt->A,
                             norm,pdf->lt->b);
         free(norm); norm = NULL;
-- 
2.43.0


From 4b4344f3d9868fc4bc404a4d905a3daa3f58b723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:50 +0000
Subject: [PATCH 47/51] fix: probability_density_laplace frees its optimizer

---
 c3/lib_probability/probability.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c3/lib_probability/probability.c b/c3/lib_probability/probability.c
index b43f9ef..9e3c3da 100755
--- a/c3/lib_probability/probability.c
+++ b/c3/lib_probability/probability.c
@@ -1217,6 +1217,9 @@ probability_density_laplace(double (*f)(size_t,const double *,double*,void *),
     free(mean); mean = NULL;
     free(hess); hess = NULL;
     free(cov); cov= NULL;
+    free(lb); lb = NULL;
+    free(ub); ub = NULL;
+    c3opt_free(opt); opt = NULL;
     
     return pdf;
 }
-- 
2.43.0


From 6f11ecedc596897e1a6aef84b1fc7fe75aada100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:29 +0000
Subject: [PATCH 48/51] fix: evaluating up to a core includes that core

---
 c3/lib_clinalg/ft.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index e0addc3..cdb3d23 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -700,7 +700,7 @@ void function_train_eval_up_to_core(struct FunctionTrain * ft, size_t core, cons
         ft->cores[ii]->funcs, x[ii],t1);
     
     int onsol = 1;
-    for (ii = 1; ii < core; ii++){
+    for (ii = 1; ii <= core; ii++){
         if (ii%2 == 1){
             function_train_eval_next_core(ft,ii,1,x+ii,0,t1,0,t2,0,t3,0); // zeros because only 1 data point
             onsol = 2;
-- 
2.43.0


From 94adc842442b507a301724495f27c8f07f5d3ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:49 +0000
Subject: [PATCH 49/51] fix: c3vgemv_arr scales the result once

---
 c3/lib_clinalg/ft.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index cdb3d23..98b7381 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -4783,12 +4783,12 @@ void c3vgemv_arr(int trans, size_t m, size_t n, double alpha, double * A,
         
     if (trans == 0){
         for (ii = 0; ii < m; ii++){
-            c3vaxpy_arr(n,alpha,B,incb,A+ii,lda,beta,&((*y)->ft[ii*incy]),epsilon, opts);
+            c3vaxpy_arr(n,alpha,B,incb,A+ii,lda,1.0,&((*y)->ft[ii*incy]),epsilon, opts);
         }
     }
     else if (trans == 1){
         for (ii = 0; ii < m; ii++){
-            c3vaxpy_arr(n,alpha,B,incb,A+ii*lda,1,beta,&((*y)->ft[ii*incy]),epsilon, opts);
+            c3vaxpy_arr(n,alpha,B,incb,A+ii*lda,1,1.0,&((*y)->ft[ii*incy]),epsilon, opts);
         }
     }
 }
-- 
2.43.0


From dae19be9218568786269fccc57d310d2291f1afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:08 +0000
Subject: [PATCH 50/51] fix: c3vgemv accumulates into its result

---
 c3/lib_clinalg/ft.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 98b7381..5f38d8e 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -4751,15 +4751,11 @@ void c3vgemv(size_t m, size_t n, double alpha, struct FT1DArray * A, size_t lda,
     assert (*y != NULL);
     ft1d_array_scale(*y,m,incy,beta);
     
-    struct FT1DArray * run = ft1d_array_alloc(m);
     for (ii = 0; ii < m; ii++){
         struct FT1DArray ftatemp;
         ftatemp.ft = A->ft+ii;
-        c3vprodsum(n,1.0,&ftatemp,lda,x,incx,0.0,&(run->ft[ii*incy]),epsilon, opts);
+        c3vprodsum(n,alpha,&ftatemp,lda,x,incx,1.0,&((*y)->ft[ii*incy]),epsilon, opts);
     }
-    c3vaxpy(m,alpha,run,1,y,incy,epsilon, opts);
-
-    ft1d_array_free(run); run = NULL;
 }
 
 /***********************************************************//**
-- 
2.43.0


From bba395990c379094358c9d6d3b6865d67157f174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:33 +0000
Subject: [PATCH 51/51] fix: c3gemv updates the train of the caller

---
 c3/lib_clinalg/ft.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 5f38d8e..eea6fad 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -4613,6 +4613,7 @@ void c3gemv(double alpha, size_t n, struct FT1DArray * A, size_t inca,
     size_t ii;
     assert (y != NULL);
     function_train_scale(y,beta);
+    struct FunctionTrain * out = function_train_copy(y);
     
 
     if (epsilon > 0){
@@ -4626,7 +4627,7 @@ void c3gemv(double alpha, size_t n, struct FT1DArray * A, size_t inca,
             function_train_free(temp); temp = NULL;
             function_train_free(tempround); tempround = NULL;
         }
-        c3axpy(alpha,run,&y,epsilon,opts);
+        c3axpy(alpha,run,&out,epsilon,opts);
         function_train_free(run); run = NULL;
         function_train_free(runinit); runinit = NULL;
     }
@@ -4638,9 +4639,15 @@ void c3gemv(double alpha, size_t n, struct FT1DArray * A, size_t inca,
             c3axpy(1.0,temp,&run,epsilon,opts);
             function_train_free(temp); temp = NULL;
         }
-        c3axpy(alpha,run,&y,epsilon,opts);
+        c3axpy(alpha,run,&out,epsilon,opts);
         function_train_free(run); run = NULL;
     }
+
+    // the caller keeps y, so it receives the contents of the result
+    struct FunctionTrain old = *y;
+    *y = *out;
+    *out = old;
+    function_train_free(out); out = NULL;
        
 }
 
-- 
2.43.0

