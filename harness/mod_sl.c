/* parameterised function trains and learning */
#include "driver.h"
#include "driver_ft.h"
#include "parameterization.h"
#include "objective_functions.h"
#include "superlearn_util.h"
#include "superlearn.h"
#include "learning_options.h"
#include "regress.h"
static struct FTparam *PP_[NSLOT];
void sl_reset(void) { for (int i = 0; i < NSLOT; i++) if (PP_[i]) { ft_param_free(PP_[i]); PP_[i] = NULL; } }
static void p_put(size_t s, struct FTparam *p) { if (PP_[s]) ft_param_free(PP_[s]); PP_[s] = p; }
static struct FTparam *pslot(void) { size_t s = slotno(); if (!PP_[s]) fail("no parameterisation in slot %zu", s); return PP_[s]; }
static size_t npar(const size_t *rk) { size_t np = 0; for (size_t k = 0; k < G_d; k++) np += rk[k] * rk[k + 1] * G_n[k]; return np; }

static void c_pmk(void)
{
    size_t s = slotno(); long has = inum(); size_t *rk = unums(G_d + 1); double *p = has ? nums(npar(rk)) : NULL;
    p_put(s, ft_param_alloc(G_d, G_opts, p, rk));
}
static void c_pft(void)
{
    size_t s = slotno(); size_t *rk = unums(G_d + 1); double *p = nums(npar(rk));
    struct FunctionTrain *f = function_train_zeros(G_opts, rk); function_train_update_params(f, p);
    p_put(s, ft_param_alloc_with_ft(f, G_opts));
}
static void c_pcp(void) { size_t s = slotno(); struct FTparam *a = pslot(); p_put(s, ft_param_copy(a)); }
static void c_pfree(void) { size_t s = slotno(); p_put(s, NULL); }
static void c_pdump(void)
{
    struct FTparam *f = pslot(); size_t ask = unum(), n = ft_param_get_nparams(f);
    outi("nparams", (long)n); outz("percore", ft_param_get_dim(f), ft_param_get_nparams_per_core(f));
    double *v = malloc((n + ask + 1) * sizeof *v); size_t got = ft_param_get_params(f, ask, v);
    outi("got", (long)got); out("params", got, v);
    for (size_t i = 0; i < n; i++) v[i] = ft_param_get_param(f, i);
    out("single", n, v); out("ref", n, ft_param_get_params_ref(f));
    size_t m = function_train_get_params(ft_param_get_ft(f), v); out("train", m, v);
    free(v); ft_dump("", ft_param_get_ft(f));
}
static void c_pupd(void)
{
    struct FTparam *f = pslot(); long how = inum(); size_t n = ft_param_get_nparams(f); double *p = nums(n);
    if (how == 0) ft_param_update_params(f, p);
    else { memcpy(ft_param_get_params_ref(f), p, n * sizeof *p); ft_param_self_update_params(f); }
}
static void c_pcore(void) { struct FTparam *f = pslot(); size_t k = unum(); ft_param_update_core_params(f, k, nums(ft_param_get_nparams_per_core(f)[k])); }
static void rest_(int inside)
{
    struct FTparam *f = pslot(); size_t *b = unums(G_d); size_t m = unum(); double *v = nums(m);
    outi("outside", (long)ft_param_get_nparams_restrict(f, b));
    if (inside) ft_param_update_inside_restricted_ranks(f, v, b); else ft_param_update_restricted_ranks(f, v, b);
}
static void c_prest(void) { rest_(0); }
static void c_pin(void) { rest_(1); }
static void c_pgrad(void)
{
    struct FTparam *f = pslot(); size_t m = unum(), n = ft_param_get_nparams(f); double *x = nums(m * G_d);
    double *g = malloc(m * n * sizeof *g), *ge = calloc(n, sizeof *ge), *mem = calloc(2 * n, sizeof *mem), *ev = calloc(2 * n, sizeof *ev), *v = calloc(m, sizeof *v);
    for (size_t i = 0; i < m * n; i++) g[i] = 1e5;
    for (size_t i = 0; i < m; i++) v[i] = ft_param_gradeval(f, x + i * G_d, g + i * n, ge, mem, ev);
    out("val", m, v); out("grad", m * n, g);
    for (size_t i = 0; i < m * n; i++) g[i] = 1e5;
    ft_param_gradevals(f, m, x, g, ge, mem, ev); out("grads", m * n, g);
    free(g); free(ge); free(mem); free(ev); free(v);
}
/* gradients of all univariate functions at the point, in parameter order */
static void bases(struct FTparam *f, const double *x, double *b)
{
    struct FunctionTrain *ft = ft_param_get_ft(f); size_t o = 0;
    for (size_t k = 0; k < G_d; k++) {
        struct Qmarray *q = function_train_get_core(ft, k);
        for (size_t j = 0; j < qmarray_get_ncols(q); j++) for (size_t i = 0; i < qmarray_get_nrows(q); i++) {
            struct GenericFunction *h = qmarray_get_func(q, i, j); generic_function_param_grad_eval(h, 1, x + k, b + o); o += generic_function_get_num_params(h);
        }
    }
}
static void c_plin(void)
{
    struct FTparam *f = pslot(); size_t m = unum(), n = ft_param_get_nparams(f); double *x = nums(m * G_d);
    outi("linear", ft_param_extract_structure(f) == LINEAR_ST);
    struct SLMemManager *sm = sl_mem_manager_alloc(G_d, m, n, LINEAR_ST);
    sl_mem_manager_check_structure(sm, f, x);
    if (!sl_mem_manager_gradient_precomputedp(sm)) fail("bases were not precomputed");
    double *b = sl_mem_manager_get_lin_structure_vals(sm), *g = malloc(m * n * sizeof *g), *v = calloc(m, sizeof *v), *e = calloc(m, sizeof *e), *mem = calloc(2 * n, sizeof *mem), *ev = calloc(2 * n, sizeof *ev);
    for (size_t i = 0; i < m; i++) { e[i] = ft_param_eval_lin(f, b + i * n, mem); v[i] = ft_param_gradeval_lin(f, b + i * n, g + i * n, mem, ev); }
    out("eval", m, e); out("val", m, v); out("grad", m * n, g);
    free(g); free(v); free(e); free(mem); free(ev); sl_mem_manager_free(sm);
}
static void c_psweep(void)
{
    struct FTparam *f = pslot(); size_t c = unum(); long lin = inum(); double *x = nums(G_d); struct FunctionTrain *ft = ft_param_get_ft(f);
    size_t n = ft_param_get_nparams(f), mr = function_train_get_maxrank(ft); double *ev = calloc(mr * mr, sizeof *ev), *b = calloc(n, sizeof *b), *L = calloc(mr, sizeof *L), *R = calloc(mr, sizeof *R), *T = calloc(mr, sizeof *T);
    bases(f, x, b);
    for (size_t k = 0; k < c; k++) {
        if (lin) process_sweep_left_right_lin(f, k, b, k ? L : NULL, T); else process_sweep_left_right(f, k, x[k], ev, k ? L : NULL, T);
        memcpy(L, T, mr * sizeof *L);
    }
    for (size_t k = G_d; k-- > c + 1;) {
        if (lin) process_sweep_right_left_lin(f, k, b, k + 1 < G_d ? R : NULL, T); else process_sweep_right_left(f, k, x[k], ev, k + 1 < G_d ? R : NULL, T);
        memcpy(R, T, mr * sizeof *R);
    }
    if (c == 0) L[0] = 1;
    if (c + 1 == G_d) R[0] = 1;
    out("lr", function_train_get_rank(ft, c), L); out("rl", function_train_get_rank(ft, c + 1), R);
    size_t nc = ft_param_get_nparams_per_core(f)[c]; double *g = calloc(nc, sizeof *g); double v;
    if (lin) { outbegin("eval"); outd(ft_param_core_eval_lin(f, c, c ? L : NULL, c + 1 < G_d ? R : NULL, b)); outend(); v = ft_param_core_gradeval_lin(f, c, g, c ? L : NULL, c + 1 < G_d ? R : NULL, b); }
    else v = ft_param_core_gradeval(f, c, x[c], g, c ? L : NULL, c + 1 < G_d ? R : NULL, b);
    out1("val", v); out("grad", nc, g);
    free(ev); free(b); free(L); free(R); free(T); free(g);
}
static void c_phess(void)
{
    struct FTparam *f = pslot(); double *x = nums(G_d); size_t n = ft_param_get_nparams(f); double *v = nums(n), *h = malloc(n * sizeof *h);
    for (size_t i = 0; i < n; i++) h[i] = 1e5;
    ft_param_hessvec(f, x, v, h); out("hv", n, h); free(h);
}
static void c_psq(void)
{
    struct FTparam *f = pslot(); long g = inum(); double g0 = num(); double *w = nums(G_d); size_t n = ft_param_get_nparams(f);
    double *gr = malloc(n * sizeof *gr); for (size_t i = 0; i < n; i++) gr[i] = g0;
    out1("val", function_train_param_grad_sqnorm(ft_param_get_ft(f), w, g ? gr : NULL)); if (g) out("grad", n, gr); free(gr);
}
/* do the stored parameters and those of the train agree ? */
static long differ(struct FTparam *f)
{
    size_t n = ft_param_get_nparams(f); double *v = malloc(n * sizeof *v); size_t m = function_train_get_params(ft_param_get_ft(f), v); long bad = m != n;
    for (size_t i = 0; i < n && !bad; i++) if (!(v[i] == ft_param_get_param(f, i))) bad = 1;
    free(v); return bad;
}
static void c_pconst(void)
{
    struct FTparam *f = ft_param_copy(pslot()); double c = num(), pert = num(); size_t n = ft_param_get_nparams(f);
    ft_param_create_constant(f, c, 0.0); double *base = malloc(n * sizeof *base); ft_param_get_params(f, n, base);
    if (pert > 0) { ft_param_create_constant(f, c, pert); }
    double w = 0; for (size_t i = 0; i < n; i++) { double e = fabs(ft_param_get_param(f, i) - base[i]); if (!(e <= w)) w = e; }
    outi("differ", differ(f)); ft_dump("", ft_param_get_ft(f)); out1("moved", w);
    free(base); ft_param_free(f);
}
static void c_plsl(void)
{
    struct FTparam *f = ft_param_copy(pslot()); size_t N = unum(); double *x = nums(N * G_d), *y = nums(N);
    ft_param_create_from_lin_ls(f, N, x, y, 0.0, NULL);
    outi("differ", differ(f)); ft_dump("", ft_param_get_ft(f)); ft_param_free(f);
}
/* least-squares objective with the driver's own evaluation of the parameterisation as the mapping */
struct PPx { struct FTparam *ftp; struct RegressOpts *opts; };
static double *MX, *ME, *MG;
static int mapping(size_t np, const double *param, size_t N, size_t *ind, struct SLMemManager *mem, struct Data *data, double **evals, double **grads, void *args)
{
    struct PPx *pp = args; (void)mem; (void)data; ft_param_update_params(pp->ftp, param);
    double *ge = calloc(np, sizeof *ge), *m1 = calloc(2 * np, sizeof *m1), *m2 = calloc(2 * np, sizeof *m2);
    for (size_t i = 0; i < N; i++) {
        const double *x = MX + (ind ? ind[i] : i) * G_d;
        if (grads) ME[i] = ft_param_gradeval(pp->ftp, x, MG + i * np, ge, m1, m2); else ME[i] = function_train_eval(ft_param_get_ft(pp->ftp), x);
    }
    *evals = ME; if (grads) *grads = MG; free(ge); free(m1); free(m2); return 0;
}
static double zero_obj(size_t np, const double *p, double *g, size_t N, size_t *ind, struct Data *d, struct SLMemManager *m, void *a) { (void)np; (void)p; (void)g; (void)N; (void)ind; (void)d; (void)m; (void)a; return 0.0; }
static void c_pobj(void)
{
    struct FTparam *f = pslot(); size_t n = ft_param_get_nparams(f), N = unum(); double *x = nums(N * G_d), *y = nums(N); long uw = inum(); double *w = uw ? nums(N) : NULL;
    size_t m = unum(); size_t *idx = m ? unums(m) : NULL; size_t M = m ? m : N;
    struct RegressOpts *ro = regress_opts_create(G_d, AIO, FTLS); if (w) regress_opts_set_sample_weights(ro, w);
    struct PPx pp = { f, ro }; struct LeastSquaresArgs la = { mapping, &pp };
    struct Data *data = data_alloc(N, G_d); data_set_xy(data, x, y);
    MX = x; ME = calloc(M, sizeof(double)); MG = calloc(M * n, sizeof(double));
    struct ObjectiveFunction *obj = NULL; objective_function_add(&obj, 1.0, c3_objective_function_least_squares, &la); objective_function_add(&obj, 3.0, zero_obj, NULL);
    struct SLP slp; memset(&slp, 0, sizeof slp); slp.objective_function = obj; slp.data = data; slp.nparams = n;
    double *p = calloc(n, sizeof *p), *g = malloc(n * sizeof *g); ft_param_get_params(f, n, p);
    for (size_t i = 0; i < n; i++) g[i] = 1e5;
    double v = objective_eval(n, p, g, M, idx, &slp); out1("val", v); out1("val2", objective_eval(n, p, NULL, M, idx, &slp)); out("grad", n, g);
    free(p); free(g); free(ME); free(MG); objective_function_free(&obj); data_free(data); regress_opts_free(ro);
}
static struct c3Opt *mkopt(const char *alg, long ls, size_t n, size_t maxit)
{
    struct c3Opt *o = c3opt_alloc(!strcmp(alg, "bfgs") ? BFGS : LBFGS, n);
    c3opt_set_verbose(o, 0); c3opt_set_maxiter(o, maxit); c3opt_set_gtol(o, 1e-12); c3opt_set_relftol(o, 1e-15); c3opt_set_absxtol(o, 1e-15);
    if (ls == 1) c3opt_ls_set_alg(o, BACKTRACK); else if (ls == 2) c3opt_ls_set_alg(o, WEAKWOLFE);
    return o;
}
static void c_prun(void)
{
    struct FTparam *f = pslot(); const char *typ = tok(); long reg = inum(); double lam = num(); const char *alg = tok(); long ls = inum(); size_t swp = unum(), N = unum();
    double *x = nums(N * G_d), *y = nums(N); long uw = inum(); double *w = uw ? nums(N) : NULL; size_t n = ft_param_get_nparams(f);
    struct FTRegress *r = ft_regress_alloc(G_d, G_opts, function_train_get_ranks(ft_param_get_ft(f)));
    ft_regress_set_alg_and_obj(r, !strcmp(typ, "aio") ? AIO : ALS, reg ? FTLS_SPARSEL2 : FTLS); if (reg) ft_regress_set_regularization_weight(r, lam);
    ft_regress_set_seed(r, 3); ft_regress_set_max_als_sweep(r, swp); ft_regress_set_als_conv_tol(r, 0.0); if (w) ft_regress_set_sample_weights(r, w);
    ft_regress_update_params(r, ft_param_get_params_ref(f));
    struct c3Opt *o = mkopt(alg, ls, n, 400); c3opt_set_storage_options(o, 1, 0, 0);
    struct FunctionTrain *ft = ft_regress_run(r, o, N, x, y);
    size_t np; double *p = ft_regress_get_params(r, &np), *q = malloc((np + n) * sizeof *q); size_t nq = function_train_get_params(ft, q);
    outbegin("run"); size_t ne = !strcmp(typ, "aio") ? c3opt_get_niters(o) : ft_regress_get_nepochs(r);
    outd((double)ne); for (size_t i = 0; i < ne; i++) outd(!strcmp(typ, "aio") ? c3opt_get_stored_function(o, i) : ft_regress_get_stored_fvals(r, i));
    for (size_t i = 0; i < nq; i++) outd(q[i]);
    outend();
    long bad = nq != np; for (size_t i = 0; i < nq && !bad; i++) if (!(p[i] == q[i])) bad = 1;
    outi("differ", bad);
    free(p); free(q); function_train_free(ft); c3opt_free(o); ft_regress_free(r);
}
/* stochastic descent over the samples of a regression problem */
static void c_psgd(void)
{
    struct FTparam *f = pslot(); long reg = inum(); double lam = num(); size_t ne = unum(); double rate = num(); size_t N = unum();
    double *x = nums(N * G_d), *y = nums(N); long uw = inum(); double *w = uw ? nums(N) : NULL; size_t n = ft_param_get_nparams(f);
    struct FTRegress *r = ft_regress_alloc(G_d, G_opts, function_train_get_ranks(ft_param_get_ft(f)));
    ft_regress_set_alg_and_obj(r, AIO, reg ? FTLS_SPARSEL2 : FTLS); if (reg) ft_regress_set_regularization_weight(r, lam);
    ft_regress_set_seed(r, 3); if (w) ft_regress_set_sample_weights(r, w);
    ft_regress_update_params(r, ft_param_get_params_ref(f));
    struct c3Opt *o = c3opt_create(SGD); c3opt_set_verbose(o, 0); c3opt_set_maxiter(o, ne); c3opt_set_gtol(o, 0); c3opt_set_relftol(o, 0); c3opt_set_absxtol(o, 0);
    c3opt_set_sgd_nsamples(o, N); c3opt_set_sgd_learn_rate(o, rate); c3opt_set_nvars(o, n); c3opt_set_storage_options(o, 1, 0, 0);
    struct FunctionTrain *ft = ft_regress_run(r, o, N, x, y);
    size_t np; double *p = ft_regress_get_params(r, &np), *q = malloc((np + n) * sizeof *q); size_t nq = function_train_get_params(ft, q);
    outbegin("run"); size_t ns = c3opt_get_niters(o);
    outd((double)ns); for (size_t i = 0; i < ns; i++) outd(c3opt_get_stored_function(o, i));
    for (size_t i = 0; i < nq; i++) outd(q[i]);
    outend();
    long bad = nq != np; for (size_t i = 0; i < nq && !bad; i++) if (!(p[i] == q[i])) bad = 1;
    outi("differ", bad);
    free(p); free(q); function_train_free(ft); c3opt_free(o); ft_regress_free(r);
}
static void c_pcv(void)
{
    struct FTparam *f = pslot(); double lam = num(); size_t kf = unum(), N = unum(); double *x = nums(N * G_d), *y = nums(N); size_t n = ft_param_get_nparams(f);
    struct FTRegress *r = ft_regress_alloc(G_d, G_opts, function_train_get_ranks(ft_param_get_ft(f)));
    ft_regress_set_alg_and_obj(r, ALS, FTLS_SPARSEL2); ft_regress_set_regularization_weight(r, lam); ft_regress_set_seed(r, 3); ft_regress_set_max_als_sweep(r, 1);
    ft_regress_update_params(r, ft_param_get_params_ref(f));
    struct c3Opt *o = mkopt("bfgs", 0, n, 400);
    struct CrossValidate *cv = cross_validate_init(N, G_d, x, y, kf, 0);
    out1("err", cross_validate_run(cv, r, o));
    size_t np; double *p = ft_regress_get_params(r, &np); out("params", np, p); free(p);
    cross_validate_free(cv); c3opt_free(o); ft_regress_free(r);
}

static double relfit(struct FunctionTrain *ft, size_t N, const double *x, const double *y)
{
    double e = 0, s = 0; for (size_t i = 0; i < N; i++) { double v = function_train_eval(ft, x + i * G_d) - y[i]; e += v * v; s += y[i] * y[i]; }
    return sqrt(e / (s > 0 ? s : 1));
}
static void ranks_out(const char *k, struct FunctionTrain *ft) { outbegin(k); for (size_t i = 0; i <= G_d; i++) outd((double)function_train_get_ranks(ft)[i]); outend(); }
static long differs(struct FTRegress *r, struct FunctionTrain *ft)
{
    size_t np; double *p = ft_regress_get_params(r, &np); size_t m = function_train_get_nparams(ft); double *q = malloc((m + 1) * sizeof *q); function_train_get_params(ft, q);
    long bad = m != np; for (size_t i = 0; i < m && !bad; i++) if (!(p[i] == q[i])) bad = 1;
    free(p); free(q); return bad;
}
static struct FTRegress *mkreg(const char *typ, double lam, size_t *ranks)
{
    struct FTRegress *r = ft_regress_alloc(G_d, G_opts, ranks);
    ft_regress_set_alg_and_obj(r, !strcmp(typ, "aio") ? AIO : ALS, lam > 0 ? FTLS_SPARSEL2 : FTLS); if (lam > 0) ft_regress_set_regularization_weight(r, lam);
    ft_regress_set_seed(r, 3); ft_regress_set_max_als_sweep(r, 20); ft_regress_set_als_conv_tol(r, 1e-12);
    return r;
}
/* the same data fitted with fixed ranks and with rank adaptation, both from the parameters of a slot (or from nothing) */
static void c_padapt(void)
{
    long s = inum(); const char *typ = tok(); double lam = num(); size_t maxr = unum(), kick = unum(), kf = unum(); long fin = inum(), res = inum(); double tol = num(); size_t N = unum();
    double *x = nums(N * G_d), *y = nums(N); size_t one[32]; for (size_t i = 0; i < 32; i++) one[i] = 1;
    struct FTparam *f = s >= 0 ? PP_[s] : NULL; size_t *rk = f ? function_train_get_ranks(ft_param_get_ft(f)) : one;
    struct FTRegress *a = mkreg(typ, lam, rk), *b = mkreg(typ, lam, rk);
    if (f) { ft_regress_update_params(a, ft_param_get_params_ref(f)); ft_regress_update_params(b, ft_param_get_params_ref(f)); }
    size_t n = ft_param_get_nparams(ft_regress_get_ft_param(a));
    ft_regress_set_adapt(b, 1); ft_regress_set_maxrank(b, maxr); ft_regress_set_kickrank(b, kick); ft_regress_set_kfold(b, kf); ft_regress_set_finalize(b, (int)fin); ft_regress_set_opt_restrict(b, (int)res); ft_regress_set_roundtol(b, tol);
    struct c3Opt *o = mkopt("bfgs", 0, n, 400);
    struct FunctionTrain *fa = ft_regress_run(a, o, N, x, y);
    c3opt_free(o); o = mkopt("bfgs", 0, n, 400);
    struct FunctionTrain *fb = ft_regress_run(b, o, N, x, y);
    ranks_out("ranks", fb); outi("differ", differs(b, fb)); out1("plain", relfit(fa, N, x, y)); out1("adapt", relfit(fb, N, x, y));
    outbegin("gap"); double g = 0, m = 0; for (size_t i = 0; i < N; i++) { double u = function_train_eval(fa, x + i * G_d), v = function_train_eval(fb, x + i * G_d); g += (u - v) * (u - v); m += u * u; } outd(sqrt(g)); outd(sqrt(m)); outend();
    struct FunctionTrain *fc = ft_regress_run(b, o, N, x, y); ranks_out("ranks2", fc); outi("differ2", differs(b, fc));
    function_train_free(fa); function_train_free(fb); function_train_free(fc); c3opt_free(o); ft_regress_free(a); ft_regress_free(b);
}
/* grid search over hyper-parameters: k names, for each the number of values and the values */
static void c_pgrid(void)
{
    const char *typ = tok(); double lam = num(); size_t kf = unum(), N = unum(); double *x = nums(N * G_d), *y = nums(N); size_t k = unum(); size_t one[32]; for (size_t i = 0; i < 32; i++) one[i] = 1;
    struct FTRegress *r = mkreg(typ, lam, one); struct c3Opt *o = mkopt("bfgs", 0, ft_param_get_nparams(ft_regress_get_ft_param(r)), 123);
    struct CrossValidate *cv = cross_validate_init(N, G_d, x, y, kf, 0); struct CVOptGrid *g = cv_opt_grid_init(k);
    for (size_t i = 0; i < k; i++) {
        char nm[32]; snprintf(nm, sizeof nm, "%s", tok()); size_t m = unum();
        if (!strcmp(nm, "reg_weight")) { double *v = nums(m); cv_opt_grid_add_param(g, nm, m, v); } else { size_t *v = unums(m); cv_opt_grid_add_param(g, nm, m, v); }
    }
    cross_validate_grid_opt(cv, g, r, o);
    ranks_out("ranks", ft_param_get_ft(ft_regress_get_ft_param(r))); outi("maxiter", (long)c3opt_get_maxiter(o)); if (lam > 0) out1("reg", ft_regress_get_regularization_weight(r));
    struct FunctionTrain *ft = ft_regress_run(r, o, N, x, y); out1("fit", relfit(ft, N, x, y)); outi("differ", differs(r, ft));
    function_train_free(ft); cv_opt_grid_free(g); cross_validate_free(cv); c3opt_free(o); ft_regress_free(r);
}
struct cmd sl_cmds[] = {
    {"padapt", c_padapt}, {"pgrid", c_pgrid},
    {"pmk", c_pmk}, {"pft", c_pft}, {"pcp", c_pcp}, {"pfree", c_pfree}, {"pdump", c_pdump}, {"pupd", c_pupd}, {"pcore", c_pcore}, {"prest", c_prest}, {"pin", c_pin},
    {"pgrad", c_pgrad}, {"plin", c_plin}, {"psweep", c_psweep}, {"phess", c_phess}, {"psq", c_psq}, {"pconst", c_pconst}, {"plsl", c_plsl}, {"pobj", c_pobj}, {"prun", c_prun}, {"pcv", c_pcv}, {"psgd", c_psgd},
    {NULL, NULL} };
