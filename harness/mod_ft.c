#include "driver.h"
#include "driver_ft.h"
#include <unistd.h>
size_t G_d; int G_fam[MAXD]; size_t G_n[MAXD]; double *G_x[MAXD]; struct MultiApproxOpts *G_opts;
static struct OneApproxOpts *G_one[MAXD];
static void *G_ao[MAXD];
struct FunctionTrain *FT[NSLOT];
struct FT1DArray *AR[NSLOT];

static void free_space(void)
{
    for (size_t k = 0; k < G_d; k++) {
        if (G_fam[k] == 0) lin_elem_exp_aopts_free(G_ao[k]);
        else if (G_fam[k] == 1) const_elem_exp_aopts_free(G_ao[k]);
        else kernel_approx_opts_free(G_ao[k]);
        free(G_one[k]); free(G_x[k]); G_x[k] = NULL;
    }
    if (G_opts) multi_approx_opts_free(G_opts);
    G_opts = NULL; G_d = 0;
}
void ft_reset(void)
{
    for (int i = 0; i < NSLOT; i++) {
        if (FT[i]) { function_train_free(FT[i]); FT[i] = NULL; }
        if (AR[i]) { ft1d_array_free(AR[i]); AR[i] = NULL; }
    }
    free_space();
}
size_t slotno(void) { size_t s = unum(); if (s >= NSLOT) die("slot"); return s; }
struct FunctionTrain *ftslot(void) { size_t s = slotno(); if (!FT[s]) fail("no object in slot %zu", s); return FT[s]; }
static struct FT1DArray *arslot(void) { size_t s = slotno(); if (!AR[s]) fail("no array in slot %zu", s); return AR[s]; }
void ft_put(size_t s, struct FunctionTrain *ft) { if (FT[s]) function_train_free(FT[s]); FT[s] = ft; }
static void ar_put(size_t s, struct FT1DArray *a) { if (AR[s]) ft1d_array_free(AR[s]); AR[s] = a; }

/* Projection: ranks and the values on the grid of G_x obtained by contracting
 * the cores here, entry by entry, through the public accessors. For kernel
 * dimensions the coefficients take the place of nodal values. */
static void uni_vals(struct GenericFunction *g, size_t k, double *v)
{
    if (G_fam[k] == 2) {
        size_t np = generic_function_get_num_params(g);
        if (np != G_n[k]) fail("kernel coefficient count changed");
        generic_function_get_params(g, v);
    } else for (size_t u = 0; u < G_n[k]; u++) v[u] = generic_function_1d_eval(g, G_x[k][u]);
}
void ft_dump(const char *label, const struct FunctionTrain *ft)
{
    char lab[64];
    size_t d = function_train_get_dim(ft);
    size_t *rk = malloc((d + 1) * sizeof *rk);
    for (size_t k = 0; k <= d; k++) rk[k] = function_train_get_rank(ft, k);
    snprintf(lab, sizeof lab, "%sranks", label); outz(lab, d + 1, rk);
    snprintf(lab, sizeof lab, "%svals", label);
    double *T = malloc(sizeof *T); T[0] = 1; size_t P = 1, r = 1;
    for (size_t k = 0; k < d; k++) {
        struct Qmarray *q = function_train_get_core(ft, k);
        size_t nr = qmarray_get_nrows(q), nc = qmarray_get_ncols(q), n = G_n[k];
        if (nr != r || nr != rk[k] || nc != rk[k + 1]) { fprintf(stderr, "core %zu is %zux%zu but the ranks are %zu,%zu\n", k, nr, nc, rk[k], rk[k + 1]); fflush(stderr); abort(); }
        double *c = malloc(nr * nc * n * sizeof *c);
        for (size_t j = 0; j < nc; j++) for (size_t i = 0; i < nr; i++)
            uni_vals(qmarray_get_func(q, i, j), k, c + (j * nr + i) * n);
        double *N = calloc(P * n * nc, sizeof *N);
        for (size_t p = 0; p < P; p++) for (size_t u = 0; u < n; u++) for (size_t j = 0; j < nc; j++) {
            double s = 0;
            for (size_t i = 0; i < nr; i++) s += T[p * nr + i] * c[(j * nr + i) * n + u];
            N[(p * n + u) * nc + j] = s;
        }
        free(T); free(c); T = N; P *= n; r = nc;
    }
    if (r != 1) { fprintf(stderr, "last rank %zu\n", r); abort(); }
    out(lab, P, T);
    free(T); free(rk);
}
static void c_grid(void)
{
    ft_reset();
    size_t d = unum(); G_opts = multi_approx_opts_alloc(d);
    for (size_t k = 0; k < d; k++) {
        G_fam[k] = (int)inum(); G_n[k] = unum();
        G_x[k] = malloc(G_n[k] * sizeof(double));
        for (size_t u = 0; u < G_n[k]; u++) G_x[k][u] = num();
        if (G_fam[k] == 0) { G_ao[k] = lin_elem_exp_aopts_alloc(G_n[k], G_x[k]); G_one[k] = one_approx_opts_alloc(LINELM, G_ao[k]); }
        else if (G_fam[k] == 1) { G_ao[k] = const_elem_exp_aopts_alloc(G_n[k], G_x[k]); G_one[k] = one_approx_opts_alloc(CONSTELM, G_ao[k]); }
        else {
            double sc = num(), w = num(); long useb = inum();
            G_ao[k] = kernel_approx_opts_gauss(G_n[k], G_x[k], sc, w);
            if (useb % 10) { kernel_approx_opts_set_lb(G_ao[k], num()); kernel_approx_opts_set_ub(G_ao[k], num()); }
            if (useb >= 10) { kernel_approx_opts_set_center_adapt(G_ao[k], 1); G_n[k] *= 2; }      /* moving centres are parameters too */
            G_one[k] = one_approx_opts_alloc(KERNEL, G_ao[k]);
        }
        G_d = k + 1;
        multi_approx_opts_set_dim(G_opts, k, G_one[k]);
    }
}
static void c_mk(void)
{
    size_t s = slotno(); size_t *rk = unums(G_d + 1); size_t np = 0;
    for (size_t k = 0; k < G_d; k++) np += rk[k] * rk[k + 1] * G_n[k];
    double *p = nums(np);
    struct FunctionTrain *f = function_train_zeros(G_opts, rk);
    size_t used = function_train_update_params(f, p);
    ft_put(s, f); outi("used", (long)used);
}
static void c_zeros(void) { size_t s = slotno(); size_t *rk = unums(G_d + 1); ft_put(s, function_train_zeros(G_opts, rk)); }
static void c_dump(void) { ft_dump("", ftslot()); }
static void c_cp(void) { size_t s = slotno(); struct FunctionTrain *a = ftslot(); ft_put(s, function_train_copy(a)); }
static void c_free(void) { size_t s = slotno(); ftslot; ft_put(s, NULL); }
static void c_sum(void) { size_t s = slotno(); struct FunctionTrain *a = ftslot(), *b = ftslot(); ft_put(s, function_train_sum(a, b)); }
static void c_prod(void) { size_t s = slotno(); struct FunctionTrain *a = ftslot(), *b = ftslot(); ft_put(s, function_train_product(a, b)); }
static void c_scale(void) { struct FunctionTrain *a = ftslot(); function_train_scale(a, num()); }
static void c_axpy(void) { double al = num(); struct FunctionTrain *x = ftslot(); size_t y = slotno(); double eps = num(); c3axpy(al, x, &FT[y], eps, G_opts); }
static void c_const(void) { size_t s = slotno(); ft_put(s, function_train_constant(num(), G_opts)); }
static double *strided(size_t n, size_t ld)
{
    double *v = nums(n);
    double *w = malloc(n * ld * sizeof *w);
    for (size_t i = 0; i < n * ld; i++) w[i] = 1e6 + (double)i;
    for (size_t i = 0; i < n; i++) w[i * ld] = v[i];
    return w;
}
static void c_linear(void)
{
    size_t s = slotno(), ldc = unum(), lda = unum();
    double *c = strided(G_d, ldc), *a = strided(G_d, lda);
    ft_put(s, function_train_linear(c, ldc, a, lda, G_opts)); free(c); free(a);
}
static void c_linup(void)
{
    struct FunctionTrain *f = ftslot(); size_t ldc = unum(), lda = unum();
    double *c = strided(G_d, ldc), *a = strided(G_d, lda);
    function_train_linear_update(f, c, ldc, a, lda); free(c); free(a);
}
static void c_rankone(void) { size_t s = slotno(); double *c = nums(G_d); ft_put(s, function_train_rankone_prod(c, G_opts)); }
static void c_quad(void) { size_t s = slotno(); double *C = nums(G_d * G_d), *m = nums(G_d); ft_put(s, function_train_quadratic(C, m, G_opts)); }
static void c_quada(void) { size_t s = slotno(); double *C = nums(G_d), *m = nums(G_d); ft_put(s, function_train_quadratic_aligned(C, m, G_opts)); }

/* univariate table functions for the approximating constructors */
struct tab { size_t n; double *x, *v; };
static double tab_eval(const struct tab *t, double x)
{
    for (size_t i = 0; i < t->n; i++) if (t->x[i] == x) return t->v[i];
    for (size_t i = 0; i + 1 < t->n; i++) if (t->x[i] < x && x < t->x[i + 1])
        return t->v[i] + (t->v[i + 1] - t->v[i]) * (x - t->x[i]) / (t->x[i + 1] - t->x[i]);
    return 0;
}
static int tab_vec(size_t N, const double *x, double *o, void *arg) { for (size_t i = 0; i < N; i++) o[i] = tab_eval(arg, x[i]); return 0; }
static void c_fromtab(void)
{
    const char *kind = tok(); size_t s = slotno();
    struct tab t[MAXD];
    struct Fwrap *fw = fwrap_create(1, "array-vec"); fwrap_set_num_funcs(fw, G_d);
    for (size_t k = 0; k < G_d; k++) { t[k].n = G_n[k]; t[k].x = G_x[k]; t[k].v = nums(G_n[k]); fwrap_set_func_array(fw, k, tab_vec, &t[k]); }
    ft_put(s, !strcmp(kind, "prod") ? function_train_rankone(G_opts, fw) : function_train_initsum(G_opts, fw));
    fwrap_destroy(fw);
}
/* re-interpolate on another grid; observed on that grid */
static void c_nodal(void)
{
    struct FunctionTrain *a = ftslot(); size_t N[MAXD]; double *x[MAXD];
    for (size_t k = 0; k < G_d; k++) { N[k] = unum(); x[k] = nums(N[k]); }
    struct FunctionTrain *f = function_train_create_nodal(a, N, x);
    size_t sn[MAXD]; double *sx[MAXD];
    for (size_t k = 0; k < G_d; k++) { sn[k] = G_n[k]; sx[k] = G_x[k]; G_n[k] = N[k]; G_x[k] = x[k]; }
    ft_dump("", f);
    for (size_t k = 0; k < G_d; k++) { G_n[k] = sn[k]; G_x[k] = sx[k]; }
    function_train_free(f);
}
static void c_upd(void) { struct FunctionTrain *f = ftslot(); size_t n = function_train_get_nparams(f); outi("nparams", (long)n); double *p = rest(n); outi("used", (long)function_train_update_params(f, p)); }
static void c_getp(void)
{
    struct FunctionTrain *f = ftslot(); size_t n = function_train_get_nparams(f); double *p = malloc(n * sizeof *p);
    size_t m = function_train_get_params(f, p); outi("np", (long)m); out("params", m, p); free(p);
}
static void c_coreupd(void) { struct FunctionTrain *f = ftslot(); size_t c = unum(); size_t n = function_train_core_get_nparams(f, c, NULL); outi("nparams", (long)n); double *p = rest(n); function_train_core_update_params(f, c, n, p); }
static void c_corepar(void)
{
    struct FunctionTrain *f = ftslot(); size_t c = unum(); size_t mx = 0, n = function_train_core_get_nparams(f, c, &mx);
    double *p = malloc(n * sizeof *p); size_t m = function_train_core_get_params(f, c, p);
    outi("np", (long)m); outi("maxp", (long)mx); out("params", m, p); free(p);
}
static void c_uniupd(void)
{
    struct FunctionTrain *f = ftslot(); size_t c = unum(), i = unum(), j = unum();
    size_t n = function_train_func_get_nparams(f, c, i, j); outi("nparams", (long)n);
    double *p = rest(n); function_train_uni_update_params(f, c, i, j, n, p);
}
/* evaluation routes */
static void c_ev(void) { struct FunctionTrain *f = ftslot(); double *x = nums(G_d); out1("v", function_train_eval(f, x)); }
static void c_evs(void) { struct FunctionTrain *f = ftslot(); size_t N = unum(); double *x = nums(N * G_d); double *o = malloc(N * sizeof *o); function_train_evals(f, N, x, o); out("v", N, o); free(o); }
static void c_evi(void) { struct FunctionTrain *f = ftslot(); size_t *i = unums(G_d); out1("v", function_train_eval_ind(f, i)); }
static void c_cop(void) { struct FunctionTrain *f = ftslot(); double *x = nums(G_d), *p = nums(2 * G_d), *v = calloc(2 * G_d, sizeof *v); double c = function_train_eval_co_perturb(f, x, p, v); out1("c", c); out("v", 2 * G_d, v); free(v); }
static void c_copi(void) { struct FunctionTrain *f = ftslot(); size_t *x = unums(G_d), *p = unums(2 * G_d); double *v = calloc(2 * G_d, sizeof *v); double c = function_train_eval_co_perturb_ind(f, x, p, v); out1("c", c); out("v", 2 * G_d, v); free(v); }
static void c_fib(void)
{
    struct FunctionTrain *f = ftslot(); size_t *fx = unums(G_d); size_t dv = unum(), N = unum(); size_t *ix = unums(N);
    double *o = malloc(N * sizeof *o); function_train_eval_fiber_ind(f, fx, N, ix, dv, o); out("v", N, o); free(o);
}
/* integrals */
static void c_int(void) { struct FunctionTrain *f = ftslot(); out1("v", function_train_integrate(f)); }
static void c_intw(void) { struct FunctionTrain *f = ftslot(); out1("v", function_train_integrate_weighted(f)); }
static void c_inner(void)
{
    const char *w = tok(); struct FunctionTrain *a = ftslot(), *b = ftslot();
    double v = !strcmp(w, "1") ? function_train_inner(a, b) : !strcmp(w, "2") ? function_train_inner2(a, b) :
        !strcmp(w, "rl") ? function_train_inner_rl(a, b) : !strcmp(w, "w") ? function_train_inner_weighted(a, b) : c3dot(a, b);
    out1("v", v);
}
static void c_norm(void) { struct FunctionTrain *f = ftslot(); out1("v", function_train_norm2(f)); }
static void c_ndiff(void) { struct FunctionTrain *a = ftslot(), *b = ftslot(); out1("v", function_train_norm2diff(a, b)); }
static void c_rdiff(void) { struct FunctionTrain *a = ftslot(), *b = ftslot(); out1("v", function_train_relnorm2diff(a, b)); }
static void c_subset(void)   /* integrate out some dimensions; projected on the grid of the kept ones */
{
    struct FunctionTrain *f = ftslot(); size_t k = unum(); size_t *dims = unums(k);
    struct FunctionTrain *g = function_train_integrate_weighted_subset(f, k, dims);
    size_t sn[MAXD]; double *sx[MAXD]; int sf[MAXD]; size_t m = 0;
    for (size_t i = 0; i < G_d; i++) { sn[i] = G_n[i]; sx[i] = G_x[i]; sf[i] = G_fam[i]; }
    for (size_t i = 0; i < G_d; i++) { int c = 0; for (size_t j = 0; j < k; j++) c |= dims[j] == i; if (!c) { G_n[m] = sn[i]; G_x[m] = sx[i]; G_fam[m] = sf[i]; m++; } }
    outi("dim", (long)function_train_get_dim(g)); ft_dump("", g);
    for (size_t i = 0; i < G_d; i++) { G_n[i] = sn[i]; G_x[i] = sx[i]; G_fam[i] = sf[i]; }
    function_train_free(g);
}
/* arrays */
static void c_amk(void)
{
    size_t s = slotno(), n = unum(); struct FT1DArray *a = ft1d_array_alloc(n);
    for (size_t i = 0; i < n; i++) a->ft[i] = function_train_copy(ftslot());
    ar_put(s, a);
}
static void c_acp(void) { size_t s = slotno(); struct FT1DArray *a = arslot(); ar_put(s, ft1d_array_copy(a)); }
static void c_afree(void) { size_t s = slotno(); ar_put(s, NULL); }
static void c_agrad(void) { size_t s = slotno(); struct FunctionTrain *f = ftslot(); ar_put(s, function_train_gradient(f)); }
static void c_ahess(void) { size_t s = slotno(); struct FunctionTrain *f = ftslot(); ar_put(s, function_train_hessian(f)); }
static void c_ahessd(void) { size_t s = slotno(); struct FunctionTrain *f = ftslot(); ar_put(s, function_train_hessian_diag(f)); }
static void c_ahessp(void) { size_t s = slotno(); struct FunctionTrain *f = ftslot(); ar_put(s, function_train_hessian_diag_periodic(f)); }
static void c_ajac(void) { size_t s = slotno(); struct FT1DArray *a = arslot(); ar_put(s, ft1d_array_jacobian(a)); }
static void c_ascale(void) { struct FT1DArray *a = arslot(); size_t n = unum(), inc = unum(); ft1d_array_scale(a, n, inc, num()); }
static void c_aev(void)
{
    struct FT1DArray *a = arslot(); double *x = nums(G_d); double *v = ft1d_array_eval(a, x); out("v", a->size, v); free(v);
    v = malloc(a->size * sizeof *v); ft1d_array_eval2(a, x, v); out("v2", a->size, v); free(v);
}
static void c_adump(void) { struct FT1DArray *a = arslot(); outi("size", (long)a->size); for (size_t i = 0; i < a->size; i++) { char l[24]; snprintf(l, sizeof l, "%zu.", i); ft_dump(l, a->ft[i]); } }
static void c_aget(void) { size_t s = slotno(); struct FT1DArray *a = arslot(); size_t i = unum(); ft_put(s, function_train_copy(a->ft[i])); }
static void c_grade(void) { struct FunctionTrain *f = ftslot(); double *x = nums(G_d), *g = calloc(G_d, sizeof *g); function_train_gradient_eval(f, x, g); out("v", G_d, g); free(g); }
static void c_vaxpy(void) { size_t n = unum(); double al = num(); struct FT1DArray *x = arslot(); size_t ix = unum(), y = slotno(), iy = unum(); double eps = num(); c3vaxpy(n, al, x, ix, &AR[y], iy, eps, G_opts); }
static void c_vaxpya(void)
{
    size_t n = unum(); double al = num(); struct FT1DArray *x = arslot(); size_t ix = unum(), iy = unum();
    double *y = strided(n, iy); double beta = num(); size_t z = slotno(); double eps = num();
    c3vaxpy_arr(n, al, x, ix, y, iy, beta, &FT[z], eps, G_opts); free(y);
}
static void c_vprodsum(void)
{
    size_t n = unum(); double al = num(); struct FT1DArray *x = arslot(); size_t ix = unum(); struct FT1DArray *y = arslot(); size_t iy = unum();
    double beta = num(); size_t z = slotno(); double eps = num();
    c3vprodsum(n, al, x, ix, y, iy, beta, &FT[z], eps, G_opts);
}
static void c_gemv(void)
{
    size_t n = unum(); double al = num(); struct FT1DArray *a = arslot(); size_t ia = unum(); struct FunctionTrain *x = ftslot(); double beta = num(); struct FunctionTrain *z = ftslot(); double eps = num();
    c3gemv(al, n, a, ia, x, beta, z, eps, G_opts);
}
static void c_vgemva(void)
{
    int tr = (int)inum(); size_t m = unum(), n = unum(); double al = num(); size_t ld = unum(), l = unum(); double *M = nums(l); struct FT1DArray *b = arslot(); size_t ib = unum(); double beta = num();
    size_t y = slotno(), iy = unum(); double eps = num(); c3vgemv_arr(tr, m, n, al, M, ld, b, ib, beta, &AR[y], iy, eps, G_opts);
}
static void c_vgemv(void)
{
    size_t m = unum(), n = unum(); double al = num(); struct FT1DArray *a = arslot(); size_t ld = unum(); struct FT1DArray *x = arslot(); size_t ix = unum(); double beta = num();
    size_t y = slotno(), iy = unum(); double eps = num(); c3vgemv(m, n, al, a, ld, x, ix, beta, &AR[y], iy, eps, G_opts);
}
static void c_upto(void)
{
    struct FunctionTrain *f = ftslot(); size_t k = unum(), r = 0; double *x = nums(G_d), o[256]; for (int i = 0; i < 256; i++) o[i] = NAN;
    function_train_eval_up_to_core(f, k, x, o, &r); outi("n", (long)r); out("v", r < 256 ? r : 256, o);
}
/* rounding */
static void c_round(void) { size_t s = slotno(); struct FunctionTrain *a = ftslot(); double eps = num(); ft_put(s, function_train_round(a, eps, G_opts)); }
static void c_roundm(void) { size_t s = slotno(); struct FunctionTrain *a = ftslot(); double eps = num(); size_t mr = unum(); ft_put(s, function_train_round_maxrank_all(a, eps, G_opts, mr)); }
static void c_orthor(void) { size_t s = slotno(); struct FunctionTrain *a = ftslot(); ft_put(s, function_train_orthor(a, G_opts)); }
static void c_maxrank(void) { struct FunctionTrain *a = ftslot(); outi("max", (long)function_train_get_maxrank(a)); out1("avg", function_train_get_avgrank(a)); }
/* orthonormality of the cores 1.. of a right-orthogonalised train: rows of core k orthonormal */
static void c_orthchk(void)
{
    struct FunctionTrain *a = ftslot(); double worst = 0;
    for (size_t k = 1; k < G_d; k++) {
        struct Qmarray *q = function_train_get_core(a, k); size_t nr = qmarray_get_nrows(q), nc = qmarray_get_ncols(q);
        for (size_t i = 0; i < nr; i++) for (size_t j = 0; j < nr; j++) {
            double s = 0;
            for (size_t l = 0; l < nc; l++) s += generic_function_inner(qmarray_get_func(q, i, l), qmarray_get_func(q, j, l));
            double e = fabs(s - (i == j)); if (e > worst || isnan(e)) worst = e;
        }
    }
    out1("worst", worst);
}
/* persistence */
static void c_ser(void)
{
    size_t s = slotno(); struct FunctionTrain *a = ftslot(); size_t tot = 0;
    function_train_serialize(NULL, a, &tot);
    unsigned char *buf = malloc(tot); unsigned char *end = function_train_serialize(buf, a, NULL);
    outi("wrote", (long)(end - buf) - (long)tot);
    struct FunctionTrain *b = NULL; unsigned char *rd = function_train_deserialize(buf, &b);
    outi("read", (long)(rd - end));
    size_t tot2 = 0; function_train_serialize(NULL, b, &tot2); outi("size2", (long)tot2 - (long)tot);
    unsigned char *buf2 = malloc(tot2); function_train_serialize(buf2, b, NULL);
    outi("same", tot2 == tot ? memcmp(buf, buf2, tot) != 0 : 1);
    free(buf); free(buf2); ft_put(s, b);
}
static void c_save(void)
{
    size_t s = slotno(); struct FunctionTrain *a = ftslot(); char fn[4200]; snprintf(fn, sizeof fn, "%s/ft.bin", scratch);
    int ok = function_train_save(a, fn); outi("ok", ok); struct FunctionTrain *b = function_train_load(fn); unlink(fn); outi("loaded", b != NULL); if (!b) fail("a stored object could not be loaded"); ft_put(s, b);
}
static void c_txt(void)
{
    size_t s = slotno(); struct FunctionTrain *a = ftslot(); size_t prec = unum(); char fn[4200]; snprintf(fn, sizeof fn, "%s/ft.txt", scratch);
    FILE *f = fopen(fn, "w"); function_train_savetxt(a, f, prec); fclose(f);
    f = fopen(fn, "r"); struct FunctionTrain *b = function_train_loadtxt(f); fclose(f); unlink(fn); ft_put(s, b);
}
static void c_aser(void)
{
    size_t s = slotno(); struct FT1DArray *a = arslot(); size_t tot = 0;
    ft1d_array_serialize(NULL, a, &tot);
    unsigned char *buf = malloc(tot); unsigned char *end = ft1d_array_serialize(buf, a, NULL);
    outi("wrote", (long)(end - buf) - (long)tot);
    struct FT1DArray *b = NULL; unsigned char *rd = ft1d_array_deserialize(buf, &b); outi("read", (long)(rd - end));
    size_t tot2 = 0; ft1d_array_serialize(NULL, b, &tot2); outi("size2", (long)tot2 - (long)tot);
    free(buf); ar_put(s, b);
}
static void c_asave(void)
{
    size_t s = slotno(); struct FT1DArray *a = arslot(); char fn[4200]; snprintf(fn, sizeof fn, "%s/ar.bin", scratch);
    int ok = ft1d_array_save(a, fn); outi("ok", ok); struct FT1DArray *b = ft1d_array_load(fn); unlink(fn); if (!b) fail("a stored object could not be loaded"); ar_put(s, b);
}
struct cmd ft_cmds[] = {
    {"grid", c_grid}, {"mk", c_mk}, {"zeros", c_zeros}, {"dump", c_dump}, {"cp", c_cp}, {"free", c_free}, {"sum", c_sum}, {"prod", c_prod},
    {"scale", c_scale}, {"axpy", c_axpy}, {"const", c_const}, {"linear", c_linear}, {"linup", c_linup}, {"rankone", c_rankone},
    {"quad", c_quad}, {"quada", c_quada}, {"fromtab", c_fromtab}, {"nodal", c_nodal}, {"upd", c_upd}, {"getp", c_getp},
    {"coreupd", c_coreupd}, {"corepar", c_corepar}, {"uniupd", c_uniupd},
    {"ev", c_ev}, {"evs", c_evs}, {"evi", c_evi}, {"cop", c_cop}, {"copi", c_copi}, {"fib", c_fib},
    {"int", c_int}, {"intw", c_intw}, {"inner", c_inner}, {"norm", c_norm}, {"ndiff", c_ndiff}, {"rdiff", c_rdiff}, {"subset", c_subset},
    {"amk", c_amk}, {"acp", c_acp}, {"afree", c_afree}, {"agrad", c_agrad}, {"ahess", c_ahess}, {"ahessd", c_ahessd}, {"ahessp", c_ahessp}, {"ajac", c_ajac},
    {"ascale", c_ascale}, {"aev", c_aev}, {"adump", c_adump}, {"aget", c_aget}, {"grade", c_grade},
    {"vaxpy", c_vaxpy}, {"vaxpya", c_vaxpya}, {"vprodsum", c_vprodsum}, {"gemv", c_gemv}, {"vgemva", c_vgemva}, {"vgemv", c_vgemv}, {"upto", c_upto},
    {"round", c_round}, {"roundm", c_roundm}, {"orthor", c_orthor}, {"maxrank", c_maxrank}, {"orthchk", c_orthchk},
    {"ser", c_ser}, {"save", c_save}, {"txt", c_txt}, {"aser", c_aser}, {"asave", c_asave},
    {NULL, NULL}
};
