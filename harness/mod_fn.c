/* univariate functions: generic_function layer over piecewise linear, piecewise constant and kernel families */
#include "driver.h"
#include <unistd.h>
#define NF 12
static int fam; static enum function_class fc; static size_t fn; static double *fx; static void *fo;      /* base grid */
static size_t fn2; static double *fx2; static void *fo2;                                                  /* second grid */
static struct GenericFunction *F[NF];
static void ofree(void *o) { if (!o) return; if (fam == 0) lin_elem_exp_aopts_free(o); else if (fam == 1) const_elem_exp_aopts_free(o); else kernel_approx_opts_free(o); }
void fn_reset(void)
{
    for (int i = 0; i < NF; i++) if (F[i]) { generic_function_free(F[i]); F[i] = NULL; }
    ofree(fo); ofree(fo2); fo = fo2 = NULL; free(fx); free(fx2); fx = fx2 = NULL; fn = fn2 = 0;
}
static void *mkopts(size_t n, double *x) { return fam == 0 ? (void *)lin_elem_exp_aopts_alloc(n, x) : (void *)const_elem_exp_aopts_alloc(n, x); }
static double *xs(size_t n) { double *x = malloc(n * sizeof *x); for (size_t i = 0; i < n; i++) x[i] = num(); return x; }
static void c_fgrid(void)
{
    fn_reset(); fam = (int)inum(); fn = unum(); fx = xs(fn);
    fc = fam == 0 ? LINELM : fam == 1 ? CONSTELM : KERNEL;
    if (fam < 2) fo = mkopts(fn, fx);
    else {
        double sc = num(), w = num(); long b = inum();
        fo = kernel_approx_opts_gauss(fn, fx, sc, w);
        if (b) { kernel_approx_opts_set_lb(fo, num()); kernel_approx_opts_set_ub(fo, num()); }
    }
}
static void c_fgrid2(void) { fn2 = unum(); fx2 = xs(fn2); fo2 = mkopts(fn2, fx2); }
static size_t fslot(void) { size_t s = unum(); if (s >= NF) die("slot"); return s; }
static struct GenericFunction *get(void) { size_t s = fslot(); if (!F[s]) die("empty slot %zu", s); return F[s]; }
static void put(size_t s, struct GenericFunction *f) { if (F[s] && F[s] != f) generic_function_free(F[s]); F[s] = f; }
/* n slots as an array with stride ld; the gaps are NULL */
static struct GenericFunction **arr(size_t n, size_t ld)
{
    struct GenericFunction **a = calloc(n * ld + 1, sizeof *a);
    for (size_t i = 0; i < n; i++) a[i * ld] = get();
    return a;
}
static void c_fmk(void)
{
    size_t s = fslot(); long g = inum(); size_t n = g ? fn2 : fn; double *p = nums(n);
    put(s, generic_function_create_with_params(fc, g ? fo2 : fo, n, p));
}
static void c_fzero(void) { size_t s = fslot(); long f = inum(); put(s, generic_function_zero(fc, fo, (int)f)); }
static void c_fconst(void) { size_t s = fslot(); put(s, generic_function_constant(num(), fc, fo)); }
static void c_flin(void) { size_t s = fslot(); double a = num(), b = num(); put(s, generic_function_linear(a, b, fc, fo)); }
static void c_fone(void) { size_t s = fslot(); double o = num(), lb = num(), ub = num(); size_t n = unum(); double *z = nums(n); put(s, generic_function_onezero(fc, o, n, z, lb, ub)); }
struct quad { double a, b, c; size_t calls; };
static int quadf(size_t n, const double *x, double *o, void *v) { struct quad *q = v; for (size_t i = 0; i < n; i++) { o[i] = q->a + q->b * x[i] + q->c * x[i] * x[i]; q->calls++; } return 0; }
static void c_fapx(void)
{
    size_t s = fslot(); struct quad q = { num(), num(), num(), 0 };
    struct Fwrap *fw = fwrap_create(1, "general-vec"); fwrap_set_fvec(fw, quadf, &q);
    struct GenericFunction *g = generic_function_approximate1d(fc, fo, fw); fwrap_destroy(fw);
    put(s, g); outi("calls", (long)q.calls);
}
/* adaptive piecewise linear approximation of the interpolant of a table on m equal cells of [lb, ub] */
struct tab { double lb, ub; size_t m; double *v; };
static int tabf(size_t n, const double *x, double *o, void *a)
{
    struct tab *t = a;
    for (size_t i = 0; i < n; i++) {
        double u = (x[i] - t->lb) / ((t->ub - t->lb) / (double)t->m); size_t c = u >= (double)t->m ? t->m - 1 : (size_t)u;
        o[i] = t->v[c] + (u - (double)c) * (t->v[c + 1] - t->v[c]);
    }
    return 0;
}
static void c_fadapt(void)
{
    double lb = num(), ub = num(), delta = num(), hmin = num(); size_t k = unum(); double *nd = k ? nums(k) : NULL; size_t m = unum(); double *v = nums(m + 1);
    struct tab t = { lb, ub, m, v };
    struct Fwrap *fw = fwrap_create(1, "general-vec"); fwrap_set_fvec(fw, tabf, &t);
    struct LinElemExpAopts *o = lin_elem_exp_aopts_alloc_adapt(k, nd, lb, ub, delta, hmin);
    struct LinElemExp *l = lin_elem_exp_approx(o, fw);
    out("nodes", l->num_nodes, l->nodes); out("coeff", l->num_nodes, l->coeff);
    lin_elem_exp_free(l); lin_elem_exp_aopts_free(o); fwrap_destroy(fw);
}
/* everything the public accessors show */
static void show(struct GenericFunction *g)
{
    size_t n = generic_function_get_num_params(g), m = 0; double *p = malloc((n + 1) * sizeof *p);
    size_t k = generic_function_get_params(g, p);
    outi("np", (long)n); out("params", k, p);
    double *r = generic_function_get_params_ref(g, &m); out("ref", m, r);
    outi("fc", generic_function_get_fc(g) == fc);
    if (fam < 2) { double b[2] = { generic_function_get_lb(g), generic_function_get_ub(g) }; out("bounds", 2, b); }
    free(p);
}
static void c_fdump(void) { struct GenericFunction *g = get(); show(g); size_t n = (size_t)nleft(); double *x = nums(n); outbegin("vals"); for (size_t i = 0; i < n; i++) outd(generic_function_1d_eval(g, x[i])); outend(); }
static void c_fcp(void) { size_t s = fslot(); struct GenericFunction *a = get(); put(s, generic_function_copy(a)); }
static void c_fcppa(void) { size_t s = fslot(); struct GenericFunction *a = get(), *b = generic_function_alloc(1, fc); generic_function_copy_pa(a, b); put(s, b); }
static void c_ffree(void) { size_t s = fslot(); put(s, NULL); }
static void c_fupd(void) { struct GenericFunction *g = get(); size_t n = generic_function_get_num_params(g); double *p = rest(n); generic_function_update_params(g, n, p); }
static void c_fdaxpby(void)
{
    size_t s = fslot(); double a = num(); long x = inum(); double b = num(); long y = inum();
    put(s, generic_function_daxpby(a, x < 0 ? NULL : F[x], b, y < 0 ? NULL : F[y]));
}
static void c_fwsum(void)
{
    size_t s = fslot(); double a = num(); struct GenericFunction *x = get(); double b = num(); struct GenericFunction *y = get(); struct GenericFunction *z = generic_function_alloc(1, fc);
    generic_function_weighted_sum_pa(a, x, b, y, &z); put(s, z);
}
static void c_faxpy(void) { double a = num(); struct GenericFunction *x = get(), *y = get(); outi("ret", generic_function_axpy(a, x, y)); }
static void c_flc(void) { size_t s = fslot(), n = unum(); struct GenericFunction **a = arr(n, 1); double *c = nums(n); put(s, generic_function_lin_comb(n, a, c)); free(a); }
static void c_flc2(void)
{
    size_t s = fslot(), n = unum(), lg = unum(), lc = unum(); struct GenericFunction **a = arr(n, lg); double *c = nums(n);
    double *d = malloc((n * lc + 1) * sizeof *d); for (size_t i = 0; i < n * lc; i++) d[i] = 1e9; for (size_t i = 0; i < n; i++) d[i * lc] = c[i];
    put(s, generic_function_lin_comb2(n, lg, a, lc, d)); free(a); free(d);
}
static void c_fsp(void) { size_t s = fslot(), n = unum(), la = unum(), lb = unum(); struct GenericFunction **a = arr(n, la), **b = arr(n, lb); put(s, generic_function_sum_prod(n, la, a, lb, b)); free(a); free(b); }
static void c_fprod(void) { size_t s = fslot(); struct GenericFunction *a = get(), *b = get(); put(s, generic_function_prod(a, b)); }
static void c_fscale(void) { double a = num(); generic_function_scale(a, get()); }
static void c_fflip(void) { generic_function_flip_sign(get()); }
static void c_faflip(void) { size_t n = unum(), ld = unum(); struct GenericFunction **a = arr(n, ld); generic_function_array_flip_sign(n, ld, a); free(a); }
static void c_fascale(void) { double c = num(); size_t n = unum(); struct GenericFunction **a = arr(n, 1); generic_function_array_scale(c, a, n); free(a); }
static void c_faaxpy(void) { size_t n = unum(); double c = num(); struct GenericFunction **a = arr(n, 1), **b = arr(n, 1); outi("ret", generic_function_array_axpy(n, c, a, b)); free(a); free(b); }
/* array_daxpby into n slots; which=0 no x, 1 no y, 2 both; two = the in-place variant with output stride */
static void c_fadax(void)
{
    long two = inum(); size_t n = unum(), la = unum(), lb = unum(), lz = unum(); double ca = num(), cb = num(); long which = inum(); size_t *d = unums(n);
    struct GenericFunction **a = NULL, **b = NULL, **z;
    if (which != 0) a = arr(n, la);
    if (which != 1) b = arr(n, lb);
    if (two) { z = calloc(n * lz + 1, sizeof *z); generic_function_array_daxpby2(n, ca, la, a, cb, lb, b, lz, z); }
    else { lz = 1; z = generic_function_array_daxpby(n, ca, la, a, cb, lb, b); }
    for (size_t i = 0; i < n; i++) put(d[i], z[i * lz]);
    free(z); free(a); free(b);
}
static void c_fevs(void)
{
    struct GenericFunction *g = get(); size_t ix = unum(), iy = unum(), n = (size_t)nleft(); double *x = nums(n);
    double *X = malloc((n * ix + 1) * sizeof *X), *Y = malloc((n * iy + 1) * sizeof *Y);
    for (size_t i = 0; i < n * ix; i++) X[i] = 1e9; for (size_t i = 0; i < n; i++) X[i * ix] = x[i];
    for (size_t i = 0; i < n * iy; i++) Y[i] = 77;
    generic_function_1d_evalN(g, n, X, ix, Y, iy);
    outbegin("v"); for (size_t i = 0; i < n; i++) outd(Y[i * iy]); outend();
    int touched = 0; for (size_t i = 0; i < n * iy; i++) if (i % iy && Y[i] != 77) touched = 1;
    outi("touched", touched); free(X); free(Y);
}
static void c_fei(void) { struct GenericFunction *g = get(); out1("v", generic_function_1d_eval_ind(g, unum())); }
static void c_fde(void) { struct GenericFunction *g = get(); out1("v", generic_function_deriv_eval(g, num())); }
static void c_farr(void)
{
    size_t n = unum(), m = unum(); struct GenericFunction **a = arr(n, 1); size_t ind = unum(); double *x = nums(m);
    double *v = generic_function_1darray_eval(n, a, x[0]); out("one", n, v); free(v);
    v = malloc(n * m * sizeof *v); generic_function_1darray_eval2(n, a, x[0], v); out("two", n, v);
    for (size_t i = 0; i < n * m; i++) v[i] = 77;
    generic_function_1darray_eval2N(n, a, m, x, 1, v, n);
    out("many", n * m, v);
    if (fam < 2) { generic_function_1darray_eval2_ind(n, a, ind, v); out("ind", n, v); }
    free(v); free(a);
}
static void c_fderiv(void) { size_t s = fslot(); put(s, generic_function_deriv(get())); }
static void c_fdd(void) { size_t s = fslot(); put(s, generic_function_dderiv(get())); }
static void c_fdp(void) { size_t s = fslot(); put(s, generic_function_dderiv_periodic(get())); }
static void c_fint(void) { out1("v", generic_function_integrate(get())); }
static void c_finner(void) { struct GenericFunction *a = get(), *b = get(); out1("v", generic_function_inner(a, b)); }
static void c_fnorm(void) { out1("v", generic_function_norm(get())); }
static void c_fn2d(void) { struct GenericFunction *a = get(), *b = get(); out1("v", generic_function_norm2diff(a, b)); }
static void c_finsum(void) { size_t n = unum(), la = unum(), lb = unum(); struct GenericFunction **a = arr(n, la), **b = arr(n, lb); out1("v", generic_function_inner_sum(n, la, a, lb, b)); free(a); free(b); }
static void c_fan2d(void) { size_t n = unum(), la = unum(), lb = unum(); struct GenericFunction **a = arr(n, la), **b = arr(n, lb); out1("v", generic_function_array_norm2diff(n, a, la, b, lb)); free(a); free(b); }
static void c_fintarr(void) { size_t n = unum(), la = unum(); struct GenericFunction **a = arr(n, la); double *v = generic_function_integral_array(n, la, a); out("v", n, v); out1("norm", generic_function_array_norm(n, la, a)); free(v); free(a); }
static void c_fmax(void)
{
    struct GenericFunction *g = get(); double x = 0, v[2];
    if (fam == 0) { v[0] = lin_elem_exp_max(g->f, &x); v[1] = x; out("max", 2, v); v[0] = lin_elem_exp_min(g->f, &x); v[1] = x; out("min", 2, v); }
    else { v[0] = const_elem_exp_max(g->f, &x); v[1] = x; out("max", 2, v); v[0] = const_elem_exp_min(g->f, &x); v[1] = x; out("min", 2, v); }
    v[0] = generic_function_absmax(g, &x, NULL); v[1] = x; out("abs", 2, v);
}
static void c_famax(void)
{
    size_t n = unum(), ld = unum(); struct GenericFunction **a = arr(n, ld); double x; size_t ind;
    double m = generic_function_array_absmax(n, ld, a, &ind, &x, NULL); double v[3] = { m, (double)ind, x }; out("v", 3, v);
    struct Pivot *p = pivot_create(1, sizeof(double));
    m = generic_function_array_absmax_piv(n, ld, a, p, NULL);
    double w[3] = { m, (double)pivot_get_ind(p), *(double *)pivot_get_loc(p) }; out("piv", 3, w);
    if (ld == 1) out1("at", generic_function_1darray_eval_piv(a, p)); else out1("at", generic_function_1d_eval(a[ind * ld], x));
    pivot_free(p); free(a);
}
/* maximum of the absolute value over a list of candidate points */
static void c_fcand(void)
{
    struct GenericFunction *g = get(); size_t n = (size_t)nleft(); double *x = nums(n); struct c3Vector *o = c3vector_alloc(n, x); double loc;
    double v[2]; v[0] = generic_function_absmax(g, &loc, o); v[1] = loc; out("v", 2, v); c3vector_free(o);
}
static void c_fkron(void)
{
    long left = inum(); size_t r = unum(), m = unum(), n = unum(), l = unum(); double *a = nums(left ? r * m * n : l * m * r);
    struct GenericFunction **c = arr(n * l, 1), **d = calloc(left ? l * m * r : r * n * m, sizeof *d); size_t k = left ? l * m * r : r * n * m;
    generic_function_kronh((int)left, r, m, n, l, a, c, d);
    size_t np = 0; for (size_t i = 0; i < k; i++) np = generic_function_get_num_params(d[i]);
    double *p = malloc(np * sizeof *p); outbegin("v");
    for (size_t i = 0; i < k; i++) { generic_function_get_params(d[i], p); for (size_t j = 0; j < np; j++) outd(p[j]); }
    outend(); free(p); generic_function_array_free(d, k); free(c);
}
static void c_fkron2(void)
{
    long left = inum(); size_t r = unum(), m = unum(), n = unum(), l = unum();
    struct GenericFunction **b = arr(n * l, 1), **t = arr(left ? r * m * n : r * m * l, 1); size_t k = left ? l * m * r : r * n * m; struct GenericFunction **d = calloc(k, sizeof *d);
    generic_function_kronh2((int)left, r, m, n, l, b, t, d);
    size_t np = generic_function_get_num_params(d[0]);
    double *p = malloc(np * sizeof *p); outbegin("v");
    for (size_t i = 0; i < k; i++) { generic_function_get_params(d[i], p); for (size_t j = 0; j < np; j++) outd(p[j]); }
    outend(); free(p); generic_function_array_free(d, k); free(b); free(t);
}
static void c_fpg(void)
{
    struct GenericFunction *g = get(); size_t n = (size_t)nleft(); double *x = nums(n); size_t np = generic_function_get_num_params(g);
    double *gr = malloc(n * np * sizeof *gr); for (size_t i = 0; i < n * np; i++) gr[i] = 77;
    generic_function_param_grad_eval(g, n, x, gr); out("grad", n * np, gr);
    for (size_t i = 0; i < np; i++) gr[i] = 77;
    double v = generic_function_param_grad_eval2(g, x[0], gr); out("grad2", np, gr); out1("val", v); free(gr);
}
static void c_fsng(void)
{
    struct GenericFunction *g = get(); double sc = num(), init = num(); size_t np = generic_function_get_num_params(g); double *gr = malloc(np * sizeof *gr);
    for (size_t i = 0; i < np; i++) gr[i] = init;
    generic_function_squared_norm_param_grad(g, sc, gr); out("grad", np, gr); free(gr);
}
static void c_fser(void)
{
    size_t s = fslot(); struct GenericFunction *a = get(); size_t tot; serialize_generic_function(NULL, a, &tot);
    unsigned char *b = malloc(tot), *e = serialize_generic_function(b, a, NULL); outi("wrote", (long)(e - b) - (long)tot);
    struct GenericFunction *r = NULL; unsigned char *q = deserialize_generic_function(b, &r); outi("read", (long)(q - b) - (long)tot); free(b); put(s, r);
}
static void c_ftxt(void)
{
    size_t s = fslot(); struct GenericFunction *a = get(); size_t prec = unum(); char nm[4200]; snprintf(nm, sizeof nm, "%s/fn.%d.txt", scratch, (int)getpid());
    FILE *f = fopen(nm, "w"); if (!f) die("scratch"); generic_function_savetxt(a, f, prec); fclose(f);
    f = fopen(nm, "r"); struct GenericFunction *r = generic_function_loadtxt(f); fclose(f); unlink(nm); put(s, r);
}
static void c_fnodal(void) { size_t s = fslot(); struct GenericFunction *a = get(); size_t n = (size_t)nleft(); double *x = nums(n); put(s, generic_function_create_nodal(a, n, x)); }
/* n orthonormal functions: their Gram matrix, by the library's inner product and from the nodal values, and their values */
static void c_forth(void)
{
    size_t n = unum(); struct GenericFunction **a = generic_function_array_alloc(n); generic_function_array_orth(n, a, fc, fo);
    outbegin("gram"); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) outd(generic_function_inner(a[i], a[j])); outend();
    outbegin("coef"); double *p = malloc(fn * sizeof *p); for (size_t i = 0; i < n; i++) { size_t k = generic_function_get_params(a[i], p); for (size_t j = 0; j < k; j++) outd(p[j]); } outend(); free(p);
    generic_function_array_free(a, n);
}
/* a function with zeros at given pivots (array form); what it prints: nodal values, new pivot, value there */
static void c_faone(void)
{
    size_t n = unum(), up = unum(); size_t *piv = malloc((up + 1) * sizeof *piv); double *px = malloc((up + 1) * sizeof *px);
    for (size_t i = 0; i < up; i++) { piv[i] = unum(); px[i] = num(); }
    struct GenericFunction **L = generic_function_array_alloc(n);
    generic_function_array_onezero(L, n, fc, up, piv, px, fo);
    outi("piv", (long)piv[up]); out1("px", px[up]); out1("at", generic_function_1d_eval(L[piv[up]], px[up]));
    outbegin("zeros"); for (size_t i = 0; i < up; i++) outd(generic_function_1d_eval(L[piv[i]], px[i])); outend();
    generic_function_array_free(L, n); free(piv); free(px);
}
/* univariate regression objectives: value and gradient at given parameters */
static void c_freg(void)
{
    long type = inum(); double lam = num(); size_t m = unum(); double *x = nums(m), *y = nums(m); double *p = nums(fn);
    enum regress_type rt = type == 0 ? LS : type == 1 ? RLS2 : RLSD2;
    struct Regress1DOpts *o = regress_1d_opts_create(PARAMETRIC, rt, m, x, y);
    regress_1d_opts_set_parametric_form(o, fc, fo); if (type) regress_1d_opts_set_regularization_penalty(o, lam);
    double *z = calloc(fn, sizeof *z); regress_1d_opts_set_initial_parameters(o, z);
    double *g = malloc(fn * sizeof *g);
    double (*f)(size_t, const double *, double *, void *) = type == 0 ? param_LSregress_cost : type == 1 ? param_RLS2regress_cost : param_RLSD2regress_cost;
    out1("nograd", f(fn, p, NULL, o)); out1("cost", f(fn, p, g, o)); out("grad", fn, g);
    regress_1d_opts_destroy(o); free(z); free(g);
}
/* the whole fit: parameters found and cost there */
static void c_ffit(void)
{
    long type = inum(); double lam = num(); size_t m = unum(); double *x = nums(m), *y = nums(m);
    enum regress_type rt = type == 0 ? LS : RLS2;
    struct Regress1DOpts *o = regress_1d_opts_create(PARAMETRIC, rt, m, x, y);
    regress_1d_opts_set_parametric_form(o, fc, fo); if (type) regress_1d_opts_set_regularization_penalty(o, lam);
    double *z = calloc(fn, sizeof *z); regress_1d_opts_set_initial_parameters(o, z);
    struct c3Opt *opt = c3opt_alloc(BFGS, fn); c3opt_set_verbose(opt, 0); c3opt_set_maxiter(opt, 500); c3opt_set_gtol(opt, 1e-10); c3opt_set_relftol(opt, 1e-20); c3opt_set_absxtol(opt, 1e-20);
    int info = 0; struct GenericFunction *g = generic_function_regress1d(o, opt, &info);
    if (!g) fail("regression returned nothing (info %d)", info);
    double *p = malloc(fn * sizeof *p); generic_function_get_params(g, p); out("params", fn, p);
    generic_function_free(g); c3opt_free(opt); regress_1d_opts_destroy(o); free(z); free(p);
}
static double cut2(double x, double y, void *a) { double *c = a; return c[0] + c[1] * x + c[2] * y + c[3] * x * y; }
static double cutn(double *x, void *a) { double *c = a; double s = c[0]; for (int i = 0; i < 3; i++) s += c[i + 1] * x[i] * (i + 1); return s + x[0] * x[1] * x[2]; }
static void c_fcut(void)
{
    double *c = nums(4); size_t dim = unum(), n = unum(); double *v = nums(n); double t = num();
    struct FiberCut **a = fiber_cut_2darray(cut2, c, dim, n, v);
    outbegin("two"); for (size_t i = 0; i < n; i++) outd(fiber_cut_eval2d(t, a[i])); outend(); fiber_cut_array_free(n, a);
    size_t d3 = unum(); double **w = malloc(n * sizeof *w); for (size_t i = 0; i < n; i++) w[i] = nums(3);
    a = fiber_cut_ndarray(cutn, c, 3, d3, n, w);
    outbegin("nd"); for (size_t i = 0; i < n; i++) outd(fiber_cut_eval(t, a[i])); outend(); fiber_cut_array_free(n, a); free(w);
}
struct cmd fn_cmds[] = {
    {"fgrid", c_fgrid}, {"fgrid2", c_fgrid2}, {"fmk", c_fmk}, {"fzero", c_fzero}, {"fconst", c_fconst}, {"flin", c_flin}, {"fone", c_fone}, {"fapx", c_fapx}, {"fadapt", c_fadapt},
    {"fdump", c_fdump}, {"fcp", c_fcp}, {"fcppa", c_fcppa}, {"ffree", c_ffree}, {"fupd", c_fupd}, {"fdaxpby", c_fdaxpby}, {"fwsum", c_fwsum}, {"faxpy", c_faxpy}, {"flc", c_flc}, {"flc2", c_flc2},
    {"fsp", c_fsp}, {"fprod", c_fprod}, {"fscale", c_fscale}, {"fflip", c_fflip}, {"faflip", c_faflip}, {"fascale", c_fascale}, {"faaxpy", c_faaxpy}, {"fadax", c_fadax}, {"fevs", c_fevs}, {"fei", c_fei}, {"fde", c_fde},
    {"farr", c_farr}, {"fderiv", c_fderiv}, {"fdd", c_fdd}, {"fdp", c_fdp}, {"fint", c_fint}, {"finner", c_finner}, {"fnorm", c_fnorm}, {"fn2d", c_fn2d}, {"finsum", c_finsum}, {"fan2d", c_fan2d},
    {"fintarr", c_fintarr}, {"fmax", c_fmax}, {"famax", c_famax}, {"fcand", c_fcand}, {"fkron", c_fkron}, {"fkron2", c_fkron2}, {"fpg", c_fpg}, {"fsng", c_fsng}, {"fser", c_fser}, {"ftxt", c_ftxt},
    {"fnodal", c_fnodal}, {"forth", c_forth}, {"faone", c_faone}, {"freg", c_freg}, {"ffit", c_ffit}, {"fcut", c_fcut}, {NULL, NULL}
};
