/* Gaussian kernel expansions: individual kernels, moving centres, growth, options */
#include "driver.h"
#define NE 6
double gauss_kernel_eval(double, double, double, double);
double gauss_kernel_deriv(double, double, double, double);
double gauss_kernel_integrate(double, double, double, double, double);
double gauss_kernel_inner(double, double, double, double, double, double, double, double);
static struct KernelApproxOpts *ko;
static struct GenericFunction *E[NE];
void kern_reset(void)
{
    for (int i = 0; i < NE; i++) if (E[i]) { generic_function_free(E[i]); E[i] = NULL; }
    if (ko) kernel_approx_opts_free(ko); ko = NULL;
}
static size_t sl(void) { size_t s = unum(); if (s >= NE) die("slot"); return s; }
static struct GenericFunction *get(void) { size_t s = sl(); if (!E[s]) die("empty slot"); return E[s]; }
static void put(size_t s, struct GenericFunction *g) { if (E[s] && E[s] != g) generic_function_free(E[s]); E[s] = g; }
static struct GenericFunction *wrapk(struct KernelExpansion *k) { struct GenericFunction *g = generic_function_alloc(1, KERNEL); g->f = k; g->fargs = NULL; return g; }
static void oshow(void)
{
    outi("np", (long)kernel_approx_opts_get_nparams(ko)); outi("lin", kernel_approx_opts_linear_p(ko));
    double b[2] = { kernel_approx_opts_get_lb(ko), kernel_approx_opts_get_ub(ko) }; out("b", 2, b);
}
static void c_kopt(void) { double s = num(), w = num(); size_t n = unum(); double *c = nums(n); if (ko) kernel_approx_opts_free(ko); ko = kernel_approx_opts_gauss(n, c, s, w); for (size_t i = 0; i < n; i++) c[i] = 1e9; oshow(); }
static void c_kad(void) { kernel_approx_opts_set_center_adapt(ko, (int)inum()); oshow(); }
static void c_knp(void) { kernel_approx_opts_set_nparams(ko, unum()); oshow(); }
static void c_kbnd(void) { double a = num(), b = num(); kernel_approx_opts_set_lb(ko, a); kernel_approx_opts_set_ub(ko, b); oshow(); }
static void c_kalloc(void) { size_t s = sl(); put(s, wrapk(kernel_expansion_alloc(unum()))); }
static void c_kadd(void)
{
    struct GenericFunction *g = get(); double wt = num(), sc = num(), w = num(), c = num();
    struct Kernel *k = kernel_gaussian(sc, w, c); kernel_expansion_add_kernel(g->f, wt, k); kernel_free(k);
}
static void c_kmk(void) { size_t s = sl(), n = unum(); double *p = nums(n); put(s, generic_function_create_with_params(KERNEL, ko, n, p)); for (size_t i = 0; i < n; i++) p[i] = 1e9; }
static void c_kzero(void) { size_t s = sl(); put(s, generic_function_zero(KERNEL, ko, (int)inum())); }
static void c_klin(void)
{
    size_t s = sl(); long d = inum(); double a = num(), b = num();
    put(s, d == 0 ? generic_function_linear(a, b, KERNEL, ko) : generic_function_constant(b, KERNEL, ko));
    double c[200]; size_t n = generic_function_get_params(E[s], c); out("p", n, c);
}
static void c_kupd(void) { struct GenericFunction *g = get(); size_t n = unum(); double *p = nums(n); outi("ret", generic_function_update_params(g, n, p)); }
static void c_kcp(void) { size_t s = sl(); struct GenericFunction *a = get(); put(s, generic_function_copy(a)); }
static void c_kfree(void) { size_t s = sl(); put(s, NULL); }
static void c_kser(void)
{
    size_t s = sl(); struct GenericFunction *a = get(); size_t n = 0; serialize_generic_function(NULL, a, &n);
    unsigned char *b = malloc(n); unsigned char *e = serialize_generic_function(b, a, NULL);
    if ((size_t)(e - b) > n) fail("serialised form longer than announced");
    struct GenericFunction *g = NULL; unsigned char *e2 = deserialize_generic_function(b, &g);
    outi("used", e2 == e); free(b); put(s, g);
}
static void c_kscale(void) { double a = num(); generic_function_scale(a, get()); }
static void c_kflip(void) { generic_function_flip_sign(get()); }
static void c_kaxpy(void) { double a = num(); struct GenericFunction *x = get(), *y = get(); outi("ret", generic_function_axpy(a, x, y)); }
static void c_kdax(void) { size_t s = sl(); double a = num(); struct GenericFunction *x = get(); double b = num(); struct GenericFunction *y = get(); put(s, generic_function_daxpby(a, x, b, y)); }
static void c_ksetb(void) { struct GenericFunction *g = get(); double a = num(), b = num(); kernel_expansion_set_bounds(g->f, a, b); }
static void c_kdump(void)
{
    struct GenericFunction *g = get(); size_t n = generic_function_get_num_params(g); double *p = malloc((n + 1) * sizeof *p);
    size_t m = generic_function_get_params(g, p); outi("np", (long)n); out("params", m, p); free(p);
    outi("nk", (long)kernel_expansion_get_nkernels(g->f));
    double b[2] = { generic_function_get_lb(g), generic_function_get_ub(g) }; out("b", 2, b);
    size_t k = (size_t)nleft(); double *x = nums(k);
    outbegin("vals"); for (size_t i = 0; i < k; i++) outd(generic_function_1d_eval(g, x[i])); outend();
    outbegin("ders"); for (size_t i = 0; i < k; i++) outd(generic_function_deriv_eval(g, x[i])); outend();
}
static void c_kpg(void)
{
    struct GenericFunction *g = get(); size_t k = unum(); double *x = nums(k); size_t n = generic_function_get_num_params(g);
    double *G = malloc((n * k + 1) * sizeof *G); for (size_t i = 0; i < n * k; i++) G[i] = 1e9;
    generic_function_param_grad_eval(g, k, x, G); out("g", n * k, G);
    outbegin("e"); for (size_t i = 0; i < k; i++) outd(generic_function_param_grad_eval2(g, x[i], G + i * n)); outend();
    out("g2", n * k, G); free(G);
}
static void c_ksng(void)
{
    struct GenericFunction *g = get(); double sc = num(); size_t n = generic_function_get_num_params(g); double *G = rest(n);
    outi("ret", generic_function_squared_norm_param_grad(g, sc, G)); out("g", n, G);
}
static void c_kint(void) { struct GenericFunction *g = get(); out1("v", generic_function_integrate(g)); out1("w", generic_function_integrate_weighted(g)); out1("n", generic_function_norm(g)); }
static void c_kinner(void) { struct GenericFunction *a = get(), *b = get(); out1("v", generic_function_inner(a, b)); }
static void c_kamax(void)
{
    struct GenericFunction *g = get(); size_t n = unum(); double *x = nums(n); struct c3Vector *v = c3vector_alloc(n, x); double at = 0;
    double m = generic_function_absmax(g, &at, v); double o[2] = { m, at }; out("m", 2, o); c3vector_free(v);
}
static void c_kraw(void)
{
    double s1 = num(), w1 = num(), c1 = num(), s2 = num(), w2 = num(), c2 = num(), lb = num(), ub = num(), x = num();
    double o[4] = { gauss_kernel_eval(s1, w1, c1, x), gauss_kernel_deriv(s1, w1, c1, x), gauss_kernel_integrate(s1, w1, c1, lb, ub), gauss_kernel_inner(s1, w1, c1, s2, w2, c2, lb, ub) };
    out("o", 4, o);
}
struct cmd kern_cmds[] = {
    {"kopt", c_kopt}, {"kad", c_kad}, {"knp", c_knp}, {"kbnd", c_kbnd}, {"kalloc", c_kalloc}, {"kadd", c_kadd}, {"kmk", c_kmk}, {"kzero", c_kzero}, {"klin", c_klin}, {"kupd", c_kupd},
    {"kcp", c_kcp}, {"kfree", c_kfree}, {"kser", c_kser}, {"kscale", c_kscale}, {"kflip", c_kflip}, {"kaxpy", c_kaxpy}, {"kdax", c_kdax}, {"ksetb", c_ksetb}, {"kdump", c_kdump}, {"kpg", c_kpg},
    {"ksng", c_ksng}, {"kint", c_kint}, {"kinner", c_kinner}, {"kamax", c_kamax}, {"kraw", c_kraw}, {NULL, NULL}
};
