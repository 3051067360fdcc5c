/* probability layer: affine transforms, densities, the normal distribution */
#include "driver.h"
#include "driver_ft.h"
#include <unistd.h>
#include "lib_probability.h"
#define NDN 3
static struct ProbabilityDensity *P[NDN];
void prob_reset(void) { for (int i = 0; i < NDN; i++) if (P[i]) { probability_density_free(P[i]); P[i] = NULL; } }
static size_t sl(void) { size_t s = unum(); if (s >= NDN) die("slot"); return s; }
static struct ProbabilityDensity *get(void) { size_t s = sl(); if (!P[s]) die("empty slot"); return P[s]; }
static void put(size_t s, struct ProbabilityDensity *p) { if (!p) fail("no density returned"); if (P[s]) probability_density_free(P[s]); P[s] = p; }
static void c_lt(void)
{
    size_t m = unum(), l = unum(); char w[16]; for (size_t i = 0; i < l; i++) w[i] = tok()[0];
    double *a = nums(m * m), *b = nums(m), det = num();
    struct LinearTransform *t = linear_transform_alloc(m, m, a, b, det), *u; t->mt = LT;
    for (size_t i = 0; i < m * m; i++) a[i] = 1e9;
    for (size_t i = 0; i < m; i++) b[i] = 1e9;
    for (size_t i = 0; i < l; i++) {
        if (w[i] == 'i') linear_transform_invert(t);
        else if (w[i] == 'c') { u = linear_transform_copy(t); linear_transform_free(t); t = u; }
        else {
            size_t n = 0; linear_transform_serialize(NULL, t, &n); unsigned char *d = malloc(n), *e = linear_transform_serialize(d, t, NULL), *e2;
            if ((size_t)(e - d) > n) fail("serialised form longer than announced");
            e2 = linear_transform_deserialize(d, &u); if (e2 != e) fail("serialised form not read back entirely");
            free(d); linear_transform_free(t); t = u;
        }
    }
    outi("dimin", (long)t->dimin); outi("dimout", (long)t->dimout); out("A", m * m, t->A); out("b", m, t->b); out("det", 1, &t->det); outi("inv", t->Ainv != NULL);
    if (t->Ainv) { out("Ainv", m * m, t->Ainv); out("binv", m, t->binv); out("detinv", 1, &t->detinv); }
    linear_transform_free(t);
}
static void c_ltx(void)
{
    size_t mi = unum(), mo = unum(); double *a = nums(mi * mo), *x = nums(mi), *b = nums(mo), *r = linear_transform_apply(mi, mo, a, x, b);
    out("v", mo, r); free(r);
}
static void c_pmk(void)
{
    size_t s = sl(); struct FunctionTrain *f = ftslot(); long lt = inum(); struct ProbabilityDensity *p = probability_density_alloc();
    p->pdf = function_train_copy(f); p->type = GENERAL;
    if (lt) { double *a = nums(G_d * G_d), *b = nums(G_d), det = num(); p->lt = linear_transform_alloc(G_d, G_d, a, b, det); p->lt->mt = LT; p->transform = 1; }
    put(s, p);
}
static void c_pfree(void) { size_t s = sl(); probability_density_free(P[s]); P[s] = NULL; }
static void c_pser(void)
{
    size_t s = sl(); struct ProbabilityDensity *a = get(), *b = NULL; size_t n = 0; probability_density_serialize(NULL, a, &n);
    unsigned char *d = malloc(n), *e = probability_density_serialize(d, a, NULL), *e2;
    outi("wrote", (size_t)(e - d) > n);
    e2 = probability_density_deserialize(d, &b); outi("read", (long)(e2 - e)); free(d); put(s, b);
}
static void c_psave(void)
{
    size_t s = sl(); struct ProbabilityDensity *a = get(); char fn[4200]; snprintf(fn, sizeof fn, "%s/pdf.bin", scratch);
    outi("ok", probability_density_save(a, fn)); struct ProbabilityDensity *b = probability_density_load(fn); unlink(fn);
    struct ProbabilityDensity *c = probability_density_load(fn); outi("missing", c != NULL); put(s, b);
}
static void c_pev(void) { struct ProbabilityDensity *p = get(); double *x = nums(p->pdf->dim), v = probability_density_eval(p, x); out("v", 1, &v); }
static void c_plg(void) { struct ProbabilityDensity *p = get(); size_t d = p->pdf->dim; double *x = nums(d), *g = probability_density_log_gradient_eval(p, x); out("v", d, g); free(g); }
static void c_plh(void) { struct ProbabilityDensity *p = get(); size_t d = p->pdf->dim; double *x = nums(d), *g = probability_density_log_hessian_eval(p, x); out("v", d * d, g); free(g); }
static void c_pbnd(void)
{
    struct ProbabilityDensity *p = get(); double *l = probability_density_lb_base(p), *u = probability_density_ub_base(p);
    out("lb", p->pdf->dim, l); out("ub", p->pdf->dim, u); free(l); free(u);
}
struct quad { size_t m; double *H, *c; };
static double obj(size_t m, const double *x, double *g, void *arg)
{
    struct quad *q = arg; double v = 0;
    for (size_t i = 0; i < m; i++) { double s = 0; for (size_t j = 0; j < m; j++) s += q->H[i + j * m] * (x[j] - q->c[j]); if (g) g[i] = s; v += 0.5 * s * (x[i] - q->c[i]); }
    return v;
}
static double *hess(double *x, void *arg) { (void)x; struct quad *q = arg; double *h = calloc(q->m * q->m, sizeof *h); memcpy(h, q->H, q->m * q->m * sizeof *h); return h; }
static void c_gmk(void)
{
    const char *how = tok(); size_t s = sl(), m = unum();
    if (!strcmp(how, "std")) { put(s, probability_density_standard_normal(m)); return; }
    double *c = nums(m * m), *b = nums(m);
    if (!strcmp(how, "mvn")) { put(s, probability_density_mvn(m, b, c)); return; }
    struct quad q = { m, c, b }; double *st = nums(m); put(s, probability_density_laplace(obj, hess, &q, m, st));
}
static void c_gsamp(void)
{
    struct ProbabilityDensity *p = get(); size_t d = p->pdf->dim, n = unum(); srand((unsigned)unum());
    double mu[8] = {0}, cv[64] = {0};
    for (size_t i = 0; i < n; i++) {
        double *x = probability_density_sample(p);
        for (size_t a = 0; a < d; a++) { mu[a] += x[a] / n; for (size_t b = 0; b < d; b++) cv[a + b * d] += x[a] * x[b] / n; }
        free(x);
    }
    for (size_t a = 0; a < d; a++) for (size_t b = 0; b < d; b++) cv[a + b * d] -= mu[a] * mu[b];
    out("mean", d, mu); out("cov", d * d, cv);
}
static void c_norm1(void)
{
    double mean = num(), sd = num(), x = num(), q = num(); int e = (int)inum(); double t = ldexp(1.0, -e), v[7];
    v[0] = cdf_normal(mean, sd, x); v[1] = icdf_normal(mean, sd, q); v[2] = icdf_normal(mean, sd, t); v[3] = icdf_normal(mean, sd, 1 - t);
    v[4] = cdf_normal(mean, sd, icdf_normal(mean, sd, q)); v[5] = icdf_normal(mean, sd, v[0] < 1e-12 || v[0] > 1 - 1e-9 ? q : v[0]); v[6] = icdfnorm(q);
    out("v", 7, v);
}
struct cmd prob_cmds[] = { {"lt", c_lt}, {"ltx", c_ltx}, {"pdmk", c_pmk}, {"pdfree", c_pfree}, {"pdser", c_pser}, {"pdsave", c_psave}, {"pdev", c_pev}, {"pdlg", c_plg}, {"pdlh", c_plh}, {"pdbnd", c_pbnd},
    {"gmk", c_gmk}, {"gsamp", c_gsamp}, {"norm1", c_norm1}, {NULL, NULL} };
