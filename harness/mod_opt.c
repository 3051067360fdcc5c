/* optimisers, line searches, L-BFGS histories */
#include "driver.h"
#include "optimization.h"
#define NO 3
#define NR 2
static struct c3Opt *OO[NO]; static size_t OD[NO];
static struct c3opt_lbfgs_list *RR[NR]; static size_t RD[NR];
void opt_reset(void)
{
    for (int i = 0; i < NO; i++) { if (OO[i]) c3opt_free(OO[i]); OO[i] = NULL; }
    for (int i = 0; i < NR; i++) { if (RR[i]) c3opt_lbfgs_list_free(RR[i]); RR[i] = NULL; }
}
static size_t oslot(void) { size_t s = unum(); if (s >= NO) die("slot"); return s; }
static size_t olive(void) { size_t s = oslot(); if (!OO[s]) fail("no optimiser in slot %zu", s); return s; }
/* the objective: x'Ax/2 - b'x, every call counted, points outside the box counted */
static struct quad { size_t d, n; const double *A, *b, *lb, *ub, *off; size_t calls, gcalls, outside; } Q;
static double quad(size_t d, const double *x, double *g, void *arg)
{
    struct quad *q = arg; double f = 0;
    q->calls++; if (g) q->gcalls++;
    for (size_t i = 0; i < d; i++) if (q->lb && (x[i] < q->lb[i] || x[i] > q->ub[i])) { q->outside++; break; }
    for (size_t i = 0; i < d; i++) {
        double a = 0; for (size_t j = 0; j < d; j++) a += q->A[i * d + j] * x[j];
        f += 0.5 * a * x[i] - q->b[i] * x[i];
        if (g) g[i] = a - q->b[i] + (q->off ? q->off[i] : 0);
    }
    return f;
}
static struct quad *setq(size_t d) { memset(&Q, 0, sizeof Q); Q.d = d; Q.A = nums(d * d); Q.b = nums(d); return &Q; }
static enum c3opt_alg algof(const char *a) { return !strcmp(a, "bfgs") ? BFGS : !strcmp(a, "lbfgs") ? LBFGS : !strcmp(a, "grad") ? BATCHGRAD : (die("alg"), BFGS); }
static void c_onew(void)
{
    size_t s = oslot(); enum c3opt_alg a = algof(tok()); size_t d = unum(); long how = inum();
    if (OO[s]) c3opt_free(OO[s]);
    if (how) { OO[s] = c3opt_create(a); c3opt_set_nvars(OO[s], d); } else OO[s] = c3opt_alloc(a, d);
    OD[s] = d;
}
static void c_ocp(void) { size_t s = oslot(), a = olive(); struct c3Opt *o = c3opt_copy(OO[a]); if (OO[s]) c3opt_free(OO[s]); OO[s] = o; OD[s] = OD[a]; }
static void c_ofree(void) { size_t s = olive(); c3opt_free(OO[s]); OO[s] = NULL; }
static char *stored(struct c3Opt *o) { char *b = NULL; size_t n; FILE *f = open_memstream(&b, &n); c3opt_print_stored_values(o, f, 0, 17); fclose(f); return b; }
static void c_ocmp(void)
{
    size_t s = olive(), a = olive(); struct c3Opt *x = OO[s], *y = OO[a];
    long bad = c3opt_get_niters(x) != c3opt_get_niters(y) || c3opt_get_nevals(x) != c3opt_get_nevals(y) || c3opt_get_ngvals(x) != c3opt_get_ngvals(y)
        || memcmp(c3opt_get_lb(x), c3opt_get_lb(y), OD[a] * sizeof(double)) || memcmp(c3opt_get_ub(x), c3opt_get_ub(y), OD[a] * sizeof(double));
    if (c3opt_get_niters(y) <= c3opt_get_maxiter(y)) { char *p = stored(x), *q = stored(y); if (strcmp(p, q)) bad = 1; free(p); free(q); }
    outi("differ", bad);
}
static void c_odump(void)
{
    size_t s = olive(); struct c3Opt *o = OO[s];
    outi("maxiter", (long)c3opt_get_maxiter(o)); outi("nvec", (long)c3opt_get_nvectors_store(o)); outi("scale", c3opt_get_lbfgs_scale(o));
    outi("kind", c3opt_is_bruteforce(o) || c3opt_is_sgd(o)); outi("store", c3opt_get_store_func(o));
    enum c3opt_ls_alg l = c3opt_ls_get_alg(o); outw("lsalg", l == BACKTRACK ? "back" : l == STRONGWOLFE ? "strong" : "weak");
    out1("alpha", c3opt_ls_get_alpha(o)); out1("beta", c3opt_ls_get_beta(o)); outi("lsmax", (long)c3opt_ls_get_maxiter(o));
    out("lb", OD[s], c3opt_get_lb(o)); out("ub", OD[s], c3opt_get_ub(o));
}
static void c_obnd(void) { size_t s = olive(); double *l = nums(OD[s]), *u = nums(OD[s]); c3opt_add_lb(OO[s], l); c3opt_add_ub(OO[s], u); }
static void c_ostore(void) { size_t s = olive(); size_t mi = unum(); long f = inum(), g = inum(), x = inum(); c3opt_set_maxiter(OO[s], mi); c3opt_set_storage_options(OO[s], f, g, x); }
static void c_otol(void) { size_t s = olive(); double g = num(), f = num(), x = num(); c3opt_set_gtol(OO[s], g); c3opt_set_relftol(OO[s], f); c3opt_set_absxtol(OO[s], x); }
static enum c3opt_ls_alg lsof(const char *l) { return !strcmp(l, "back") ? BACKTRACK : !strcmp(l, "strong") ? STRONGWOLFE : WEAKWOLFE; }
static void c_ols(void)
{
    size_t s = olive(); enum c3opt_ls_alg l = lsof(tok()); double a = num(), b = num(); size_t m = unum();
    c3opt_ls_set_alg(OO[s], l); c3opt_ls_set_alpha(OO[s], a); c3opt_ls_set_beta(OO[s], b); c3opt_ls_set_maxiter(OO[s], m);
}
static void c_ovec(void) { size_t s = olive(); size_t v = unum(); long c = inum(); c3opt_set_nvectors_store(OO[s], v); c3opt_set_lbfgs_scale(OO[s], c); }
static void miscount(struct c3Opt *o) { outi("miscount", (long)(c3opt_get_nevals(o) != Q.calls) + 2 * (long)(c3opt_get_ngvals(o) != Q.gcalls)); }
static void c_omin(void)
{
    size_t s = olive(), d = OD[s]; struct c3Opt *o = OO[s]; struct quad *q = setq(d); double *x = nums(d), f = 1e300;
    q->lb = c3opt_get_lb(o); q->ub = c3opt_get_ub(o);
    c3opt_add_objective(o, quad, q);
    int ret = c3opt_minimize(o, x, &f);
    outi("outside", (long)q->outside); miscount(o);
    outbegin("run"); outd(ret); outd(f); for (size_t i = 0; i < d; i++) outd(x[i]);
    outd((double)c3opt_get_niters(o));
    /* the printed history: one line per iterate, first column its number */
    char *b = stored(o), *p = strchr(b, '\n'); p = p ? p + 1 : b + strlen(b); char *e;
    for (;;) { double v = strtod(p, &e); if (e == p) break; outd(v); p = e; }
    outend(); free(b);
    if (c3opt_get_store_func(o)) { outbegin("sf"); for (size_t i = 0; i < c3opt_get_niters(o); i++) outd(c3opt_get_stored_function(o, i)); outend(); }
}
static void c_oderiv(void)
{
    size_t s = olive(), d = OD[s]; struct quad *q = setq(d); double *x = nums(d); q->off = nums(d); double *e = calloc(d, sizeof *e);
    c3opt_add_objective(OO[s], quad, q);
    size_t n0 = c3opt_get_nevals(OO[s]), g0 = c3opt_get_ngvals(OO[s]);
    out1("err", c3opt_check_deriv(OO[s], x, 1e-3)); out1("err2", c3opt_check_deriv_each(OO[s], x, 1e-3, e)); out("each", d, e);
    outi("miscount", (long)(c3opt_get_nevals(OO[s]) - n0 != Q.calls) + 2 * (long)(c3opt_get_ngvals(OO[s]) - g0 != Q.gcalls));
    free(e);
}
static void c_obrute(void)
{
    size_t d = unum(), m = unum(); long cp = inum(); double *X = nums(d * m); struct quad *q = setq(d); double *x = calloc(d, sizeof *x), f;
    struct c3Opt *o = c3opt_alloc(BRUTEFORCE, d); c3opt_set_brute_force_vals(o, m, X); c3opt_add_objective(o, quad, q);
    if (cp) { struct c3Opt *z = c3opt_copy(o); c3opt_free(o); o = z; }
    int ret = c3opt_minimize(o, x, &f); outi("ret", ret); out1("minf", f); out("at", d, x); miscount(o);
    c3opt_free(o); free(x);
}
static double fq(double *x, void *a) { return quad(Q.d, x, NULL, a); }
static int gq(double *x, double *g, void *a) { quad(Q.d, x, g, a); return 0; }
static int hq(double *x, double *h, void *a) { (void)x; struct quad *q = a; memcpy(h, q->A, q->d * q->d * sizeof *h); return 0; }
static double *gn(double *x, void *a) { double *g = malloc(Q.d * sizeof *g); quad(Q.d, x, g, a); return g; }
static double *hn(double *x, void *a) { double *h = malloc(Q.d * Q.d * sizeof *h); hq(x, h, a); return h; }
static void c_oline(void)
{
    const char *kind = tok(); size_t d = unum(); double al = num(), be = num(); long box = inum(); double *lb = box ? nums(d) : NULL, *ub = box ? nums(d) : NULL;
    struct quad *q = setq(d); double *x = nums(d), *p = nums(d), *g = calloc(d, sizeof *g), *nx = calloc(d, sizeof *nx), nf = 1e300, st, fx; int info = -77;
    fx = quad(d, x, g, q); q->calls = q->gcalls = 0; long bad = 0;
    if (!strcmp(kind, "bt")) st = backtrack_line_search(d, x, fx, p, nx, &nf, g, al, be, fq, q, 100, &info);
    else if (!strcmp(kind, "btbc")) {
        double *l = calloc(d, sizeof *l), *u = calloc(d, sizeof *u);
        for (size_t i = 0; i < d; i++) { l[i] = box ? lb[i] : -1e30; u[i] = box ? ub[i] : 1e30; }
        st = backtrack_line_search_bc(d, l, u, x, fx, p, nx, &nf, g, al, be, fq, q, 100, &info); free(l); free(u);
    } else {
        struct c3Opt *o = c3opt_alloc(BFGS, d); c3opt_ls_set_alpha(o, al); c3opt_ls_set_beta(o, be); c3opt_set_absxtol(o, 1e-14); if (box) { c3opt_add_lb(o, lb); c3opt_add_ub(o, ub); }
        c3opt_add_objective(o, quad, q);
        if (!strcmp(kind, "weak")) st = c3opt_ls_wolfe_bisect(o, x, fx, g, p, nx, &nf, &info); else st = c3opt_ls_strong_wolfe(o, x, fx, g, p, nx, &nf, &info);
        bad = (c3opt_get_nevals(o) != q->calls) + 2 * (c3opt_get_ngvals(o) != q->gcalls); c3opt_free(o);
    }
    out1("step", st); out("newx", d, nx); out1("newf", nf); outi("info", info); out("newg", d, g); outi("miscount", bad);
    outbegin("line"); outd(st); outd(nf); outd(info); for (size_t i = 0; i < d; i++) outd(nx[i]); for (size_t i = 0; i < d; i++) outd(g[i]); outend();
    free(g); free(nx);
}
static void c_oold(void)
{
    const char *kind = tok(); size_t mi = unum(), d = unum(); struct quad *q = setq(d); double *x0 = nums(d), *lb = nums(d), *ub = nums(d), f = 1e300; int ret = 0;
    double *x = malloc(d * sizeof *x), *g = calloc(d, sizeof *g), *sp = calloc(4 * d, sizeof *sp), *h = calloc(d * d, sizeof *h);
    memcpy(x, x0, d * sizeof *x); for (size_t i = 0; i < d; i++) h[i * d + i] = 1;
    if (strcmp(kind, "newton") && strcmp(kind, "gd")) { q->lb = lb; q->ub = ub; }
    if (!strcmp(kind, "newton")) { newton(&x, d, 1.0, 1e-10, gn, hn, q); f = fq(x, q); }
    else if (!strcmp(kind, "gd")) ret = gradient_descent(d, x, &f, g, sp, fq, q, gq, q, 1e-5, mi, 200, 0.25, 0.5, 0);
    else if (!strcmp(kind, "pg")) ret = box_pg_descent(d, lb, ub, x, &f, g, sp, fq, q, gq, q, 1e-9, mi, 200, 0.25, 0.5, 0);
    else if (!strcmp(kind, "bnewton")) ret = box_damp_newton(d, lb, ub, x, &f, g, h, sp, fq, q, gq, q, hq, q, 1e-12, mi, 200, 0.25, 0.5, 0);
    else ret = box_damp_bfgs(d, lb, ub, x, &f, g, h, sp, fq, q, gq, 1e-12, mi, 200, 0.25, 0.5, 0);
    outi("outside", (long)q->outside); outbegin("old"); outd(ret); outd(f); for (size_t i = 0; i < d; i++) outd(x[i]); for (size_t i = 0; i < d; i++) outd(g[i]); outd((double)q->gcalls); outend();
    free(x); free(g); free(sp); free(h);
}
/* stochastic objective: every call recorded as sample index, with or without gradient */
static struct { size_t n; const double *A, *y; size_t calls, gcalls, len; double *log; } S;
static double sgdf(size_t d, size_t i, const double *x, double *g, void *arg)
{
    (void)arg; S.calls++; if (g) S.gcalls++;
    if (i >= S.n) fail("sample %zu of %zu asked for", i, S.n);
    double e = -S.y[i]; for (size_t j = 0; j < d; j++) e += S.A[i * d + j] * x[j];
    if (g) for (size_t j = 0; j < d; j++) g[j] = e * S.A[i * d + j];
    if (S.len < 20000) { S.log[S.len++] = (double)i; S.log[S.len++] = g != NULL; }
    return 0.5 * e * e;
}
static void c_osgd(void)
{
    size_t d = unum(), n = unum(), mi = unum(); long sf = inum(), cp = inum(); S.n = n; S.A = nums(n * d); S.y = nums(n); double *x = nums(d), f = 1e300; S.calls = S.gcalls = S.len = 0; S.log = malloc(20010 * sizeof(double));
    struct c3Opt *o = c3opt_alloc(SGD, d); c3opt_set_sgd_nsamples(o, n); c3opt_set_sgd_learn_rate(o, 1e-2); c3opt_set_maxiter(o, mi); c3opt_set_relftol(o, 1e-14); c3opt_set_gtol(o, 1e-20);
    if (cp) { struct c3Opt *z = c3opt_copy(o); c3opt_free(o); o = z; }
    c3opt_set_storage_options(o, sf, 0, 0); c3opt_add_objective_stoch(o, sgdf, NULL);
    int ret = c3opt_minimize(o, x, &f);
    outi("miscount", (long)(c3opt_get_nevals(o) != S.calls) + 2 * (long)(c3opt_get_ngvals(o) != S.gcalls));
    outbegin("sgd"); outd(ret); outd(f); for (size_t i = 0; i < d; i++) outd(x[i]); outd((double)c3opt_get_niters(o));
    for (size_t i = 0; sf && i < c3opt_get_niters(o); i++) outd(c3opt_get_stored_function(o, i));
    for (size_t i = 0; i < S.len; i++) outd(S.log[i]);
    outend(); free(S.log); c3opt_free(o);
}
static size_t rslot(void) { size_t s = unum(); if (s >= NR) die("slot"); return s; }
static void c_rnew(void) { size_t s = rslot(), m = unum(), d = unum(); if (RR[s]) c3opt_lbfgs_list_free(RR[s]); RR[s] = c3opt_lbfgs_list_alloc(m, d); RD[s] = d; }
static void c_rins(void) { size_t s = rslot(), it = unum(), d = RD[s]; double *v = nums(4 * d); c3opt_lbfgs_list_insert(RR[s], it, v, v + d, v + 2 * d, v + 3 * d); }
static void c_rwalk(void)
{
    size_t s = rslot(); long back = inum(); size_t c = unum(); c3opt_lbfgs_reset_step(RR[s]); outbegin("pairs");
    for (size_t i = 0; i < c; i++) {
        size_t it; double *sv, *yv, r; if (back) c3opt_lbfgs_list_step_back(RR[s], &it, &sv, &yv, &r); else c3opt_lbfgs_list_step(RR[s], &it, &sv, &yv, &r);
        outd((double)it); for (size_t j = 0; j < RD[s]; j++) outd(sv[j]); for (size_t j = 0; j < RD[s]; j++) outd(yv[j]); outd(r);
    }
    outend();
}
static void c_rfree(void) { size_t s = rslot(); c3opt_lbfgs_list_free(RR[s]); RR[s] = NULL; }
struct cmd opt_cmds[] = { {"onew", c_onew}, {"ocp", c_ocp}, {"ofree", c_ofree}, {"ocmp", c_ocmp}, {"odump", c_odump}, {"obnd", c_obnd}, {"ostore", c_ostore}, {"otol", c_otol}, {"ols", c_ols}, {"ovec", c_ovec},
    {"omin", c_omin}, {"oderiv", c_oderiv}, {"obrute", c_obrute}, {"oline", c_oline}, {"oold", c_oold}, {"osgd", c_osgd}, {"rnew", c_rnew}, {"rins", c_rins}, {"rwalk", c_rwalk}, {"rfree", c_rfree}, {NULL, NULL} };
