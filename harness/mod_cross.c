/* Cross approximation: the function approximated is the interpolant of a given table on the current grid, so it lies in the
 * approximation space exactly; every point at which it is evaluated is recorded. */
#include "driver.h"
#include "driver_ft.h"
static double *T; static size_t NT;               /* the table, last index fastest */
static double *P; static size_t NP, CP;           /* evaluated points */
static size_t *RK; static size_t NR, CR;          /* ranks in force at each evaluation (raw interface only) */
static struct C3Approx *CA; static struct OneApproxOpts *OA[MAXD]; static void *AO[MAXD]; static struct c3Vector *OV[MAXD];
static struct FtCrossArgs *CX; static struct CrossIndex *IL[MAXD], *IR[MAXD]; static struct FiberOptArgs *FO;

static void log_clear(void) { free(P); P = NULL; NP = CP = 0; free(RK); RK = NULL; NR = CR = 0; }
static void raw_free(void)
{
    if (CX) ft_cross_args_free(CX);
    CX = NULL;
    for (int k = 0; k < MAXD; k++) { cross_index_free(IL[k]); IL[k] = NULL; cross_index_free(IR[k]); IR[k] = NULL; }
    if (FO) fiber_opt_args_free(FO);
    FO = NULL;
}
static void ca_free(void)
{
    if (CA) c3approx_destroy(CA);
    CA = NULL;
    for (int k = 0; k < MAXD; k++) {
        if (OA[k]) one_approx_opts_free_deep(&OA[k]);
        OA[k] = NULL; AO[k] = NULL;
        if (OV[k]) c3vector_free(OV[k]);
        OV[k] = NULL;
    }
}
void cross_reset(void) { raw_free(); ca_free(); log_clear(); free(T); T = NULL; }

static double table(const double *x)
{
    size_t lo[MAXD]; double w[MAXD];
    for (size_t k = 0; k < G_d; k++) {
        size_t n = G_n[k], i = 0;
        while (i + 2 < n && x[k] >= G_x[k][i + 1]) i++;
        double t = (x[k] - G_x[k][i]) / (G_x[k][i + 1] - G_x[k][i]);
        lo[k] = i; w[k] = G_fam[k] == 0 ? t : (t < 0.5 ? 0.0 : 1.0);
    }
    double s = 0;
    for (size_t m = 0; m < ((size_t)1 << G_d); m++) {
        double p = 1; size_t q = 0;
        for (size_t k = 0; k < G_d; k++) { size_t b = (m >> k) & 1; p *= b ? w[k] : 1 - w[k]; q = q * G_n[k] + lo[k] + b; }
        if (p != 0) s += p * T[q];
    }
    return s;
}
static void rec(const double *x)
{
    if (NP + G_d > CP) { CP = 2 * CP + 1024; P = realloc(P, CP * sizeof *P); }
    for (size_t k = 0; k < G_d; k++) P[NP++] = x[k];
    if (CX) {
        const size_t *r = ft_cross_args_get_ranks(CX);
        if (NR < G_d + 2 || memcmp(RK + NR - G_d - 1, r, (G_d + 1) * sizeof *r)) {      /* ranks changed: new segment (start, ranks) */
            if (NR + G_d + 2 > CR) { CR = 2 * CR + 256; RK = realloc(RK, CR * sizeof *RK); }
            RK[NR++] = NP / G_d - 1;
            for (size_t k = 0; k <= G_d; k++) RK[NR++] = r[k];
        }
    }
    if (NP > 40000000) fail("cross approximation does not end");
}
static double f1(const double *x, void *a) { if (a != T) fail("wrong function argument"); rec(x); return table(x); }
static int fv(size_t n, const double *x, double *o, void *a) { if (a != T) fail("wrong function argument"); for (size_t i = 0; i < n; i++) { rec(x + i * G_d); o[i] = table(x + i * G_d); } return 0; }
static void c_xfun(void) { free(T); NT = 1; for (size_t k = 0; k < G_d; k++) NT *= G_n[k]; T = malloc(NT * sizeof *T); for (size_t i = 0; i < NT; i++) T[i] = num(); }
/* c3approx interface */
static void c_xnew(void)
{
    long opt = inum(); ca_free(); CA = c3approx_create(CROSS, G_d);
    for (size_t k = 0; k < G_d; k++) {
        if (G_fam[k] == 0) { AO[k] = lin_elem_exp_aopts_alloc(G_n[k], G_x[k]); OA[k] = one_approx_opts_alloc(LINELM, AO[k]); }
        else { AO[k] = const_elem_exp_aopts_alloc(G_n[k], G_x[k]); OA[k] = one_approx_opts_alloc(CONSTELM, AO[k]); }
        c3approx_set_approx_opts_dim(CA, k, OA[k]);
        if (opt) { OV[k] = c3vector_alloc(G_n[k], G_x[k]); c3approx_set_opt_opts_dim(CA, k, OV[k]); }
    }
    outi("dim", (long)c3approx_get_dim(CA));
}
static double **starts(size_t *len, long have)
{
    if (!have) return NULL;
    double **s = malloc(G_d * sizeof *s);
    for (size_t k = 0; k < G_d; k++) { s[k] = malloc(len[k] * sizeof(double)); for (size_t i = 0; i < len[k]; i++) s[k][i] = num(); }
    return s;
}
static void sfree(double **s) { if (s) { for (size_t k = 0; k < G_d; k++) free(s[k]); free(s); } }
static void c_xinit(void)
{
    size_t r = unum(); long have = inum(); size_t len[MAXD]; for (size_t k = 0; k < G_d; k++) len[k] = r;
    double **s = starts(len, have); c3approx_init_cross(CA, r, 0, s); sfree(s);
}
static void c_xinith(void)
{
    size_t *r = unums(G_d + 1); long have = inum(); size_t len[MAXD]; for (size_t k = 0; k < G_d; k++) len[k] = r[k] > r[k + 1] ? r[k] : r[k + 1];
    double **s = starts(len, have); c3approx_init_cross_het(CA, r, 0, s); sfree(s);
}
static void c_xopt(void) { double ct = num(), rt = num(); size_t mi = unum(), kick = unum(), mr = unum(); c3approx_set_cross_tol(CA, ct); c3approx_set_round_tol(CA, rt); c3approx_set_cross_maxiter(CA, mi); c3approx_set_adapt_kickrank(CA, kick); c3approx_set_adapt_maxrank_all(CA, mr); }
static struct Fwrap *wrap(const char *w)
{
    struct Fwrap *fw = fwrap_create(G_d, w);
    if (!strcmp(w, "general")) fwrap_set_f(fw, f1, T); else fwrap_set_fvec(fw, fv, T);
    return fw;
}
static void result(size_t s, struct FunctionTrain *f)
{
    if (!f) fail("no function train returned");
    outz("rk", NR, RK); out("pts", NP, P); ft_put(s, f); ft_dump("", f); log_clear();
}
static void c_xrun(void)
{
    size_t s = slotno(); const char *w = tok(); long adapt = inum(); struct Fwrap *fw = wrap(w);
    log_clear(); struct FunctionTrain *f = c3approx_do_cross(CA, fw, (int)adapt); fwrap_destroy(fw);
    result(s, f);
}
/* the interface below it */
static void c_rnew2(void)
{
    raw_free(); size_t *r = unums(G_d + 1); size_t len[MAXD]; for (size_t k = 0; k < G_d; k++) len[k] = r[k] > r[k + 1] ? r[k] : r[k + 1];
    double **s = starts(len, 1);
    CX = ft_cross_args_alloc(G_d, r[1]);
    for (size_t k = 0; k <= G_d; k++) ft_cross_args_set_rank(CX, k, r[k]);
    cross_index_array_initialize(G_d, IR, 0, 1, r, (void **)s, sizeof(double));
    cross_index_array_initialize(G_d, IL, 0, 0, r + 1, (void **)s, sizeof(double));
    FO = fiber_opt_args_init(G_d); sfree(s);
}
static void c_ropt(void) { double ct = num(), rt = num(); size_t mi = unum(), kick = unum(); size_t *mr = unums(G_d - 1);
    ft_cross_args_set_cross_tol(CX, ct); ft_cross_args_set_round_tol(CX, rt); ft_cross_args_set_maxiter(CX, mi); ft_cross_args_set_kickrank(CX, kick);
    for (size_t k = 0; k + 1 < G_d; k++) ft_cross_args_set_maxrank_ind(CX, mr[k], k);
    if (inum()) { struct FtCrossArgs *c = ft_cross_args_copy(CX); ft_cross_args_free(CX); CX = c; } }
static void c_rrun(void)
{
    size_t s = slotno(); const char *w = tok(); long adapt = inum(); struct Fwrap *fw = wrap(w); struct FunctionTrain *ref = function_train_constant(1.0, G_opts);
    log_clear(); if (adapt) ft_cross_args_set_adaptation(CX); else ft_cross_args_set_no_adaptation(CX);
    struct FunctionTrain *f = ftapprox_cross_rankadapt(fw, CX, IL, IR, G_opts, FO, ref);
    fwrap_destroy(fw); function_train_free(ref);
    result(s, f); outz("ranksnow", G_d + 1, ft_cross_args_get_ranks(CX));
}
struct cmd cross_cmds[] = { {"xfun", c_xfun}, {"xnew", c_xnew}, {"xinit", c_xinit}, {"xinith", c_xinith}, {"xopt", c_xopt}, {"xrun", c_xrun},
    {"xraw", c_rnew2}, {"xropt", c_ropt}, {"xrrun", c_rrun}, {NULL, NULL} };
