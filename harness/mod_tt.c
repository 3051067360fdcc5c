/* discrete tensors and tensor trains. Scripts list tensors with the last index fastest; the library stores the first one fastest. */
#include "driver.h"
#include "tensor.h"
#include "tensortrain.h"
#include "tt_multilinalg.h"
#include "tt_integrate.h"
#include "candecomp.h"
#include "convert_decomp.h"
#include "cross.h"
#define NT 5
#define NC 4
#define MD 12
static struct tt *T[NT]; static struct tensor *C[NC];
static void tfree(size_t s) { if (T[s]) freett(T[s]); T[s] = NULL; }
static void cfree(size_t s) { if (C[s]) free_tensor(&C[s]); C[s] = NULL; }
void tt_reset(void) { for (size_t i = 0; i < NT; i++) tfree(i); for (size_t i = 0; i < NC; i++) cfree(i); }
static size_t ts(void) { size_t s = unum(); if (s >= NT) die("slot"); return s; }
static size_t cs(void) { size_t s = unum(); if (s >= NC) die("slot"); return s; }
static void tput(size_t s, struct tt *t) { tfree(s); T[s] = t; if (!t) fail("no tensor train"); }
static void cput(size_t s, struct tensor *t) { cfree(s); C[s] = t; if (!t) fail("no tensor"); }
/* next multi-index, last one fastest */
static int step(size_t d, const size_t *n, size_t *ix) { for (size_t k = d; k-- > 0;) { if (++ix[k] < n[k]) return 1; ix[k] = 0; } return 0; }
static size_t prod(size_t d, const size_t *n) { size_t p = 1; for (size_t k = 0; k < d; k++) p *= n[k]; return p; }
static size_t posn(size_t d, const size_t *n, const size_t *ix) { size_t p = 0, m = 1; for (size_t k = 0; k < d; k++) { p += ix[k] * m; m *= n[k]; } return p; }
static struct tensor *mkfull(size_t d, size_t *n)
{
    double *v = nums(prod(d, n)); struct tensor *t; init_tensor(&t, d, n); size_t ix[MD] = {0}, q = 0;
    do t->vals[posn(d, n, ix)] = v[q++]; while (step(d, n, ix));
    return t;
}
static void outfull(const char *l, struct tensor *t) { size_t ix[MD] = {0}; outbegin(l); do outd(tensor_elem(t, ix)); while (step(t->dim, t->nvals, ix)); outend(); }
static void c_ttnew(void)
{
    size_t s = ts(), d = unum(), *n = unums(d), *r = unums(d + 1); struct tt *t; init_tt_alloc(&t, d, n);
    for (size_t k = 0; k <= d; k++) t->ranks[k] = r[k];
    for (size_t k = 0; k < d; k++) {     /* cores are listed column by column, row by row, all values of an entry */
        size_t nv[3] = {r[k], n[k], r[k + 1]}; double *v = nums(prod(3, nv)); size_t q = 0; init_tensor(&t->cores[k], 3, nv);
        for (size_t j = 0; j < r[k + 1]; j++) for (size_t i = 0; i < r[k]; i++) for (size_t u = 0; u < n[k]; u++) t->cores[k]->vals[i + u * r[k] + j * r[k] * n[k]] = v[q++];
    }
    tput(s, t);
}
static void c_ttones(void) { size_t s = ts(), d = unum(), *n = unums(d); tput(s, tt_ones(d, n)); }
static void c_ttx(void) { size_t s = ts(), k = unum(), d = unum(), *n = unums(d); double *x = nums(n[k]); tput(s, tt_x(x, k, d, n)); }
static void c_ttfull(void)
{
    size_t s = ts(); double eps = num(); size_t d = unum(), *n = unums(d); struct tensor *t = mkfull(d, n);
    outfull("full", t); tput(s, full_to_tt(t, eps)); outfull("kept", t); free_tensor(&t);
}
static void c_ttcd(void)
{
    size_t s = ts(), d = unum(), rk = unum(), *n = unums(d), ix[MD] = {0}; struct candecomp cd; struct mat *m[MD]; cd.dim = d; cd.rank = rk; cd.cores = m;
    for (size_t k = 0; k < d; k++) { m[k] = malloc(sizeof **m); mat_ones(m[k], n[k], rk); memcpy(m[k]->vals, nums(n[k] * rk), n[k] * rk * sizeof(double)); }
    outbegin("cd"); do outd(cdelem(&cd, ix)); while (step(d, n, ix)); outend();
    tput(s, cd2tt(&cd));
    outbegin("kept"); do outd(cdelem(&cd, ix)); while (step(d, n, ix)); outend();
    for (size_t k = 0; k < d; k++) freemat(m[k]);
}
static void c_ttcp(void) { size_t s = ts(), a = ts(); struct tt *t = copy_tt(T[a]); tput(s, t); }
static void c_ttfree(void) { tfree(ts()); }
static void c_ttadd(void) { size_t s = ts(), a = ts(), b = ts(); struct tt *t = ttadd(T[a], T[b]); tput(s, t); }
static void c_ttmul(void) { size_t s = ts(), a = ts(), b = ts(); struct tt *t = ttmult(T[a], T[b]); tput(s, t); }
static void c_ttscal(void) { size_t s = ts(); ttscal(T[s], num()); }
static void c_ttround(void) { size_t s = ts(), a = ts(); double e = num(); struct tt *t = tt_round(T[a], e); tfree(a); tput(s, t); }
static void c_ttdot(void) { size_t a = ts(), b = ts(); out1("v", tt_dot(T[a], T[b])); }
static void c_ttnorm(void) { out1("v", tt_norm(T[ts()])); }
static void c_ttint(void) { size_t s = ts(), d = T[s]->dim; double *w[MD]; for (size_t k = 0; k < d; k++) w[k] = nums(T[s]->nvals[k]); out1("v", tt_integrate(T[s], w)); }
static void c_ttorth(void)
{
    size_t s = ts(); right_left_orth(&T[s]);
    outbegin("gram");                    /* sum_u G_u G_u^T of every core but the first, then its size */
    for (size_t k = 1; k < T[s]->dim; k++) {
        struct tensor *c = T[s]->cores[k]; size_t r = c->nvals[0], n = c->nvals[1], p = c->nvals[2];
        for (size_t i = 0; i < r; i++) for (size_t j = 0; j < r; j++) { double z = 0; for (size_t u = 0; u < n; u++) for (size_t q = 0; q < p; q++) z += c->vals[i + u * r + q * r * n] * c->vals[j + u * r + q * r * n]; outd(z); }
    }
    outend();
}
static void c_ttdump(void)
{
    size_t s = ts(), d = T[s]->dim, ix[MD] = {0}; outz("n", d, T[s]->nvals); outz("ranks", d + 1, T[s]->ranks);
    for (size_t k = 0; k < d; k++) { size_t *v = T[s]->cores[k]->nvals; if (v[0] != T[s]->ranks[k] || v[1] != T[s]->nvals[k] || v[2] != T[s]->ranks[k + 1]) fail("core %zu is %zux%zux%zu", k, v[0], v[1], v[2]); }
    outbegin("vals"); do outd(ttelem(T[s], ix)); while (step(d, T[s]->nvals, ix)); outend();
}
/* cross approximation; the black box notes what it is asked for */
struct box { size_t d, *n; struct tensor *t; size_t calls; char *seen; int again; double *p[MD]; double (*f)(double *, void *); };
static void box_fiber(size_t nv, size_t *ix, size_t core, double *o, void *a)
{
    struct box *b = a; size_t q = 0;
    if (core >= b->d || nv != b->n[core]) fail("fiber %zu of length %zu", core, nv);
    for (size_t k = 0; k < b->d; k++) if (k != core && ix[k] >= b->n[k]) fail("index %zu in dimension %zu of %zu", ix[k], k, b->n[k]);
    b->calls++; size_t jx[MD]; memcpy(jx, ix, b->d * sizeof *jx); jx[core] = 0; q = core * prod(b->d, b->n) + posn(b->d, b->n, jx); if (b->seen[q]) b->again = 1; b->seen[q] = 1;
    wrap_full_tensor_for_cross(nv, ix, core, o, b->t);
}
static double box_point(double *x, void *a) { struct box *b = a; size_t ix[MD]; for (size_t k = 0; k < b->d; k++) { ix[k] = (size_t)x[k] - 10 * (k + 1); if (ix[k] >= b->n[k]) fail("point outside"); } return tensor_elem(b->t, ix); }
static void c_ttcross(void)
{
    size_t s = ts(); const char *how = tok(); size_t d = unum(), *n = unums(d), *r = unums(d + 1), kick = unum(), mx = unum(); double eps = num(); struct box b = {d, n}; b.t = mkfull(d, n);
    b.seen = calloc(d * prod(d, n), 1); struct tt_cross_opts *o = init_cross_opts_with_naive_set(d, r, n); o->epsilon = 1e-10; o->maxiter = 4;
    struct func_to_array fa; double *pts[MD]; for (size_t k = 0; k < d; k++) { pts[k] = malloc(n[k] * sizeof(double)); for (size_t u = 0; u < n[k]; u++) pts[k][u] = 10.0 * (k + 1) + u; }
    fa.nvals = n; fa.dim = d; fa.pts = pts; fa.f = box_point; fa.args = &b;
    void (*A)(size_t, size_t *, size_t, double *, void *) = *how == 'f' ? wrap_func_for_cross : box_fiber; void *arg = *how == 'f' ? (void *)&fa : (void *)&b;
    struct tt *t = kick ? tt_cross_adapt(A, o, kick, mx, eps, arg) : tt_cross(A, o, arg);
    outi("again", b.again); outi("calls", b.calls > 0 || *how == 'f'); outz("oranks", d + 1, o->ranks);
    tput(s, t); free_cross_opts(&o); free(b.seen); free_tensor(&b.t); for (size_t k = 0; k < d; k++) free(pts[k]);
}
/* three-dimensional tensors */
static void c_cnew(void) { size_t s = cs(), *n = unums(3); cput(s, mkfull(3, n)); }
static void c_cones(void) { size_t s = cs(), a = unum(), b = unum(), c = unum(); cput(s, tensor_ones_3d(a, b, c)); }
static void c_cx(void) { size_t s = cs(), n = unum(); double *x = nums(n); cput(s, tensor_x_3d(n, x)); }
static void c_ccp(void) { size_t s = cs(), a = cs(); long tr = inum(); struct tensor *t = tensor_copy_3d(C[a], (int)tr); cput(s, t); }
static void c_cbin(void) { size_t s = cs(); const char *o = tok(); size_t a = cs(), b = cs(); struct tensor *t = *o == 'h' ? tensor_stack2h_3d(C[a], C[b]) : *o == 'v' ? tensor_stack2v_3d(C[a], C[b]) : *o == 'd' ? tensor_blockdiag_3d(C[a], C[b]) : tensor_kron_3d(C[a], C[b]); cput(s, t); }
static void c_csum(void) { size_t s = cs(); double *b = nums(C[s]->nvals[1]), *v = tensor_sum2(C[s], b); outbegin("v"); for (size_t i = 0; i < C[s]->nvals[0]; i++) for (size_t j = 0; j < C[s]->nvals[2]; j++) outd(v[j * C[s]->nvals[0] + i]); outend(); free(v); }
static void c_cdump(void) { size_t s = cs(); outz("n", C[s]->dim, C[s]->nvals); outfull("vals", C[s]); }
struct cmd tt_cmds[] = { {"ttnew", c_ttnew}, {"ttones", c_ttones}, {"ttx", c_ttx}, {"ttfull", c_ttfull}, {"ttcd", c_ttcd}, {"ttcp", c_ttcp}, {"ttfree", c_ttfree}, {"ttadd", c_ttadd}, {"ttmul", c_ttmul}, {"ttscal", c_ttscal},
    {"ttround", c_ttround}, {"ttdot", c_ttdot}, {"ttnorm", c_ttnorm}, {"ttint", c_ttint}, {"ttorth", c_ttorth}, {"ttdump", c_ttdump}, {"ttcross", c_ttcross},
    {"dcnew", c_cnew}, {"dcones", c_cones}, {"dcx", c_cx}, {"dccp", c_ccp}, {"dcbin", c_cbin}, {"dcsum", c_csum}, {"dcdump", c_cdump}, {NULL, NULL} };
