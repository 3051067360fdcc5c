/* dense linear algebra: matrices are given row by row in scripts */
#include "driver.h"
#include "linalg.h"
#include "matrix_util.h"
#define NB 5
static struct mat *B[NB]; static struct fiber_list *FL; static size_t FN;
void la_reset(void) { for (int i = 0; i < NB; i++) { if (B[i]) freemat(B[i]); B[i] = NULL; } DeleteFiberList(&FL); }
static size_t bs(void) { size_t s = unum(); if (s >= NB) die("slot"); return s; }
static void bput(size_t s, struct mat *m) { if (B[s]) freemat(B[s]); B[s] = m; if (!m) fail("no matrix"); }
static void c_bvec(void) { size_t s = bs(); const char *k = tok(); size_t n = unum(); double *v = nums(n); bput(s, *k == 'd' ? diagv2m(n, v) : v2m(n, v, *k == 'r')); memset(v, 0xee, n * sizeof *v); }
static void c_bones(void) { size_t s = bs(), r = unum(), c = unum(); struct mat *m = malloc(sizeof *m); mat_ones(m, r, c); bput(s, m); }
static void c_bset(void) { size_t s = bs(), n = B[s]->nrows * B[s]->ncols; memcpy(B[s]->vals, nums(n), n * sizeof(double)); }
static void c_bhcat(void) { size_t s = bs(), a = bs(), b = bs(); struct mat *m = horizcat(B[a], B[b]); bput(s, m); }
static void c_bkron(void) { size_t s = bs(), a = bs(), b = bs(); struct mat *m = kron(B[a], B[b]); bput(s, m); }
static void c_bblk(void) { size_t s = bs(), n = unum(); const struct mat *p[8]; for (size_t i = 0; i < n; i++) p[i] = B[bs()]; struct mat *m = block_diag(p, n); bput(s, m); }
static void c_bdump(void) { size_t s = bs(); outi("r", (long)B[s]->nrows); outi("c", (long)B[s]->ncols); out("v", B[s]->nrows * B[s]->ncols, B[s]->vals); }
/* column-major copy with leading dimension ld, padding marked */
#define PAD -987654321.0
static double *cm(const double *a, size_t m, size_t n, size_t ld) { double *c = malloc((ld * n + 1) * sizeof *c); for (size_t i = 0; i < ld * n; i++) c[i] = PAD; for (size_t j = 0; j < n; j++) for (size_t i = 0; i < m; i++) c[j * ld + i] = a[i * n + j]; return c; }
static void outcm(const char *l, const double *c, size_t m, size_t n, size_t ld)
{
    for (size_t j = 0; j < n; j++) for (size_t i = m; i < ld; i++) if (c[j * ld + i] != PAD) fail("%s: wrote between the columns", l);
    outbegin(l); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) outd(c[j * ld + i]); outend();
}
static void c_kroncol(void)
{
    size_t n = unum(), m = unum(), k = unum(), l = unum(), pa = unum(), pb = unum(), pc = unum(); double *a = cm(nums(n * m), n, m, n + pa), *b = cm(nums(k * l), k, l, k + pb);
    size_t ld = n * k + pc; double *o = malloc(ld * m * l * sizeof *o); for (size_t i = 0; i < ld * m * l; i++) o[i] = PAD;
    kron_col((int)n, (int)m, a, (int)(n + pa), (int)k, (int)l, b, (int)(k + pb), o, (int)ld); outcm("v", o, n * k, m * l, ld); free(a); free(b); free(o);
}
static void c_veckron(void)
{
    size_t m = unum(), n = unum(), k = unum(), l = unum(), pa = unum(), pb = unum(); double *a = cm(nums(m * n), m, n, m + pa), *b = cm(nums(k * l), k, l, k + pb), *v = nums(m * k), sc = num(), *o = nums(n * l);
    double *x = malloc(n * l * sizeof *x); memcpy(x, o, n * l * sizeof *x); vec_kron(m, n, a, m + pa, k, l, b, k + pb, v, sc, x); out("v", n * l, x); free(a); free(b); free(x);
}
static void c_multi(void)                 /* N products with strides */
{
    long vm = inum(); size_t N = unum(), r1 = unum(), r2 = unum(), pa = unum(), pb = unum(), pc = unum(); size_t na = vm ? r1 : r2, nc = vm ? r2 : r1, ia = na + pa, ib = r1 * r2 + pb, ic = nc + pc;
    double *a = malloc(N * ia * sizeof *a), *b = malloc(N * ib * sizeof *b), *c = malloc(N * ic * sizeof *c);
    for (size_t i = 0; i < N * ia; i++) a[i] = PAD;
    for (size_t i = 0; i < N * ib; i++) b[i] = PAD;
    for (size_t i = 0; i < N * ic; i++) c[i] = PAD;
    for (size_t q = 0; q < N; q++) { memcpy(a + q * ia, nums(na), na * sizeof *a); double *M = cm(nums(r1 * r2), r1, r2, r1); memcpy(b + q * ib, M, r1 * r2 * sizeof *b); free(M); }
    if (vm) c3linalg_multiple_vec_mat(N, r1, r2, a, ia, b, ib, c, ic); else c3linalg_multiple_mat_vec(N, r1, r2, a, ia, b, ib, c, ic);
    outbegin("v"); for (size_t q = 0; q < N; q++) for (size_t i = 0; i < ic; i++) { if (i < nc) outd(c[q * ic + i]); else if (c[q * ic + i] != PAD) fail("wrote past a result"); } outend();
    free(a); free(b); free(c);
}
static void c_stat(void) { size_t n = unum(); double *a = nums(n), *b = nums(n); size_t *z = unums(n); out1("mean", mean(a, n)); out1("meanz", mean_size_t(z, n)); out1("norm", norm2(a, (int)n)); out1("ndiff", norm2diff(a, b, (int)n)); }
static void c_qr(void) { size_t m = unum(), n = unum(), p = unum(); double *a = cm(nums(m * n), m, n, m + p); outi("ret", qr(m, n, a, m + p)); outcm("Q", a, m, n, m + p); free(a); }
static void c_rq(void)
{
    size_t m = unum(), n = unum(), bm = unum(), p = unum(); double *a = cm(nums(m * n), m, n, m), *b = cm(nums(bm * m), bm, m, bm + p);
    rq_with_rmult(m, n, a, m, bm, m, b, bm + p); outcm("Q", a, m, n, m); outcm("B", b, bm, m, bm + p); free(a); free(b);
}
static void c_svd(void)
{
    size_t m = unum(), n = unum(), k = m < n ? m : n; double *a = cm(nums(m * n), m, n, m), *u = calloc(m * m, 8), *s = calloc(k, 8), *vt = calloc(n * n, 8);
    svd(m, n, m, a, u, s, vt); outcm("U", u, m, m, m); out("S", k, s); outcm("VT", vt, n, n, n); free(a); free(u); free(s); free(vt);
}
static void c_tsvd(void)
{
    size_t m = unum(), n = unum(); double *a = cm(nums(m * n), m, n, m), *u = NULL, *s = NULL, *vt = NULL; double dl = num();
    size_t k = truncated_svd(m, n, m, a, &u, &s, &vt, dl); outi("rank", (long)k); outcm("U", u, m, k, m); out("S", k, s); outcm("VT", vt, k, n, k); free(a); free(u); free(s); free(vt);
}
static void c_pinv(void) { size_t m = unum(), n = unum(); double *a = cm(nums(m * n), m, n, m), c = num(), *o = calloc(m * n, 8); outi("rank", (long)pinv(m, n, m, a, o, c)); outcm("P", o, n, m, n); free(a); free(o); }
static void c_lls(void) { size_t m = unum(), n = unum(); double *a = cm(nums(m * n), m, n, m), *y = nums(m), *x = calloc(n, 8); linear_ls(m, n, a, y, x); out("x", n, x); out("y", m, y); free(a); free(x); }
static void c_maxvol(void) { size_t n = unum(), r = unum(); double *a = cm(nums(n * r), n, r, n), *inv = calloc(r * r, 8); size_t *rows = calloc(r, sizeof *rows); outi("ret", maxvol_rhs(a, n, r, rows, inv)); outz("rows", r, rows); outcm("inv", inv, r, r, r); free(a); free(inv); free(rows); }
static struct { const double *A; size_t n, m; long bad, seen[2][64]; } SK;
static double skf(int i, int j, int dir, void *a) { if (a != &SK || i < 0 || j < 0 || (size_t)i >= SK.n || (size_t)j >= SK.m) { SK.bad++; return 0; } (void)dir; return SK.A[(size_t)i * SK.m + (size_t)j]; }
/* x = row coordinates 10..., y = column coordinates 100... */
static int skp(double *pts, double fix, size_t dir, size_t n, double *o, void *a)
{
    if (a != &SK) SK.bad++;
    if (dir == 0) { size_t j = (size_t)(fix - 100); if (n != SK.n || j >= SK.m) { SK.bad++; return 1; } SK.seen[0][j]++; for (size_t i = 0; i < n; i++) o[i] = SK.A[(size_t)(pts[i] - 10) * SK.m + j]; }
    else { size_t i = (size_t)(fix - 10); if (n != SK.m || i >= SK.n) { SK.bad++; return 1; } SK.seen[1][i]++; for (size_t j = 0; j < n; j++) o[j] = SK.A[i * SK.m + (size_t)(pts[j] - 100)]; }
    return 0;
}
static void c_skel(void)
{
    long how = inum(); size_t n = unum(), m = unum(), r = unum(); double *A = nums(n * m); size_t *cols0 = unums(r), *rows = calloc(r, sizeof *rows), *cols = malloc(r * sizeof *cols); memcpy(cols, cols0, r * sizeof *cols); SK.A = A; SK.n = n; SK.m = m; SK.bad = 0; memset(SK.seen, 0, sizeof SK.seen); int ret;
    if (how == 0) ret = skeleton(A, n, m, r, rows, cols, 1e-8); else if (how == 1) ret = skeleton_func(skf, &SK, n, m, r, rows, cols, 1e-8);
    else {
        struct sk_decomp *s = NULL; init_skf(&s, r, n, m); memcpy(s->cols_kept, cols0, r * sizeof *cols); double x[64], y[64]; for (size_t i = 0; i < n; i++) x[i] = 10 + (double)i; for (size_t j = 0; j < m; j++) y[j] = 100 + (double)j;
        ret = skeleton_func2(skp, &SK, &s, x, y, 1e-8); memcpy(rows, s->rows_kept, r * sizeof *rows); memcpy(cols, s->cols_kept, r * sizeof *cols);
        double *F = calloc(n * m, 8); sk_decomp_to_full(s, F); out("full", n * m, F); outi("crank", (long)s->cross_rank); free(F);
        long once = 0, kept = 0, wrong = 0;
        for (int d = 0; d < 2; d++) for (size_t i = 0; i < 64; i++) { once += SK.seen[d][i] > 0; if (SK.seen[d][i] > 1) wrong++; }
        for (struct fiber_list *l = s->col_vals->head; l; l = l->next) { kept++; for (size_t i = 0; i < n; i++) if (l->vals[i] != A[i * m + l->index]) wrong++; }
        for (struct fiber_list *l = s->row_vals->head; l; l = l->next) { kept++; for (size_t j = 0; j < m; j++) if (l->vals[j] != A[l->index * m + j]) wrong++; }
        outi("stored", kept - once); outi("counted", (long)(s->col_vals->nfibers + s->row_vals->nfibers) - once); outi("wrong", wrong); free_skf(&s);
    }
    outi("ret", ret); outz("rows", r, rows); outz("cols", r, cols); outi("bad", SK.bad); free(rows); free(cols);
}
static void c_fladd(void) { size_t i = unum(), n = unum(); double *v = nums(n); FN = n; AddFiber(&FL, i, v, n); memset(v, 0xee, n * sizeof *v); }
static void c_flget(void) { size_t i = unum(); int at = IndexExists(FL, i); outi("at", at); outbegin("v"); if (at >= 0) { double *v = getIndex(FL, (size_t)at); for (size_t k = 0; k < FN; k++) outd(v[k]); } outend(); }
static void c_fldel(void) { DeleteFiberList(&FL); outi("null", FL == NULL); }
struct cmd la_cmds[] = { {"bvec", c_bvec}, {"bones", c_bones}, {"bset", c_bset}, {"bhcat", c_bhcat}, {"bkron", c_bkron}, {"bblk", c_bblk}, {"bdump", c_bdump}, {"kroncol", c_kroncol}, {"veckron", c_veckron}, {"multi", c_multi},
    {"stat", c_stat}, {"qr", c_qr}, {"rq", c_rq}, {"svd", c_svd}, {"tsvd", c_tsvd}, {"pinv", c_pinv}, {"lls", c_lls}, {"maxvol", c_maxvol}, {"skel", c_skel}, {"fladd", c_fladd}, {"flget", c_flget}, {"fldel", c_fldel}, {NULL, NULL} };
