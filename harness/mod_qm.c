/* matrices of functions (Qmarray) and rows of functions (Quasimatrix) over one piecewise linear or constant grid */
#include "driver.h"
#include <unistd.h>
#define NQ 8
static struct OneApproxOpts *qo; static void *qa; static int qfam; static size_t qn; static double *qx; static enum function_class qfc;
static struct Qmarray *Q[NQ]; static struct Quasimatrix *Z[NQ];
void qm_reset(void)
{
    for (int i = 0; i < NQ; i++) { qmarray_free(Q[i]); Q[i] = NULL; quasimatrix_free(Z[i]); Z[i] = NULL; }
    if (qo) one_approx_opts_free(qo);
    if (qa) { if (qfam == 0) lin_elem_exp_aopts_free(qa); else const_elem_exp_aopts_free(qa); }
    free(qx); qo = NULL; qa = NULL; qx = NULL;
}
static void c_qgrid(void)
{
    qm_reset(); qfam = (int)inum(); qn = unum(); qx = malloc(qn * sizeof *qx); for (size_t i = 0; i < qn; i++) qx[i] = num();
    qfc = qfam == 0 ? LINELM : CONSTELM; qa = qfam == 0 ? (void *)lin_elem_exp_aopts_alloc(qn, qx) : (void *)const_elem_exp_aopts_alloc(qn, qx);
    qo = one_approx_opts_alloc(qfc, qa);
}
static size_t sl(void) { size_t s = unum(); if (s >= NQ) die("slot"); return s; }
static struct Qmarray *q(void) { size_t s = sl(); if (!Q[s]) die("empty Q %zu", s); return Q[s]; }
static struct Quasimatrix *z(void) { size_t s = sl(); if (!Z[s]) die("empty Z %zu", s); return Z[s]; }
static void putq(size_t s, struct Qmarray *a) { if (Q[s] != a) qmarray_free(Q[s]); Q[s] = a; }
static void putz(size_t s, struct Quasimatrix *a) { if (Z[s] != a) quasimatrix_free(Z[s]); Z[s] = a; }
static struct Qmarray *mk(size_t r, size_t c, const double *v)
{
    struct Qmarray *a = qmarray_alloc(r, c);
    for (size_t e = 0; e < r * c; e++) a->funcs[e] = generic_function_create_with_params(qfc, qa, qn, v + e * qn);
    return a;
}
static void outq(const char *l, struct Qmarray *a)
{
    size_t mx, n = qmarray_get_nparams(a, &mx); if (n != a->nrows * a->ncols * qn || mx != qn) { fail("%s: %zu parameters (at most %zu per function)", l, n, mx); return; }
    double *p = malloc((n + 1) * sizeof *p); size_t k = qmarray_get_params(a, p); if (k != n || qmarray_get_params(a, NULL) != n) fail("%s: parameter count", l); out(l, n, p); free(p);
}
static void c_qmk(void) { size_t s = sl(), r = unum(), c = unum(); putq(s, mk(r, c, nums(r * c * qn))); }
static void c_qzeros(void) { size_t s = sl(), r = unum(), c = unum(); putq(s, qmarray_zeros(r, c, qo)); }
static void c_qfree(void) { size_t s = sl(); qmarray_free(Q[s]); Q[s] = NULL; }
static void c_qdump(void) { struct Qmarray *a = q(); outi("r", (long)qmarray_get_nrows(a)); outi("c", (long)qmarray_get_ncols(a)); outq("v", a); }
static void c_qcp(void) { size_t s = sl(); putq(s, qmarray_copy(q())); }
static void c_qop(void) { size_t s = sl(); putq(s, qmarray_operate_elements(q(), NULL)); }
static void c_qfirst(void) { size_t s = sl(); struct Qmarray *a = q(); putq(s, qmarray_first_cols(a, unum())); }
static void c_qser(void)
{
    size_t s = sl(); struct Qmarray *a = q(), *b = NULL; size_t n = 0; qmarray_serialize(NULL, a, &n);
    unsigned char *t = malloc(n), *e = qmarray_serialize(t, a, NULL); if (e != t + n) fail("announced %zu bytes, wrote %ld", n, (long)(e - t));
    e = qmarray_deserialize(t, &b); if (e != t + n) fail("read %ld of %zu bytes", (long)(e - t), n); free(t); putq(s, b);
}
static void c_qtxt(void)
{
    size_t s = sl(); struct Qmarray *a = q(); char f[4200]; snprintf(f, sizeof f, "%s/q.txt", scratch);
    FILE *fp = fopen(f, "w"); qmarray_savetxt(a, fp, 17); fclose(fp); fp = fopen(f, "r"); struct Qmarray *b = qmarray_loadtxt(fp); fclose(fp); unlink(f); putq(s, b);
}
struct ent { const double *v; };
static int entf(size_t n, const double *x, double *o, void *a)
{
    struct ent *e = a;
    for (size_t i = 0; i < n; i++) { size_t b = 0; for (size_t k = 1; k < qn; k++) if (fabs(x[i] - qx[k]) < fabs(x[i] - qx[b])) b = k; if (fabs(x[i] - qx[b]) > 1e-12) fail("asked off the nodes: %g", x[i]); o[i] = e->v[b]; }
    return 0;
}
static void c_qapx(void)
{
    size_t s = sl(), r = unum(), c = unum(); double *v = nums(r * c * qn); struct ent *e = malloc(r * c * sizeof *e);
    struct Fwrap *fw = fwrap_create(1, "array-vec"); fwrap_set_num_funcs(fw, r * c); for (size_t i = 0; i < r * c; i++) { e[i].v = v + i * qn; fwrap_set_func_array(fw, i, entf, &e[i]); }
    struct Qmarray *a = qmarray_approx1d(r, c, qo, fw); fwrap_destroy(fw); free(e); putq(s, a);
}
static void c_qlm(void)                    /* products with a matrix of numbers, given column by column */
{
    const char *k = tok(); size_t s = sl(); struct Qmarray *a = q(); size_t b = unum();
    if (!strcmp(k, "qmam")) putq(s, qmam(a, nums(a->ncols * b), b)); else if (!strcmp(k, "qmatm")) putq(s, qmatm(a, nums(a->nrows * b), b)); else putq(s, mqma(nums(a->nrows * b), a, b));
}
static void c_qpr(void)
{
    const char *k = tok(); size_t s = sl(); struct Qmarray *a = q(), *b = q();
    putq(s, !strcmp(k, "nn") ? qmaqma(a, b) : !strcmp(k, "tn") ? qmatqma(a, b) : !strcmp(k, "nt") ? qmaqmat(a, b) : !strcmp(k, "tt") ? qmatqmat(a, b) : qmarray_kron(a, b));
}
static void c_qvk(void) { size_t s = sl(); struct Qmarray *a = q(), *b = q(); putq(s, qmarray_vec_kron(nums(a->nrows * b->nrows), a, b)); }
static void c_qmatk(void) { size_t s = sl(), r = unum(); struct Qmarray *a = q(), *b = q(); putq(s, qmarray_mat_kron(r, nums(r * a->nrows * b->nrows), a, b)); }
static void c_qkmat(void) { size_t s = sl(), r = unum(); struct Qmarray *a = q(), *b = q(); putq(s, qmarray_kron_mat(r, nums(r * a->ncols * b->ncols), a, b)); }
static void c_qblk(void)                   /* type left nb blocks right r nm mat, out sizes */
{
    size_t s = sl(); const char *t = tok(); int left = (int)inum(); size_t nb = unum(); struct Qmarray *bl[8]; for (size_t i = 0; i < nb; i++) bl[i] = q();
    struct Qmarray *rt = q(); size_t r = unum(), nm = unum(); double *m = nums(nm); size_t orr = unum(), oc = unum();
    struct Qmarray *o = qmarray_alloc(orr, oc); for (size_t i = 0; i < orr * oc; i++) o->funcs[i] = NULL;
    qmarray_block_kron_mat(t[0], left, nb, bl, rt, r, m, o); putq(s, o);
}
static void c_qaxpy(void) { double al = num(); struct Qmarray *x = q(), *y = q(); qmarray_axpy(al, x, y); }
static void c_qtr(void) { size_t s = sl(); putq(s, qmarray_transpose(q())); }
static void c_qst(void) { const char *k = tok(); size_t s = sl(); struct Qmarray *a = q(), *b = q(); putq(s, k[0] == 'h' ? qmarray_stackh(a, b) : k[0] == 'v' ? qmarray_stackv(a, b) : qmarray_blockdiag(a, b)); }
static void c_qev(void) { struct Qmarray *a = q(); double x = num(), *o = calloc(a->nrows * a->ncols, 8); qmarray_eval(a, x, o); out("v", a->nrows * a->ncols, o); free(o); }
static void c_qde(void) { struct Qmarray *a = q(); double x = num(), *o = calloc(a->nrows * a->ncols, 8); qmarray_deriv_eval(a, x, o); out("v", a->nrows * a->ncols, o); free(o); }
static void c_qder(void) { struct Qmarray *a = q(), *b = qmarray_deriv(a); outi("r", (long)b->nrows); outi("c", (long)b->ncols); outq("v", b); qmarray_free(b); }
static void c_qupd(void) { struct Qmarray *a = q(); size_t n = a->nrows * a->ncols * qn; qmarray_update_params(a, n, nums(n)); }
static void c_quni(void) { struct Qmarray *a = q(); size_t i = unum(), j = unum(); qmarray_uni_update_params(a, i, j, qn, nums(qn)); outi("n", (long)qmarray_func_get_nparams(a, i, j)); if (qmarray_get_func_base(a, i, j) != qmarray_get_func(a, i, j)->f) fail("base"); }
static void c_qint(void) { struct Qmarray *a = q(); double *o = qmarray_integrate(a); out("v", a->nrows * a->ncols, o); free(o); }
static void c_qpint(void)
{
    const char *k = tok(); struct Qmarray *a = q(), *b = q(); double *o; size_t n;
    if (!strcmp(k, "nn")) { o = qmaqma_integrate(a, b); n = a->nrows * b->ncols; } else if (!strcmp(k, "tn")) { o = qmatqma_integrate(a, b); n = a->ncols * b->ncols; }
    else if (!strcmp(k, "nt")) { o = qmaqmat_integrate(a, b); n = a->nrows * b->nrows; } else { o = qmarray_kron_integrate(a, b); n = a->nrows * b->nrows * a->ncols * b->ncols; }
    out("v", n, o); free(o);
}
static void c_qvkint(void) { struct Qmarray *a = q(), *b = q(); double *o = qmarray_vec_kron_integrate(nums(a->nrows * b->nrows), a, b); out("v", a->ncols * b->ncols, o); free(o); }
static void c_qnorm(void) { out1("v", qmarray_norm2(q())); }
static void c_qndiff(void) { struct Qmarray *a = q(); out1("v", qmarray_norm2diff(a, q())); }
static void c_qabs(void) { struct Qmarray *a = q(); double x = NAN, m = NAN; size_t r = 999, c = 999; qmarray_absmax1d(a, &x, &r, &c, &m, NULL); double o[3] = { m, (double)(r + c * a->nrows), x }; if (r >= a->nrows) fail("row %zu", r); out("v", 3, o); }
#define PAD -987654321.0
static double *pad(size_t n) { double *p = malloc((n + 1) * sizeof *p); for (size_t i = 0; i < n; i++) p[i] = PAD; return p; }
/* values and gradients with respect to the parameters at N points */
static void c_qpg(void)
{
    struct Qmarray *a = q(); size_t N = unum(), incx = unum(), po = unum(), pg = unum(); double *xs = nums(N), *x = pad(N * incx); for (size_t i = 0; i < N; i++) x[i * incx] = xs[i];
    size_t sz = a->nrows * a->ncols, np = sz * qn, io = sz + po, ig = np * sz + pg; double *o = pad(N * io), *g = pad(N * ig), *w = calloc(np, 8);
    qmarray_param_grad_eval(a, N, x, incx, o, io, g, ig, w);
    for (size_t i = 0; i < N; i++) { for (size_t k = sz; k < io; k++) if (o[i * io + k] != PAD) fail("value padding written"); for (size_t k = np * sz; k < ig; k++) if (g[i * ig + k] != PAD) fail("gradient padding written"); }
    outbegin("v"); for (size_t i = 0; i < N; i++) for (size_t k = 0; k < sz; k++) outd(o[i * io + k]); outend();
    outbegin("g"); for (size_t i = 0; i < N; i++) for (size_t k = 0; k < np * sz; k++) outd(g[i * ig + k]); outend();
    free(x); free(o); free(g); free(w);
}
/* the same, sparse: gradient of each entry by its own parameters, optionally multiplied by a row vector from the left; then linear-parameter evaluation */
static void c_qpgs(void)
{
    struct Qmarray *a = q(); size_t N = unum(), incx = unum(), po = unum(), pg = unum(); long lf = inum(); double *xs = nums(N), *x = pad(N * incx); for (size_t i = 0; i < N; i++) x[i * incx] = xs[i];
    size_t sz = a->nrows * a->ncols, np = sz * qn, io = sz + po, ig = np + pg; double *o = pad(N * io), *g = pad(N * ig), *l = lf ? nums(N * a->nrows) : NULL, *mo = pad(N * np * a->ncols), *o2 = pad(N * io);
    qmarray_param_grad_eval_sparse_mult(a, N, x, incx, o, io, g, ig, l, lf ? mo : NULL, np);
    qmarray_linparam_eval(a, N, o2, io, g, ig);
    for (size_t i = 0; i < N; i++) { for (size_t k = sz; k < io; k++) if (o[i * io + k] != PAD || o2[i * io + k] != PAD) fail("value padding written"); for (size_t k = np; k < ig; k++) if (g[i * ig + k] != PAD) fail("gradient padding written"); }
    outbegin("v"); for (size_t i = 0; i < N; i++) for (size_t k = 0; k < sz; k++) outd(o[i * io + k]); outend();
    outbegin("g"); for (size_t i = 0; i < N; i++) for (size_t k = 0; k < np; k++) outd(g[i * ig + k]); outend();
    outbegin("lin"); for (size_t i = 0; i < N; i++) for (size_t k = 0; k < sz; k++) outd(o2[i * io + k]); outend();
    if (lf) out("mult", N * np * a->ncols, mo);
    free(x); free(o); free(o2); free(g); free(mo);
}
static void c_qsqn(void) { struct Qmarray *a = q(); double sc = num(); size_t n = a->nrows * a->ncols * qn; double *g = nums(n); out1("v0", qmarray_param_grad_sqnorm(a, sc, NULL)); out1("v", qmarray_param_grad_sqnorm(a, sc, g)); out("g", n, g); }
/* factorisations of a copy */
static void c_qqr(void)
{
    const char *k = tok(); struct Qmarray *a = qmarray_copy(q()), *Qq = NULL; double *R = NULL; size_t m = 0; int ret = 0; int rows = strchr(k, 'l') != NULL; m = rows ? a->nrows : a->ncols;
    if (!strcmp(k, "qr")) ret = qmarray_qr(a, &Qq, &R, qo); else if (!strcmp(k, "lq")) ret = qmarray_lq(a, &Qq, &R, qo);
    else if (!strcmp(k, "gs")) { ret = qmarray_qr_gs(a, &R); Qq = a; } else if (!strcmp(k, "lgs")) { ret = qmarray_lq_gs(a, &R); Qq = a; }
    else { R = calloc(m * m, 8); Qq = qmarray_householder_simple(rows ? "LQ" : "QR", a, R, qo); }
    outi("ret", ret); out("R", m * m, R); outq("Q", Qq); if (Qq != a) qmarray_free(Qq); qmarray_free(a); free(R);
}
static void c_qsvd(void)
{
    long tr = inum(); struct Qmarray *a = qmarray_copy(q()), *U = NULL; double dl = num(); size_t m = a->ncols, k = m; double *s = NULL, *vt = NULL;
    if (tr) k = qmarray_truncated_svd(a, &U, &s, &vt, dl, qo); else { s = calloc(m, 8); vt = calloc(m * m, 8); qmarray_svd(a, &U, s, vt, qo); }
    outi("rank", (long)k); out("S", k, s); out("VT", k * m, vt); outq("U", U); qmarray_free(U); qmarray_free(a); free(s); free(vt);
}
static void c_qlu(void)
{
    struct Qmarray *a0 = q(), *a = qmarray_copy(a0), *L = qmarray_alloc(a->nrows, a->ncols); size_t m = a->ncols, *pi = calloc(m, sizeof *pi); double *u = calloc(m * m, 8), *px = calloc(m, 8);
    int ret = qmarray_lu1d(a, L, u, pi, px, qo, NULL); outi("ret", ret); out("U", m * m, u); outz("pi", m, pi); out("px", m, px); outq("L", L); qmarray_free(a); qmarray_free(L); free(pi); free(u); free(px);
}
static void c_qmv(void)
{
    struct Qmarray *a = q(); size_t m = a->ncols, *pi = calloc(m, sizeof *pi); double *in = calloc(m * m, 8), *px = calloc(m, 8);
    int ret = qmarray_maxvol1d(a, in, pi, px, qo, NULL); outi("ret", ret); outz("pi", m, pi); out("px", m, px); out("inv", m * m, in); free(pi); free(in); free(px);
}
/* quasimatrices */
static void outz_(const char *l, struct Quasimatrix *a) { size_t n = quasimatrix_get_size(a); outbegin(l); for (size_t i = 0; i < n; i++) { double p[256]; size_t k = generic_function_get_params(quasimatrix_get_func(a, i), p); for (size_t j = 0; j < k; j++) outd(p[j]); } outend(); }
static void c_zex(void) { const char *k = tok(); size_t s = sl(); struct Qmarray *a = q(); size_t i = unum(); putz(s, k[0] == 'r' ? qmarray_extract_row(a, i) : qmarray_extract_column(a, i)); }
static void c_zput(void) { const char *k = tok(); struct Qmarray *a = q(); size_t i = unum(); struct Quasimatrix *b = z(); if (k[0] == 'r') qmarray_set_row(a, i, b); else if (k[0] == 'c') qmarray_set_column(a, i, b); else qmarray_set_column_gf(a, i, quasimatrix_get_funcs(b)); }
static void c_zapx(void)
{
    size_t s = sl(), c = unum(); double *v = nums(c * qn); struct ent *e = malloc(c * sizeof *e); enum function_class fc[16]; for (size_t i = 0; i < c; i++) fc[i] = qfc;
    struct Fwrap *fw = fwrap_create(1, "array-vec"); fwrap_set_num_funcs(fw, c); for (size_t i = 0; i < c; i++) { e[i].v = v + i * qn; fwrap_set_func_array(fw, i, entf, &e[i]); }
    struct Quasimatrix *a = quasimatrix_approx1d(c, fw, fc, qa); fwrap_destroy(fw); free(e); putz(s, a);
}
static void c_zcp(void) { size_t s = sl(); putz(s, quasimatrix_copy(z())); }
static void c_zser(void)
{
    size_t s = sl(), n = 0; struct Quasimatrix *a = z(), *b = NULL; quasimatrix_serialize(NULL, a, &n); unsigned char *t = malloc(n), *e = quasimatrix_serialize(t, a, NULL); if (e != t + n) fail("announced %zu bytes, wrote %ld", n, (long)(e - t));
    e = quasimatrix_deserialize(t, &b); if (e != t + n) fail("read %ld of %zu bytes", (long)(e - t), n); free(t); putz(s, b);
}
static void c_zset(void) { struct Quasimatrix *a = z(); size_t i = unum(); struct Qmarray *b = q(); size_t r = unum(), c = unum(); quasimatrix_set_func(a, qmarray_get_func(b, r, c), i); }
static void c_zmm(void) { long t = inum(); size_t s = sl(); struct Quasimatrix *a = z(); size_t b = unum(); double *R = nums(quasimatrix_get_size(a) * b); putz(s, t ? qmmt(a, R, b) : qmm(a, R, b)); }
static void c_zdax(void) { size_t s = sl(); long w = inum(); double al = num(); struct Quasimatrix *a = w == 2 ? NULL : z(); double be = num(); struct Quasimatrix *b = w == 1 ? NULL : z(); putz(s, quasimatrix_daxpby(al, a, be, b)); }
static void c_zfree(void) { size_t s = sl(); quasimatrix_free(Z[s]); Z[s] = NULL; }
static void c_zdump(void) { struct Quasimatrix *a = z(); outi("c", (long)quasimatrix_get_size(a)); outz_("v", a); }
static void c_zmv(void) { struct Quasimatrix *a = z(); struct GenericFunction *f = qmv(a, nums(quasimatrix_get_size(a))); double p[256]; size_t k = generic_function_get_params(f, p); out("v", k, p); generic_function_free(f); }
static void c_zin(void) { struct Quasimatrix *a = z(), *b = z(); out1("v", quasimatrix_inner(a, b)); out1("n", quasimatrix_norm(a)); }
static void c_zabs(void) { struct Quasimatrix *a = z(); double x = NAN, m = NAN; size_t c = quasimatrix_absmax(a, &x, &m, NULL); double o[3] = { m, (double)c, x }; out("v", 3, o); }
static void c_zqr(void) { struct Quasimatrix *a = quasimatrix_copy(z()); size_t m = quasimatrix_get_size(a); double *R = calloc(m * m, 8); struct Quasimatrix *b = quasimatrix_householder_simple(a, R, qa); outi("ret", 0); out("R", m * m, R); outz_("Q", b); quasimatrix_free(a); quasimatrix_free(b); free(R); }
static void c_zmaxv(void) { struct Quasimatrix *a = z(); size_t m = quasimatrix_get_size(a); double *in = calloc(m * m, 8), *px = calloc(m, 8); outi("ret", quasimatrix_maxvol1d(a, in, px, qa, NULL)); size_t pi[16] = { 0 }; outz("pi", m, pi); out("px", m, px); out("inv", m * m, in); free(in); free(px); }
struct cmd qm_cmds[] = { {"qgrid", c_qgrid}, {"qmk", c_qmk}, {"qzeros", c_qzeros}, {"qfree", c_qfree}, {"qdump", c_qdump}, {"qcp", c_qcp}, {"qop", c_qop}, {"qfirst", c_qfirst}, {"qser", c_qser}, {"qtxt", c_qtxt}, {"qapx", c_qapx}, {"qlm", c_qlm}, {"qpr", c_qpr},
    {"qvk", c_qvk}, {"qmatk", c_qmatk}, {"qkmat", c_qkmat}, {"qblk", c_qblk}, {"qaxpy", c_qaxpy}, {"qtr", c_qtr}, {"qst", c_qst}, {"qev", c_qev}, {"qde", c_qde}, {"qder", c_qder}, {"qupd", c_qupd}, {"quni", c_quni}, {"qint", c_qint}, {"qpint", c_qpint}, {"qvkint", c_qvkint},
    {"qnorm", c_qnorm}, {"qndiff", c_qndiff}, {"qabs", c_qabs}, {"qpg", c_qpg}, {"qpgs", c_qpgs}, {"qsqn", c_qsqn}, {"qqr", c_qqr}, {"qsvd", c_qsvd}, {"qlu", c_qlu}, {"qmv", c_qmv},
    {"zex", c_zex}, {"zput", c_zput}, {"zapx", c_zapx}, {"zcp", c_zcp}, {"zser", c_zser}, {"zset", c_zset}, {"zmm", c_zmm}, {"zdax", c_zdax}, {"zfree", c_zfree}, {"zdump", c_zdump}, {"zmv", c_zmv}, {"zin", c_zin}, {"zabs", c_zabs}, {"zqr", c_zqr}, {"zmaxv", c_zmaxv}, {NULL, NULL} };
