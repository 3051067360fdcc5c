/* function wrappers, index sets, evaluation memo, hash table, pair list, stored values */
#include "driver.h"
#include "fwrap.h"
#include "indmanage.h"
#include "monitoring.h"
#define NW 2
#define NX 4
#define NM 2
static struct Fwrap *W[NW]; static size_t WD[NW]; static char WT[NW];
static struct CrossIndex *X[NX]; static size_t XD[NX]; static char XT[NX];
static struct FunctionMonitor *M[NM]; static size_t MD[NM];
static struct HashtableCpair *H; static struct PairList *L; static struct storevals *V; static size_t VD;
static long base[64]; static size_t npts, ncalls;
void wrap_reset(void)
{
    for (int i = 0; i < NW; i++) { if (W[i]) { fwrap_clean_fiber_approx(W[i]); fwrap_destroy(W[i]); } W[i] = NULL; }
    for (int i = 0; i < NX; i++) { cross_index_free(X[i]); X[i] = NULL; }
    for (int i = 0; i < NM; i++) { function_monitor_free(M[i]); M[i] = NULL; }
    free_hashtable_cp(H); H = NULL; pair_list_delete(&L); DeleteStoredVals(&V);
}
/* the wrapped functions: base-3 polynomial in the coordinates, started with the number in the argument */
static size_t FD;                         /* dimension, set before every evaluation */
static double fd(double b, const double *x) { double v = b; for (size_t k = 0; k < FD; k++) v = 3 * v + x[k]; npts++; return v; }
static double f_g(const double *x, void *a) { ncalls++; return fd((double)*(long *)a, x); }
static double f_i(const size_t *x, void *a) { double v = (double)*(long *)a; for (size_t k = 0; k < FD; k++) v = 3 * v + (double)x[k]; npts++; return v; }
static int f_v(size_t n, const double *x, double *o, void *a) { ncalls++; for (size_t i = 0; i < n; i++) o[i] = fd((double)*(long *)a, x + i * FD); return (int)(*(long *)a % 3); }
static int f_m(size_t n, size_t w, const double *x, double *o, void *a) { for (size_t i = 0; i < n; i++) o[i] = fd((double)*(long *)a + 10 * (double)w, x + i * FD); return (int)w; }
static size_t ws(void) { size_t s = unum(); if (s >= NW) die("slot"); return s; }
static void c_wnew(void)
{
    size_t s = ws(); const char *t = tok(); size_t d = unum(), nf = unum();
    if (W[s]) fwrap_destroy(W[s]);
    W[s] = fwrap_create(d, t); WD[s] = d;
    WT[s] = !strcmp(t, "general") ? 'g' : !strcmp(t, "general-index") ? 'i' : !strcmp(t, "mo-vec") ? 'm' : !strcmp(t, "array-vec") ? 'a' : 'v';
    if (WT[s] == 'a') { fwrap_set_num_funcs(W[s], nf); for (size_t i = 0; i < nf; i++) { base[s * 16 + i] = inum(); fwrap_set_func_array(W[s], i, f_v, &base[s * 16 + i]); } }
    else { base[s * 16] = inum(); if (WT[s] == 'g') fwrap_set_f(W[s], f_g, &base[s * 16]); else if (WT[s] == 'i') fwrap_set_findex(W[s], f_i, &base[s * 16]); else if (WT[s] == 'm') fwrap_set_mofvec(W[s], f_m, &base[s * 16]); else fwrap_set_fvec(W[s], f_v, &base[s * 16]); }
    outi("d", (long)fwrap_get_d(W[s])); outi("type", fwrap_get_type(W[s])); outi("which", (long)fwrap_get_which_eval(W[s]));
}
static void c_wset(void)                   /* replace one function of an array wrapper, or the function */
{
    size_t s = ws(), i = unum(); base[s * 16 + i] = inum(); long *a = &base[s * 16 + i];
    if (WT[s] == 'a') fwrap_set_func_array(W[s], i, f_v, a); else if (WT[s] == 'g') fwrap_set_f(W[s], f_g, a); else if (WT[s] == 'i') fwrap_set_findex(W[s], f_i, a); else if (WT[s] == 'm') fwrap_set_mofvec(W[s], f_m, a); else fwrap_set_fvec(W[s], f_v, a);
}
static void c_wwhich(void) { size_t s = ws(); fwrap_set_which_eval(W[s], unum()); outi("which", (long)fwrap_get_which_eval(W[s])); }
static void c_weval(void)
{
    size_t s = ws(); long direct = inum(); size_t n = unum(), m = unum(); void *x = WT[s] == 'i' ? (void *)unums(n * m) : (void *)nums(n * m);
    double *o = malloc((n + 1) * sizeof *o); for (size_t i = 0; i <= n; i++) o[i] = -987654321; FD = WD[s]; npts = 0;
    int r = direct ? fwrap_eval_fiber(n, x, o, W[s]) : fwrap_eval(n, x, o, W[s]);
    out("vals", n, o); outi("ret", r); outi("npts", (long)npts); if (o[n] != -987654321) fail("wrote past the outputs"); free(o);
}
static void c_wfinit(void) { size_t s = ws(), k = unum(), n = unum(); fwrap_initialize_fiber_approx(W[s], k, n); }
static void c_wfadd(void)
{
    size_t s = ws(), i = unum(), nl = unum(), nr = WD[s] - 1 - nl;
    if (WT[s] == 'i') { size_t *l = unums(nl), *r = unums(nr); fwrap_add_fiber(W[s], i, nl, nl ? l : NULL, nr, nr ? r : NULL); memset(l, 0xff, nl * 8); memset(r, 0xff, nr * 8); }
    else { double *l = nums(nl), *r = nums(nr); fwrap_add_fiber(W[s], i, nl, nl ? l : NULL, nr, nr ? r : NULL); memset(l, 0xff, nl * 8); memset(r, 0xff, nr * 8); }
}
static void c_wfon(void) { size_t s = ws(); fwrap_set_which_fiber(W[s], unum()); }
static void c_wfclean(void) { fwrap_clean_fiber_approx(W[ws()]); }
static void c_wfree(void) { size_t s = ws(); fwrap_destroy(W[s]); W[s] = NULL; }
/* index sets: elements are doubles (d), size_t (z) or floats (f) */
static size_t xs(void) { size_t s = unum(); if (s >= NX) die("slot"); return s; }
static size_t esz(char t) { return t == 'f' ? sizeof(float) : 8; }
static void *vals(char t, size_t n)
{
    if (t == 'z') return unums(n);
    double *v = nums(n);
    if (t == 'f') { float *f = (float *)v; for (size_t i = 0; i < n; i++) f[i] = (float)v[i]; }
    return v;
}
static void xput(size_t s, struct CrossIndex *c, char t) { cross_index_free(X[s]); X[s] = c; XT[s] = t; XD[s] = c ? c->d : 0; }
static void xdump(size_t s)
{
    struct CrossIndex *c = X[s]; if (!c) fail("no index set"); outi("d", (long)c->d); outi("n", (long)c->n); outbegin("x");
    for (size_t i = 0; i < c->n; i++) { size_t n = 999; void *v = cross_index_get_node_value(c, i, &n); if (n != c->d || !v) fail("index %zu has %zu entries", i, n);
        for (size_t k = 0; k < n; k++) outd(XT[s] == 'z' ? (double)((size_t *)v)[k] : XT[s] == 'f' ? (double)((float *)v)[k] : ((double *)v)[k]); }
    outend();
}
static void c_idump(void) { xdump(xs()); }
static void c_inew(void) { size_t s = xs(); char t = *tok(); xput(s, cross_index_alloc(unum()), t); }
static void c_iadd(void) { size_t s = xs(); void *v = vals(XT[s], XD[s]); cross_index_add_index(X[s], XD[s], v, esz(XT[s])); memset(v, 0xee, XD[s] * esz(XT[s])); }
static void c_iaddn(void) { size_t s = xs(); int left = (int)inum(); size_t o = unum(); void *a = vals(XT[s], o), *b = vals(XT[s], XD[s] - o); cross_index_add_nested(X[s], left, o, a, XD[s] - o, b, esz(XT[s])); }
static void c_inest(void) { size_t s = xs(), a = xs(); int m = (int)inum(), left = (int)inum(); size_t sz = unum(), no = unum(); void *v = vals(XT[a], no); xput(s, cross_index_create_nested(m, left, sz, no, v, X[a]), XT[a]); }
static void c_inesti(void) { size_t s = xs(), a = xs(); int left = (int)inum(); size_t n = unum(); size_t *ind = unums(n); void *v = vals(XT[a], n); xput(s, cross_index_create_nested_ind(left, n, ind, v, X[a]), XT[a]); }
static void c_icp(void) { size_t s = xs(), a = xs(); xput(s, cross_index_copy(X[a]), XT[a]); }
static void c_ilast(void) { size_t s = xs(); cross_index_copylast(X[s], unum()); }
static void c_imerge(void)
{
    long how = inum(), la = inum(), ra = inum(); struct CrossIndex *l = la < 0 ? NULL : X[la], *r = ra < 0 ? NULL : X[ra];
    double **v = how ? cross_index_merge_wspace(l, r) : cross_index_merge(l, r);
    size_t n = how ? (l ? l->n : 1) * (r ? r->n : 1) : l->n, d = (l ? l->d : 0) + (r ? r->d : 0) + (how ? 1 : 0);
    outbegin("v"); for (size_t i = 0; i < n; i++) { for (size_t k = 0; k < d; k++) outd(v[i][k]); free(v[i]); } outend(); free(v);
}
static void c_iarr(void)                   /* cross_index_array_initialize: all sets, -1 for NULL */
{
    size_t d = unum(); int nul = (int)inum(), rev = (int)inum(); size_t *sz = unums(d + 1); double **s = malloc(d * sizeof *s); struct CrossIndex *ci[16]; size_t m = 1;
    for (size_t k = 0; k <= d; k++) if (sz[k] > m) m = sz[k];
    for (size_t k = 0; k < d; k++) { s[k] = malloc(m * sizeof(double)); for (size_t i = 0; i < m; i++) s[k][i] = num(); }
    for (size_t k = 0; k < d; k++) ci[k] = (void *)s;
    cross_index_array_initialize(d, ci, nul, rev, rev ? sz : sz + 1, (void **)s, sizeof(double));
    for (size_t k = 0; k < d; k++) free(s[k]);
    free(s); outbegin("sets");
    for (size_t k = 0; k < d; k++) { if (!ci[k]) { outd(-1000); continue; } outd((double)ci[k]->d); outd((double)ci[k]->n);
        for (size_t i = 0; i < ci[k]->n; i++) { size_t n = 0; double *v = cross_index_get_node_value(ci[k], i, &n); for (size_t q = 0; q < n; q++) outd(v[q]); } cross_index_free(ci[k]); }
    outend();
}
/* memo */
static size_t ms(void) { size_t s = unum(); if (s >= NM) die("slot"); return s; }
static void c_mnew(void) { size_t s = ms(), d = unum(), t = unum(); base[60 + s] = inum(); function_monitor_free(M[s]); MD[s] = d; M[s] = function_monitor_initnd(f_g, &base[60 + s], d, t); }
static void c_mev(void)
{
    size_t s = ms(); double *x = nums(MD[s]); FD = MD[s]; ncalls = 0; out1("val", function_monitor_eval(x, M[s])); outi("calls", (long)ncalls); outi("stored", (long)nstored_hashtable_cp(M[s]->evals));
}
static void c_mprint(void)
{
    size_t s = ms(), d = MD[s]; char *b = NULL; size_t n; FILE *f = open_memstream(&b, &n); function_monitor_print_to_file(M[s], f); fclose(f);
    char *p = strchr(b, '\n'); if (!p) fail("no header"); *p++ = 0; outs("head", b);
    long lines = 0; for (char *q = p; *q; q++) lines += *q == '\n';
    outi("lines", lines); outbegin("rows"); char *e; for (;;) { double v = strtod(p, &e); if (e == p) break; outd(v); p = e; } outend(); free(b); (void)d;
}
static void c_mfree(void) { size_t s = ms(); function_monitor_free(M[s]); M[s] = NULL; }
static struct Cpair *pr(void) { const char *k = tok(); char *b = serialize_double_packed(num()); struct Cpair *p = cpair_create((char *)k, b); free(b); return p; }
static void c_hnew(void) { size_t n = unum(); free_hashtable_cp(H); H = create_hashtable_cp(n); outi("null", H == NULL); }
static void c_hadd(void) { struct Cpair *p = pr(); outi("ret", add_cpair(H, p)); memset(p->a, 'z', strlen(p->a)); cpair_free(p); outi("stored", (long)nstored_hashtable_cp(H)); }
static void c_hget(void) { char *v = lookup_key(H, (char *)tok()); outbegin("val"); if (v) { outd(deserialize_double_packed(v)); memset(v, 0, 12); free(v); } outend(); }
static void c_hhash(void) { size_t n = unum(); char *k = (char *)tok(); size_t a = hashsimple(n, k), b = hashsimple(n, k); outi("ok", a < n && a == b); }
static void c_lpush(void) { struct Cpair *p = pr(); pair_push(&L, p); memset(p->a, 'z', strlen(p->a)); cpair_free(p); outi("len", (long)pair_list_len(L)); }
static void c_lidx(void) { struct Cpair *p = pr(), *q = copy_cpair(p); outi("same", cpair_isequal(p, q)); cpair_free(p); outi("index", (long)pair_list_index(L, q)); cpair_free(q); }
static void c_ldel(void) { pair_list_delete(&L); outi("len", (long)pair_list_len(L)); }
static void c_vpush(void) { size_t d = unum(); double *x = nums(d), f = num(); VD = d; PushVal(&V, d, x, f); memset(x, 0xee, d * sizeof *x); }
static void c_vdump(void)
{
    outbegin("list"); for (struct storevals *v = V; v; v = v->next) { for (size_t k = 0; k < v->dim; k++) outd(v->x[k]); outd(v->f); } outend();
    if (VD == 2) { char *b = NULL; size_t n; FILE *f = open_memstream(&b, &n); PrintVals2d(f, V); fclose(f); char *p = strchr(b, '\n'), *e; if (!p) fail("no header"); p++; outbegin("printed"); for (;;) { double v = strtod(p, &e); if (e == p) break; outd(v); p = e; } outend(); free(b); }
}
static void c_vdel(void) { DeleteStoredVals(&V); outi("null", V == NULL); }
struct cmd wrap_cmds[] = { {"wnew", c_wnew}, {"wset", c_wset}, {"wwhich", c_wwhich}, {"weval", c_weval}, {"wfinit", c_wfinit}, {"wfadd", c_wfadd}, {"wfon", c_wfon}, {"wfclean", c_wfclean}, {"wfree", c_wfree},
    {"idump", c_idump}, {"inew", c_inew}, {"iadd", c_iadd}, {"iaddn", c_iaddn}, {"inest", c_inest}, {"inesti", c_inesti}, {"icp", c_icp}, {"ilast", c_ilast}, {"imerge", c_imerge}, {"iarr", c_iarr},
    {"mnew", c_mnew}, {"mev", c_mev}, {"mprint", c_mprint}, {"mfree", c_mfree}, {"hnew", c_hnew}, {"hadd", c_hadd}, {"hget", c_hget}, {"hhash", c_hhash}, {"lpush", c_lpush}, {"lidx", c_lidx}, {"ldel", c_ldel},
    {"vpush", c_vpush}, {"vdump", c_vdump}, {"vdel", c_vdel}, {NULL, NULL} };
