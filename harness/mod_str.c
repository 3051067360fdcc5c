/* strings, buffers, text forms, array constructors (C18) */
#include "driver.h"
#include "stringmanip.h"
#include "array.h"
#define NS 4
#define NC 3
static char *S[NS]; static struct c3Vector **C[NC]; static size_t CN[NC];
void str_reset(void)
{
    for (int i = 0; i < NS; i++) { free(S[i]); S[i] = NULL; }
    for (int i = 0; i < NC; i++) { if (C[i]) c3vector_array_free(CN[i], C[i]); C[i] = NULL; }
}
static size_t ss(void) { size_t s = unum(); if (s >= NS) die("slot"); return s; }
static size_t cs(void) { size_t s = unum(); if (s >= NC) die("slot"); return s; }
static char *word(size_t n) { double *c = nums(n); char *t = malloc(n + 1); for (size_t i = 0; i < n; i++) t[i] = (char)c[i]; t[n] = 0; return t; }
static void showstr(const char *t) { if (!t) { outd(-1); return; } size_t n = strlen(t); outd((double)n); for (size_t i = 0; i < n; i++) outd((double)t[i]); }
static void put(size_t s, char *t) { free(S[s]); S[s] = t; }
static void c_sset(void) { size_t s = ss(), n = unum(); put(s, word(n)); }
static void c_sdump(void) { outbegin("s"); for (int i = 0; i < NS; i++) showstr(S[i]); outend(); }
static void c_sbite(void) { size_t s = ss(), d = ss(); size_t n = unum(); char *w = word(n); char *r = bite_string(S[s], w[0]); put(d, r); free(w); }
static void c_sbite2(void) { size_t s = ss(), d = ss(), n = unum(); char *w = word(n); char *r = bite_string2(S[s], w); put(d, r); free(w); }
static void c_sparse(void) { size_t s = ss(); char c = (char)inum(); size_t n = 0; char **p = parse_string(S[s], c, &n); outi("n", (long)n); outbegin("p"); for (size_t i = 0; i < n; i++) showstr(p[i]); outend(); for (size_t i = 0; i < n; i++) free(p[i]); free(p); }
static void c_scat(void) { size_t d = ss(), a = ss(), b = ss(); put(d, concat_string(S[a], S[b])); }
static void c_scatow(void) { size_t a = ss(), b = ss(); concat_string_ow(&S[a], S[b]); }
static void c_sstripb(void) { strip_blank_ends(S[ss()]); }
static void c_sstrip(void) { size_t s = ss(); char l = (char)inum(), r = (char)inum(); strip_ends(S[s], l, r); }
static void c_itoa(void) { int v = (int)inum(), b = (int)inum(); char buf[80]; memset(buf, '#', sizeof buf); char *r = itoa(v, buf, b); if (r != buf) fail("itoa does not return its buffer"); size_t n = strnlen(buf, sizeof buf); outbegin("t"); for (size_t i = 0; i < n; i++) outd(buf[i]); outend(); }
static void c_buf(void)
{
    size_t n = unum(), at[64], tot = 0; char ty[64]; double *v[64]; size_t len[64];
    for (size_t i = 0; i < n; i++) { ty[i] = tok()[0]; len[i] = unum(); double q = num(); v[i] = nums(len[i]); for (size_t j = 0; j < len[i]; j++) v[i][j] /= q;
        at[i] = tot; tot += ty[i] == 'c' ? 1 : ty[i] == 'i' ? sizeof(int) : ty[i] == 'z' ? sizeof(size_t) : ty[i] == 'd' ? sizeof(double) : sizeof(size_t) + len[i] * sizeof(double); }
    unsigned char *b = malloc(tot), *p = b; long off = 0; memset(b, 0xcd, tot);
    for (size_t i = 0; i < n; i++) {
        switch (ty[i]) { case 'c': p = serialize_char(p, (char)v[i][0]); break; case 'i': p = serialize_int(p, (int)v[i][0]); break; case 'z': p = serialize_size_t(p, (size_t)v[i][0]); break;
            case 'd': p = serialize_double(p, v[i][0]); break; default: p = serialize_doublep(p, v[i], len[i]); }
        if ((size_t)(p - b) != (i + 1 < n ? at[i + 1] : tot)) off++; }
    outi("wrote", off); off = 0; p = b; double *got[64]; size_t gn[64]; char ch[64];
    for (size_t i = 0; i < n; i++) {
        int iv; size_t zv; got[i] = NULL; gn[i] = 1;
        switch (ty[i]) { case 'c': ch[i] = (char)*p++; break; case 'i': p = deserialize_int(p, &iv); got[i] = malloc(sizeof(double)); *got[i] = iv; break;
            case 'z': p = deserialize_size_t(p, &zv); got[i] = malloc(sizeof(double)); *got[i] = (double)zv; break;
            case 'd': got[i] = malloc(sizeof(double)); p = deserialize_double(p, got[i]); break;
            default: p = deserialize_doublep(p, &got[i], &gn[i]); }
        if ((size_t)(p - b) != (i + 1 < n ? at[i + 1] : tot)) off++; }
    outi("read", off);
    for (size_t i = 0; i < n; i++) { if (ty[i] == 'c') outi("c", ch[i]); else { char l[2] = { ty[i], 0 }; out(l, gn[i], got[i]); free(got[i]); } }
    free(b);
}
static void c_text(void)
{
    const char how0 = 0; (void)how0; char how[16]; snprintf(how, sizeof how, "%s", tok()); size_t n = unum(); double q = num(); int ex = (int)inum(); double *v = nums(n), r[64];
    for (size_t i = 0; i < n; i++) v[i] = ldexp(v[i] / q, ex);
    if (!strcmp(how, "one")) for (size_t i = 0; i < n; i++) { char *t = serialize_double_to_text(v[i]); r[i] = deserialize_double_from_text(t); free(t); }
    else if (!strcmp(how, "pack")) for (size_t i = 0; i < n; i++) { char *t = serialize_double_packed(v[i]); r[i] = deserialize_double_packed(t); free(t); }
    else if (!strcmp(how, "packarr")) { char *t = serialize_double_arr_packed(n, v); for (size_t i = 0; i < n; i++) r[i] = deserialize_double_packed(t + i * (sizeof(int) + sizeof(long long))); free(t); }
    else { char *t = serialize_darray_to_text(n, v); size_t m = 0; double *g = deserialize_darray_from_text(t, &m); if (m != n) fail("%zu numbers written, %zu read", n, m); memcpy(r, g, n * sizeof *r); free(g); free(t); }
    out("v", n, r);
}
static const char *seps[] = { " ", ",", "\t", ", ", "  " };
static char *fpath(void) { static char p[4200]; snprintf(p, sizeof p, "%s/str.dat", scratch); return p; }
static void c_read(void)
{
    long file = inum(); const char *sep = seps[unum()]; long fin = inum(); size_t r = unum(), c = unum(); double den = num(), *v = nums(r * c); char *t = malloc(r * c * 40 + 10); size_t at = 0, nr = 77, nc = 77;
    for (size_t i = 0; i < r; i++) { for (size_t j = 0; j < c; j++) at += (size_t)sprintf(t + at, "%s%.10g", j ? sep : "", v[i * c + j] / den); if (i + 1 < r || fin) at += (size_t)sprintf(t + at, "\n"); }
    double *g;
    if (file) { FILE *fp = fopen(fpath(), "w"); fwrite(t, 1, at, fp); fclose(fp); fp = fopen(fpath(), "r"); g = readfile_double_array(fp, &nr, &nc); fclose(fp); remove(fpath()); }
    else { char *u = malloc(at + 1); memcpy(u, t, at + 1); g = readtxt_double_array(u, &nr, &nc); free(u); }
    if (!g) fail("no array read"); outi("r", (long)nr); outi("c", (long)nc); out("v", nr * nc <= r * c ? nr * nc : r * c, g); free(g); free(t);
}
static void c_asave2(void)
{
    int ty = (int)inum(); size_t r = unum(), c = unum(); double den = num(), *v = nums(r * c), *g; for (size_t i = 0; i < r * c; i++) v[i] /= den;
    outi("ret", darray_save(r, c, v, fpath(), ty));
    if (ty == 0) { g = darray_load(fpath(), 0); if (!g) fail("nothing loaded"); out("v", r * c, g); free(g); }
    else {                      /* text: a line naming the columns, then the rows of the column-major array */
        FILE *fp = fopen(fpath(), "r"); char nm[64]; for (size_t j = 0; j < c; j++) { char w[16]; snprintf(w, sizeof w, "x%zu", j); if (fscanf(fp, "%63s", nm) != 1 || strcmp(nm, w)) fail("column %zu named %s", j, nm); }
        double *m = malloc(r * c * sizeof *m); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) if (fscanf(fp, "%lf", &m[j * r + i]) != 1) fail("entry missing");
        if (fscanf(fp, "%63s", nm) == 1) fail("extra text %s", nm); fclose(fp); out("v", r * c, m); free(m); }
    remove(fpath());
}
static void c_linsp(void) { double a = num(), b = num(); size_t n = unum(); double *v = linspace(a, b, n), e[2] = { v[0], v[n - 1] }; out("v", n, v); out("ends", 2, e); free(v); }
static void c_logsp(void) { int a = (int)inum(), b = (int)inum(); size_t n = unum(); double *v = logspace(a, b, n); out("v", n, v); free(v); }
static void c_arng(void) { double a = num(), b = num(), s = num(), q = num(); size_t n = 0; double *v = arange(a / q, b / q, s / q, &n); outi("n", (long)n); out("v", n, v); free(v); }
static void c_diagm(void) { size_t n = unum(); double *x = nums(n), *v = diag(n, x); out("v", n * n, v); free(v); }
static void c_cols(void) { size_t r = unum(), a = unum(), b = unum(); double *x = nums(r * a), *y = nums(r * b), *v = dconcat_cols(r, a, b, x, y); out("v", r * (a + b), v); free(v); }
static void c_prods(void) { size_t n = unum(); double *v = nums(n); size_t *z = unums(n); int *iv = malloc((n + 1) * sizeof *iv); for (size_t i = 0; i < n; i++) iv[i] = (int)v[i]; out1("d", dprod(n, v)); outi("i", iprod(n, iv)); outi("z", (long)iprod_sz(n, z)); free(iv); }
static void c_fills(void)
{
    size_t n = unum(); double x = num(), *o = dones(n), *z = dzeros(n), *v = darray_val(n, x), *u = drandu(n); int *iz = izeros(n), ok = 1; for (size_t i = 0; i < n; i++) if (!(u[i] >= -1 && u[i] <= 1)) ok = 0;
    double w = randu(); if (!(w >= 0 && w <= 1)) ok = 0; if (!isfinite(randn())) ok = 0;
    out("o", n, o); out("z", n, z); outbegin("iz"); for (size_t i = 0; i < n; i++) outd(iz[i]); outend(); out("v", n, v); outi("randok", ok); free(o); free(z); free(v); free(u); free(iz);
}
static void c_ddcopy(void)
{
    size_t n = unum(), d = unum(), row = unum(); double *v = nums(n * d), **a = malloc_dd(n), **b = malloc_dd(n); for (size_t i = 0; i < n; i++) { a[i] = calloc_double(d); b[i] = calloc_double(d); memcpy(a[i], v + i * d, d * sizeof *v); }
    copy_dd(n, d, b, a); free(a[row]); dd_row_linspace(a, row, 0.0, (double)(d - 1), d);
    outbegin("v"); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < d; j++) outd(b[i][j]); outend(); outbegin("src"); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < d; j++) outd(a[i][j]); outend(); free_dd(n, a); free_dd(n, b);
}
static void showvec(struct c3Vector *v) { if (!v) { outd(-1); return; } outd((double)v->size); for (size_t i = 0; i < v->size; i++) outd(v->elem[i]); }
static void c_cdump(void) { outbegin("c"); for (int i = 0; i < NC; i++) { if (!C[i]) { outd(-2); continue; } outd((double)CN[i]); for (size_t j = 0; j < CN[i]; j++) showvec(C[i][j]); } outend(); }
static void cput(size_t s, struct c3Vector **v, size_t n) { if (C[s]) c3vector_array_free(CN[s], C[s]); C[s] = v; CN[s] = n; }
static void c_cnew(void) { size_t s = cs(), n = unum(); cput(s, c3vector_array_alloc(n), n); }
static void c_cput(void) { size_t s = cs(), j = unum(), m = unum(); double *v = nums(m); c3vector_free(C[s][j]); C[s][j] = c3vector_alloc(m, v); memset(v, 0xee, m * sizeof *v); }
static void c_ccopy(void) { size_t d = cs(), s = cs(); cput(d, c3vector_array_copy(CN[s], C[s]), CN[s]); }
static void c_ccopy1(void) { size_t d = cs(), j = unum(), s = cs(), i = unum(); struct c3Vector *v = c3vector_copy(C[s][i]); c3vector_free(C[d][j]); C[d][j] = v; }
static void c_cpoke(void) { size_t s = cs(), j = unum(), i = unum(); C[s][j]->elem[i] = num(); }
static void c_cfree(void) { cput(cs(), NULL, 0); }
struct cmd str_cmds[] = { {"sset", c_sset}, {"sdump", c_sdump}, {"sbite", c_sbite}, {"sbite2", c_sbite2}, {"sparse", c_sparse}, {"scat", c_scat}, {"scatow", c_scatow}, {"sstripb", c_sstripb}, {"sstrip", c_sstrip},
    {"itoa", c_itoa}, {"buf", c_buf}, {"text", c_text}, {"read", c_read}, {"asave2", c_asave2}, {"linsp", c_linsp}, {"logsp", c_logsp}, {"arng", c_arng}, {"diagm", c_diagm}, {"cols", c_cols}, {"prods", c_prods},
    {"fills", c_fills}, {"ddcopy", c_ddcopy}, {"cdump", c_cdump}, {"cnew", c_cnew}, {"cput", c_cput}, {"ccopy", c_ccopy}, {"ccopy1", c_ccopy1}, {"cpoke", c_cpoke}, {"cfree", c_cfree}, {NULL, NULL} };
