/* Fourier transforms (C16) and quadrature rules (C17) */
#include "driver.h"
#include <complex.h>
#include "fft.h"
#include "quadrature.h"
#define NV 3
#define PADV (-9.87654321e5)
typedef double complex cplx;
static cplx *V[NV]; static size_t VN[NV];
static size_t QN; static double *QP, *QW;
void misc_reset(void)
{
    for (int i = 0; i < NV; i++) { free(V[i]); V[i] = NULL; }
    free(QP); free(QW); QP = QW = NULL;
}
static size_t vs(void) { size_t s = unum(); if (s >= NV) die("slot"); return s; }
static void c_xset(void) { size_t s = vs(), n = unum(); double *v = nums(2 * n); free(V[s]); V[s] = malloc(n * sizeof(cplx)); VN[s] = n; for (size_t i = 0; i < n; i++) V[s][i] = v[2 * i] + I * v[2 * i + 1]; }
static void c_xdump(void) { size_t s = vs(); outi("n", (long)VN[s]); outbegin("v"); for (size_t i = 0; i < VN[s]; i++) { outd(creal(V[s][i])); outd(cimag(V[s][i])); } outend(); }
/* xft DST SRC SIGN WHICH SX SO : strided copies of the input and output, exactly as long as the strides require */
static void c_xft(void)
{
    size_t b = vs(), a = vs(); long sg = inum(), w = inum(); size_t sx = unum(), so = unum(), n = VN[a], lx = (n - 1) * sx + 1, lo = (n - 1) * so + 1;
    cplx *x = malloc(lx * sizeof *x), *o = malloc(lo * sizeof *o);
    for (size_t i = 0; i < lx; i++) x[i] = PADV + I * (double)i;
    for (size_t i = 0; i < lo; i++) o[i] = PADV - I * (double)i;
    for (size_t i = 0; i < n; i++) x[i * sx] = V[a][i];
    int r = w == 0 ? (sg < 0 ? fft(n, x, sx, o, so) : ifft(n, x, sx, o, so)) : w == 1 ? (sg < 0 ? fft_slow(n, x, sx, o, so) : ifft_slow(n, x, sx, o, so)) : (sg < 0 ? fft_base(n, x, sx, o, so) : ifft_base(n, x, sx, o, so));
    for (size_t i = 0; i < lx; i++) if (x[i] != (i % sx == 0 ? V[a][i / sx] : PADV + I * (double)i)) fail("transform changed its input at %zu", i);
    for (size_t i = 0; i < lo; i++) if (i % so && o[i] != PADV - I * (double)i) fail("transform wrote between the outputs at %zu", i);
    long touched = 0; for (size_t i = 0; i < n; i++) touched += creal(o[i * so]) != PADV;
    outi("ret", r); outi("touched", touched);
    if (touched) { free(V[b]); V[b] = malloc(n * sizeof(cplx)); VN[b] = n; for (size_t i = 0; i < n; i++) V[b][i] = o[i * so]; }
    free(x); free(o);
}
static int xf(long sg, long w, size_t n, cplx *x, size_t sx, cplx *o, size_t so)
{
    return w == 0 ? (sg < 0 ? fft(n, x, sx, o, so) : ifft(n, x, sx, o, so)) : w == 1 ? (sg < 0 ? fft_slow(n, x, sx, o, so) : ifft_slow(n, x, sx, o, so)) : (sg < 0 ? fft_base(n, x, sx, o, so) : ifft_base(n, x, sx, o, so));
}
/* xlong N SIGN WHICH SX SO M (POS RE IM)* Q INDEX* : transform of a few impulses and back */
static void c_xlong(void)
{
    size_t n = unum(); long sg = inum(), w = inum(); size_t sx = unum(), so = unum(), m = unum(), *p = malloc(m * sizeof *p);
    cplx *x = calloc((n - 1) * sx + 1, sizeof *x), *o = calloc((n - 1) * so + 1, sizeof *o), *z = calloc((n - 1) * sx + 1, sizeof *z);
    for (size_t i = 0; i < m; i++) { p[i] = unum(); double re = num(), im = num(); x[p[i] * sx] += re + I * im; }
    size_t q = unum(), *k = unums(q); int r = xf(sg, w, n, x, sx, o, so);
    outbegin("v"); for (size_t i = 0; i < q; i++) { outd(creal(o[k[i] * so])); outd(cimag(o[k[i] * so])); } outend();
    r |= xf(-sg, w, n, o, so, z, sx); outi("ret", r);
    outbegin("back"); for (size_t i = 0; i < m; i++) { outd(creal(z[p[i] * sx])); outd(cimag(z[p[i] * sx])); } outend();
    long bad = 0; for (size_t i = 0; i < n; i++) { size_t j = 0; while (j < m && p[j] != i) j++; if (j == m && cabs(z[i * sx]) > 1e-8) bad++; }
    outi("other", bad); free(x); free(o); free(z); free(p);
}
static void c_xcheb(void)
{
    size_t n = unum(); double *v = nums(n), *c = malloc(n * sizeof *c); int r = cheb_vals_to_coeff(n, v, c);
    outi("ret", r); outbegin("c"); for (size_t i = 0; i < n; i++) { outd(c[i]); outd(0.0); } outend(); free(c);
}
static void rule(const char *k, size_t n, double *p, double *w)
{
    if (!strcmp(k, "cc")) clenshaw_curtis(n, p, w);
    else if (!strcmp(k, "fejer")) fejer2(n, p, w);
    else if (!strcmp(k, "legendre")) gauss_legendre(n, p, w);
    else if (!strcmp(k, "hermite")) { int r = gauss_hermite(n, p, w); if (r) fail("gauss_hermite returned %d", r); }
    else if (!strcmp(k, "chebyshev")) { int r = cheb_gauss(n, p, w); if (r) fail("cheb_gauss returned %d", r); }
    else die("rule %s", k);
}
static void c_qmk(void)
{
    const char *k = tok(); char kk[16]; snprintf(kk, sizeof kk, "%s", k); size_t n = unum(); free(QP); free(QW);
    QN = n; QP = malloc(n * sizeof(double)); QW = malloc(n * sizeof(double)); for (size_t i = 0; i < n; i++) QP[i] = QW[i] = PADV;
    rule(kk, n, QP, QW);
    int in = 1, so = 1, sy = 1, po = 1;
    for (size_t i = 0; i < n; i++) {
        if (!(fabs(QP[i]) <= 1)) in = 0; if (!(QW[i] > 0)) po = 0;
        if (i && !(QP[i] > QP[i - 1])) so = 0;
        if (!(fabs(QP[i] + QP[n - 1 - i]) <= 5e-14 * (1 + fabs(QP[i])) && fabs(QW[i] - QW[n - 1 - i]) <= 5e-14)) sy = 0;
    }
    if (!strcmp(kk, "hermite")) in = -1; if (!strcmp(kk, "chebyshev")) so = -1;
    double su = 0; for (size_t i = 0; i < n; i++) su += QW[i]; if (strcmp(kk, "chebyshev")) out1("sum", su);
    outi("inside", in); outi("sorted", so); outi("symmetric", sy); outi("positive", po);
}
static void c_qmom(void)                  /* sums of w T_k */
{
    size_t m = unum(); outbegin("t");
    for (size_t k = 0; k <= m; k++) { double s = 0; for (size_t i = 0; i < QN; i++) s += QW[i] * cos((double)k * acos(fmax(-1, fmin(1, QP[i])))); outd(s); }
    outend();
}
static void c_qmono(void) { size_t m = unum(); outbegin("t"); for (size_t k = 0; k <= m; k++) { double s = 0; for (size_t i = 0; i < QN; i++) s += QW[i] * pow(QP[i], (double)k); outd(s); } outend(); }
static void c_qscale(void) { double a = num(), b = num(); rescale_cc(QN, QP, QW, a, b); }
static void c_qends(void) { double a = num(), b = num(); int in = 1; for (size_t i = 0; i < QN; i++) if (!(QP[i] >= a - 1e-12 && QP[i] <= b + 1e-12)) in = 0; outi("inside", in); }
static double orth(char f, size_t k, double x)      /* orthonormal polynomials of the three weights (total mass of chebyshev: pi) */
{
    double p0 = 1, p1 = x, t; if (f == 'c') return k == 0 ? 1 / sqrt(M_PI) : sqrt(2 / M_PI) * cos((double)k * acos(fmax(-1, fmin(1, x))));
    if (f == 'h') { if (k == 0) return 1; for (size_t j = 1; j < k; j++) { t = (x * p1 - sqrt((double)j) * p0) / sqrt((double)(j + 1)); p0 = p1; p1 = t; } return p1; }
    if (k == 0) return 1; for (size_t j = 1; j < k; j++) { t = ((2.0 * j + 1) * x * p1 - j * p0) / (j + 1.0); p0 = p1; p1 = t; } return p1 * sqrt(2.0 * k + 1);
}
static void c_qgram(void)
{
    char f = tok()[0]; size_t n = unum(); double *P = malloc(n * (n + 1) * sizeof *P), worst = 0, mass = 0;
    for (size_t i = 0; i < n; i++) for (size_t k = 0; k <= n; k++) P[i * (n + 1) + k] = orth(f, k, QP[i]);
    if (n <= 24) outbegin("g");
    for (size_t j = 0; j < n; j++) for (size_t k = 0; k < n; k++) {
        double s = 0; for (size_t i = 0; i < n; i++) s += QW[i] * P[i * (n + 1) + j] * P[i * (n + 1) + k];
        if (n <= 24) outd(s); else worst = fmax(worst, fabs(s - (j == k)));
    }
    if (n <= 24) outend(); else { double e[2] = { worst, mass }; out("gerr", 2, e); }
    outbegin("r"); for (size_t i = 0; i < n; i++) outd(sqrt(QW[i]) * P[i * (n + 1) + n]); outend();
    free(P);
}
static void c_qnest(void)
{
    char k[16]; snprintf(k, sizeof k, "%s", tok()); size_t n = unum(), m = unum(), off = unum(); double *p = malloc(m * sizeof *p), *w = malloc(m * sizeof *w);
    rule(k, m, p, w); int ok = 1;
    for (size_t i = 0; i < n; i++) { size_t j = n == 1 ? m / 2 : 2 * i + off; if (!(fabs(p[j] - QP[i]) <= 1e-13)) ok = 0; }
    outi("nested", ok); free(p); free(w);
}
static void c_qw(void) { char k = tok()[0]; size_t n = unum(); double a = num(), b = num(), *w = k == 't' ? trap_w(n, a / b) : simpson_w(n, a / b); out("w", n, w); free(w); }
struct cmd misc_cmds[] = { {"xset", c_xset}, {"xdump", c_xdump}, {"xft", c_xft}, {"xlong", c_xlong}, {"xcheb", c_xcheb}, {"qumk", c_qmk}, {"qumom", c_qmom}, {"qumono", c_qmono}, {"quscale", c_qscale}, {"quends", c_qends},
    {"qugram", c_qgram}, {"qunest", c_qnest}, {"quw", c_qw}, {NULL, NULL} };
