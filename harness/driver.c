#include "driver.h"
#include <stdarg.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
size_t __sanitizer_get_current_allocated_bytes(void);
#endif
static FILE *OUT;
static char *line, *cur;
static void *keep[4096]; static int nkeep;
char scratch[4096];

void die(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    fprintf(stderr, "DRIVER-ERROR "); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n");
    va_end(ap); fflush(stderr); fflush(OUT);
    _exit(97);
}
/* the library did something no caller can live with: ends the process like a failed assertion, judged as a violation */
void fail(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    fprintf(stderr, "LIBRARY: "); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n");
    va_end(ap); fflush(stderr); fflush(OUT);
    _exit(95);
}
static char *next_tok(void)
{
    while (*cur == ' ') cur++;
    if (!*cur) return NULL;
    char *s = cur;
    while (*cur && *cur != ' ') cur++;
    if (*cur) *cur++ = 0;
    return s;
}
int nleft(void)
{
    int n = 0; char *p = cur;
    for (;;) { while (*p == ' ') p++; if (!*p) break; n++; while (*p && *p != ' ') p++; }
    return n;
}
const char *tok(void) { char *t = next_tok(); if (!t) die("missing token in: %s", line); return t; }
double num(void)
{
    const char *t = tok(); char *e;
    double v = strtod(t, &e);
    if (*e == '/') { double d = strtod(e + 1, &e); v /= d; }
    if (*e == '@') v = ldexp(v, (int)strtol(e + 1, &e, 10));
    if (*e) die("bad number %s", t);
    return v;
}
long inum(void) { return (long)num(); }
size_t unum(void) { long v = inum(); if (v < 0) die("negative size"); return (size_t)v; }
static void *hold(void *p) { if (nkeep >= 4096) die("too many"); keep[nkeep++] = p; return p; }
/* all remaining arguments; the library must agree that there are n of them */
double *rest(size_t n) { size_t m = (size_t)nleft(); if (m != n) fail("library expects %zu values where there are %zu", n, m); return nums(n); }
double *nums(size_t n) { double *p = hold(malloc((n ? n : 1) * sizeof *p)); for (size_t i = 0; i < n; i++) p[i] = num(); return p; }
size_t *unums(size_t n) { size_t *p = hold(malloc((n ? n : 1) * sizeof *p)); for (size_t i = 0; i < n; i++) p[i] = unum(); return p; }

void outbegin(const char *l) { fprintf(OUT, ">%s", l); }
void outd(double v) { fprintf(OUT, " %.17g", v); }
void outend(void) { fputc('\n', OUT); }
void out(const char *l, size_t n, const double *v) { outbegin(l); for (size_t i = 0; i < n; i++) outd(v[i]); outend(); }
void out1(const char *l, double v) { out(l, 1, &v); }
void outi(const char *l, long v) { fprintf(OUT, ">%s %ld\n", l, v); }
void outz(const char *l, size_t n, const size_t *v) { outbegin(l); for (size_t i = 0; i < n; i++) fprintf(OUT, " %zu", v[i]); outend(); }
void outw(const char *l, const char *w) { fprintf(OUT, ">%s %s\n", l, w); }
void outs(const char *l, const char *s) { fprintf(OUT, ">%s x", l); for (; *s; s++) fprintf(OUT, "%02x", (unsigned char)*s); outend(); }
void event(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt); fputc('!', OUT); vfprintf(OUT, fmt, ap); fputc('\n', OUT); va_end(ap);
}
size_t heap_now(void)
{
#if defined(__SANITIZE_ADDRESS__)
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}
#ifdef VT_COV
extern void __gcov_dump(void);
#endif
static struct cmd *tables[] = { ft_cmds, fn_cmds, qm_cmds, la_cmds, misc_cmds, str_cmds, opt_cmds, sl_cmds, cross_cmds, wrap_cmds, pde_cmds, tt_cmds, kern_cmds, prob_cmds };
static void reset_all(void)
{
    ft_reset(); fn_reset(); qm_reset(); la_reset(); misc_reset(); str_reset(); opt_reset(); sl_reset(); cross_reset(); wrap_reset(); tt_reset(); kern_reset(); prob_reset();
}
static size_t heap0;
int main(int argc, char **argv)
{
    if (argc < 4) { fprintf(stderr, "usage: driver SCRIPT OUT SCRATCHDIR\n"); return 96; }
    FILE *in = fopen(argv[1], "r"); if (!in) return 96;
    OUT = fopen(argv[2], "w"); if (!OUT) return 96;
    setvbuf(OUT, malloc(1 << 16), _IOFBF, 1 << 16);
    static char obuf[1 << 16]; setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
    snprintf(scratch, sizeof scratch, "%s", argv[3]);
    size_t cap = 1 << 22; ssize_t len; line = malloc(cap);
    while ((len = getline(&line, &cap, in)) > 0) {
        if (line[len - 1] == '\n') line[len - 1] = 0;
        cur = line;
        char *name = next_tok();
        if (!name || *name == '#') continue;
        if (!strcmp(name, "B")) {            /* new behaviour */
            reset_all();
            fprintf(OUT, "B %s\n", tok()); fflush(OUT); alarm(60);
            continue;
        }
        if (!strcmp(name, "heap0")) { heap0 = heap_now(); fprintf(OUT, ".\n"); continue; }
        if (!strcmp(name, "heapcheck")) {
            reset_all(); fflush(OUT);
            outi("heap", (long)heap_now() - (long)heap0); fprintf(OUT, ".\n"); fflush(OUT); continue;
        }
        cmd_fn fn = NULL;
        for (size_t t = 0; t < sizeof tables / sizeof *tables && !fn; t++)
            for (struct cmd *c = tables[t]; c->name && !fn; c++)
                if (!strcmp(c->name, name)) fn = c->fn;
        if (!fn) die("unknown command %s", name);
        fflush(OUT);
        fn();
        if (nleft()) die("extra tokens after %s: %s", name, cur);
        for (int i = 0; i < nkeep; i++) free(keep[i]);
        nkeep = 0;
        fprintf(OUT, ".\n"); fflush(OUT);
    }
    reset_all();
    fprintf(OUT, "END\n"); fclose(OUT);
    fflush(stdout);
#ifdef VT_COV
    __gcov_dump();   /* coverage builds, a development aid */
#endif
    _exit(0);
}
