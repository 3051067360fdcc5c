/* Generic replay driver: executes one command per script line against the real
 * library and prints what the public API shows.  It contains no oracle: all
 * expected values come from the TLA+ specification (see ../tools/vt.py). */
#ifndef VDRIVER_H
#define VDRIVER_H
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "c3.h"
#include "pivoting.h"
struct Pivot *pivot_create(size_t, size_t); void pivot_free(struct Pivot *);

typedef void (*cmd_fn)(void);
struct cmd { const char *name; cmd_fn fn; };

/* module tables */
extern struct cmd ft_cmds[], fn_cmds[], qm_cmds[], la_cmds[], misc_cmds[], str_cmds[], opt_cmds[], sl_cmds[], cross_cmds[], wrap_cmds[], pde_cmds[], tt_cmds[], kern_cmds[], prob_cmds[];
void ft_reset(void); void fn_reset(void); void qm_reset(void); void la_reset(void); void misc_reset(void); void str_reset(void);
void opt_reset(void); void sl_reset(void); void cross_reset(void); void wrap_reset(void); void tt_reset(void); void kern_reset(void); void prob_reset(void);

/* argument access for the current line */
int    nleft(void);
const char *tok(void);
double num(void);
long   inum(void);
size_t unum(void);
double *nums(size_t n);
double *rest(size_t n);
void fail(const char *fmt, ...);      /* malloc'd; released automatically at the end of the command */
size_t *unums(size_t n);
void   die(const char *fmt, ...);

/* observations */
void out(const char *label, size_t n, const double *v);
void out1(const char *label, double v);
void outi(const char *label, long v);
void outz(const char *label, size_t n, const size_t *v);
void outw(const char *label, const char *word);
void outs(const char *label, const char *s);   /* hex encoded string */
void outbegin(const char *label); void outd(double v); void outend(void);
void event(const char *fmt, ...);              /* trace event line (JSON object body) */
size_t heap_now(void);
extern char scratch[4096];   /* scratch directory for files */
#endif
