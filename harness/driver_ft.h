/* shared function-train state of the driver */
#ifndef DRIVER_FT_H
#define DRIVER_FT_H
#define MAXD 8
#define NSLOT 16
extern size_t G_d;                      /* dimension of the current space */
extern int    G_fam[MAXD];              /* 0 linelm, 1 constelm, 2 kernel */
extern size_t G_n[MAXD];
extern double *G_x[MAXD];
extern struct MultiApproxOpts *G_opts;
extern struct FunctionTrain *FT[NSLOT];
extern struct FT1DArray *AR[NSLOT];
struct FunctionTrain *ftslot(void);     /* slot named by the next token, must be live */
size_t slotno(void);
void ft_dump(const char *label, const struct FunctionTrain *ft);
void ft_put(size_t s, struct FunctionTrain *ft);
#endif
