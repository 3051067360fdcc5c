#include "driver.h"
#include "driver_ft.h"
/* differential operators and DMRG on function trains */
static void c_ddiff(void) { size_t s = slotno(); struct FunctionTrain *a = ftslot(), *f = ftslot(); ft_put(s, exact_diffusion(a, f, G_opts)); }
static void c_dlap(void) { size_t s = slotno(); struct FunctionTrain *f = ftslot(); ft_put(s, inum() ? exact_laplace_op(f, NULL, G_opts) : exact_laplace(f, G_opts)); }
static void c_dlapp(void)
{
    const char *w = tok(); size_t s = slotno(); struct FunctionTrain *f = ftslot();
    if (!strcmp(w, "per")) { ft_put(s, exact_laplace_periodic(f, G_opts)); return; }
    struct OperatorForLaplace *op = build_lp_operator(G_d, G_n[0], G_x[0]);
    ft_put(s, exact_laplace_op(f, operator_for_laplace_get_op(op), G_opts));
    destroy_operator_for_laplace(op);
}
static struct GenericFunction *op_deriv(const struct GenericFunction *f, void *arg) { (void)arg; return generic_function_deriv(f); }
static struct GenericFunction *op_scale(const struct GenericFunction *f, void *arg) { struct GenericFunction *g = generic_function_copy(f); generic_function_scale(*(double *)arg, g); return g; }
static struct GenericFunction *op_rev(const struct GenericFunction *f, void *arg)
{
    (void)arg; struct GenericFunction *g = generic_function_copy(f); size_t n = generic_function_get_num_params(g);
    double *p = malloc(n * sizeof *p); generic_function_get_params(g, p);
    for (size_t i = 0; i < n / 2; i++) { double t = p[i]; p[i] = p[n - 1 - i]; p[n - 1 - i] = t; }
    generic_function_update_params(g, n, p); free(p); return g;
}
static double three = 3;
static void user_ops(struct Operator *o, struct Operator **p)
{
    for (size_t k = 0; k < G_d; k++) {
        long w = inum(); o[k].opts = w == 2 ? &three : NULL;
        o[k].f = w == 1 ? op_deriv : w == 2 ? op_scale : op_rev;
        p[k] = w ? &o[k] : NULL;
    }
}
static void c_dlapo(void) { size_t s = slotno(); struct FunctionTrain *f = ftslot(); struct Operator o[MAXD], *p[MAXD]; user_ops(o, p); ft_put(s, exact_laplace_op(f, p, G_opts)); }
static void c_dprod(void)
{
    const char *how = tok(); size_t s = slotno(); struct FunctionTrain *a = ftslot(), *b = ftslot(), *g = ftslot();
    double delta = num(); size_t sw = unum(); double eps = num();
    struct FunctionTrain *z = NULL;
    if (!strcmp(how, "slot")) z = function_train_copy(g);
    else if (!strcmp(how, "full")) { struct FunctionTrain *p = function_train_product(a, b); z = function_train_sum(p, g); function_train_free(p); }
    struct FunctionTrain *r = dmrg_product(z, a, b, delta, sw, eps, 0, G_opts);
    if (z) function_train_free(z);
    ft_put(s, r);
}
static void c_ddmrg(void)
{
    size_t s = slotno(); struct FunctionTrain *a = ftslot(), *f = ftslot(); double delta = num(); size_t sw = unum(); double eps = num();
    ft_put(s, dmrg_diffusion(a, f, delta, sw, eps, 0, G_opts));
}
struct cmd pde_cmds[] = { {"ddiff", c_ddiff}, {"dlap", c_dlap}, {"dlapp", c_dlapp}, {"dlapo", c_dlapo}, {"dprod", c_dprod}, {"ddmrg", c_ddmrg}, {NULL, NULL} };
