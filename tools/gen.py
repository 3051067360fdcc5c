#!/usr/bin/env python3
"""gen.py: writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, state=None):
    assert len(title) <= 80, (id, len(title))
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a), technique, note))


TECH = "TLA+ specification explored by TLC (%s); every behaviour replayed call by call through the real library and compared with the state the specification prescribes"
SIM = TECH % "seeded random simulation of spec/%s"

prop("C01", "Function-train arithmetic is pointwise arithmetic",
     "For function trains of any ranks over a product of piecewise-linear, piecewise-constant or kernel spaces (two or more dimensions), copying, adding, multiplying, scaling, axpy-style updates (also of a train with itself) and the linear-combination, product-sum and matrix-vector operations on arrays of trains give a train whose value at every point is the corresponding arithmetic of the operands' values there. "
     "The constructors for constant, linear, rank-one and separable functions reproduce the function they are asked for; replacing the parameters of the whole train, of one core or of one entry changes exactly those coefficients, and parameters read back as they were set. Multiplication and constants are not offered by the kernel family.",
     ["inputs", "programs", "histories"], "all spaces, ranks, coefficients and all sequences of these calls, including operands that share a space, have rank one or come out of earlier operations",
     "The unit tests form one or two sums or products of fixed functions with small fixed ranks in one family and mostly compare a norm of a difference; the block structure of the cores only matters for mixed ranks, mixed families and results that are fed into further operations.",
     ["c3/lib_clinalg/ft.c", "c3/lib_clinalg/qmarray.c", "c3/lib_funcs/functions.c", "c3/lib_funcs/linelm.c", "c3/lib_funcs/constelm.c", "c3/lib_funcs/kernels.c"],
     [("function_train_sum / function_train_product / function_train_scale / c3axpy", "c3/lib_clinalg/ft.c"), ("qmarray_kron, qmarray_blockdiag, qmarray_stackh, qmarray_stackv", "c3/lib_clinalg/qmarray.c"), ("generic_function_sum_prod, generic_function_axpy, generic_function_prod", "c3/lib_funcs/functions.c")],
     ["nodal values and coefficients of every core after every call"], SIM % "FT.tla", "exact rational expected values; behaviours of 12 calls, 2-7 dimensions, 2-18 nodes, ranks up to 60, units of values and lengths from 2^-36 to 2^24")
prop("C02", "All evaluation routes of a function train agree with its value",
     "Evaluating a function train (or an array of trains) at a point, at a batch of points, at node indices, at one-coordinate perturbations of a point, along a fiber of node indices, core by core up to any core, or after re-expressing it on another nodal basis gives the same values as multiplying out its one-dimensional functions at that point. "
     "Points outside the interval of a piecewise-linear or piecewise-constant coordinate evaluate to zero, and the answer never depends on which other evaluations, updates or trains came before.",
     ["inputs", "histories"], "all trains, points and interleavings of evaluations with updates of the same or other trains",
     "Tests compare one route on one train at random points; buffer reuse between trains of different ranks, tail loops of the batched evaluators, and perturbation at the first or last coordinate are not sampled.",
     ["c3/lib_clinalg/ft.c", "c3/lib_clinalg/qmarray.c", "c3/lib_funcs/functions.c", "c3/lib_funcs/linelm.c", "c3/lib_funcs/constelm.c", "c3/lib_funcs/kernels.c"],
     [("function_train_eval, _evals, _eval_ind, _eval_co_perturb, _eval_co_perturb_ind, _eval_fiber_ind, _create_nodal", "c3/lib_clinalg/ft.c"), ("work space reuse (evalspace)", "c3/lib_clinalg/ft.c"), ("generic_function_1darray_eval2*", "c3/lib_funcs/functions.c")],
     ["returned values of every evaluation call"], SIM % "FT.tla", "exact expected values at quarter points, nodes and exterior points")
prop("C03", "Integrals, inner products and norms equal those of the represented function",
     "The integral of a function train, the inner product of two trains by any of the offered algorithms, the norm, the norm of a difference and the relative difference (to a train of norm above 1e-6) equal the value obtained from the represented functions: with the nodal trapezoid weights for piecewise-linear and piecewise-constant coordinates and the exact Gaussian integrals over the declared interval for kernels. "
     "Integrating out only some dimensions of a kernel train gives a train of the remaining dimensions with the same marginal.",
     ["inputs", "histories"], "all pairs of trains over a common space, whatever operations produced them",
     "Tests integrate one or two fixed functions; several independent algorithms for the same quantity are never cross-checked on the same operands, nor on unequal ranks or mixed families.",
     ["c3/lib_clinalg/ft.c", "c3/lib_clinalg/qmarray.c", "c3/lib_funcs/functions.c", "c3/lib_funcs/linelm.c", "c3/lib_funcs/constelm.c", "c3/lib_funcs/kernels.c"],
     [("function_train_integrate, function_train_inner, _inner_rl, _norm2, _norm2diff, _relnorm2diff, _integrate_weighted_subset, c3dot", "c3/lib_clinalg/ft.c"), ("qmarray_integrate, qmarray_vec_kron_integrate", "c3/lib_clinalg/qmarray.c")],
     ["returned values"], SIM % "FT.tla", "exact rational weights; erf formulas for kernels evaluated in double precision")
prop("C04", "Gradients, Jacobians and Hessians differentiate the represented function",
     "The gradient, Jacobian, Hessian and diagonal of the Hessian of function trains in piecewise-linear and piecewise-constant spaces are arrays of trains whose nodal values are the library's one-dimensional finite differences applied along the right coordinate(s) and in the documented order of components. "
     "The pointwise gradient of a train equals the slope of its interpolant (the analytic derivative for kernels) in each coordinate, and differentiation leaves its argument unchanged.",
     ["inputs", "histories"], "all trains and points, repeated differentiation included",
     "Tests check a gradient of a fixed function at a few points with loose tolerance; swapped components, boundary stencils and non-uniform grids are not distinguished.",
     ["c3/lib_clinalg/ft.c", "c3/lib_clinalg/qmarray.c", "c3/lib_funcs/linelm.c", "c3/lib_funcs/constelm.c", "c3/lib_funcs/kernels.c"],
     [("function_train_gradient, _hessian, _hessian_diag, ft1d_array_jacobian, function_train_gradient_eval", "c3/lib_clinalg"), ("lin_elem_exp_deriv, const_elem_exp_deriv, lin_elem_exp_deriv_eval, kernel_expansion_deriv_eval", "c3/lib_funcs")],
     ["nodal values of each component train, returned gradients"], SIM % "FT.tla", "exact rational stencils, uniform and non-uniform grids up to 7 nodes")
prop("C05", "Rounding keeps the function within the requested relative error",
     "Rounding a function train (of norm above machine precision) with relative threshold eps returns a train that differs from its argument by at most eps times its norm, with no rank larger than before or than the dimensions of the unfoldings allow; rounding with a rank bound respects the bound and is quasi-optimal. "
     "Rounding never changes its argument, and right-orthogonalisation preserves the function while making all cores but the first orthonormal.",
     ["inputs", "histories"], "all piecewise-linear and piecewise-constant trains (zero, rank-deficient, badly scaled) and thresholds",
     "Tests round a sum of a function with itself and check the rank on one or two functions of norm about one.",
     ["c3/lib_clinalg/ft.c", "c3/lib_clinalg/qmarray.c", "c3/lib_linalg/linalg.c"],
     [("function_train_round, function_train_round_maxrank_all, function_train_orthor", "c3/lib_clinalg/ft.c"), ("qmarray_truncated_svd, qmarray_householder_simple", "c3/lib_clinalg/qmarray.c"), ("truncated_svd", "c3/lib_linalg/linalg.c")],
     ["nodal values and ranks of result and argument"], SIM % "FT.tla", "the allowed error is computed from the exact tensor; thresholds from 0.5 to 1e-12")
prop("C06", "Stored function trains read back as the same function",
     "Serialising to memory, saving to a file, or writing as text and reading back a function train or an array of trains yields an object with the same dimensions, ranks and values, for every function family offered by that format; the announced size is exactly the number of bytes written and the number consumed on reading. "
     "Text output with enough digits loses nothing, and storing never alters the object stored.",
     ["inputs", "histories"], "all trains of every family, any ranks, any sequence of operations before storing",
     "Tests round-trip a fixed train of one family; size accounting and families mixed within a train are not covered.",
     ["c3/lib_clinalg/ft.c", "c3/lib_clinalg/qmarray.c", "c3/lib_funcs/functions.c", "c3/lib_funcs/linelm.c", "c3/lib_funcs/constelm.c", "c3/lib_funcs/kernels.c", "c3/lib_array/array.c"],
     [("function_train_serialize/deserialize/save/load/savetxt/loadtxt, ft1d_array_serialize/deserialize", "c3/lib_clinalg"), ("serialize_generic_function, serialize_lin_elem_exp, serialize_const_elem_exp, serialize_kernel_expansion", "c3/lib_funcs")],
     ["the reloaded object's ranks and values, pointer advance against announced size"], SIM % "FT.tla", "files are written in a scratch directory of the check")

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "gen_more.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "gen_more.py")) else None

NA = []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _, _ in P:
        f.write(json.dumps(p) + "\n")
man = dict(version=1, setup_cmd="python3-vt tools/setup.py",
           checks=[dict(property=p["id"], quick_cmd="python3-vt tools/check.py %s --tier quick" % p["id"], thorough_cmd="python3-vt tools/check.py %s --tier thorough" % p["id"],
                        technique=t, level="model_checking", level_note=n) for p, t, n in P],
           not_applicable=NA)
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(P), "properties")
