prop("C13", "Univariate functions: arithmetic, calculus, extrema and storage are exact",
     "For piecewise-linear, piecewise-constant and Gaussian-kernel functions of one variable, the generic function layer is exact: copies, sums, weighted sums, linear combinations, products and sums of products, Kronecker-type contractions, scaling and sign flips have the values of the corresponding arithmetic; evaluation (single, strided batch, by node index, arrays of functions, at pivots) interpolates the nodal values and is zero outside the interval; integrals, inner products and norms use the nodal trapezoid weights (exact Gaussian integrals for kernels); derivatives are the family's finite differences; maxima, minima and largest absolute values and their locations are attained values; serialised and text forms read back equal. "
     "Piecewise-linear operands may live on different node sequences with common end points; kernel expansions may be grown kernel by kernel with different heights, widths and centres, have finite or infinite bounds and movable centres, and their options announce the number of parameters the functions built from them have. No call changes an operand it does not update, and memory is neither lost nor overrun.",
     ["inputs", "histories"], "all functions, node sequences, strides and sequences of calls",
     "The unit tests work on one smooth function per operation with quadrature-level tolerances; different node sequences, strides, cached operators, NULL operands and chains of operations are not sampled.",
     ["c3/lib_funcs/functions.c", "c3/lib_funcs/linelm.c", "c3/lib_funcs/constelm.c", "c3/lib_funcs/kernels.c", "c3/lib_funcs/pivoting.c"],
     [("generic_function_* dispatch", "c3/lib_funcs/functions.c"), ("lin_elem_exp_*", "c3/lib_funcs/linelm.c"), ("const_elem_exp_*", "c3/lib_funcs/constelm.c"), ("kernel_expansion_*", "c3/lib_funcs/kernels.c")],
     ["parameters and values of every function after every call, returned scalars, heap balance"], SIM % "Fn.tla", "exact rational expected values; four call mixes; 2-7 nodes (one mix up to 16), behaviours of 14 calls; a third of the behaviours in other units of length and value (powers of two)")
prop("C19", "Univariate construction, parameter gradients and regression are right",
     "Approximating a function on given nodes reproduces it there with one evaluation per node; adaptive piecewise-linear approximation follows the documented bisection rule (smallest cell width, relative midpoint error); the orthonormal, one-zero and linear constructors have the defining property they are named after. "
     "Parameter gradients are the basis values at the point, the squared-norm gradient is the derivative of the squared norm, the least-squares and L2-regularised regression objectives and gradients are the stated sums, and a fit ends at the minimiser of the objective. With movable kernel centres the parameters are the weights followed by the centres, and gradients include the derivatives with respect to the centres. Fiber cuts of a multivariate function evaluate it with all other coordinates fixed.",
     ["inputs", "histories"], "all node sequences, data sets, parameters and regularisation weights",
     "Tests check gradients by finite differences at one point and fits by a loose error on smooth data; entries that stay zero, regularised gradients and stopping rules are not distinguished.",
     ["c3/lib_funcs/functions.c", "c3/lib_funcs/linelm.c", "c3/lib_funcs/constelm.c", "c3/lib_funcs/kernels.c", "c3/lib_optimization/optimization.c"],
     [("generic_function_approximate1d, generic_function_array_orth, generic_function_array_onezero, generic_function_onezero", "c3/lib_funcs/functions.c"), ("lin_adapt, lin_elem_exp_approx", "c3/lib_funcs/linelm.c"), ("param_LSregress_cost, param_RLS2regress_cost, generic_function_regress1d", "c3/lib_funcs/functions.c"), ("*_param_grad_eval, *_squared_norm_param_grad", "c3/lib_funcs")],
     ["nodes, coefficients, gradients, objectives and fitted parameters"], SIM % "Fn.tla", "exact expected values; the minimiser of the quadratic objective is computed from its normal equations")
prop("C10", "Parameterised trains: parameters, gradients and sweeps are exact",
     "A parameterised function train and the function train inside it always carry the same parameters, in the order core by core, column by column, row by row, whatever sequence of constructions, copies, full, per-core or rank-restricted updates produced it; the parameter counts announced are the true ones, for fixed and for movable kernel centres. "
     "At every point, the value and the gradient with respect to all parameters agree with the derivative of the multilinear form, whether computed for one point, for a batch, from precomputed basis values, or core by core from left and right sweeps; Hessian-vector products and the weighted squared norm of the cores with its (accumulated) gradient are exact as well. "
     "Initialisation to a constant represents that constant, and initialisation from a linear least-squares fit reproduces affine data (inner ranks of at least two). Calls change only the object they update.",
     ["inputs", "histories"], "all ranks, parameters, points and sequences of updates, for trains of two or more dimensions",
     "The tests compare gradients with finite differences for a few random trains; ordering of parameters, restricted-rank updates, accumulation into the gradient and the precomputed-basis route are only sampled.",
     ["c3/lib_superlearn/parameterization.c", "c3/lib_superlearn/superlearn_util.c", "c3/lib_clinalg/ft.c", "c3/lib_clinalg/qmarray.c"],
     [("ft_param_* (alloc, copy, update_*, gradeval*, hessvec, create_constant, create_from_lin_ls), process_sweep_*", "c3/lib_superlearn/parameterization.c"), ("function_train_param_grad_sqnorm", "c3/lib_clinalg/ft.c")],
     ["parameters seen through every accessor, values, gradients, partial products, nodal values of the train, heap balance"], SIM % "Learn.tla", "exact integer oracle for piecewise-linear/constant spaces, real arithmetic for kernels; 2-4 dimensions, ranks up to 3; Euler's homogeneity identity checked on the model")
prop("C11", "Regression minimises the stated objective and cross-validation reports it",
     "The least-squares learning objective is the (weighted) mean squared residual over the selected samples and its gradient is exact; the regularised objective adds half the weight times the sum of squared norms of the univariate functions. "
     "A regression run (all-at-once or alternating, quasi-Newton with the default weak-Wolfe line search) starts at the objective value of the given parameters, records objective values that do not increase while the objective is fixed, returns a train whose parameters are the ones it reports and whose objective is no worse than the initial one; a regularised alternating run ends with every core minimised in turn, in the order of the sweeps. "
     "k-fold cross-validation without sample weights returns the relative squared prediction error over the held-out folds, each fold trained from the initial parameters on the remaining samples, and leaves the initial parameters in place.",
     ["inputs", "histories"], "all data sets, sample weights, subsets, ranks, folds (also when the sample count is not divisible by the fold count) and regularisation weights",
     "The tests fit smooth functions and check a loose error; misplaced weights, a fold that leaks into training or a sweep that skips a core still fit well.",
     ["c3/lib_superlearn/regress.c", "c3/lib_superlearn/superlearn.c", "c3/lib_superlearn/objective_functions.c", "c3/lib_superlearn/learning_options.c", "c3/lib_optimization/optimization.c"],
     [("objective_eval, c3_objective_function_least_squares, c3_objective_function_regularize", "c3/lib_superlearn/objective_functions.c"), ("c3_regression_run_aio, c3_regression_run_als, ft_regress_run, cross_validate_run", "c3/lib_superlearn/regress.c")],
     ["objective values and gradients, stored objective history, final parameters, cross-validation error"], SIM % "Learn.tla", "objective exact; minimisers of every core subproblem and of every fold computed from normal equations")
prop("C12", "Optimisers stay feasible, never lose ground and stop by the rule they report",
     "Configuring, copying and reusing an optimiser object (BFGS, L-BFGS, gradient descent, brute force, stochastic descent) keeps exactly the options that were set, and a copy behaves like the original. Minimising a strictly convex quadratic: every point at which the objective is evaluated and every stored iterate lies in the box; the evaluation and gradient counters equal the calls made; the stored history starts at the start, ends at the result, and each stored value and gradient belongs to its stored point; the reported minimum is the objective at the reported point; without bounds, and for gradient descent also with bounds, values never increase, and an unbounded run that does not hit the iteration limit ends at the minimum to the accuracy of its tolerances. "
     "The run ends as soon as, and only when, the documented stopping rule fires, and the return code names that rule. The Wolfe and backtracking line searches return the step their rule prescribes, with the value and gradient of the point they return. The L-BFGS history always holds the newest m pairs and walks them newest-first or oldest-first. Brute force returns the first best candidate; stochastic descent visits every training sample once per epoch and reports the training error; the derivative check reports the true gradient error.",
     ["inputs", "histories"], "all convex quadratics, starts, boxes, tolerances, algorithms, line searches, storage options and reuse of the same object",
     "The tests minimise a handful of functions from one start and check the final value; counters, stored histories, reuse, ring wrap-around and stopping reasons are not observed.",
     ["c3/lib_optimization/optimization.c"],
     [("c3opt_minimize, c3_opt_damp_bfgs, c3_opt_lbfgs, c3_opt_gradient, c3_opt_sgd", "c3/lib_optimization/optimization.c"), ("c3opt_ls_wolfe_bisect, c3opt_ls_strong_wolfe, backtrack_line_search, backtrack_line_search_bc", "c3/lib_optimization/optimization.c"), ("c3opt_lbfgs_list_*", "c3/lib_optimization/optimization.c")],
     ["every objective call, the stored history, counters and return codes"],
     "TLA+ specification Opt.tla explored by TLC simulation and replayed through the library (configuration, exact dyadic line searches, L-BFGS ring); every recorded minimisation validated by TLC as a behaviour of the trace specification OptTrace.tla", "quadratics of 1-4 variables; traces of accepted iterates abstracted to three-valued facts")
prop("C07", "Trains are independent objects: only the result changes, nothing leaks",
     "A client may hold any number of function trains and arrays of trains over a space and call operations on them in any order. Each call changes only the object it is documented to create or update: every other object, operands included, keeps its ranks and its value at every point, now and after any later operation, release or update of the objects derived from it (no sharing of storage). "
     "The same object may serve as both operands. Whatever the sequence, no call reads or writes outside its memory, uses released memory, aborts, or hangs, and once all objects are released the heap is back where it started.",
     ["histories", "programs"], "all sequences of constructions, copies, arithmetic, array operations, evaluation, integration, differentiation, rounding, parameter updates and storage, with every choice of operands and result",
     "A unit test builds its objects, calls one operation and releases everything; aliasing between an operand and a result only shows when one of them is later updated or released, and leaks on rare paths are not observed at all.",
     ["c3/lib_clinalg/ft.c", "c3/lib_clinalg/qmarray.c", "c3/lib_funcs/functions.c", "c3/lib_funcs/linelm.c", "c3/lib_funcs/constelm.c", "c3/lib_funcs/kernels.c"],
     [("function_train_* and ft1d_array_* life cycle (alloc, copy, free)", "c3/lib_clinalg"), ("c3axpy, c3vaxpy, c3vaxpy_arr, c3vprodsum: replace a handle in place", "c3/lib_clinalg/ft.c"), ("cached evaluation work space", "c3/lib_clinalg/ft.c")],
     ["ranks and values of every live object after every call; AddressSanitizer; heap balance at the end of every behaviour"],
     "TLA+ client machine FT.tla / FTAll.tla: TLC enumerates breadth first every history of three slots and one array over a small catalogue (two calls after set-up in the quick tier, three in the thorough tier, four spaces) and simulates longer random histories; all of them are replayed through the library with the whole client state compared after every call",
     "exhaustive for the catalogue and depth; random beyond")
prop("C08", "Cross approximation samples nested fibers and reproduces functions of small rank",
     "Cross approximation over piecewise-linear or piecewise-constant spaces, with ranks that fit the grids, evaluates the function only inside the domain and only on complete fibers: each visit to a dimension evaluates it at every combination of a left index, a node of that dimension and a right index; the first sweep starts from the right indices given by the starting nodes; sweeps run over all dimensions left to right and back; left indices are nested in those of the previous dimension and right indices in those of the next; and no rank setting is iterated more often than the allowed maximum, or past convergence. "
     "Without rank adaptation the result has exactly the requested ranks; with it ranks grow only by the kick size, only on bonds whose rank was not reduced by rounding, and never beyond their bound. The result interpolates the function on the fibers evaluated last, and a function of the space whose ranks are covered is reproduced everywhere (as long as the start fibers see its full rank). "
     "The same approximation object can be run again on another function, given other options or initialised again, with uniform or per-bond ranks and given or default starting nodes, and nothing leaks.",
     ["inputs", "histories"], "all grids, functions of the space, starting nodes, ranks, tolerances, iteration limits, kick sizes and sequences of runs and re-initialisations; point-wise and vectorised functions",
     "Tests approximate a few smooth functions with generous ranks and compare an error; a fiber taken at a wrong index, a lost nestedness or an adaptation that ignores its bound still converges on them.",
     ["c3/lib_interface/approximate.c", "c3/lib_clinalg/ft.c", "c3/lib_clinalg/qmarray.c", "c3/lib_clinalg/indmanage.c", "c3/lib_clinalg/cross.c", "c3/lib_funcs/fwrap.c", "c3/lib_funcs/linelm.c", "c3/lib_funcs/constelm.c"],
     [("c3approx_init_cross, c3approx_init_cross_het, c3approx_do_cross", "c3/lib_interface/approximate.c"), ("ftapprox_cross, ftapprox_cross_rankadapt, prepCore", "c3/lib_clinalg"), ("cross_index_create_nested, cross_index_create_nested_ind", "c3/lib_clinalg/indmanage.c"), ("qmarray_maxvol1d, qmarray_qr, qmarray_lq", "c3/lib_clinalg/qmarray.c")],
     ["every point at which the function is evaluated with the ranks then in force; ranks and nodal values of the result; heap balance"],
     "TLA+ client machine Cross.tla explored by TLC simulation and replayed through the library; the recorded evaluation points of every run are validated by TLC as a behaviour of the sweep machine CrossTrace.tla", "2-4 dimensions, 2-5 nodes; whether the start fibers see the full rank is computed from the recorded right indices")
prop("C09", "Wrappers, index sets and evaluation memos are faithful containers",
     "A function wrapper of any kind (point-wise, index, vectorised, multi-output, array of functions) evaluates exactly the function and output currently selected, once at each requested point, in order, and passes on the function's return code; in fiber mode each request is completed with the coordinates of the current fiber, whatever sequence of initialising, adding or replacing fibers, switching and cleaning preceded it, and the caller's arrays need not outlive the call. "
     "An index set is exactly the sequence of tuples appended, nested (left or right, in each of the three nesting orders or by chosen old indices), copied or repeated into it, for elements of any size; merging pairs or crosses the tuples as documented; the start sets of a cross approximation are the nested ones; an operation on one set never changes another. "
     "An evaluation memo calls its function once per distinct point and always returns the function's value; the hash table keeps the first value of each key whatever the table size; pair lists and stored-value lists are newest first. Nothing leaks.",
     ["histories", "inputs"], "all sequences of these calls over several wrappers, index sets, memos and tables",
     "The tests wrap one function and evaluate it; switching functions, outputs and fibers, nesting orders, element sizes, hash collisions and repeated points are not exercised.",
     ["c3/lib_funcs/fwrap.c", "c3/lib_clinalg/indmanage.c", "c3/lib_funcs/monitoring.c", "c3/lib_array/array.c"],
     [("fwrap_eval, fwrap_eval_fiber, fwrap_add_fiber", "c3/lib_funcs/fwrap.c"), ("cross_index_*", "c3/lib_clinalg/indmanage.c"), ("function_monitor_eval, add_cpair, lookup_key, pair_list_index", "c3/lib_funcs/monitoring.c")],
     ["returned values, return codes, number of calls of the wrapped function, contents of every index set after every call"], SIM % "Wrap.tla", "exact; up to 24 calls, 5 dimensions, tables of 1-1000 buckets")
prop("C15", "Dense linear algebra returns what the matrix equations define",
     "Matrices built from vectors, filled, concatenated side by side, placed block-diagonally and multiplied by Kronecker hold exactly the entries of the definition and the operands are untouched; Kronecker products and vector-Kronecker products of sub-matrices with leading dimensions, and batches of vector-matrix and matrix-vector products with strides, write exactly the defined entries (scaled accumulation included) and nothing else; means, norms and distances are those of the data. "
     "For every matrix: qr returns orthonormal columns spanning the matrix; rq_with_rmult an orthonormal row basis and the product with the triangular factor; svd ordered singular values and orthonormal factors reproducing the matrix; truncated_svd the fewest singular values (at least one) whose discarded squares sum below the given threshold, and an error equal to what is discarded; pinv the Moore-Penrose inverse and the rank; linear_ls the least-squares, minimum-norm solution of a full-rank system and leaves the data alone; "
     "maxvol_rhs distinct rows whose sub-matrix is inverted by the returned matrix and dominates every other row (coefficients at most 1.01); the skeleton decompositions reproduce a matrix of exactly their rank from the rows and columns they choose, whenever the starting columns have full rank; a skeleton of a function computes each fiber once and keeps it. The fiber list returns the newest fiber of an index. Nothing leaks.",
     ["inputs", "histories"], "all small integer matrices of every shape and rank, leading dimensions, strides and scalings, and sequences of building operations over several matrices",
     "The tests factor a few fixed matrices, mostly square, without padding; rectangular shapes, rank deficiency, leading dimensions and ties are not sampled.",
     ["c3/lib_linalg/linalg.c", "c3/lib_linalg/matrix_util.c"],
     [("qr, rq_with_rmult, svd, truncated_svd, pinv, linear_ls", "c3/lib_linalg/linalg.c"), ("maxvol_rhs, skeleton_decomp, comp_pivots, cross", "c3/lib_linalg/linalg.c"), ("kron, kron_col, vec_kron, block_diag, horizcat, c3linalg_multiple_*", "c3/lib_linalg")],
     ["every entry of results, operands and padding; factors, pivots, ranks and return codes; heap balance"], SIM % "Mat.tla", "exact for building and products; factors checked by their defining equations on integer matrices up to 8x8, many of prescribed rank")
prop("C14", "Matrices of functions obey matrix algebra and factor correctly",
     "A client may hold any number of matrices whose entries are univariate functions, and rows of such functions, over a piecewise-linear or piecewise-constant grid. Creating, approximating, copying, truncating to the first columns, storing and loading, replacing rows, columns, entries or parameters, adding a multiple, transposing, stacking, placing block-diagonally, multiplying by numbers on either side, multiplying with each other in all four transposition combinations, Kronecker products and their products with vectors and matrices (also for block-diagonal, row and column arrangements of blocks) give, entry by entry and node by node, what the definition says, for every shape, and change nothing but their result. "
     "Evaluation, derivatives, integrals (of the matrix, of products, of Kronecker products), norms, distances, the position of the largest entry, and values and gradients with respect to parameters (dense, sparse, with strides) are exact. "
     "In the inner product of the grid: the QR and LQ factorisations (Householder and, for independent columns, Gram-Schmidt) have orthonormal factors, triangular numbers and reproduce the matrix, also when it is rank deficient; the singular value decomposition reproduces it with ordered values and orthonormal functions, and truncation keeps the fewest values (at least one) whose discarded squares sum below the threshold; LU with pivoting reproduces it, with a unit lower-triangular factor at the pivots and entries at most one; maximum-volume selection of independent columns returns distinct nodes, the inverse of the values there, and dominance of every value to 1.01. Nothing leaks.",
     ["inputs", "histories"], "all small shapes, values, grids and sequences of these calls over several objects with every choice of operands and result",
     "The tests multiply and factor a few matrices of polynomials; rectangular shapes, rank deficiency, block arrangements and aliasing of results are not sampled.",
     ["c3/lib_clinalg/qmarray.c", "c3/lib_clinalg/quasimatrix.c", "c3/lib_funcs/functions.c"],
     [("qmam, qmatm, mqma, qmaqma, qmatqma, qmaqmat, qmatqmat, qmarray_kron and the vec/mat/block variants", "c3/lib_clinalg/qmarray.c"), ("qmarray_qr, qmarray_lq, qmarray_svd, qmarray_truncated_svd, qmarray_lu1d, qmarray_maxvol1d", "c3/lib_clinalg/qmarray.c"), ("qmm, qmmt, quasimatrix_daxpby, quasimatrix_householder_simple", "c3/lib_clinalg/quasimatrix.c")],
     ["nodal values of every live object after every change; all factors, pivots and ranks; heap balance"], SIM % "Qm.tla", "exact for the algebra; factors checked by their defining equations; up to 16 entries, 2-5 nodes")
prop("C16", "Discrete Fourier transforms are the defining sums",
     "The forward transforms (direct, recursive, checked) return the sums of x_j exp(-2 pi i jk/N) and the inverse transforms 1/N times the sums of x_j exp(2 pi i jk/N), for every length (the recursive ones for powers of two) and complex input; the direct and recursive ones take their input and put their output at the given strides, touching nothing in between. Inputs are never changed, forward and inverse transforms undo each other in any order, and the checked transforms refuse any length that is not a power of two with a non-zero return code and without writing. "
     "The Chebyshev transform of values at cos(pi j/N), N a power of two, returns the coefficients of the interpolating Chebyshev series, highest degree first.",
     ["inputs", "histories"], "all lengths, complex inputs, strides and chains of transforms",
     "The tests transform two short real sequences and compare the fast with the direct transform; strides, inverse transforms of complex data, lengths other than powers of two and the Chebyshev transform are not sampled.",
     ["c3/lib_fft/fft.c"], [("fft, ifft, fft_base, ifft_base, fft_slow, ifft_slow", "c3/lib_fft/fft.c"), ("cheb_vals_to_coeff", "c3/lib_fft/fft.c")],
     ["every output, the input and the gaps between strided entries after each call"], SIM % "Dft.tla", "exact expected values in the group ring of the roots of unity; lengths up to 16 (32 in the thorough tier), chains of up to ten calls")
prop("C17", "Quadrature rules integrate every polynomial up to their degree",
     "For every number of points: Clenshaw-Curtis and Fejer's second rule on [-1,1] integrate every polynomial of degree below their number of points, have positive weights and ascending nodes symmetric about zero, and are nested (N points in 2N-1, respectively 2N+1); rescale_cc carries a rule on [-1,1] to [a,b]. Gauss-Legendre (weights summing to one), Gauss-Hermite (standard normal weight, summing to one) and Chebyshev-Gauss (weights summing to pi) integrate every polynomial of degree up to 2N-1 against their weight, with the roots of the orthogonal polynomial as nodes. "
     "Trapezoid weights (two or more points) are h with halved ends; Simpson weights are the composite Simpson rule, completed by a trapezoid on the last interval when the number of points is even.",
     ["inputs"], "all rules and numbers of points, all polynomials up to the degree, all intervals",
     "The tests compare two or three small rules with hand-computed nodes; a wrong entry in the tabulated rules of up to 199 points, or a weight that is wrong only for even sizes, is not sampled.",
     ["c3/lib_quadrature/quadrature.c", "c3/lib_quadrature/legquadrules.c", "c3/lib_quadrature/legquadrules2.c"],
     [("clenshaw_curtis, fejer2, rescale_cc, trap_w, simpson_w", "c3/lib_quadrature/quadrature.c"), ("gauss_legendre, getLegPtsWts tables", "c3/lib_quadrature"), ("gauss_hermite, cheb_gauss", "c3/lib_quadrature/quadrature.c")],
     ["nodes and weights through their moments"], "TLA+ specification Quad.tla: TLC enumerates every rule and every size within the bounds breadth first; each is built by the library and its moments, Gram matrix, nesting and weights compared with the exact rational values of the specification",
     "exhaustive over rules and sizes: up to 230 points (400 thorough); Gauss-Hermite up to 60, Clenshaw-Curtis, Fejer and Chebyshev up to 130")
prop("C18", "Strings, buffers, text forms and array helpers are faithful",
     "Splitting a string at a character or at a token returns the part before the first occurrence and leaves the part after it (or returns nothing and leaves the string alone when it does not occur); parsing returns all pieces, empty ones included, and leaves the string alone; concatenation (also of a string with itself) treats a missing string as empty; stripping removes exactly the leading and trailing runs of the given characters; integers print in every base from 2 to 36. "
     "Numbers written to a byte buffer one after the other read back unchanged, each call advancing by what it wrote; doubles written as text come back to 14 digits and packed doubles to double precision, over the whole range of exponents; a matrix written as text with blanks, commas or tabs between entries, or saved to a file, reads back with its shape and values. "
     "Linear, logarithmic and stepped ranges, diagonal and concatenated arrays, products and fills hold the defined values; vectors and lists of optional vectors are copied by value. No call touches memory outside its arguments and nothing leaks.",
     ["inputs", "histories"], "all strings, tokens, numbers, shapes and sequences of these calls over several strings and lists",
     "The tests use one friendly string or number per function; overlapping tokens, empty results, tabs, all-blank strings, extreme exponents and shared storage between copies are not sampled.",
     ["c3/lib_stringmanip/stringmanip.c", "c3/lib_array/array.c"],
     [("bite_string, bite_string2, parse_string, concat_string, strip_ends, itoa", "c3/lib_stringmanip/stringmanip.c"), ("serialize_* / deserialize_*, readtxt_double_array, readfile_double_array", "c3/lib_stringmanip/stringmanip.c"), ("serialize_double_to_text, serialize_double_packed, darray_save, linspace, arange, c3vector_*", "c3/lib_array/array.c")],
     ["contents of every string and list after every call, returned values, AddressSanitizer, heap balance"], SIM % "Str.tla", "exact; strings up to 60 characters over a small alphabet chosen to make tokens overlap; matrices up to 4x4")
prop("C20", "Laplacian, diffusion and DMRG products equal the operators they name",
     "For trains a and f over the same grids, exact_diffusion is the sum over dimensions of (D_k a)(D_k f) + a D_k(D_k f) and exact_laplace the sum of the second derivatives of f, with the library's own nodal derivatives and products; exact_laplace_periodic, hessian_diag_periodic and the Fourier operator of build_lp_operator use instead the second derivative of the trigonometric interpolant on uniform nodes; exact_laplace_op adds up whatever operator the caller supplies for each dimension (none meaning the identity). "
     "dmrg_product and dmrg_diffusion return, within the truncation tolerance, the product and the diffusion of their arguments: always in two dimensions, and in more dimensions whenever a left-right-left pass started from the right directions of the guess can represent it. No call changes its arguments, and operators built are released completely.",
     ["inputs", "histories"], "all trains of the piecewise-linear and piecewise-constant families, any dimension, ranks, grids, guesses, tolerances",
     "The tests apply each operator to one smooth function of two or three variables and accept errors of 1e-2 or more; boundary stencils, middle cores of higher dimensions, the guess and the release of the operators are not examined.",
     ["c3/lib_clinalg/diffusion.c", "c3/lib_clinalg/dmrg.c", "c3/lib_clinalg/dmrgprod.c", "c3/lib_clinalg/qmarray.c"],
     [("exact_diffusion, exact_laplace, exact_laplace_periodic, exact_laplace_op, build_lp_operator, dmrg_diffusion", "c3/lib_clinalg/diffusion.c"), ("dmrg_approx, dmrg_sweep_lr, dmrg_sweep_rl, dmrg_super_r_all", "c3/lib_clinalg/dmrg.c"), ("dmrg_product", "c3/lib_clinalg/dmrgprod.c")],
     ["nodal values and ranks of results and arguments, heap balance"], SIM % "Pde.tla", "exact rational expected values; trigonometric operators to 1e-8; spaces of up to 4 dimensions and 100 nodes")
prop("C21", "Cross-validation, grid search and rank adaptation keep the better model",
     "Cross-validation of a regressor returns the relative squared prediction error over the held-out folds (every sample is held out exactly once, also when the folds do not divide the sample count) and leaves the regressor's parameters as they were. "
     "Grid search over rank, regularisation weight and optimiser iteration limit tries every combination of the listed values, in whatever order the parameters were added, and leaves the regressor and the optimiser configured with the combination of smallest cross-validation error: where one combination is clearly better, that is the one in force, and a run then fits the data. "
     "Rank adaptation never exceeds the rank bound (or the initial ranks), hands back the train whose parameters the regressor reports, can be repeated, grows the ranks when cross-validation favours it (data of an affine function of all variables, started at rank one, end with ranks of at least two and a fit), returns the fixed-rank fit when the ranks are at the bound already, and in restricted mode keeps the fit obtained so far while ranks grow.",
     ["inputs", "histories"], "all piecewise-linear spaces of two or more dimensions, data sets, initial parameters, folds, kick sizes and rank bounds",
     "The tests run one grid and two adaptations on smooth functions and print the result; a grid cell that is skipped, a wrong cell left in force, a discarded fit or a rank beyond the bound goes unnoticed.",
     ["c3/lib_superlearn/regress.c", "c3/lib_superlearn/parameterization.c", "c3/lib_superlearn/learning_options.c"],
     [("cross_validate_run, cross_validate_grid_opt, cv_opt_grid_setup_cases, cv_case_process", "c3/lib_superlearn/regress.c"), ("ft_regress_run_rankadapt", "c3/lib_superlearn/regress.c"), ("ft_param_update_inside_restricted_ranks, ft_param_create_from_lin_ls", "c3/lib_superlearn/parameterization.c")],
     ["cross-validation errors, ranks, configuration and relative training error after grid search and adaptation, agreement of returned train and regressor, heap balance"], SIM % "Learn.tla", "cross-validation errors from normal equations; grids with one clearly best cell; adaptation compared with the fixed-rank run on the same data")
prop("C22", "Discrete tensor trains stand for the same tensor through every operation",
     "A tensor train of two or more dimensions built from cores, from ones, from a coordinate vector, from canonical factors, from a full tensor or by copying has at every multi-index the element the construction defines; sums, elementwise products and scalar multiples of trains have elementwise the sum, product and multiple; the dot product, norm and weighted integral are the sums over all elements they name; stacking, block-diagonal, Kronecker, transposed-copy and weighted-sum operations on three-dimensional tensors give the tensor they define. "
     "Compressing a full tensor and rounding a train change it by at most the relative error asked for (Frobenius norm), also for very small and very large tensors and when ranks exceed the sizes of the unfoldings, and leave no rank larger than the singular values of the unfolding require; right orthogonalisation keeps the tensor and makes every core but the first orthonormal. "
     "Cross approximation of a black box whose exact ranks (or larger ones) are given reproduces it, asks only for indices inside the tensor and never evaluates the same fiber twice; the adaptive version finds the ranks by itself. Only tt_round and orthogonalisation touch their argument; nothing leaks.",
     ["inputs", "histories"], "all trains, sizes, ranks, magnitudes and tolerances; all sequences of operations over several trains",
     "These modules are compiled into the library, but the test programs of lib_tensor and lib_tensdecomp are not part of the build: no test samples them at all.",
     ["c3/lib_tensor/tensor.c", "c3/lib_tensdecomp/tensortrain.c", "c3/lib_tensdecomp/tt_multilinalg.c", "c3/lib_tensdecomp/tt_integrate.c", "c3/lib_tensdecomp/candecomp.c", "c3/lib_tensdecomp/convert.c", "c3/lib_tensdecomp/cross.c"],
     [("full_to_tt, ttelem, tt_x, tt_ones, copy_tt, right_left_orth", "c3/lib_tensdecomp/tensortrain.c"), ("tt_round, ttadd, ttmult, ttscal, tt_dot, tt_norm", "c3/lib_tensdecomp/tt_multilinalg.c"), ("tt_cross, tt_cross_adapt", "c3/lib_tensdecomp/cross.c"), ("tensor_stack2h_3d, tensor_stack2v_3d, tensor_blockdiag_3d, tensor_kron_3d, tensor_copy_3d, tensor_sum2", "c3/lib_tensor/tensor.c")],
     ["every element and rank of every live train after every step, dot products, norms, integrals, indices asked of the black box, heap balance"], SIM % "Tt.tla", "exact integer tensors times powers of two; up to 4 dimensions, 81 elements, rank 24; cross approximation on products of blocks whose minors never vanish")
prop("C23", "Densities, affine transforms and normal quantiles follow their formulas",
     "A probability density made of a function train f on a box, optionally pushed forward by x = A z + b with a lower triangular A, has at every x the value f(z)/|det A| at z = A^-1 (x-b) and is zero when z lies outside the box; its log-gradient and log-Hessian are those of log f carried through the transform; the bounds reported are those of the box. Serialising and reading back, saving and loading, before or after the inverse transform was needed, with and without a transform, give the same density and leave the original alone. "
     "An affine transform keeps its matrix, offset and determinant through any sequence of copying, serialising and inverting; the inverse is the inverse; applying A x + b works for every shape. "
     "The standard normal density, the normal density of a given mean and covariance and the Laplace approximation of a quadratic have (to the accuracy of their approximation) the normal density's values, log-gradients and log-Hessians, and samples with the right mean and covariance. The normal distribution function and its quantile function are accurate, inverse to each other over the whole open unit interval and respect mean and standard deviation. Nothing leaks.",
     ["inputs", "histories"], "all trains, grids, lower triangular transforms, points inside and outside the box, sequences of copies and storage; all probabilities in (0,1)",
     "The test program of lib_probability is not part of the build: no test samples this layer at all.",
     ["c3/lib_probability/probability.c", "c3/lib_probability/probability_utils.c"],
     [("linear_transform_alloc, _copy, _apply, _invert, _serialize, _deserialize", "c3/lib_probability/probability.c"), ("probability_density_eval, _log_gradient_eval, _log_hessian_eval, _serialize, _save, _load, _lb_base, _ub_base", "c3/lib_probability/probability.c"), ("probability_density_standard_normal, _mvn, _laplace, _sample", "c3/lib_probability/probability.c"), ("cdf_normal, icdf_normal, icdfnorm", "c3/lib_probability/probability_utils.c")],
     ["values, log-gradients and log-Hessians at points inside and outside, all fields of transforms, sample moments, heap balance"], SIM % "Prob.tla", "exact rational expected values for train densities; normal densities to 1e-5, sample moments to eight standard errors, quantiles to 1e-9; 1-4 dimensions")
