NOTES = ("Every check executes the repository's own Python functions through a JAX trace whose values are symbolic "
         "(symx/), so the encoding is rebuilt from /repo on every run; claims are decided by z3 over all inputs in the stated "
         "boxes at the stated sizes. Counterexamples are replayed on the real code before they are reported.")
STD = ("Solver verdict for every input in the stated box at each listed size/configuration; floats are modelled as reals; "
       "sizes beyond the listed ones and rounding effects are outside the claim.")
OF = "src/cr/sparse/_src/opt/"
LF = "src/cr/sparse/_src/lop/"
PROPS = [
 dict(id="P01", title="Adjoint of every linear operator is paired with its forward map",
  statement="For every linear operator the library can construct, every model-space vector x and every data-space vector y, the inner product of (T x) with y equals the inner product of x with (T^H y). The outputs of the forward and adjoint maps always have the declared data-space and model-space shapes. Operators documented over the real inner product satisfy this for its real part.",
  quant="every operator constructor, its boundary kinds, offsets, wavelets, real and complex parameters, and every real/complex x and y",
  why="the pairing is a universally quantified bilinear identity per configuration; dot tests sample two random vectors at one size and skip most complex and even/odd variants",
  files=[LF + f for f in ("basic.py", "calculus.py", "conv.py", "filters.py", "fft.py", "dwt.py", "onb.py", "tv.py", "windowed_op.py", "block_diag.py", "special_matrices.py", "reshape.py", "dot.py", "identity.py")],
  mech=[("times/trans pairs", LF + "basic.py"), ("convolution adjoint slices", LF + "conv.py"), ("derivative adjoints", LF + "calculus.py")], note=STD),
 dict(id="P02", title="Operator algebra agrees with matrix algebra",
  statement="Negation, scaling, sums, differences, composition, powers, adjoint, transpose, horizontal concatenation, block diagonals, partial operators, Gram and frame operators, compiled operators, column extraction and matrix conversion all act exactly as the corresponding matrix expression, in forward and adjoint mode, on single vectors and on matrices of column vectors. The declared shape and the linear, real, compile-safe and matrix-safe flags of a composite follow from its parts.",
  quant="all matrices at the listed shapes (symbolic entries, real and complex), all inputs, all composition operators, and every operator of the catalogue",
  why="the claim ranges over all matrices and vectors; tests compare a few random instances, mostly real and square",
  files=[LF + f for f in ("lop.py", "block_diag.py", "util.py", "basic.py")],
  mech=[("algebra", LF + "lop.py"), ("matrix conversion", LF + "util.py")], note=STD),
 dict(id="P03", title="Every operator equals its documented matrix",
  statement="Every operator maps each input exactly as its documented matrix does: identities, restrictions, padding, cumulative sums and differences, filters and convolutions with any offset, derivatives, total variation, circulant products, Fourier, cosine, Walsh-Hadamard and wavelet transforms, reshapes, dot products, windowed and block-diagonal operators. The adjoint applies the conjugate transpose of that matrix. Cumulative sum and difference operators are mutual inverses.",
  quant="every input vector, every filter/diagonal/circulant coefficient vector (symbolic), all listed sizes, offsets, orders, boundary kinds",
  why="each statement is about all inputs and coefficient vectors; tests check single examples",
  files=[LF + f for f in ("basic.py", "calculus.py", "conv.py", "filters.py", "fft.py", "dwt.py", "onb.py", "tv.py", "windowed_op.py", "block_diag.py", "special_matrices.py", "reshape.py", "dot.py", "identity.py")],
  mech=[("operator definitions", LF)], note=STD),
 dict(id="P04", title="Orthonormal bases preserve norms and invert by their adjoint",
  statement="Fourier, cosine, Walsh-Hadamard and orthogonal-wavelet operators (1-D and 2-D, transform and basis form, any supported level) reconstruct every signal exactly from its coefficients through the adjoint and preserve its energy. With zero padding the transform is still left-invertible by its adjoint. The Dirac-Fourier dictionary is a tight frame with bound 2.",
  quant="every signal, every listed size, level, wavelet and axis choice",
  why="energy preservation and perfect reconstruction are identities over all signals; tests use one random signal per size",
  files=[LF + "onb.py", LF + "dwt.py"], mech=[("orthonormal operators", LF + "onb.py"), ("wavelet operators", LF + "dwt.py")], note=STD),
 dict(id="P05", title="Applying an operator along an axis equals applying it slice by slice",
  statement="Applying any operator, forward or adjoint, to a multi-dimensional array along its chosen axis (or to a matrix of column vectors) gives exactly the result of applying it separately to every 1-D slice along that axis. The shape of the result differs only along that axis, where it is the data-space (model-space) dimension.",
  quant="every operator that takes an axis or a matrix of columns, every axis of 2-D and 3-D arrays, every array content",
  why="the equality must hold for each element of each array and axis; tests cover one axis with one array",
  files=[LF + f for f in ("util.py", "basic.py", "fft.py", "conv.py", "filters.py", "dwt.py", "tv.py", "windowed_op.py", "block_diag.py", "identity.py", "special_matrices.py", "onb.py")],
  mech=[("axis application", LF + "util.py")], note=STD),
 dict(id="P06", title="Projections return the nearest point of their set",
  statement="Every projection (boxes, affine sets, l1, l2 and l-infinity balls, weighted and dictionary balls, conic halves, real ranges, identity and zero) returns a point of the requested set. That point is the unique nearest point to the input; inputs already in the set are returned unchanged. The radius, centre, bounds and weights given by the caller are honoured, for real and complex data where supported.",
  quant="every input in the box at the listed sizes, with symbolic radii, centres and bounds, real and complex, on every active-set branch",
  why="optimality must hold on every active set and tie; tests check a few points and inputs already outside",
  files=[OF + "projections.py", OF + "projectors/basic.py", OF + "projectors/lpballs.py"], mech=[("projections", OF + "projectors")], note=STD),
 dict(id="P07", title="Indicators are zero on their set and infinite outside",
  statement="Every indicator function evaluates to 0 at every point inside its set and to plus infinity at every point outside it, with the centre, radius, bounds, weights and tolerance given by the caller. No input yields any other value.",
  quant="every point of the box at the listed sizes, symbolic centres/radii, real and complex, with a margin around the documented tolerance",
  why="two-sided statement over all points including boundaries; tests check isolated points",
  files=[OF + "indicators/basic.py", OF + "indicators/lpballs.py"], mech=[("indicator functions", OF + "indicators")], note=STD),
 dict(id="P08", title="Proximal operators minimise their proximal objective",
  statement="For every proximal-capable function the library builds, prox(x, t) is the minimiser of t f(u) + |u - x|^2 / 2 for every x and every step t > 0, including scaled, weighted, translated and indicator-derived ones. The value reported with the proximal vector equals the function value at that vector.",
  quant="every input, step and scale in the box at the listed sizes, real and complex, on every thresholding branch",
  why="the minimiser must be right on every branch of the threshold, for every t; tests use one vector and one step",
  files=[OF + "proximal_ops/" + f for f in ("basic.py", "lpnorms.py", "prox.py", "prox_sorted_l1.py")], mech=[("proximal operators", OF + "proximal_ops")], note=STD),
 dict(id="P09", title="Smooth functions report their exact value and gradient",
  statement="Every smooth function evaluates to its documented formula, its gradient equals the derivative of that value, and the combined value-and-gradient call agrees with both. Translation, scaling by the caller's parameters and Moreau envelopes keep these relations.",
  quant="every input in the box, symbolic A, b, P, q, mu, tau, and every branch (Huber regions)",
  why="identities over all inputs and parameters; tests compare at single points",
  files=[OF + "prox_to_smooth.py"] + [OF + "smooth/" + f for f in ("constant.py", "entropy.py", "huber.py", "linear.py", "logdet.py", "quad.py", "smooth.py")], mech=[("smooth functions", OF + "smooth")], note=STD),
 dict(id="P10", title="Conjugate gradients keep their invariants and stop correctly",
  statement="For every positive definite system, the returned residual of CG and preconditioned CG equals b - A x and the reported energies equal those of that residual, with or without a starting point. Each step makes the new residual orthogonal to the previous direction and the directions conjugate; n steps solve the system. The solver stops early only when the documented tolerance holds and never exceeds the iteration limit.",
  quant="every b (and x0, and A at size up to 2) in the box at n up to 3 and up to 2 iterations, with several tolerances and preconditioners",
  why="the relations are algebraic identities over all right-hand sides and every early-stop path; tests solve fixed systems",
  files=[OF + "cg.py", OF + "pcg.py"], mech=[("iterations", OF + "cg.py"), ("preconditioned", OF + "pcg.py")], note=STD),
]
PF = "src/cr/sparse/_src/pursuit/"
PROPS += [
 dict(id="P11", title="Matching pursuits select best atoms and report true residuals",
  statement="At every iteration orthogonal matching pursuit adds an atom with the largest absolute inner product with the current residual and never repeats one, its coefficients are the least squares fit on the selected atoms, and the reported residual, its energy and the iteration count belong to that fit. Matrix, compiled, operator and multi-vector forms agree with this, also when a maximum iteration count or residual tolerance stops them. Plain matching pursuit keeps y = D x + r, moves by the projection on the best atom and reports the energy of the current residual.",
  quant="every measurement vector in the stated families for each listed rational dictionary (2x3 to 6x8), sparsity up to 3, real data",
  why="greedy selection and least-squares optimality are claims about all measurement vectors on every selection path; tests recover a handful of planted signals",
  files=[PF + f for f in ("omp.py", "mp.py", "defs.py")], mech=[("OMP", PF + "omp.py"), ("MP", PF + "mp.py")], note=STD),
 dict(id="P12", title="Thresholding pursuits keep K-sparse iterates and true residuals",
  statement="IHT, HTP, subspace pursuit and CoSaMP return at most K selected atoms with distinct indices, coefficients paired with those atoms, and a residual (and its energy) equal to the measurements minus the dictionary times the returned solution. Each iteration performs its documented step: gradient step and best K terms, least squares on the selected support, merge of the K or 2K best new atoms with the previous support and pruning to the best K. The step size options, iteration limit, residual tolerances and stagnation tests are honoured in matrix, compiled and operator form.",
  quant="every measurement vector in the stated families for each listed rational dictionary, K up to 2, up to 2 iterations, fixed/normalised/optimal step, real data",
  why="each step is a statement about all measurement vectors on every selection path; tests recover planted signals where many wrong steps still converge",
  files=[PF + f for f in ("iht.py", "htp.py", "sp.py", "cosamp.py", "util.py", "defs.py")], mech=[("IHT/HTP", PF + "iht.py"), ("SP/CoSaMP", PF + "cosamp.py")], note=STD),
 dict(id="P13", title="Thresholding functions shrink every entry by their documented rule",
  statement="Soft thresholding reduces the magnitude of every entry by the threshold, keeping its sign or phase and zeroing smaller entries; hard thresholding with parameter tau keeps exactly the entries larger than sqrt(2 tau); half thresholding zeroes entries below its cut-off and otherwise solves its stationarity equation. The percentile forms use the linear-interpolation percentile of the magnitudes as the cut-off. Real and complex data, eager and compiled forms follow the same rule.",
  quant="every vector up to length 3-4 and every threshold in the box, real and complex, several percentiles",
  why="the rule must hold for every entry on every branch and for complex phases; tests check fixed vectors",
  files=["src/cr/sparse/_src/geo/thresholding.py", OF + "shrinkage.py", "src/cr/sparse/_src/sls/defs.py"], mech=[("thresholds", "src/cr/sparse/_src/geo/thresholding.py")], note=STD),
]
SF = "src/cr/sparse/_src/sls/"
FF = "src/cr/sparse/_src/fom/"
PROPS += [
 dict(id="P14", title="ISTA and FISTA take their documented steps and stop by their tests",
  statement="Every ISTA iteration is a gradient step on the residual followed by the given threshold in the given basis; FISTA adds the documented momentum to it. The reported solution, residual and its energy, norms and iteration count belong to the last iterate, from any starting point. A run ends only at the iteration limit or when the residual or change tolerance holds, and with a valid step size the ISTA objective never increases.",
  quant="every measurement vector and starting point in the box for each listed rational matrix (1x1 to 3x4), real and complex, up to 3 iterations, several thresholds, bases and tolerances",
  why="each relation is about all measurement vectors on every thresholding and stopping path; tests recover one planted signal with slack",
  files=[SF + f for f in ("ista.py", "fista.py", "defs.py")], mech=[("ISTA", SF + "ista.py"), ("FISTA", SF + "fista.py")], note=STD),
 dict(id="P15", title="LSQR and power iterations report true solutions and norms",
  statement="Each LSQR step minimises the damped least squares objective over the directions explored so far, from any starting point; the reported residual norm, damped residual norm, gradient norm and solution norm are those of the returned vector, and n steps give the exact least squares solution. Power iterations return a unit vector and its Rayleigh value after the requested number of multiplications, and stop only when the change tolerance holds. Norm estimates never exceed the true norm.",
  quant="every right-hand side in the stated families for each listed rational matrix, damping and start, up to 3 steps; every matrix in one-parameter families for norm estimates",
  why="these are identities over all right-hand sides and matrices; tests solve a few fixed systems to a tolerance",
  files=[SF + "lsqr.py", SF + "power.py", LF + "normest.py"], mech=[("LSQR", SF + "lsqr.py"), ("power iterations", SF + "power.py")], note=STD),
 dict(id="P16", title="First order composite solver follows its accelerated proximal recurrence",
  statement="Every iteration of the first order solver (as used for l1-regularised, l1-constrained and ordered-weighted-l1 least squares) combines the previous points with the documented momentum weight, takes a proximal gradient step with the current Lipschitz estimate, and backtracks that estimate within its known bound. The reported value, gradient, image and norms belong to the returned point, which stays in the constraint set; an infeasible start is projected first, and the run ends only at the iteration limit or at the relative change tolerance. The smoothed dual of a proximal function has the value and gradient of its conjugate.",
  quant="every right-hand side and starting point in the stated families for each listed rational matrix (1x1 to 2x3), up to 3 iterations, several option sets",
  why="the recurrence must hold on every thresholding and stopping path; tests only check final convergence",
  files=[FF + f for f in ("fom.py", "lasso.py", "l1rls.py", "owl1rls.py", "scd.py", "defs.py")], mech=[("driver", FF + "fom.py")], note=STD),
]
CF = "src/cr/sparse/_src/cvx/"
PROPS += [
 dict(id="P17", title="YALL1 solvers take exact alternating direction steps and stop correctly",
  statement="Each iteration of the basis pursuit, l1-l2 and l2-constrained solvers performs the documented dual, box-projection (or one-sided projection for non-negative solutions) and multiplier updates with the caller's weights and step gamma. The reported residuals, objectives and operator counts belong to the returned iterate, and the loop ends only at the iteration limit or when the documented convergence tests hold. The wrapper solves data scaled by max|b| and returns, in the caller's units, the solution in signal space and its true residual, returning zero immediately exactly when zero is optimal or feasible.",
  quant="one-parameter families of data or starting points for each listed rational matrix (1x2 to 2x3), up to 6 iterations, weights, gamma, non-negativity, sparsifying basis",
  why="the updates must be right on every projection and stopping branch; the tests only run the solver without checking any result",
  files=[CF + "adm/yall1.py"], mech=[("ADM iterations", CF + "adm/yall1.py")], note=STD),
]
DF = "src/cr/sparse/_src/dict/"
BF = "src/cr/sparse/_src/cs/cs1bit/"
YF = "src/cr/sparse/_src/data/synthetic/"
KF = "src/cr/sparse/_src/cluster/"
PROPS += [
 dict(id="P18", title="Dictionaries are built and measured by their definitions",
  statement="Every sensing matrix and basis constructor returns the documented matrix for every outcome of its random draws: normalised columns when asked, the declared entry magnitudes, row counts and orthonormality. Gram and frame matrices, coherence, the Babel function, frame bounds, mutual coherence and the matching-atoms ratio equal their definitions for every real or complex dictionary. The operator forms of the dictionaries act like the matrices.",
  quant="every outcome of the random draws, every dictionary with symbolic entries at the listed shapes (up to 4x4), real and complex",
  why="definitions hold for every dictionary and every draw; tests look at one seed and mostly real data",
  files=[DF + "simple.py", DF + "props.py", DF + "comparison.py", LF + "random.py"], mech=[("constructors", DF + "simple.py"), ("properties", DF + "props.py")], note=STD),
 dict(id="P19", title="One-bit recovery takes its documented steps on sign measurements",
  statement="One-bit measurements are exactly the signs of the linear measurements. Each BIHT iteration moves by the caller's step along the back-projected sign mismatch and keeps the best K entries, and the result is the normalised iterate, stopping only at the iteration limit or when every sign matches. Each renormalised fixed point step descends the one-sided quadratic, shrinks by the current regularisation and renormalises.",
  quant="every signal, sign pattern and step in the stated families for each listed rational matrix (2x2 to 4x3), up to 3 iterations",
  why="a statement about all signals and sign patterns on every selection branch; tests recover one planted signal",
  files=[BF + f for f in ("util.py", "biht.py", "rfp.py", "state.py")], mech=[("BIHT", BF + "biht.py"), ("RFP", BF + "rfp.py")], note=STD),
 dict(id="P20", title="Synthetic data follow their model for every draw",
  statement="Every sparse signal generator returns signals with exactly the requested number of non-zero entries, on the reported support, with the documented amplitudes, for every outcome of the random draws; block signals have the requested blocks. Random subspaces have orthonormal bases, points drawn on subspaces lie in them and are grouped as reported, and subspaces at an angle have exactly the requested principal angles.",
  quant="every outcome of the draws (symbolic gaussians, uniforms and permutations) at the listed sizes",
  why="the model must hold for every draw, including ones no fixed seed produces; tests use one or two keys",
  files=[YF + "random.py", YF + "subspaces.py"], mech=[("sparse signals", YF + "random.py"), ("subspaces", YF + "subspaces.py")], note=STD),
 dict(id="P21", title="K-means and graph Laplacians follow their definitions",
  statement="K-means assigns every point to a nearest centroid, places every centroid at the mean of its points, never increases the distortion, and reports the distortion, sizes and iteration count of the returned clustering; from several random starts it returns the best one. Every graph Laplacian of a symmetric affinity matrix equals its definition.",
  quant="all points in one-parameter families and free coordinates (up to 4 points, 1-3 dimensions), every initial choice, every affinity matrix up to size 4",
  why="nearest-centroid and descent claims hold for all point sets and starts; tests cluster well separated blobs",
  files=[KF + "kmeans.py", KF + "spectral.py"], mech=[("k-means", KF + "kmeans.py"), ("Laplacians", KF + "spectral.py")], note=STD),
 dict(id="P22", title="Subspace clustering utilities and clustering error are exact",
  statement="The best map between predicted and true labels maximises the number of matches over all one-to-one label maps and the clustering error counts the remaining mismatches, also when the numbers of labels differ. Sparse self-representations by OMP never use a point to represent itself, select best atoms and fit them by least squares; their sparse, dense and affinity forms agree, and the subspace preservation statistics equal their definitions.",
  quant="every label vector up to length 4 with up to 3 labels, every coefficient matrix in the box, points in one-parameter families for the OMP step",
  why="optimality over all label maps and all label vectors; tests check one permutation",
  files=[KF + "util.py", KF + "ssc/util.py", KF + "ssc/omp.py"], mech=[("labels", KF + "util.py"), ("self representation", KF + "ssc/omp.py")], note=STD),
 dict(id="P23", title="SPGL1 projects exactly and takes spectral projected gradient steps",
  statement="The l1-ball projection returns the nearest point of the ball. Every LASSO iterate stays in the ball, and each iteration projects the spectral gradient step, backtracks until the objective decreases, and reports the residual, gradient, objective, duality gap and operator counts of the returned point; the basis pursuit denoising solver also updates the bound by Newton's rule on the residual. The runs stop only at the iteration limit or when the documented tests hold.",
  quant="every input of the projection up to size 3; one-parameter families of data or starts for each listed rational matrix (1x1 to 2x3), up to 3 iterations",
  why="the steps must be right on every projection, line search and stopping branch; tests check convergence on random problems only",
  files=[CF + "spgl1.py"], mech=[("SPGL1", CF + "spgl1.py")], note=STD),
]
