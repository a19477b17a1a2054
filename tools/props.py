prop("C01", "Scaler location and scale estimates equal their documented definitions",
     "For every data matrix and every combination of the documented centre and scale options, the fitted scaler stores, column by column, exactly the estimate the option names: mean, median, trimmed mean, population standard deviation, its trimmed version, MAD divided by 0.6745, univariate tau scale, or 0/1 for no centring/scaling. Missing entries are left out for mean, median, standard deviation and MAD. The estimates do not depend on the container or memory layout holding the data.",
     ["inputs", "configurations"],
     "all n x p matrices (ties, constant columns, more columns than rows, outliers, missing values) x all centre/scale/trimming options x containers",
     "The existing tests never look at an estimate; the definitions must hold for ties, even/odd n, missing values and zero scales, an infinite input space.",
     [S+"preprocessing/_preproc_utilities.py", S+"preprocessing/robcent.py", S+"utils/utils.py"],
     [("column estimators", S+"preprocessing/_preproc_utilities.py: mean, median, std, mad, scaleTau2"),
      ("scaler fit", S+"preprocessing/robcent.py: VersatileScaler.fit")],
     "Design laws (affine equivariance, exchangeability, standardisation) model-checked exhaustively on small integer data; recorded estimates of the real scaler recomputed exactly by TLC")
prop("C02", "Scaling applies the stored estimates row by row and is invertible",
     "After any history of fitting, re-fitting, scaling and parameter changes, scaling any data (training or new, one case or many) returns (x - centre)/scale per entry with the estimates stored by the last fit, a zero scale counting as one. Undoing the scaling applies the inverse map, so the round trip returns the original data. Scaling never alters the stored estimates or the caller's data.",
     ["inputs", "histories"],
     "all call histories over fit, fit_transform, transform, predict, inverse_transform, set_params and all data",
     "No test covers inverse scaling, new data, single cases or zero scales, and the property quantifies over call histories.",
     [S+"preprocessing/robcent.py", S+"preprocessing/_preproc_utilities.py", S+"utils/utils.py"],
     [("affine map", S+"preprocessing/_preproc_utilities.py: scale_data"),
      ("object methods", S+"preprocessing/robcent.py: VersatileScaler.transform/predict/inverse_transform")],
     "Every call history of length 3 (quick) / 4 (thorough) generated by TLC is replayed; the trace specification carries the stored estimates as state")
prop("C03", "Robust multivariate centres are what their definitions say",
     "For every data matrix the spatial median minimises the sum of Euclidean distances, and the k-step least-trimmed-squares centre starts there and moves, once per step up to the maximum number of steps, to the mean of the half of the cases closest to the current centre (missing entries left out). Both are equivariant under translation and re-ordering of cases and do not break down under a minority of arbitrarily bad cases. A user-supplied starting point never changes what is being estimated, nor is the data modified.",
     ["inputs", "configurations"], "all n x p matrices incl. outliers, ties, collinear cases, one column; all starting points and options",
     "Optimality of a centre is a statement about every rival point; tests do not look at centres at all.",
     [S+"preprocessing/_preproc_utilities.py", S+"preprocessing/robcent.py"],
     [("spatial median", S+"preprocessing/_preproc_utilities.py: l1median"), ("k-step LTS", S+"preprocessing/_preproc_utilities.py: kstepLTS"),
      ("scaler fit", S+"preprocessing/robcent.py: VersatileScaler.fit")],
     "Concentration steps and breakdown model-checked on small integer data; the real centres certified by exact optimality conditions and rival points evaluated by TLC")
prop("C04", "Generalised spatial sign pre-processing shrinks cases by their radius only",
     "For every data matrix, every radial function and every centre, each transformed case is the centred case multiplied by the radial function's weight at its distance from the centre, with cut-offs computed from the documented robust location and spread of the distances. Directions of cases are preserved, cases at the centre stay there, and hard-rejecting functions remove exactly the cases beyond the cut-off. The derived covariance matrix is the documented cross-product of the transformed cases, symmetric and positive semi-definite.",
     ["inputs", "configurations"], "all data x {spatial sign, quadratic, winsor, ball, shell, linear redescending} x centres x containers",
     "The tests check one pinned value for one radial function; the definition quantifies over all data and all functions.",
     [S+"preprocessing/gsspp.py", S+"preprocessing/_gsspp_utils.py"],
     [("radial functions", S+"preprocessing/_gsspp_utils.py"), ("pre-processor", S+"preprocessing/gsspp.py: GenSpatialSignPreProcessor, gen_ss_pp, gen_ss_covmat")],
     "Radial-function laws model-checked on every small distance vector; transformed cases recomputed exactly by TLC")
prop("C05", "Wrapping keeps the core, bounds outliers and removes gross ones",
     "For every column, standardising with the stored median and MAD and wrapping leaves entries within 1.5 scale units unchanged, maps entries between 1.5 and 4 units with the documented odd hyperbolic tangent function, and moves entries beyond 4 units to the column location. New data are wrapped about the location and scale of the last fit, whatever calls came in between, and a column of zero scale is wrapped with unit scale. The caller's data are not modified.",
     ["inputs", "configurations"], "all data (ties, zero scale, missing values, outliers at every distance, breakpoints) x call histories",
     "Wrapping is a piecewise function whose branches tests never enumerate.",
     [S+"preprocessing/_preproc_utilities.py"],
     [("wrapping", S+"preprocessing/_preproc_utilities.py: wrap")],
     "Wrapping function laws model-checked over a grid crossing all breakpoints; TLC-generated column patterns replayed and recomputed exactly")
prop("C06", "Case weights and the robust validation loss follow their weight functions",
     "For every vector of non-negative scaled distances, the Huber, Hampel and Fair weights and the broken-stick proportions are the documented functions: in [0,1], one in the core, never increasing with distance, and computed without modifying the caller's array. The robust cross-validation loss is the chosen loss with cases weighted by the chosen weight function of the absolute residual. The cross-validation score table lists every parameter combination with its own score.",
     ["inputs", "configurations"], "all distance vectors, all cut-offs and probabilities, all residual vectors and signs",
     "Weight functions are piecewise with five regimes and data-dependent cut-offs; tests only see their effect on one data set.",
     [S+"cross_validation/_cv_support_functions.py", S+"sprm/_m_support_functions.py"],
     [("weights", S+"sprm/_m_support_functions.py: Huber, Hampel, Fair, brokenstick"), ("loss", S+"cross_validation/_cv_support_functions.py: robust_loss, cv_score_table")],
     "Weight function laws model-checked over a grid of distances and cut-offs; every recorded weight recomputed by TLC")
prop("C07", "Robust M regression is the documented iteratively reweighted least squares",
     "For every regression data set and option set, each iteration of the robust M regression combines leverage and residual weights from the chosen weight function, solves the weighted least squares problem, and stops exactly when the coefficient change falls below the tolerance or the maximum number of iterations is reached. Reported coefficients, intercept, fitted values, residuals, scale and weights belong to one and the same final state on the original scale of the data. Predictions equal data times coefficients plus intercept for new data in any container, and outliers of either sign are treated alike.",
     ["inputs", "histories"], "all data, weight functions, cut-offs, centre/scale options, numbers of iterations and new data",
     "The iteration is a state machine: intermediate states are never observed by tests, only one pinned final figure.",
     [S+"sprm/rm.py", S+"sprm/_m_support_functions.py", S+"utils/utils.py"],
     [("iteration", S+"sprm/rm.py: rm.fit"), ("prediction", S+"sprm/rm.py: rm.predict"), ("weights", S+"sprm/rm.py: rm.fit; "+S+"sprm/_m_support_functions.py")],
     "The reweighting iteration is the specification's transition relation; equivariance and weight bounds model-checked; every iteration of the real run (observed by bounding maxit) is checked to be a step of the specification")
prop("C08", "Sparse partial robust M regression follows its reweighting iteration",
     "For every data set and option set, starting weights come from robust distances in the predictors' principal subspace and from the response, and each further state comes from a sparse NIPALS fit on the weighted data with score and residual weights recomputed by the chosen weight function. Scores, weights, loadings, coefficients (scaled and raw), intercept, fitted values, residuals and case weights reported at the end belong together and reproduce one another. Predictions, projections and weights for new data are the same functions of the data that were applied to the training data.",
     ["inputs", "histories"], "all data with vertical outliers and leverage points, all weight functions, sparsity values, numbers of components and iterations",
     "The tests pin one coefficient sum on one data set; the step relation and the consistency of the outputs range over all data and iteration counts.",
     [S+"sprm/sprm.py", S+"sprm/snipls.py", S+"sprm/_m_support_functions.py"],
     [("iteration", S+"sprm/sprm.py: sprm.fit"), ("new data", S+"sprm/sprm.py: predict, transform, weightnewx, valscore"), ("inner fit", S+"sprm/snipls.py: snipls.fit")],
     "Iteration specified as a state machine over exact rationals; recorded runs with increasing iteration bounds checked step by step")
prop("C09", "Sparse NIPALS extracts sparse orthogonal-score components that fit the data",
     "For every data set, number of components and sparsity value, each weight vector is the soft-thresholded, normalised covariance of the deflated predictors with the response, so weights of variables below the threshold are exactly zero. Scores are mutually orthogonal, coefficients on the original scale reproduce fitted values and residuals on the training data, and only retained variables have non-zero coefficients. Prediction and transformation of new data apply the same centring, scaling and coefficients.",
     ["inputs", "configurations"], "all n x p data incl. p > n, all numbers of components, sparsity values, centre and scale options",
     "Algebraic identities over all data and all thresholds; the tests never fit the component on its own.",
     [S+"sprm/snipls.py"], [("component extraction", S+"sprm/snipls.py: snipls.fit"), ("new data", S+"sprm/snipls.py: predict, transform")],
     "NIPALS recursion specified; orthogonality, sparsity and projection invariants model-checked on all small integer data; recorded fits recomputed exactly")
prop("C11", "Classical moment statistics equal their definitions for all options",
     "For every pair of data vectors and every mode, order, centre, trimming, bias-correction and option setting, the product-moment statistic equals its textbook definition: (co-)moments, variance, standard deviation, skewness, kurtosis, co-skewness, co-kurtosis, third-order combinations, correlation and continuum association. Pairs agree with the univariate statistic when both arguments coincide, standardised statistics do not depend on location and scale, and unsuitable combinations are rejected. Evaluating a statistic changes neither its arguments nor the estimator's parameters, and repeated use of one object is equivalent to fresh objects.",
     ["inputs", "configurations", "histories"], "all data vectors, modes, orders 1 to 4, options, and call sequences on one object",
     "About two hundred option combinations over a continuum of data; tests evaluate a handful on one data set.",
     [S+"dicomo/dicomo.py", S+"dicomo/_dicomo_utils.py"],
     [("statistics", S+"dicomo/_dicomo_utils.py"), ("estimator", S+"dicomo/dicomo.py: dicomo.fit")],
     "Statistics specified from their definitions; symmetry, bilinearity, invariance and Cauchy-Schwarz laws model-checked on all small integer data; every recorded value recomputed exactly by TLC")
prop("C12", "Energy statistics equal their definitions, by fast and naive algorithms",
     "For every data set of any dimension, distance (co-)moments, distance correlation, distance continuum association, martingale difference divergence and the martingale difference divergence matrix equal their definitions in terms of doubly centred distance matrices, biased or bias-corrected. The fast algorithm returns the same value as the naive one wherever it is used. Evaluating them changes neither the arguments nor the estimator's parameters.",
     ["inputs", "configurations", "histories"], "all univariate and multivariate data (ties included), modes, orders, bias correction, algorithm choice and call sequences",
     "Equality of an O(n log n) algorithm and its definition over all data with ties cannot be sampled by two pinned values.",
     [S+"dicomo/dicomo.py", S+"dicomo/_dicomo_utils.py"],
     [("energy statistics", S+"dicomo/_dicomo_utils.py: distance_moment, difference_divergence, MDDM"), ("estimator", S+"dicomo/dicomo.py: dicomo.fit")],
     "Definitions specified with exact distance matrices; symmetry, scaling, Cauchy-Schwarz and null laws model-checked; fast, naive and matrix versions recomputed by TLC")
prop("C13", "Co-moment analysis index is the weighted sum of the co-moments selected",
     "For every pair of data vectors, maximum degree, weight vector, selection of co-moments, scaling flag and co-moment settings, the co-moment analysis index equals the weighted sum of the selected co-moments of degree two to the maximum degree, each with its own weight, scaled to comparable units when asked. Its value depends only on the data and on the parameters as they are at the moment of the call, whatever was fitted or set before. Unsupported degrees are rejected and neither data nor parameters are changed.",
     ["inputs", "configurations", "histories"], "all data vectors, degrees, weights, option lists, projection index settings and histories of fits and parameter changes",
     "No test touches this index; the slot each co-moment occupies depends on the history of parameters and on list-valued options.",
     [S+"ppdire/capi.py", S+"dicomo/dicomo.py"],
     [("index", S+"ppdire/capi.py: capi.fit"), ("co-moments", S+"dicomo/dicomo.py: dicomo.fit")],
     "Slots and invariances of the index model-checked on all small integer data; every parameter history of length 3 (quick) / 4 (thorough) generated by TLC and replayed, every index recomputed exactly")
prop("C14", "Projection pursuit components decompose the data along optimal directions",
     "For every data set, projection index and option set, each component is the projection of the deflated data on a unit direction, scores are mutually orthogonal, rotations map the scaled data to the scores, and the reported index values are those of the scores, with directions that attain the optimum where the optimiser searches it exhaustively. In the regression mode coefficients, intercept, fitted values and residuals follow from the scores by the chosen inner regression and reproduce each other on the original scale. Predictions and scores of new data apply the same centring, scaling and rotations; the caller's data and the parameters are unchanged.",
     ["inputs", "configurations"], "all data incl. more variables than cases, all projection indices, inner regressions, centre/scale options, containers, both optimisers",
     "Decomposition identities and optimality over every rival direction range over a continuum of data; tests compare two settings with one reference vector.",
     [S+"ppdire/ppdire.py", S+"ppdire/_ppdire_utils.py", S+"dicomo/dicomo.py"],
     [("extraction loop", S+"ppdire/ppdire.py: ppdire.fit"), ("grid plane search", S+"ppdire/_ppdire_utils.py: gridplane, gridplane_2"), ("new data", S+"ppdire/ppdire.py: predict, transform")],
     "Decomposition laws model-checked for every sequence of directions on small integer data; recorded fits recomputed exactly by TLC, optimality certified by inertia and by exhaustive evaluation of the rival directions")
prop("C15", "Spectral sufficient dimension reduction returns the leading directions",
     "For every data set, response (continuous with ties or discrete), number of slices, dimension and centre/scale option, the basis returned by sliced inverse regression, sliced average variance estimation, directional regression, principal Hessian directions and iterative Hessian transformation consists of the leading eigenvectors of the method's kernel matrix in the metric of the predictors' covariance. Scores, projection matrix, predictions and scores of new data follow from that basis and the least squares fit on the scores, independently of the container. The bootstrap estimate of the dimension resamples cases, averages the distances between projections of that dimension and returns the least variable dimension.",
     ["inputs", "configurations"], "all data, responses with ties or classes, slices, dimensions, centre/scale options, containers, new data",
     "Being the leading eigenvectors is a statement about all rival directions; the tests pin one norm per method on one data set.",
     [S+"sudire/sudire.py", S+"sudire/_sudire_utils.py"],
     [("kernels", S+"sudire/_sudire_utils.py: SIR, SAVE, DR, PHD, IHT, discretize"), ("estimator", S+"sudire/sudire.py: sudire.fit/transform/predict"),
      ("dimension", S+"sudire/sudire.py: estimate_structural_dim")],
     "Slicing laws, positivity and affine equivariance of the kernels model-checked on all small data; every recorded basis certified exactly (eigen-equation, normalisation, Sylvester inertia for 'leading')")
prop("C16", "Optimisation-based dimension reduction poses and uses the right problem",
     "For every data set, response, dimension, centre/scale option, distance metric and solver setting, dimension reduction by optimisation hands the solver the negative distance covariance (then martingale difference divergence or the user's function) of the response with the projected, prepared predictors of the present fit, its derivative, orthonormality constraints in the right metric, the user's or the best slicing start and the user's options. The basis is the solver's answer put back on the scale of the data; scores, projection and predictions follow from it. Neither parameters, options nor data are changed, so a history of fits and parameter changes never leaks into a later fit.",
     ["inputs", "configurations", "histories"], "all data, histories of parameter changes and re-fits, sequences of questions a solver may ask, answers it may give",
     "The solver is absent from the test environment and its questions and answers form an unbounded set of interactions; tests skip these methods.",
     [S+"sudire/sudire.py", S+"sudire/_sudire_utils.py", S+"ipopt_temp/ipopt_wrapper.py", S+"ipopt_temp/jacobian.py", S+"utils/utils.py"],
     [("objectives", S+"sudire/_sudire_utils.py: dcov_trim, mdd_trim"), ("constraints", S+"utils/utils.py: const_xscale, const_zscale"),
      ("solver interface", S+"ipopt_temp/ipopt_wrapper.py: minimize_ipopt, IpoptProblemWrapper"), ("estimator", S+"sudire/sudire.py: sudire.fit")],
     "Two-stage fit/re-fit protocol model-checked; its histories and solver scripts generated by TLC and replayed with a scripted solver in place of cyipopt; every objective, derivative, constraint, start, option and result recomputed exactly by TLC")
prop("C10", "Estimators depend on their parameters and the data of the last fit only",
     "For every history of fitting, parameter changes, cloning, pickling and use of estimator objects side by side, a fitted estimator equals a fresh one with the same parameters fitted to the same data, whatever container held the data, and its predictions and scores belong to that fit until the next one. No operation changes the caller's data, the parameters of any object or another object. New data with another number of variables and use before fitting are rejected by the regression and reduction models, and scikit-learn pipelines, cross-validation and grid search give what composing the steps by hand gives.",
     ["histories", "inputs", "configurations"], "all histories of two objects of every estimator class, parameter switches, data sets and containers",
     "A leak between fits shows only in particular histories (re-fit after a parameter change, two objects sharing a default); tests fit every object once.",
     [S+"preprocessing/robcent.py", S+"preprocessing/gsspp.py", S+"dicomo/dicomo.py", S+"ppdire/capi.py", S+"ppdire/ppdire.py", S+"sprm/sprm.py", S+"sprm/snipls.py", S+"sprm/rm.py", S+"sudire/sudire.py", S+"utils/utils.py"],
     [("estimators", S+"*/: fit, predict, transform, get_params, set_params"), ("input conversion", S+"utils/utils.py: _check_input, _predict_check_input, convert_X_input, convert_y_input")],
     "State machine of two estimator objects model-checked (attributes always belong to the last fit, operations are local); every history of length 3 and 4 generated by TLC, a seeded sample replayed for each of eleven estimator set-ups and validated step by step against the state machine")
prop("C17", "Plots show every case where the model puts it, in its group, with its name",
     "For every fitted model and every request, parity and projection plots show each training case and each new case asked for exactly once, at its response and prediction or at its scores, in the marker and colour of its set and, for sparse partial robust M regression, of its case weight group (regular, moderate, harsh). Every case name given stands at its own case; bar charts show the weight of each case or the coefficient of each variable under its own name, and truncated charts keep exactly the extreme coefficients. Requests that cannot be met are rejected, and plotting changes neither model nor data.",
     ["inputs", "configurations"], "all fitted models and data, all requests (kind, training/new cases, names, labels, components, weights mode, truncation)",
     "No test looks at what a plot contains; each request combines options, and mislabelling shows only for particular cases.",
     [S+"plot/sprm_plot.py", S+"plot/ppdire_plot.py", S+"plot/sudire_plot.py", S+"cross_validation/_cv_support_functions.py"],
     [("plots", S+"plot/*_plot.py: plot_yyp, plot_projections, plot_caseweights, plot_coeffs, eta_ncomp_contour")],
     "Grouping and truncation laws model-checked on all small weight and coefficient vectors; every request the specification allows is generated by TLC, made of real models, and the artists on the axes are validated against the specification")
prop("C18", "Requests outside the documented domain are refused and leave the model alone",
     "For every estimator, scaler, statistic and plot, a request outside its documented domain (number of components, sparsity and trimming fractions, cut-off probabilities, weight function, centre, scale, method and mode names, lengths of predictor and response, unknown parameter names, new data with another number of variables, use before fitting) is refused with an exception, whether the option came by construction or by set_params, and every request inside it, its edges included, is met. A refused request leaves no trace: a fitted model goes on answering exactly as before, with unchanged parameters.",
     ["histories", "inputs", "configurations"], "all histories of accepted and refused requests and uses of every class, all documented option ranges and their edges, all mismatches of data",
     "Tests make valid requests only; a silently accepted invalid option or a half-overwritten model shows only in particular histories.",
     [S+"sprm/sprm.py", S+"sprm/snipls.py", S+"sprm/rm.py", S+"dicomo/dicomo.py", S+"ppdire/ppdire.py", S+"ppdire/capi.py", S+"sudire/sudire.py", S+"preprocessing/robcent.py", S+"preprocessing/_preproc_utilities.py", S+"utils/utils.py", S+"plot/sprm_plot.py"],
     [("checks", S+"*/: the checks at the start of __init__, fit, predict and transform"), ("column check", S+"utils/utils.py: _check_fitted_input")],
     "Staged request protocol model-checked to refine the one-step domain predicate (accepts exactly the domain, refusals are atomic); every option value and edge, and TLC-generated histories of accepted and refused requests, replayed for ten classes and judged by the domain predicate of the specification")
