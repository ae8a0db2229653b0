"""Writes /verif/properties.jsonl (one source for titles, statements, anchors)."""
import json
import os

P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                    "mechanism": [dict(name=a, where=b) for a, b in mech],
                    "observe_at": observe, "hook_needed": hook}})


UD = "estimation/unidimensional/dichotomous/"
UP = "estimation/unidimensional/polytomous/"
MD = "estimation/multidimensional/"
UT = "estimation/utilities/"

prop("C01", "EAP abilities are the posterior means of the stated model",
     "For every response matrix, item parameters and options, an expected-a-posteriori ability (dichotomous, 3PL, multidimensional graded) equals the mean of the posterior built from the documented response probabilities, the prior density in the options and Gauss-Legendre quadrature over the bounds in the options. Missing responses contribute nothing to it and a scalar discrimination means that value for every item. A respondent's value depends only on that respondent's own responses, not on who else is in the batch or on their number or order.",
     ["inputs", "configurations"], "all response matrices (including missing entries and single respondents) of likelihoods representable in double precision, item parameters, priors, bounds and node counts",
     "The tests compare summary RMSE values of a few fixed data sets; they never recompute a posterior, never use asymmetric bounds or other node counts, and never score one respondent alone.",
     [UD + "ability_estimation.py", UD + "ability_threepl.py", UD + "partial_integrals.py", UP + "ability_estimation_poly.py", MD + "multidimensional_ability_methods.py", MD + "partial_integral_md.py"],
     [("_ability_eap_abstract", UP + "ability_estimation_poly.py"), ("_compute_partial_integral", UD + "partial_integrals.py")],
     ["girth.ability_eap", "girth.ability_3pl_eap", "girth.multidimensional_ability_eap"])

prop("C02", "MAP and MLE abilities maximise the posterior; flat patterns are flagged",
     "For every response matrix, item parameters and prior, a MAP ability attains the highest posterior density on the search interval (-6 to 6 per person; -4 to 4 per dimension for multidimensional models; for the 3PL, whose density can have several peaks, a local maximum), and an MLE ability does the same for the likelihood alone. A respondent whose observed responses are all equal gets, from the MLE, the caller's no_estimate value: positive when all are endorsed, negated when none is, NaN by default; this is decided from the observed responses only, whether or not others are missing, and a respondent with no observed response at all gets no estimate either (no_estimate up to its sign). Every respondent is scored independently of the others.",
     ["inputs", "configurations"], "all response matrices with and without missing entries, item parameters, priors and no_estimate values",
     "The tests check RMSE against generating abilities on four fixed data sets and one list of ten values; no_estimate and constant-with-missing patterns are not exercised.",
     [UD + "ability_estimation.py", UD + "ability_threepl.py", MD + "multidimensional_ability_methods.py", UT + "utils.py"],
     [("ability_map", UD + "ability_estimation.py"), ("ability_mle", UD + "ability_estimation.py")],
     ["girth.ability_map", "girth.ability_mle", "girth.ability_3pl_map", "girth.ability_3pl_mle", "girth.multidimensional_ability_map"])

prop("C03", "A missing response is the same as an item never administered",
     "A response tagged as missing never influences a result: a respondent's ability with some responses missing equals the ability computed from the remaining items alone, and adding a respondent with no valid response leaves every item parameter estimated by the marginal and joint maximum likelihood methods unchanged. What was in the cell before it was tagged is irrelevant, and descriptive statistics and pairwise correlations are computed from the valid cells only.",
     ["inputs"], "all data sets and missing patterns, for every estimator that accepts tagged data",
     "The tests compare the RMSE between complete-data and missing-data estimates with pinned numbers on one random mask per method; they cannot tell a respected mask from a slightly wrong one.",
     [UD + "partial_integrals.py", UP + "partial_integrals_poly.py", MD + "partial_integral_md.py", UT + "utils.py", UT + "polytomous_utils.py", UT + "ctt_statistics.py", "common/cronbach_alpha.py", "common/polychoric.py"],
     [("invalid_response_mask", UP + "partial_integrals_poly.py"), ("tag_missing_data", UT + "utils.py")],
     ["girth.* estimators and ability functions", "girth.classical_test_statistics", "girth.common.polychoric_correlation"],
     state=[("INVALID_RESPONSE", "the missing tag", UT + "utils.py")])

prop("C04", "Reported abilities and fit statistics match the returned parameters",
     "Whatever data and options a marginal maximum likelihood fit was run on, the Ability, AIC, BIC and log-likelihood values it returns are those of the item parameters and latent distribution it returns on that data: abilities are the posterior means, final and null AIC and BIC follow from the marginal log-likelihood under the estimated and the default latent distribution, and each delta is null minus final. Without latent distribution estimation the final and null values coincide.",
     ["inputs", "configurations"], "all data sets (missing, unequal category counts, duplicated rows) and option dictionaries, for the 2PL, GRM, PCM, GUM and multidimensional fits",
     "No test looks at Ability, AIC, BIC or LL of a fit at all, and none can cover the combinations of options that feed them.",
     [UP + "grm_mml.py", UP + "grm_mml_eap.py", UP + "pcm_mml.py", UP + "gum_mml.py", UD + "twopl_mml.py", UD + "twopl_mml_eap.py", MD + "multidimensional_mml_methods.py", UT + "latent_ability_distribution.py"],
     [("LatentPDF.compute_metrics", UT + "latent_ability_distribution.py")],
     ["result dictionaries of girth.*_mml and girth.*_mml_eap"])

prop("C05", "Marginal ML difficulties reproduce the observed proportions",
     "For every data set and option setting, the difficulties returned by the Rasch, 1PL, 2PL, 3PL and graded response marginal maximum likelihood methods (including the mixed EAP versions and the multidimensional models) make the model-implied marginal probability of scoring at or above each category, integrated over the latent distribution in force, equal to the proportion observed among valid responses, except where the difficulty is at the edge of the search interval. This holds with and without the look-up table, and an item everyone (no one) endorses is placed at the easy (hard) end.",
     ["inputs", "configurations"], "all data sets (missing values, unequal category counts, extreme and constant items), priors, bounds, node counts and look-up table settings",
     "The tests pin estimates for a handful of data sets within 1e-3 and never use extreme proportions, constant items or a non-default latent distribution.",
     [UD + "rasch_mml.py", UD + "threepl_mml.py", UP + "grm_mml.py", UP + "grm_mml_eap.py", MD + "multidimensional_mml_methods.py", UT + "polytomous_utils.py", UT + "look_up_table.py", UT + "utils.py"],
     [("_solve_for_constants", UT + "polytomous_utils.py"), ("_solve_integral_equations", UT + "polytomous_utils.py"), ("_mml_abstract", UD + "rasch_mml.py")],
     ["girth.rasch_mml", "girth.onepl_mml", "girth.twopl_mml", "girth.grm_mml", "girth.twopl_mml_eap", "girth.grm_mml_eap", "girth.threepl_mml", "girth.multidimensional_grm_mml"])

prop("C06", "Marginal ML estimates maximise the marginal likelihood",
     "For every data set on which the iteration converges, no change of a single item's discrimination within its bounds (with difficulties following the method's own rule), and for the partial credit and unfolding models no change of any one parameter of an item, raises the marginal likelihood noticeably above that of the returned estimates. Allowing more iterations never lowers that likelihood noticeably, and the estimates fit at least as well as the parameters that generated the data.",
     ["inputs", "configurations"], "all data sets and option settings for the 1PL, 2PL, GRM, PCM, GUM and 3PL marginal methods",
     "The tests compare estimates with pinned numbers; a subtly wrong objective that still lands near those numbers passes, and no test evaluates a likelihood.",
     [UD + "rasch_mml.py", UD + "threepl_mml.py", UP + "grm_mml.py", UP + "pcm_mml.py", UP + "gum_mml.py", UP + "partial_integrals_poly.py"],
     [("_local_min_func", UP + "grm_mml.py"), ("partial_int bookkeeping across items", UP + "pcm_mml.py")],
     ["girth.onepl_mml", "girth.twopl_mml", "girth.grm_mml", "girth.pcm_mml", "girth.gum_mml", "girth.threepl_mml"])

prop("C07", "Estimates are always well formed",
     "On every valid data set each estimator returns finite parameters of the documented shape: one discrimination per item inside the method's bounds, difficulties inside the search interval with exactly one column per threshold of the item with most categories, trailing NaN exactly for the thresholds an item does not have, and graded thresholds in ascending order (descending for multidimensional intercepts). Items that everyone or no one endorses are estimated at the easy or hard extreme, never at the opposite end, and the unfolding model's designated item has the requested sign.",
     ["inputs", "configurations"], "all estimators on data with few or many items, unequal category counts, missing cells, unused categories and constant items",
     "The tests use well-behaved data; unequal category counts are tested once for the PCM and constant items never.",
     [UP + "grm_mml.py", UP + "grm_mml_eap.py", UP + "grm_jml.py", UP + "pcm_mml.py", UP + "pcm_jml.py", UP + "gum_mml.py", UD + "jml_methods.py", UT + "polytomous_utils.py"],
     [("condition_polytomous_response", UT + "polytomous_utils.py")],
     ["return values of every estimator"])

prop("C08", "Conditional Rasch estimates solve the conditional likelihood equations",
     "For every dichotomous data set without constant items (relative to respondents who are neither all right nor all wrong), the conditional Rasch difficulties sum to zero and satisfy the conditional score equations: given the raw scores, the expected number of endorsements of each item equals the observed number. A discrimination constant only divides the difficulties, and repeated, reordered or all-right/all-wrong respondents do not change the estimates.",
     ["inputs"], "all dichotomous data sets, constants and respondent orders",
     "Two regression tests compare with pinned or generating values; the score equations are never evaluated.",
     [UD + "rasch_conditional.py", UT + "utils.py"],
     [("_symmetric_functions", UD + "rasch_conditional.py"), ("trim_response_set_and_counts", UT + "utils.py")],
     ["girth.rasch_conditional"])

prop("C09", "Joint ML estimates are a fixed point of the joint likelihood",
     "For every data set on which the iteration converges, the item parameters of the Rasch, 1PL, 2PL, graded and partial credit joint maximum likelihood methods are (within the convergence tolerance) a fixed point of: estimate each distinct non-constant respondent's ability by maximum likelihood given the items, standardise the abilities to mean zero and unit variance, then maximise the likelihood over each item's parameters given the abilities. Missing responses contribute to neither step and respondents with constant response patterns are left out. Converged or not, one more iteration is one such step.",
     ["inputs"], "all data sets with and without missing values and category layouts for the five joint methods",
     "The tests pin a few numbers or compare errors of small and large samples; neither step's optimality is examined.",
     [UD + "jml_methods.py", UP + "grm_jml.py", UP + "pcm_jml.py", UT + "utils.py"],
     [("_jml_abstract", UD + "jml_methods.py")],
     ["girth.rasch_jml", "girth.onepl_jml", "girth.twopl_jml", "girth.grm_jml", "girth.pcm_jml"])

prop("C10", "Reversing the response scale mirrors the estimates",
     "When the fit has converged, reversing every response (0 and 1 swapped, or category order reversed) under a prior symmetric about zero negates all difficulties and abilities, reverses the order of an item's thresholds and leaves discriminations, AIC and BIC unchanged, for every dichotomous model without guessing, the graded (also with several dimensions) and the partial credit model, by marginal, joint and conditional likelihood. The same holds for ability estimation with negated difficulties, for polychoric correlations when both variables are reversed (unchanged) or one is (negated), and for polyserial correlations.",
     ["inputs"], "all data sets and parameter sets for all methods with a mirror symmetry",
     "No test relates two runs on mirrored data; single-run regression numbers cannot show an asymmetry between endorsed and not endorsed responses.",
     [UD + "jml_methods.py", UD + "rasch_mml.py", UP + "grm_mml.py", UP + "pcm_mml.py", "common/polychoric.py", "common/polyserial.py"],
     [("convert_responses_to_kernel_sign", UT + "utils.py"), ("_graded_partial_integral", UP + "partial_integrals_poly.py")],
     ["return values on original and mirrored data"])

prop("C11", "Order, coding, storage type and replication of the data do not matter",
     "Permuting respondents permutes abilities and changes nothing else; permuting items permutes item results; order-preserving relabelling of the response categories, and storing the same responses as any integer type wide enough for them, as True/False where responses are dichotomous, or as a non-contiguous or Fortran-ordered array, changes nothing. Repeating every respondent the same number of times leaves the marginal and conditional estimates (other than those of the mixed EAP methods, which put a prior on discrimination) and the abilities unchanged.",
     ["inputs", "configurations"], "all data sets, permutations, category codings, integer/bool storage types, memory layouts and replication factors",
     "Every test feeds one C-ordered int64 array in one order.",
     [UT + "polytomous_utils.py", UD + "rasch_mml.py", UD + "ability_estimation.py", UP + "grm_mml.py", UP + "pcm_mml.py", UD + "jml_methods.py", UT + "utils.py"],
     [("condition_polytomous_response", UT + "polytomous_utils.py"), ("np.unique response sets with counts", UD + "rasch_mml.py")],
     ["return values on transformed data"])

prop("C12", "Estimators recover the parameters that generated the data",
     "On data generated from a model with a sufficiently large sample, every estimator of that model returns item parameters within sampling error of the generating values (up to the documented identification: sum zero for the conditional method, sign for the unfolding model, rotation for multidimensional models), and the ability estimates correlate strongly and without sign reversal with the generating abilities.",
     ["inputs"], "all models and generating parameter sets in the usual range",
     "The tests do this for a few fixed seeds and models with one parameter layout.",
     [UD + "rasch_mml.py", UD + "twopl_mml.py", UP + "grm_mml.py", UP + "pcm_mml.py", UP + "gum_mml.py", UD + "rasch_conditional.py", UD + "jml_methods.py", UD + "threepl_mml.py", MD + "multidimensional_mml_methods.py"],
     [("estimation loops", "estimation/")],
     ["return values of every estimator"])

prop("C13", "An estimated latent distribution is a proper standardised density",
     "When latent distribution estimation is requested, the spline density returned by every fit is non-negative, integrates to one, and has mean zero and unit variance whenever the requested knots admit such a density (they lie closer than 1.25 apart); its pointwise evaluation, its finely sampled form and its filter matrix agree with each other and with a cubic B-spline of its coefficients. It fits at least as well as feasible alternative coefficients, resampling it to another number of points keeps the constraints and approximates the same curve, and wrong-sized coefficient vectors or resampling to the same size are refused.",
     ["inputs", "configurations"], "all data sets, numbers of samples, symmetric quadrature bounds and spline coefficient vectors",
     "The tests evaluate single splines and one optimisation with pinned values.",
     [UT + "latent_ability_distribution.py"],
     [("_parameter_constraints", UT + "latent_ability_distribution.py"), ("CubicSplinePDF", UT + "latent_ability_distribution.py")],
     ["result['LatentPDF']", "girth.LatentPDF", "girth.CubicSplinePDF", "latent_ability_distribution.resample"])

prop("C14", "The difficulty look-up table inverts the marginal probability",
     "For every discrimination inside the table's range, the look-up function returns the difficulty whose marginal endorsement probability under the given prior and quadrature is the requested one, to within the table's interpolation error; it is non-increasing in the probability, and probabilities above or below what the table covers map to the easiest and the hardest tabulated difficulty respectively.",
     ["inputs", "configurations"], "all table ranges, priors, bounds, node counts, discriminations and probabilities in [0, 1]",
     "Two interior points of one table are tested, with the default prior.",
     [UT + "look_up_table.py", UT + "polytomous_utils.py"],
     [("create_beta_LUT", UT + "look_up_table.py")],
     ["girth.create_beta_LUT"])

prop("C15", "Synthetic responses follow the stated response model",
     "For every model, parameter set and ability vector (scalar or per-item discrimination and guessing, any numeric input type, one or several latent dimensions), the generated responses occur with exactly the model's category probabilities, independently across items and respondents given ability, for every item including those after the first.",
     ["inputs"], "all models (Rasch to 3PL, graded, partial credit, unfolding, multidimensional), parameter sets, ability vectors and input types",
     "The tests check helper functions on a few values and a fixed seed against pinned output.",
     ["synthetic/dichotomous.py", "synthetic/polytomous.py"],
     [("create_synthetic_irt_dichotomous", "synthetic/dichotomous.py"), ("_my_digitize", "synthetic/polytomous.py")],
     ["girth.synthetic.create_synthetic_irt_dichotomous", "girth.synthetic.create_synthetic_irt_polytomous"])

prop("C16", "Synthetic generation is reproducible, in range and rejects bad models",
     "The same seed and inputs give the same data, different seeds give different data, and a generator passed as seed advances so that successive calls differ; every output is an integer matrix of items by respondents with dichotomous values in {0, 1} and polytomous values in 1..number of categories. Unidimensional graded thresholds that are not strictly ascending, single-threshold polytomous items, unfolding thresholds that are even in number or not symmetric about the location, unknown model names and discriminations of more than two dimensions raise an error instead of producing data; model names are case-insensitive.",
     ["inputs", "histories"], "all valid and invalid parameter sets, seeds and call sequences",
     "The tests try one rejected example per rule and one seed.",
     ["synthetic/dichotomous.py", "synthetic/polytomous.py"],
     [("_check_difficulty_parameters", "synthetic/polytomous.py")],
     ["girth.synthetic functions"])

prop("C17", "Polychoric correlations maximise the bivariate normal likelihood",
     "For every pair of ordinal variables the polychoric correlation is, to the optimiser's tolerance, the value in [-0.999, 0.999] that maximises the likelihood of their contingency table under a bivariate normal with thresholds at the marginal proportions, with unused categories dropped. The contingency table counts every pair of values in the stated range (positive, zero or negative codes) exactly once and nothing else, and the matrix is symmetric with unit diagonal, equivariant under variable permutation and insensitive to the order of observations.",
     ["inputs"], "all ordinal data sets, category ranges (including negative codes) and missing cells",
     "The tests pin a handful of values, with codes starting at 0 or 1.",
     ["common/polychoric.py"],
     [("contingency_table", "common/polychoric.py"), ("_polychoric_correlation_value", "common/polychoric.py")],
     ["girth.common.polychoric_correlation", "girth.common.polychoric_correlation_serial", "girth.common.contingency_table", "girth.common.validate_contingency_table"])

prop("C18", "Parallel polychoric estimation equals serial and leaves nothing behind",
     "For every data set, number of variables and number of processors (more than pairs included), and however the worker processes are scheduled, the parallel polychoric correlation matrix is identical to the serial one, input data are left untouched, and no shared-memory segment or child process remains afterwards. If a worker fails on its share of the work or dies at its start, the call raises instead of returning a matrix, and leaves nothing behind either.",
     ["schedules", "inputs", "fault_sequences"], "all processor counts, matrix sizes (one variable upwards), storage types, worker timings and worker failures",
     "One test compares two processors with the serial result, under whatever schedule happens.",
     ["common/polychoric.py"],
     [("SharedMemoryManager and ProcessPoolExecutor block", "common/polychoric.py"), ("chunk_indices", "common/polychoric.py")],
     ["girth.common.polychoric_correlation", "/dev/shm", "process table"])

prop("C19", "Bootstrap output is exactly the statistics of whole-respondent resamples",
     "For every model, data set and number of iterations and processors, the bootstrap calls the model exactly the requested number of times, each time on as many respondents as the data set drawn with replacement as whole columns of it, with the caller's options; the standard errors, 2.5 and 97.5 percentiles and bias it returns are exactly those of the collected estimates about the solution, in the solution's shapes (standard errors and biases over the resamples that have the parameter, when some lack a threshold). A supplied solution is used as is and not recomputed.",
     ["inputs", "configurations"], "all models, data sets, iteration counts, processor counts, options and supplied solutions",
     "The tests are smoke tests that check for keys and the order of interval ends; half are skipped.",
     [UT + "bootstrap_errors.py"],
     [("_bootstrap_func", UT + "bootstrap_errors.py"), ("standard_errors_bootstrap", UT + "bootstrap_errors.py")],
     ["girth.standard_errors_bootstrap", "calls received by a recording irt_model"])

prop("C20", "Bootstrap is reproducible under any worker schedule and fails cleanly",
     "With the same seed, data and number of processors the bootstrap returns identical results whatever the relative speed of the workers; resamples differ between workers and iterations, different seeds differ, and the caller's random state is not consumed. If the model raises in any iteration the error reaches the caller and no worker process survives.",
     ["schedules", "fault_sequences", "inputs"], "all seeds, processor counts, worker delays and failing iterations",
     "The tests never set a seed, never compare two runs and never inject a failure.",
     [UT + "bootstrap_errors.py"],
     [("SeedSequence.spawn", UT + "bootstrap_errors.py")],
     ["girth.standard_errors_bootstrap", "process table"])

prop("C21", "Polyserial correlations maximise the polyserial likelihood",
     "For every pair of a continuous and an ordinal variable, the polyserial correlation is, to the optimiser's tolerance, the value in [-0.99, 0.99] that maximises the likelihood of the ordinal values given the standardised continuous ones, with thresholds at the marginal proportions. It is unchanged by increasing linear rescaling of the continuous variable, by order-preserving relabelling of the ordinal one and by reordering observations, and negated by negating either.",
     ["inputs"], "all sample sizes, correlations, numbers and codings of categories",
     "Three pinned values are tested.",
     ["common/polyserial.py"],
     [("polyserial_correlation", "common/polyserial.py")],
     ["girth.common.polyserial_correlation"])

prop("C22", "Classical test statistics equal their definitions on the valid responses",
     "For every data set the classical test statistics (counts, means, standard deviations, item-rest correlations, polyserial item-rest correlations, alpha if item deleted) and Cronbach's alpha equal their textbook definitions computed from the valid responses only, in item order; alpha on complete data equals the covariance formula, is unchanged by adding a constant to an item or by multiplying all items by a constant, and is at most one.",
     ["inputs"], "all data sets with and without missing cells, codings and numbers of items",
     "The tests compare a few pinned values.",
     [UT + "ctt_statistics.py", "common/cronbach_alpha.py"],
     [("classical_test_statistics", UT + "ctt_statistics.py"), ("cronbach_alpha", "common/cronbach_alpha.py")],
     ["girth.classical_test_statistics", "girth.common.cronbach_alpha"])

prop("C23", "Data preparation keeps every valid response and nothing else",
     "Tagging missing data keeps every cell holding a valid response and marks every other cell, whatever integer or float type the data has; reverse scoring maps x to maximum + 1 - x on exactly the flagged items, leaves missing cells missing and undoes itself; true/false counts, kernel signs, trimming of constant response patterns and polytomous recoding agree with their definitions on valid cells and ignore the rest. Options validation returns the documented defaults updated with the caller's values, without changing the caller's dictionary, and rejects every value outside the documented domain and every unknown key.",
     ["inputs"], "all data sets, storage types, valid-value lists, masks and option dictionaries",
     "The tests use one or two small examples per function.",
     [UT + "utils.py", UT + "polytomous_utils.py", UT + "girth_options.py", "common/reverse.py"],
     [("tag_missing_data", UT + "utils.py"), ("validate_estimation_options", UT + "girth_options.py")],
     ["girth.tag_missing_data", "girth.common.reverse_score", "girth.validate_estimation_options", "girth.condition_polytomous_response", "girth.trim_response_set_and_counts", "girth.get_true_false_counts", "girth.convert_responses_to_kernel_sign", "girth.mml_approx"])

prop("C24", "Principal component and principal axis factors reproduce the matrix",
     "For every symmetric matrix, principal components returns the largest eigenvalues in descending order with loadings whose columns are orthogonal, have squared norm equal to their eigenvalue and reproduce the best approximation of that rank (the matrix itself with all factors). Principal axis factoring returns unique variances that are a fixed point within the tolerance, with loadings and eigenvalues equal to the components of the matrix less those variances, from the default and from other initial guesses, does not depend on the initial guess with one factor, and reproduces a correlation matrix that has an exact factor structure with at least four items per factor.",
     ["inputs", "configurations"], "all correlation and covariance matrices, factor counts, tolerances and initial guesses",
     "One or two matrices per function are tested.",
     ["factoranalysis/pca.py", "factoranalysis/paf.py"],
     [("principal_components_analysis", "factoranalysis/pca.py"), ("principal_axis_factor", "factoranalysis/paf.py")],
     ["girth.factoranalysis.principal_components_analysis", "girth.factoranalysis.principal_axis_factor"])

prop("C25", "Maximum likelihood and minimum rank factor solutions meet their criteria",
     "For every covariance matrix on which it converges, maximum likelihood factor analysis returns loadings and positive unique variances that satisfy the normal-theory likelihood equations (fitted variances equal observed ones, no nearby solution fits better), scales with the variables and recovers an exact factor structure. Minimum rank factor analysis returns unique variances between zero and the item variances that leave a positive semi-definite matrix, with loadings and eigenvalues equal to the components of that matrix and with residual rank mass no greater than alternatives.",
     ["inputs", "configurations"], "all positive definite correlation (and covariance) matrices, factor counts, initial guesses",
     "The tests use a few fixed or random exact-structure matrices.",
     ["factoranalysis/maximum_likelihood.py", "factoranalysis/minimum_rank.py"],
     [("maximum_likelihood_factor_analysis", "factoranalysis/maximum_likelihood.py"), ("_mrfa_min_func", "factoranalysis/minimum_rank.py")],
     ["girth.factoranalysis.maximum_likelihood_factor_analysis", "girth.factoranalysis.minimum_rank_factor_analysis"])

prop("C26", "Rotations preserve the common factor space and geometry helpers are exact",
     "For all loadings on two or more factors, sparsifying returns unit-length bases and rotated loadings with rotated times bases equal to the original, bases orthonormal when orthogonality is requested, a criterion no worse than its starting point's, and the same result for the same seed. The procrustes rotation is orthogonal and no orthogonal matrix brings the second matrix closer to the target; hyperspherical angles and vectors are inverse to each other up to length (negative components and zero tails included), and entropy follows its formula along either axis.",
     ["inputs"], "all loading matrices, seeds, vectors and angles of any dimension",
     "One or two fixed examples per function are tested.",
     ["factoranalysis/rotation.py", "common/procrustes.py", "common/hypersphere.py", "common/entropy.py"],
     [("sparsify_loadings", "factoranalysis/rotation.py"), ("hyperspherical_angles", "common/hypersphere.py")],
     ["girth.factoranalysis.sparsify_loadings", "girth.common.procrustes_rotation", "girth.common.hyperspherical_vector", "girth.common.hyperspherical_angles", "girth.common.entropy"])

prop("C27", "Every call is pure: inputs, global state and later calls are unaffected",
     "No public function changes its array, list or dictionary arguments (read-only arrays are accepted wherever writable ones are), numpy's global random state or error settings, the default options, or the working directory; results do not share memory with the arguments; and a call that needs no randomness, or is given an explicit seed, returns bit-identical results whatever calls preceded it in the process, in any order, and whatever the caller did with earlier results.",
     ["histories", "inputs"], "all public functions, arguments and sequences of preceding calls",
     "Each test calls functions once on fresh data and does not inspect the arguments afterwards.",
     ["estimation/", "common/", "factoranalysis/", "synthetic/", UT + "girth_options.py"],
     [("dataset copies before in-place recoding", UT + "polytomous_utils.py"), ("options dictionary copies", UT + "girth_options.py")],
     ["arguments and return values of every public function"])

prop("C28", "Concurrent calls from several threads give the sequential results",
     "Calls of the public functions made at the same time from several threads, on the same or different data, return exactly what they return when made one after another, and raise no error.",
     ["schedules", "histories"], "all interleavings of calls from several threads, including shared input arrays and option dictionaries",
     "Every test is single-threaded.",
     ["estimation/", "common/", "factoranalysis/", "synthetic/"],
     [("all working storage local to the call", UP + "grm_mml.py")],
     ["return values of concurrent calls"])

prop("C29", "Multidimensional fits obey their identification constraints",
     "For every data set, factor count of at least two and option setting, multidimensional marginal fits return item-by-factor discriminations with zeros above the diagonal of the last items taken in reverse (last item loads on the first factor only, the one before on the first two, and so on), within bounds and with a positive diagonal when an initial guess is used; the initial guess itself satisfies the same constraints and reproduces the factor solution of the polychoric correlations up to rotation. Fewer than two factors is refused by fits and ability functions.",
     ["inputs", "configurations"], "all data sets, factor counts, option settings",
     "Two fits and one initial guess are compared with pinned values.",
     [MD + "multidimensional_mml_methods.py", MD + "multidimensional_initial_guess.py"],
     [("bounds construction", MD + "multidimensional_mml_methods.py"), ("_constrained_rotation", MD + "multidimensional_initial_guess.py")],
     ["girth.multidimensional_twopl_mml", "girth.multidimensional_grm_mml", "girth.initial_guess_md"])

prop("C30", "Prior, quadrature and iteration options are honoured everywhere",
     "Every method that documents a prior, quadrature bounds, node count, iteration limit or look-up table option uses the caller's value: the prior is evaluated only at points within the given bounds and at the given number of nodes, shifting or stretching prior and bounds shifts or stretches difficulties and abilities and scales discriminations inversely, refining the quadrature or turning the look-up table off changes estimates only within numerical error, and the iteration limit bounds the work: a run ends at the limit or once its estimates hardly move any more (by at most about a thousandth), whatever the limit. Omitting options equals passing the defaults, and every method refuses unknown options and values of the wrong type or out of range.",
     ["configurations", "inputs"], "all methods and option dictionaries",
     "Options are set in a few tests, never varied systematically, and never observed at the prior callable.",
     [UT + "girth_options.py", UT + "utils.py", UT + "latent_ability_distribution.py", UD + "rasch_mml.py", UP + "grm_mml.py", MD + "multidimensional_mml_methods.py"],
     [("_get_quadrature_points", UT + "utils.py"), ("LatentPDF", UT + "latent_ability_distribution.py")],
     ["calls received by the distribution callable", "return values"])

prop("C31", "Mixed Bayesian discriminations are posterior means",
     "For every data set on which the iteration converges, each discrimination the mixed Bayesian 2PL and graded methods return is the mean, at the hyper quadrature in the options over 0.25 to 5, of its posterior: the marginal likelihood with the other items at their estimates and the item's difficulties following the method's own rule, times the Rayleigh density with the returned scale. The scale is itself the mean of its posterior given the discriminations, each item counting once, and stays in its range.",
     ["inputs", "configurations"], "all data sets (missing cells, unequal category counts) and option settings for the two mixed Bayesian methods, where the implied difficulties stay inside their search interval",
     "The tests compare RMSE with that of another method on two data sets; no posterior is evaluated.",
     [UP + "grm_mml_eap.py", UD + "twopl_mml_eap.py"],
     [("partial_int bookkeeping across items", UP + "grm_mml_eap.py"), ("hyper_evaluation", UP + "grm_mml_eap.py")],
     ["girth.grm_mml_eap", "girth.twopl_mml_eap"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
