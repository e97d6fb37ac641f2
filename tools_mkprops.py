#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (run by hand after editing)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=["src/qinfer/" + f for f in files],
                     state=[dict(name=a, meaning=b, where="src/qinfer/" + c) for a, b, c in (state or [])],
                     mechanism=[dict(name=a, where="src/qinfer/" + b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))

I, H, C, F, S = "inputs", "histories", "configurations", "fault_sequences", "schedules"

prop("C01", "A datum updates the posterior exactly by Bayes' rule",
 "After any datum that triggers no resampling, each particle's weight equals its previous weight times the model's likelihood of that outcome under that experiment, renormalised to sum to one, and particle locations change only through the model's own time-step rule. The recorded per-datum normalisation is the prior-averaged likelihood of that datum, the total log-likelihood is the sum of the logs of those records, and the data record lists exactly the data in order. A batch update is equivalent to the same data applied one by one, and for static models the posterior does not depend on the order of the data.",
 [H, I, C], "every model, prior, particle number and finite sequence of (outcome, experiment) pairs, in single and batch form",
 "test_smc.py uses one decimation mock model with 3 tests of ESS bookkeeping; no test ever compares posterior weights, normalisation records or log-likelihoods to Bayes' rule, for one datum or a history.",
 ["smc.py"], [("SMCUpdater.update / hypothetical_update / batch_update", "smc.py"), ("log_total_likelihood, normalization_record", "smc.py")],
 ["updater weights and locations before/after each call", "normalization_record", "log_total_likelihood", "data_record"],
 [("particle_weights", "posterior weights", "distributions.py"), ("normalization_record", "per-datum evidence", "smc.py")])

prop("C02", "Hypothetical updates and posterior queries are exact and pure",
 "Asking an updater for hypothetical posteriors returns, for every combination of outcome and experiment, the weights (and, on request, likelihoods and normalisations) that really observing that datum would produce. Neither that question nor any other read-only query on the posterior (means, covariances, entropies, regions, risks, information gains, samples) changes the updater's particles, weights, histories or any caller-supplied array.",
 [I, H, C], "every posterior reachable by a history of updates, every batch of outcomes and experiments, every query",
 "No existing test calls hypothetical_update with several outcomes and experiments, and none checks that queries leave the state unchanged.",
 ["smc.py", "distributions.py"], [("SMCUpdater.hypothetical_update", "smc.py"), ("ParticleDistribution.est_*", "distributions.py")],
 ["return values", "bytewise snapshots of updater state and arguments around each query"])

prop("C03", "A datum impossible under every particle is handled by the stated policy",
 "When a datum has (numerically) zero total likelihood, the configured policy decides exactly what happens: 'error' raises, 'warn' warns and 'ignore' stays silent while the weights are still updated, 'skip' leaves the posterior as it was, and 'reset' restarts from a fresh prior sample with uniform weights. A datum whose total likelihood exceeds the threshold never triggers the policy, and after 'skip' or 'reset' later data are again processed by Bayes' rule.",
 [H, I, C, F], "every policy, threshold and position of impossible data inside a history",
 "No test exercises any zero-weight policy; the situation arises only with an impossible datum at some point of a history.",
 ["smc.py"], [("zero_weight_policy / zero_weight_thresh branch of SMCUpdater.update", "smc.py")],
 ["exceptions and warnings raised", "weights/locations after the datum", "subsequent updates"])

prop("C04", "Resampling happens exactly when configured and is accounted for",
 "An updater resamples after a datum exactly when the effective sample size falls below the configured fraction of the particle number at a check point (every datum, or every k-th datum of a batch), and never otherwise unless asked. The effective sample size is 1/sum(w^2), its running minimum never increases and covers every update, and resample counters, the just-resampled flag and any divergence log agree with the resamplings that took place. Resetting replaces the particles by a fresh prior sample with uniform weights, of a new size if one is given, or leaves the weights alone if that is requested.",
 [H, C, I], "every history of updates, batches, forced resamplings and resets, and every threshold and check interval",
 "Three tests look at one threshold with a mock model; interval checks, forced resampling, reset, and the flag/counter agreement over histories are not tested.",
 ["smc.py", "distributions.py"], [("_maybe_resample, resample, reset, batch_update", "smc.py"), ("n_ess, min_n_ess", "smc.py")],
 ["calls received by a recording resampler", "n_ess/min_n_ess/resample_count/just_resampled/resampling_divergences after each step"],
 [("min_n_ess", "smallest ESS seen", "smc.py"), ("resample_count", "resamplings", "smc.py")])

prop("C05", "Liu-West resampling preserves the posterior's moments and validity",
 "Resampling draws each new particle around a*x_i + (1-a)*mean of an ancestor chosen with probability proportional to weight, with Gaussian noise of covariance h^2 times the posterior covariance, so that with a^2+h^2=1 mean and covariance are preserved in expectation. The result has the requested number of particles (by default that of the input), uniform weights, and only model-valid, canonical particles when post-selection is on; the input distribution is not modified. Each particle is attempted at most maxiter times. Degenerate or partly invalid clouds end in a valid result or a warning, never in silently invalid particles.",
 [I, C], "every weighted particle cloud, kernel parameter pair, particle number, model validity region",
 "No test calls a resampler directly; the moments are expectations over internal randomness and weights, which sampled unit tests without reference kernels cannot settle.",
 ["resamplers.py", "smc.py"], [("LiuWestResampler.__call__", "resamplers.py"), ("postselection loop", "resamplers.py")],
 ["resampled distribution, standardised residuals against the reference kernel with a recorded noise kernel", "warnings"])

prop("C06", "Particle estimates equal the weighted-sum definitions",
 "Every estimate read from a weighted particle distribution is the one defined by its weights and locations: mean, covariance (symmetric, positive semidefinite), correlation, expectation of an arbitrary function, entropy, effective sample size, marginals and distances; a divergence between clouds smooths the other cloud with the kernel and bandwidth it is given. Splitting the posterior into clusters conserves the weight and particles and obeys the total mean and total covariance laws. Samples drawn from it are particles, each with frequency proportional to its weight.",
 [I], "every weighted particle set (including degenerate weights, one particle, many parameters)",
 "TestParticleDistribution checks one random cloud per estimate; ties, zero weights, non-normalised inputs, complex functions and cluster decompositions are not covered.",
 ["distributions.py", "smc.py", "metrics.py", "clustering.py"], [("ParticleDistribution", "distributions.py"), ("particle_clusters", "clustering.py"), ("weighted_pairwise_distances", "metrics.py")],
 ["returned estimates versus straightforward reference sums"])

prop("C07", "Credible regions hold the requested posterior mass and are nested",
 "The credible set returned for a level is a smallest set of highest-weight particles whose total weight reaches that level (ties aside), it grows with the level, and its complement and slice options describe the same set. The hull and ellipsoid estimators contain every credible particle, the ellipsoid contains the hull, and the membership test for each method agrees with the region that method defines, for single points and batches, on all or a slice of the parameters.",
 [I, C], "every weighted particle set, level in (0, 1), parameter slice and method",
 "test_region_estimates.py checks one Gaussian cloud with equal weights; with equal weights the highest-weight rule and the mass guarantee are untested.",
 ["distributions.py", "utils.py"], [("est_credible_region, region_est_hull, region_est_ellipsoid, in_credible_region", "distributions.py"), ("mvee, in_ellipsoid", "utils.py")],
 ["returned particles/masks/hulls/ellipsoids versus weights"])

prop("C08", "Expected risk and information gain match their definitions",
 "For every experiment, the Bayes risk reported by an updater equals the outcome-averaged, Q-weighted posterior variance, and the expected information gain equals the outcome-averaged relative entropy of posterior to current distribution, both finite and non-negative even when some outcomes or particles have zero probability. Values for a vector of experiments equal the values of each experiment alone, and neither can be improved by data: the risk never exceeds the current weighted variance.",
 [I, C], "every posterior, experiment vector and finite-outcome model, including models whose outcome number depends on the experiment",
 "test_precession_model.py compares a single model on a smooth posterior; impossible outcomes, zero weights, varying outcome numbers and Q are not covered.",
 ["smc.py"], [("bayes_risk, expected_information_gain", "smc.py")],
 ["returned vectors versus brute-force enumeration over outcomes"])

prop("C09", "Likelihoods are normalised probabilities following the documented law",
 "For every built-in model, any valid parameters and any experiment, the likelihood has shape (outcomes, models, experiments) with each entry depending only on its own triple, lies in [0, 1] for discrete outcomes, and sums (or integrates) to one over the experiment's outcome domain. The values follow each model's documented formula (precession, inversion, T2, coin, noisy coin, die, randomized benchmarking, Born rule), and the fidelity/depolarising-parameter conversions are mutual inverses.",
 [I], "all models shipped with the library, all valid model parameters, all experiments, any batch of outcomes in any order",
 "The model tests check output shapes only; no test sums likelihoods over outcomes or compares them to the documented formulas over parameter ranges.",
 ["abstract_model.py", "test_models.py", "rb.py", "derived_models.py", "unstructured_models.py", "tomography/models.py"], [("Model.likelihood implementations", "test_models.py"), ("pr0_to_likelihood_array", "abstract_model.py")],
 ["likelihood tensors versus reference formulas and row sums"])

prop("C10", "Simulated data follow the likelihood and stay inside the domain",
 "Simulating an experiment returns one outcome per (repetition, model, experiment), a bare scalar when exactly one is asked for, each a member of the outcome domain the model reports for that experiment. Over repetitions, outcomes are independent draws from exactly the distribution that the model's likelihood describes, for every model and experiment in the batch separately.",
 [I, C], "all built-in models and decorators, parameter and experiment batches, repeat counts",
 "Tests check the output shape and domain membership for one batch; agreement of simulated frequencies with the likelihood is a documented todo in the guide and untested.",
 ["abstract_model.py", "test_models.py", "derived_models.py", "tomography/models.py", "rb.py"], [("FiniteOutcomeModel.simulate_experiment", "abstract_model.py"), ("BinomialModel/MultinomialModel.simulate_experiment", "derived_models.py")],
 ["recorded outcome tables versus likelihood tables (sequential chi-square tests)", "shape and domain of every record"])

prop("C11", "Derived models add exactly their stated transformation",
 "A decorated model behaves as its underlying model followed by the stated change: binomial and multinomial counts of independent repetitions, a power of the likelihood, bounded added noise, or a Gaussian signal around per-outcome means. Everything not changed (parameter names and number, validity, canonical form, distances, parameter scaling, outcome number and domain, nested decoration) is passed through, and with trivial settings (one repetition, power one) the decorated model coincides with the underlying one.",
 [I, C], "every compatible underlying model, nesting depth, parameters, experiments, outcome batch",
 "Each decorator is shape-tested over one base model; numerical agreement with the underlying model and pass-through of metadata are not tested.",
 ["derived_models.py", "utils.py"], [("DerivedModel, BinomialModel, MultinomialModel, MLEModel, PoisonedModel, GaussianHyperparameterizedModel", "derived_models.py"), ("multinomial_pdf, sample_multinomial", "utils.py")],
 ["likelihoods/metadata of decorated versus underlying model"])

prop("C12", "Time-step rules move parameters by exactly the stated random walk",
 "A model without a time-step rule leaves parameters unchanged; a random-walk model adds independent steps from its step distribution for every model and experiment; the Gaussian walk adds, in the transformed space, zero-mean steps with the fixed or learned covariance times the experiment-dependent scale, touching only the selected parameters. Updates through the inference loop apply that rule exactly once per datum, and learned covariance estimates are positive semidefinite and equal the mean of the encoded covariances.",
 [I, H, C], "all walk configurations: fixed or learned, diagonal or dense, index subsets, transformations, scale rules, several experiments",
 "Tests check shape and validity of one step per configuration; step covariance, independence and untouched components are not tested.",
 ["derived_models.py", "abstract_model.py", "smc.py", "tomography/models.py"], [("RandomWalkModel/GaussianRandomWalkModel.update_timestep, est_update_covariance", "derived_models.py"), ("DiffusiveTomographyModel.update_timestep", "tomography/models.py")],
 ["increments of update_timestep under recorded randomness and their sample covariance"])

prop("C13", "Scores are log-likelihood gradients and Fisher information their variance",
 "For every differentiable built-in model the score equals the gradient of the log-likelihood with respect to the model parameters at every outcome, parameter vector and experiment where it is defined, whether computed analytically or numerically, and the likelihood optionally returned with it is the model's own. The Fisher information is the expectation over outcomes of the outer product of scores: symmetric, positive semidefinite and equal to the analytic formula.",
 [I], "all differentiable models, valid parameters away from singular points, all outcomes and experiments",
 "Tests compare the score to itself with and without return_L and check shapes; no test differentiates the likelihood.",
 ["abstract_model.py", "score.py", "rb.py", "test_models.py", "finite_difference.py"], [("score, fisher_information", "abstract_model.py"), ("ScoreMixin", "score.py"), ("RandomizedBenchmarkingModel.score", "rb.py"), ("FiniteDifference", "finite_difference.py")],
 ["score/Fisher tensors versus high-order differences of the likelihood"])

prop("C14", "Domains agree on their members, counts, membership and example",
 "A finite domain's enumeration lists each member exactly once, has the reported number of members, contains the example point, carries the reported dtype, and membership accepts every listed value and rejects every value outside it, singly or in batches. Combined product domains are the Cartesian product of their factors with lossless conversion between joint values and per-factor values, and multinomial domains list exactly the count vectors with the fixed total.",
 [I, C], "all integer, real, multinomial and product domains, any bounds and nesting of factors, any batch of candidates",
 "test_domains.py tries two or three fixed domains and a few good and bad values each.",
 ["domains.py"], [("IntegerDomain, RealDomain, MultinomialDomain, ProductDomain", "domains.py")],
 ["values, n_members, example_point, in_domain, conversions versus set-theoretic reference"])

prop("C15", "Elementary distributions sample exactly the law they name",
 "Every elementary distribution returns an array of shape (samples, variables) matching its reported number of variables, inside its support, and distributed with the named law and parameterisation (uniform ranges, means and variances, shape parameters, bounds, counts). Successive samples are independent, and distributions offering a density gradient return the gradient of the log-density of the same law.",
 [I, C], "all elementary distributions, any admissible parameters, any sample number",
 "test_distributions.py checks first and second moments loosely for one parameter set with one fixed seed.",
 ["distributions.py", "utils.py"], [("UniformDistribution ... GammaDistribution, DirichletDistribution, MVUniformDistribution, HaarUniform", "distributions.py")],
 ["recorded samples versus reference CDFs (two-stage KS / chi-square)"])

prop("C16", "Combined and conditioned distributions are the stated combination",
 "A product distribution's components are independent with their factors' laws in order; a mixture draws its components with the given weights; post-selection returns only model-valid samples with the conditional law, or fails loudly; the constrained-sum distribution returns samples with the requested total; an interpolated density is sampled according to that density; a particle distribution draws particles by weight. All report the right number of variables and return the requested number of samples.",
 [I, C], "any nesting of factor distributions, weights, models, totals, sample numbers",
 "Tests check moments for one fixed instance of each; rejection loops, ordering of factors and unequal weights at boundary sizes are not covered.",
 ["distributions.py"], [("ProductDistribution, MixtureDistribution, PostselectedDistribution, ConstrainedSumDistribution, InterpolatedUnivariateDistribution, ParticleDistribution.sample", "distributions.py")],
 ["recorded samples versus reference law of the combination"])

prop("C17", "Parallel evaluation is indistinguishable from serial evaluation",
 "A model distributed over any number of engines returns exactly the serial model's likelihoods, in the same order and shape, for any number of particles, outcomes and experiments, including fewer particles than engines, and whichever engine finishes first. Simulations come back with the same axes and shape as serial ones and with the right law for each model and experiment, calls are counted once, and a serialised or recreated model behaves identically.",
 [S, I, C], "all engine counts, chunkings, completion orders, serial thresholds and batch shapes",
 "The test uses a single mock engine and a likelihood constant in all arguments, so no misordering, mis-chunking or wrong axis could be seen.",
 ["parallel.py"], [("DirectViewParallelizedModel.likelihood / simulate_experiment", "parallel.py")],
 ["tasks dispatched to stand-in engines and results versus serial model"])

prop("C18", "Performance tests record what actually happened in each trial",
 "A performance test reports, for each experiment, the estimate, loss, resampling count, experiment and timing that its trial actually had: the loss is the model's Q-weighted squared error between true parameters and the estimate reported, the true parameters come from the requested source, and data are simulated from the true model. Running many trials yields one such record per trial in shape (trials, experiments); a failing trial is masked only when failures are allowed and is otherwise raised; numerical error settings are restored afterwards in every case.",
 [H, F, C], "any model/true model pair, priors, trial and experiment numbers, injected failures at any step, serial or asynchronous apply",
 "perf_testing has no tests at all.",
 ["perf_testing.py"], [("perf_test, perf_test_multiple", "perf_testing.py"), ("numpy_err_policy, actual_dtype", "perf_testing.py")],
 ["event log of model, heuristic and updater calls in a trial versus the returned record"])

prop("C19", "Simple estimation does not depend on how the data are supplied",
 "The one-call estimators return the posterior mean, covariance and (optionally) the updater of the documented inference problem: binomial data under the precession or randomized-benchmarking model with the documented uniform prior over the requested range. The same data given as a plain array, a record array, or a CSV file yield the same inference, columns are interpreted by name or in documented order, and the result agrees with the exact posterior within Monte Carlo error.",
 [I, C], "any data set, supply format, frequency/decay range, particle number and option",
 "simple_est has no tests.",
 ["simple_est.py", "rb.py"], [("simple_est_prec, simple_est_rb, load_data_or_txt, data_to_params", "simple_est.py")],
 ["returned mean/cov/updater versus grid posterior and across formats"])

prop("C20", "Heuristics and experiment designers return the experiments they promise",
 "Every heuristic returns an experiment record of the model's experiment type whose fields carry the documented rule: exponentially sparse times, inverse particle distance with the guess drawn from the posterior, fixed fields as given, the best candidate of an ensemble. Optimising designers return an experiment no worse under the chosen cost than the guess they started from, only vary the requested fields, and remember the best guess only when asked to.",
 [H, I, C], "all updaters, histories, field names, base heuristics, optimisation algorithms, cost functions",
 "Only shapes of one or two heuristics are exercised indirectly; designers and ensembles have no tests.",
 ["expdesign.py"], [("ExpSparseHeuristic, PGH, EnsembleHeuristic, ExperimentDesigner", "expdesign.py")],
 ["returned experiments and the cost evaluations recorded during design"])

prop("C21", "Tomography bases are orthonormal and conversions are lossless",
 "Every provided operator basis (Gell-Mann, Pauli, tensor products, user-built) consists of Hermitian operators that are orthonormal under the trace inner product with the normalised identity first, of the full number for its dimension. Converting any state or operator to model parameters and back is exact, linear and preserves inner products, for single objects and batches, and covariance matrices convert to the matching superoperator.",
 [I, C], "all dimensions and qubit numbers, any Hermitian operator, any product of bases",
 "There are no tests of the bases module; the tomography test only checks likelihood shapes in one basis.",
 ["tomography/bases.py"], [("gell_mann_basis, pauli_basis, tensor_product_basis, TomographyBasis", "tomography/bases.py")],
 ["Gram matrices, round trips and inner products"])

prop("C22", "Tomography follows the Born rule and keeps particles physical",
 "The tomography model's probability of the first outcome is the trace of the effect times the state, for any basis, effect and state, clipped only within numerical range. Canonicalising any parameter vectors gives a unit-trace positive-semidefinite state, leaves physical states unchanged, replaces an unphysical one by its positive part renormalised, and is idempotent; posterior means along inference runs therefore are physical states whenever the canonical form is enabled.",
 [I, H, C], "any basis, Hermitian effect, parameter vector (including degenerate spectra and large batches) and inference history",
 "The tests check the likelihood's shape and nothing about values, spectra or canonicalisation of unphysical particles.",
 ["tomography/models.py"], [("TomographyModel.likelihood, canonicalize, trunc_neg_eigs, renormalize", "tomography/models.py")],
 ["likelihood versus Tr(E rho), eigenvalues and trace of canonicalised particles"])

prop("C23", "Tomography priors and measurement heuristics are physical and as stated",
 "Every state or channel prior returns the requested number of samples, each a unit-trace positive-semidefinite operator of the stated rank (and, for channels, trace preserving), with the stated ensemble mean where one is prescribed. Every tomography measurement heuristic returns a valid two-outcome effect in the model's experiment format, of the stated kind (random Pauli projectors, stabiliser states, product states), or the best of the candidates it drew.",
 [I, H, C], "all bases, dimensions, ranks, ensemble parameters, posteriors and sample numbers",
 "There are no tests of tomography priors (beyond supplying one sample batch) or heuristics.",
 ["tomography/distributions.py", "tomography/expdesign.py"], [("GinibreDistribution, BCSZChoiDistribution, GADFLIDistribution, TensorProductDistribution", "tomography/distributions.py"), ("RandomPauliHeuristic, RandomStabilizerStateHeuristic, BestOfKMetaheuristic", "tomography/expdesign.py")],
 ["eigenvalues/traces/partial traces of samples and effects"])

prop("C24", "Numeric helpers satisfy their algebraic contracts",
 "The shared helpers do what their contracts say for all inputs: simplex transforms are mutual inverses; the minimum-volume ellipsoid encloses its points within tolerance and is tight; ellipsoid membership and volume agree with the quadratic form; matrix square roots square back; outer products, multinomial densities and samples, structured-array splitting and joining, unique sequences, time and uncertainty formatting, and significant-figure comparison agree with their definitions.",
 [I], "all admissible inputs of each helper",
 "test_utils.py tries single random inputs for four helpers; the others have no tests.",
 ["utils.py"], [("to_simplex/from_simplex, mvee, in_ellipsoid, ellipsoid_volume, sqrtm_psd, outer_product, multinomial_pdf, sample_multinomial, separate/join_struct_arr, uniquify, format_uncertainty, pretty_time", "utils.py")],
 ["return values versus independent definitions"])

prop("C25", "Adaptive likelihood estimation is unbiased and meets its tolerance",
 "The adaptive likelihood estimator returns, for each outcome, model and experiment, an estimate computed only from samples that were really drawn: a ratio of counted successes to drawn samples (after the stated hedging) whose estimated error is within the requested tolerance when it stops. Estimates are probabilities, unbiased up to hedging, never based on fewer than the stated minimum number of samples, and everything else is passed to the underlying simulator.",
 [I, C], "all simulators, tolerances, hedging, sample step and minimum sizes, batches",
 "One shape test with default settings; accuracy and sample accounting are untested.",
 ["ale.py"], [("binom_est_p, binom_est_error, ALEApproximateModel.likelihood", "ale.py")],
 ["log of simulator calls and returned estimates"])

prop("C26", "Bayesian Cramer-Rao tracking accumulates the right information",
 "The Bayesian Cramer-Rao updater keeps the initial information plus the sum over data of the Fisher information of each performed experiment, averaged over the initial prior, or over the current posterior when adaptive; the matrix is symmetric, never decreases in the semidefinite order, and predicting an experiment's information does not change it. Inference itself is identical to the plain updater with the same options, and caller-supplied arrays are not modified.",
 [H, C, I], "all differentiable models, priors, initial matrices, data histories, adaptive or not",
 "SMCUpdaterBCRB is tested nowhere except for one loose risk comparison.",
 ["smc.py"], [("SMCUpdaterBCRB", "smc.py")],
 ["current_bim and hypothetical_bim after every step versus reference accumulation"])

prop("C27", "Mixed exact/approximate updating selects particles as documented",
 "The mixed updater uses the exact model for the heaviest particles making up the configured share of the weight and the approximate model for the rest, with each particle receiving its own likelihood. With identical models, or a share of one, it is exactly the plain updater; posterior weights stay normalised and all other behaviour is inherited.",
 [H, C, I], "all model pairs, shares, histories",
 "The mixed updater has no tests.",
 ["smc.py"], [("MixedApproximateSMCUpdater.update", "smc.py")],
 ["particles seen by each model and resulting weights"])

prop("C28", "Every model evaluation and simulation is counted once",
 "A model's likelihood-evaluation counter grows by outcomes x models x experiments for each likelihood call, and its simulation counter by repetitions x models x experiments for each simulation call, including for decorated models, and by nothing else. Clearing caches, copying, pickling or querying never changes counters or results, and experiment costs are reported per experiment.",
 [H, I, C], "every sequence of calls with any shapes on every model",
 "No test reads the counters after calls.",
 ["abstract_model.py", "derived_models.py", "test_models.py", "rb.py", "tomography/models.py"], [("Simulatable.sim_count, Model.call_count", "abstract_model.py")],
 ["call_count/sim_count before and after each call"])

prop("C29", "Results depend only on inputs and seed, and inputs are never modified",
 "With the same random seed and the same call sequence, every public operation gives bit-identical results in any process and whatever memory the allocator hands out: no result depends on uninitialised memory, hash order or earlier unrelated calls. No operation modifies arrays passed in by the caller or previously returned results.",
 [I, H, C], "all public operations, argument arrays, seeds, allocator contents",
 "The tests run under one allocator fill and never compare arguments before and after calls, or two runs.",
 ["abstract_model.py", "derived_models.py", "distributions.py", "smc.py", "resamplers.py", "utils.py", "tomography/models.py", "domains.py"], [("np.empty buffers filled before use", "derived_models.py"), ("copies on in-place operations", "smc.py")],
 ["transcripts of runs under poisoned allocations", "bytewise argument snapshots"])

prop("C30", "Sequential inference converges to the exact posterior",
 "Running the full loop of prior sampling, updates, resampling and time-steps with enough particles gives posterior means, covariances, model evidences and credible levels that agree with the exact Bayesian posterior of the same data within Monte Carlo error, for any data history; with resampling this is meant for the near-Gaussian, single-peaked posteriors the default resampler is documented for. Over data simulated from the prior, true parameters fall below the posterior quantiles at the nominal rate.",
 [H, I, C], "all priors, models with computable posteriors, data histories, particle numbers, resampler settings",
 "test_precession_model.py runs one fixed-seed history of one model with loose tolerances.",
 ["smc.py", "resamplers.py", "distributions.py", "test_models.py", "derived_models.py"], [("SMCUpdater loop", "smc.py"), ("LiuWestResampler", "resamplers.py")],
 ["estimates versus quadrature posterior; rank statistics of true parameters"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
