#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                               mechanism=[dict(zip(("name", "where"), m)) for m in mech],
                               observe_at=observe or [], hook_needed=None)))

prop("C01", "Library calls do not modify the caller's arrays or completed models",
     "Passing arrays, data frames, dictionaries or trained models to any ESAT constructor, solver, error-estimation, comparison, catalog, perturbation or reporting call leaves those objects unchanged; only the object a method is called on may change, and reporting or plotting calls do not change even that object's results. "
     "In particular error estimation, constrained models, factor comparison and perturbation leave the base model's factors, residual values and input data exactly as they were.",
     ["inputs", "histories"], "all input arrays/models and every order of API calls on shared objects",
     "The tests never compare the arguments before and after a call; aliasing shows only for particular call sequences.",
     ["esat/model/sa.py", "esat/model/ls_nmf.py", "esat/model/ws_nmf.py", "esat/model/batch_sa.py", "esat/error/bootstrap.py", "esat/error/displacement.py", "esat/error/bs_disp.py", "esat/rotational/constrained.py", "eval/factor_comparison.py", "eval/perturbation.py", "esat/data/analysis.py", "esat/metrics.py"],
     [("copies taken by constructors and initialize", "esat/model/sa.py SA.__init__, SA.initialize"), ("deepcopy of the data before resampling", "esat/error/bootstrap.py"), ("copies before scaling for plots", "esat/data/analysis.py")],
     ["argument arrays after any API call", "base model W, H, WH, Qtrue, Qrobust after error estimation or reporting"])
prop("C02", "Factor profiles are non-negative; ls-nmf contributions are non-negative",
     "Every model starts from a factor profile matrix without zero or negative elements where the values are generated, and every update keeps factor profiles non-negative; with the ls-nmf algorithm the contribution matrix has the same guarantee. "
     "With ws-nmf only the contributions may be negative, the profile update splits positive and negative parts so that profiles stay non-negative.",
     ["inputs"], "all non-negative data, uncertainties, seeds, initialisation methods and iteration counts",
     "Tests train one small data set with one or two seeds and check only the loss type.",
     ["esat/model/sa.py", "esat/model/ls_nmf.py", "esat/model/ws_nmf.py"],
     [("multiplicative update of products and quotients of non-negative values", "esat/model/ls_nmf.py LSNMF.update"), ("positive/negative split", "esat/model/ws_nmf.py WSNMF.update"), ("clamp of the generated start matrices", "esat/model/sa.py SA.initialize")],
     ["SA.H, SA.W after initialize and train"])
prop("C03", "Same seed and inputs give the same results",
     "For given inputs and seed, initialisation, batch runs, bootstrap, displacement, imputation, simulation, perturbation and splits give the same result on every call: each random draw comes from a generator that is seeded from the user's seed (or from values derived from it), never from process-global or time-based randomness. "
     "Each model of a batch and each bootstrap run gets its own derived seed, and that seed is the one reported with the model.",
     ["inputs", "schedules", "configurations"], "all seeds, all inputs, all process schedules",
     "A test run compares nothing between two runs, and unseeded draws are invisible in a single run.",
     ["esat/model/sa.py", "esat/model/batch_sa.py", "esat/error/bootstrap.py", "esat/error/bs_disp.py", "esat/error/displacement.py", "esat/data/datahandler.py", "esat/data/impute.py", "esat/estimator.py", "eval/simulator.py", "eval/perturbation.py"],
     [("np.random.default_rng(seed) kept on the instance", "constructors"), ("per-model seeds drawn in the parent process", "BatchSA.train, Bootstrap.run")],
     ["factor matrices, seeds and tables of two runs with one seed"])
prop("C04", "Parallel and sequential modes give the same results",
     "Batch training, bootstrap, displacement and BS-DISP give the same models, tables and ordering whether they run in parallel or sequentially: both modes hand every model the same data, starting matrices, seeds, training settings and thresholds and store each result under the index of its own task. "
     "The result of a parallel run does not depend on the order in which the workers finish or on the number of cores.",
     ["schedules", "configurations"], "all worker completion orders, core counts and settings",
     "No test runs the parallel modes; completion order is not controlled by any test.",
     ["esat/model/batch_sa.py", "esat/error/bootstrap.py", "esat/error/displacement.py", "esat/error/bs_disp.py"],
     [("sequential branch and module-level worker function per class", "BatchSA.train/_train_task, Bootstrap._train/_p_train, Displacement._increase_disp/_parallel_disp, BSDISP"), ("results keyed by task index", "same")],
     ["results lists, bs_results, increase/decrease results, compiled tables"])
prop("C05", "Training settings reach the solver the same way in every execution path",
     "A model trained with the optimised solver, with the Python solver, with or without a progress display, is given the same data, uncertainties, weights, starting factors, iteration limit, convergence limits, robust setting, held-profile flag and delay, in the order that solver expects. "
     "A held factor profile matrix does not change during training, a delayed hold starts after exactly the given number of steps, and the robust mode replaces the weights with the robust weights in every solver.",
     ["inputs", "configurations"], "all training settings and both algorithms",
     "The optimised extension is not built in the tests, and the tests use defaults for most settings.",
     ["esat/model/sa.py", "esat/model/ls_nmf.py", "esat/model/ws_nmf.py", "rust/lib.rs"],
     [("branch between optimised and Python training", "esat/model/sa.py SA.train"), ("parameter list of the extension", "rust/lib.rs ls_nmf, ws_nmf")],
     ["arguments of the update calls; H after training with hold_h"])
prop("C06", "Reported reconstruction and losses belong to the reported factors",
     "After training, loading, simulating or constraining a model, its reported reconstruction is the product of its reported contribution and profile matrices, and its reported Q(true), Q(robust), residuals and scaled residuals are computed from that same reconstruction, the input data and uncertainties. "
     "Saving or error estimation never pairs the factors of one model with the values of another.",
     ["inputs", "histories"], "all trained models and all settings",
     "Tests check that the values exist, not that they agree with the final factors for every exit from the training loop.",
     ["esat/model/sa.py", "esat/rotational/constrained.py", "eval/simulator.py", "esat/error/bootstrap.py", "esat/error/displacement.py"],
     [("final computation after the training loop", "SA.train"), ("model built from the final matrices", "ConstrainedModel.train, Simulator")],
     ["SA.W, H, WH, Qtrue, Qrobust, residuals"])
prop("C07", "Loss, robust loss, weights and update rules follow their definitions",
     "Q(true) is the sum over all cells of the squared residual divided by the squared uncertainty; Q(robust) is the same sum with cells whose absolute scaled residual exceeds the robust threshold down-weighted by threshold over scaled residual, and the robust weights follow the same cut-off. "
     "One ls-nmf or ws-nmf step is exactly the published weighted multiplicative (semi-NMF) step for both factor matrices, with the second matrix's update using the first matrix's new value; reported fit metrics (r2, RMSE, errors per feature or sample) follow their textbook definitions.",
     ["inputs"], "all data, uncertainty, weight and factor matrices",
     "Tests compare types and a few numbers; a changed term shows only for weights that are not equal or residuals above the threshold.",
     ["esat/metrics.py", "esat/model/ls_nmf.py", "esat/model/ws_nmf.py", "esat/utils.py"],
     [("q_loss, qr_loss and metric helpers", "esat/metrics.py, esat/utils.py"), ("update", "esat/model/ls_nmf.py, esat/model/ws_nmf.py")],
     ["return values"])
prop("C08", "Training stops exactly at the requested convergence or iteration limit",
     "Training ends when the change of the loss over the last requested number of steps falls below the requested limit, or after the requested maximum number of steps, whichever comes first; the reported converged flag and step count say which and how many, starting afresh for every training call. "
     "The constrained model uses its own loss with the same rule, and a loss that is not a number ends the run without being reported as converged.",
     ["inputs", "histories"], "all data, limits, window lengths and repeated calls",
     "Tests run a handful of iterations; window off-by-one and stale state from a previous call need specific histories.",
     ["esat/model/sa.py", "esat/rotational/constrained.py"],
     [("loss window and its maximum - minimum or first - last difference", "SA.train, ConstrainedModel.train")],
     ["converged, converge_steps, number of update calls"])
prop("C09", "Invalid inputs are refused before any computation",
     "Data, uncertainty or user-supplied factor matrices with missing (NaN) values, the wrong type, mismatching shapes, or negative values where they are not allowed are refused: the model does not become ready and training returns its failure code without changing anything. "
     "Valid input is never refused.",
     ["inputs"], "all matrices of any content, type and shape",
     "Tests cover one valid and a couple of invalid matrices.",
     ["esat/model/sa.py"],
     [("validation of every input", "SA._SA__validate"), ("guard at the start of training", "SA.train")],
     ["metadata/validated flags, return value of train"])
prop("C10", "Zero values and uncertainties are floored before weights are computed",
     "Weights are always one over the squared floored uncertainty, and zero uncertainties are replaced by a positive number representable in the working precision before any division, so weights and losses are finite for every accepted input. "
     "The processed input data handed to the models has no missing or zero values.",
     ["inputs"], "all data sets with zeros and missing values anywhere",
     "The sample data sets have no zero uncertainties in the places the tests use.",
     ["esat/model/sa.py", "esat/data/datahandler.py", "esat/configs.py", "esat/error/bootstrap.py"],
     [("EPSILON floor", "SA.__init__, DataHandler._set_dataset")],
     ["SA.We, SA.U, DataHandler.get_data()"])
prop("C11", "Data and uncertainty stay aligned through loading, splitting and merging",
     "Every row or column that is dropped, selected, reordered, split, merged or resampled in the input data is treated in the same way in the uncertainty data, so that each value keeps its own uncertainty, index and feature name. "
     "Location and dropped columns never become features, and rows with a missing value in either table are dropped from both.",
     ["inputs"], "all pairs of tables, indexes and option combinations",
     "Tests load two aligned sample files with one option set.",
     ["esat/data/datahandler.py"],
     [("paired operations on both tables", "DataHandler.__load_data, _set_dataset, split_locations, merge, remove_noise, ...")],
     ["get_data(), input_data, uncertainty_data"])
prop("C12", "Feature categories and signal-to-noise act on the features they name",
     "A feature set to weak has its uncertainty tripled exactly once, a bad feature is excluded from data, uncertainty and feature list, a strong one is unchanged, whatever the order in which categories were set; setting a category for an unknown feature or an unknown category name reports failure and changes nothing. "
     "Reported feature metrics (signal to noise, category, percentiles) are listed against the feature they were computed from.",
     ["inputs", "histories"], "all sequences of category changes on all features",
     "Tests set no sequence of categories.",
     ["esat/data/datahandler.py"],
     [("category table applied when data is processed", "DataHandler.set_category, get_data, _set_dataset, _determine_optimal...")],
     ["get_data(), metrics"])
prop("C14", "Bootstrap resamples data, uncertainty and contributions with one valid index",
     "Every bootstrap run draws in-range sample indexes that fill the data set to its full length, applies the same index to data, uncertainty and starting contributions, and keeps the samples of a block together. "
     "Requested block size, block type, seed, number of runs and held profiles are used as given, and each run starts from the base model's own factors.",
     ["inputs", "configurations"], "all sample counts, block sizes, seeds",
     "No stable test covers the bootstrap.",
     ["esat/error/bootstrap.py"],
     [("_resample, _block_resample", "esat/error/bootstrap.py")],
     ["bs_results"])
prop("C15", "Bootstrap tables count every run once with the right factor mapping",
     "Each bootstrap factor is mapped to the base factor with the highest correlation if that reaches the threshold and is counted as unmapped otherwise; every run contributes exactly once to the mapping table, the Q table and the percentile profiles. "
     "Reported percentiles, interquartile checks and profile statistics of a factor come from that factor's own profile in every run.",
     ["inputs"], "all sets of bootstrap results",
     "No stable test covers the bootstrap tables.",
     ["esat/error/bootstrap.py"],
     [("map_contributions, _build_table, _calculate_factors, _calculate_percentiles", "esat/error/bootstrap.py")],
     ["mapping_df, q_results, factor_results, percentiles"])
prop("C16", "Displacement searches each profile element to its loss limit in each direction",
     "For every factor and selected feature, displacement raises and lowers that profile element only, re-solves from the base model, and searches for the value at which the loss change reaches each of the configured levels, within the search limit and without crossing zero or the maximum. "
     "Results are stored under the factor, feature and loss level they were computed for, with the loss change, value, percentage and factor swaps of the displaced model, and all features and factors are covered once.",
     ["inputs"], "all base models, features and levels",
     "No stable test covers displacement.",
     ["esat/error/displacement.py"],
     [("_increase_disp, _decrease_disp and compile", "esat/error/displacement.py")],
     ["increase_results, decrease_results, compiled_results, swap_table, count_table"])
prop("C17", "BS-DISP compiles every bootstrap run",
     "BS-DISP displaces the factors of every bootstrap run of its bootstrap object, using the resampled data of that run and only the selected features, and its compiled maxima, minima, means, swap counts, largest loss change and dropped cases include every run exactly once. "
     "The fit summary counts each swap at its own loss level and factor.",
     ["inputs", "schedules"], "all bootstrap sets, features and modes",
     "No stable test covers BS-DISP.",
     ["esat/error/bs_disp.py"],
     [("run, _parallel_disp, compile_results, summary", "esat/error/bs_disp.py")],
     ["compiled_df, swap tables, summary"])
prop("C18", "Every constraint and expression type is enforced in the right direction",
     "Every accepted constraint type (pull down, pull up, pull to value, set to zero, set to base value, fixed value, define limits) acts on the named profile or contribution element only, in the named direction, stays within its declared loss-change limit, and is dropped from the model when removed; unknown types, targets and indexes are refused. "
     "Linear expressions contribute the squared deviation of exactly the stated combination, weighted by their allowed loss change, to the auxiliary loss.",
     ["inputs", "programs"], "all lists of constraints and expressions on all elements",
     "No stable test covers the constrained model.",
     ["esat/rotational/constrained.py"],
     [("add/remove constraint, _find_limits, _apply_constraints, _apply_expressions, evaluate_constraints", "esat/rotational/constrained.py")],
     ["constrained_model, constraint metrics, Qaux"])
prop("C19", "Save writes what load reads, and both report failure",
     "What a save call of a model, batch, bootstrap, displacement, BS-DISP, constrained model, handler or simulator writes under a name and directory is what the matching load call returns: the same object content, with the file name and format that the load expects, and the path returned is the path written. "
     "A missing or relative directory or file is reported by returning nothing, without writing anything.",
     ["inputs", "fault_sequences"], "all objects, names, directories and formats",
     "Tests save and load two object kinds with one option.",
     ["esat/model/sa.py", "esat/model/batch_sa.py", "esat/error/bootstrap.py", "esat/error/displacement.py", "esat/error/bs_disp.py", "esat/rotational/constrained.py", "eval/simulator.py"],
     [("save / load pairs", "each class")],
     ["files in the output directory, return values"])
prop("C20", "CLI commands use the configured values and file names consistently",
     "Every command reads only configuration keys that the setup commands write, passes each configured value to the parameter it is named after, and looks for results under the file names that the run commands save them to. "
     "Every documented option of a command has an effect and no two commands or options hide one another.",
     ["configurations", "histories"], "all configuration files and command sequences",
     "No test runs the command line interface.",
     ["esat/cli/esat_cli.py", "esat/configs.py"],
     [("configuration templates and click commands", "esat/cli/esat_cli.py, esat/configs.py")],
     ["command behaviour"])
prop("C21", "Factor estimation scores each factor count on its own masked cells",
     "The factor search scores every candidate factor count in the requested range with models of exactly that count, accumulates train and test errors only over the masked cells that belong to each side, and divides by the matching number of cells or models. "
     "The returned table lists each factor count against its own scores, and the per-count counters are not shifted against the range.",
     ["inputs"], "all ranges, seeds, data sets",
     "No stable test covers the estimator.",
     ["esat/estimator.py"],
     [("FactorEstimator._add_sa_run/run", "esat/estimator.py")],
     ["results data frame"])
prop("C22", "Simulated data is the profile-contribution product with the requested noise",
     "The simulated data is the product of the synthetic contributions and profiles with the requested noise, outliers and uncertainty model applied within the requested ranges and proportions, each factor's contribution follows the curve requested for that factor, and the reference model holds the same synthetic factors. "
     "User-given profiles are used unchanged (normalised as documented) and all values stay non-negative.",
     ["inputs", "configurations"], "all simulator settings",
     "No stable test covers the simulator.",
     ["eval/simulator.py"],
     [("generate_profiles, _generate_data, generate_contribution, update_contribution", "eval/simulator.py")],
     ["input_data_df, uncertainty_data_df, syn_* arrays"])
prop("C23", "Factor comparison pairs every base factor with its best match",
     "The comparison of a model with a base model evaluates every assignment it claims to evaluate, and the reported mapping, correlations and best model are those of the assignment with the best score; no model factor is reported for the wrong base factor and values of different models are not mixed. "
     "Factor swaps in error estimation are reported exactly when a displaced factor correlates better with another base factor by the documented rule.",
     ["inputs"], "all model sets and factor permutations",
     "No stable test covers factor comparison.",
     ["eval/factor_comparison.py", "eval/factor_catalog.py", "esat/metrics.py"],
     [("FactorCompare, FactorCompareV2, compare_all_factors, catalog", "eval/factor_comparison.py, esat/metrics.py")],
     ["best_factor_r, factor_map, best_model"])
prop("C24", "Analysis tables and plots compute their statistics from the processed data",
     "Residual statistics, scaled residuals, normalised profiles and contributions, factor fingerprints and per-feature fit statistics are computed from the model's factors and the processed data and uncertainties by their definitions, listed against their own feature, sample and factor. "
     "Percentages of a profile or fingerprint sum to one hundred per feature, and the requested feature, factor or model selects the data shown.",
     ["inputs"], "all models and selections",
     "No stable test covers the analysis module.",
     ["esat/data/analysis.py", "esat/model/batch_sa.py"],
     [("ModelAnalysis, BatchAnalysis", "esat/data/analysis.py")],
     ["statistics data frames, figure data"])
prop("C25", "Perturbation changes only the requested share of the uncertainty",
     "A perturbed run trains the base model's factors on the unchanged data with uncertainties multiplied by random factors from the requested range for the requested share of the cells, leaving the rest unchanged, and compares the result with the base model factor by factor. "
     "Every requested model is run once with its own seed and its comparison is stored under its own index.",
     ["inputs"], "all settings and seeds",
     "No test covers perturbation.",
     ["eval/perturbation.py"],
     [("Perturbation.perturb, compare", "eval/perturbation.py")],
     ["perturbed models, correlation results"])
prop("C26", "The best batch model has the lowest requested loss",
     "The model reported as best by a batch is the one with the lowest Q(robust) when the robust criterion is requested, and otherwise the lowest Q(true), over all models of the batch, and every consumer of the best model uses that index. "
     "A batch trains exactly the requested number of models.",
     ["inputs", "configurations"], "all batches",
     "Tests run no batch.",
     ["esat/model/batch_sa.py", "esat/main.py"],
     [("best model selection", "BatchSA.train")],
     ["best_model, results"])
prop("C27", "Time step detection and summary statistics follow their definitions",
     "The detected minimum time step of a series is the smallest spacing class actually present, for every supported resolution, and imputed values replace exactly the missing cells and leave all others unchanged. "
     "Signal-to-noise and other helper statistics follow their documented definitions.",
     ["inputs"], "all time indexes and missing patterns",
     "Tests use one time index.",
     ["esat/utils.py", "esat/data/impute.py", "esat/data/datahandler.py"],
     [("min_timestep and helpers", "esat/utils.py"), ("DataImputer", "esat/data/impute.py")],
     ["return values"])
prop("C28", "Out-of-range factor, model, feature or bootstrap selections are reported",
     "Every reporting or plotting call that takes a factor, model, run or feature selection checks it against the actual range before using it, so the first and last item can be selected and anything beyond either end, including zero where numbering starts at one, is reported instead of silently showing another item.",
     ["inputs"], "all selections, at and beyond both ends",
     "No test selects an out-of-range item.",
     ["esat/data/analysis.py", "esat/error/bootstrap.py", "esat/error/displacement.py", "esat/error/bs_disp.py", "esat/rotational/constrained.py", "esat/data/datahandler.py", "eval/simulator.py", "eval/perturbation.py"],
     [("guards at the start of the calls", "each plotting method")],
     ["return value and figure"])
prop("C29", "Every internal call and attribute use is consistent with its definition",
     "Every call inside the library passes arguments its target accepts, every attribute and name read on a path is defined for every instance that can reach it, and every value returned as a tuple is unpacked in the order it was returned. "
     "No supported configuration ends in an internal name, attribute or argument error.",
     ["inputs", "configurations"], "all reachable call sites and configurations",
     "Tests execute few of the configurations, and Python resolves names and arguments only when a line runs.",
     ["esat", "eval"],
     [("call sites and attribute uses", "whole library")],
     ["exceptions"])
# properties that this family cannot decide
prop("C40", "The weighted loss never increases from one update to the next",
     "For every accepted data set and starting point, an ls-nmf or ws-nmf update never increases the weighted loss (up to rounding).",
     ["inputs"], "all matrices and all iterations", "Tests sample a few iterations.",
     ["esat/model/ls_nmf.py", "esat/model/ws_nmf.py"], [("multiplicative update", "update")], ["Qtrue per iteration"])
prop("C41", "The optimised extension and the Python solver give the same numbers",
     "For the same inputs the compiled solver and the Python solver return the same factors and losses up to rounding.",
     ["inputs"], "all inputs", "The extension is not built in the tests.",
     ["rust/lib.rs", "esat/model/sa.py"], [("two implementations", "rust/lib.rs, esat/model")], ["W, H, Q"])
prop("C42", "Known synthetic factors are recovered by the best model of a batch",
     "For simulated data with little noise the best model of a sufficiently large batch reproduces the synthetic factors within the documented correlation.",
     ["inputs"], "all simulated data sets", "Statistical property over seeds.",
     ["esat/model/batch_sa.py", "eval/simulator.py"], [("batch of random starts", "BatchSA")], ["correlations"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
