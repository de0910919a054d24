"""Writes properties.jsonl (kept as a script only so that the file is easy to regenerate and edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CLS = ["doubleml/plm/plr.py", "doubleml/plm/pliv.py", "doubleml/irm/irm.py", "doubleml/irm/iivm.py", "doubleml/irm/apo.py",
       "doubleml/irm/apos.py", "doubleml/irm/pq.py", "doubleml/irm/lpq.py", "doubleml/irm/cvar.py", "doubleml/irm/qte.py",
       "doubleml/irm/ssm.py", "doubleml/did/did.py", "doubleml/did/did_cs.py", "doubleml/rdd/rdd.py"]
BASE = "doubleml/double_ml.py"; EST = "doubleml/utils/_estimation.py"; FW = "doubleml/double_ml_framework.py"

p("C01", "Cross-fitting honesty of every nuisance prediction",
  "In every fit, for every model class, treatment, repetition and fold, each reported nuisance prediction of an observation comes from a learner that was trained without that observation: only on observations of the training part of the fold that holds it out, restricted to the treatment/instrument/period/selection subgroup the nuisance function conditions on. The learner sees the features, the target and the observation weights that define this nuisance function, and every observation receives exactly one held-out prediction per repetition. Where a nuisance function needs no preliminary estimate of the target parameter, outcomes of held-out observations cannot influence the predictions reported for their own fold.",
  ["schedules", "inputs", "configurations"],
  "all model classes and score options, sample splittings (drawn or user-supplied), fold and repetition counts, learner types, worker schedules and execution modes",
  "Tests compare estimates with a re-implementation on a few seeds and default paths; no test follows which rows trained the learner behind each reported prediction, nor does so under parallel, stored or externally split execution.",
  CLS + [EST, BASE, "doubleml/utils/global_learner.py"],
  [("cross-validated prediction with conditional training samples", EST + ":_dml_cv_predict,_get_cond_smpls,_get_cond_smpls_2d"), ("per-class nuisance estimation", "_nuisance_est of every model class")],
  [("predictions", "held-out nuisance predictions (obs, rep, treatment)", BASE + ":_predictions")], ["predictions", "learner fit/predict calls"])

p("C02", "Results do not depend on how the work is executed",
  "For fixed data, sample splitting, learners and random seed, fitting, bootstrapping, tuning and the analyses derived from them give bit-identical results whatever the number of workers, the parallel backend, the order and timing in which tasks start and finish, whether tasks share memory with the caller or run isolated, and whether predictions or fitted models are stored.",
  ["schedules", "configurations"],
  "all task start/completion orders, worker counts, backends (sequential, shared-memory, isolated processes), worker stalls, batching, and storing options, for every model class including models that are fitted in parallel as a whole",
  "Tests run one OS-chosen schedule of one or two workers and compare mostly single-threaded results; completion order, isolation and storing options are never varied against each other.",
  [EST, BASE, "doubleml/irm/qte.py", "doubleml/irm/apos.py", "doubleml/rdd/rdd.py"] + CLS[:9],
  [("parallel fold fitting", EST + ":_dml_cv_predict"), ("parallel model fitting", "doubleml/irm/qte.py:fit, doubleml/irm/apos.py:fit")])

p("C03", "Failures are contained: error raised, nothing half-done, retry works",
  "If a learner, a worker, a user score, the random number generator, a memory allocation or the user (interrupt at any moment) aborts fitting, bootstrapping, tuning or a derived analysis, the error reaches the caller; afterwards the object reports either the complete results from before the call, the complete new ones, or none, never inference from a mixture or an incomplete fit. Data, learners, sample splitting and other objects are unchanged, and simply repeating the call succeeds with exactly the result of an undisturbed run.",
  ["crash_points", "fault_sequences", "histories"],
  "every fault kind at every learner call, worker task, random draw and source line of the operation, in any history of fits, refits, bootstraps, tuning and derived analyses, for every model class",
  "No test injects a failure in the middle of an operation; a failing operation is only tested for argument validation before any work starts.",
  [BASE, FW, EST] + CLS,
  [("results reset before a fit, inference object set last", BASE + ":fit,_initalize_fit"), ("bootstrap assignment", FW + ":bootstrap")])

p("C04", "Inference snapshots are immutable and independent",
  "A snapshot of the inference of a fitted model - what its inference object at that moment reports, or a copy of it - and every sum, difference, scalar multiple or concatenation of snapshots, keeps all its reported numbers forever: later refits, new sample splittings, failed fits, bootstraps or sensitivity analyses of other snapshots or of the model do not change it (the model's own latest bootstrap and sensitivity analysis are results of its current inference object). Combining snapshots never changes the operands, and the combination equals the one computed from the operands' numbers at that time.",
  ["histories", "fault_sequences"],
  "all histories of fits, refits, failed fits, bootstraps and analyses interleaved with snapshotting and combining",
  "Tests combine snapshots once, right after a fit; none re-reads an old snapshot after the model moved on.",
  [FW, BASE, "doubleml/irm/apos.py", "doubleml/irm/qte.py"],
  [("snapshot construction", BASE + ":construct_framework"), ("operators", FW + ":__add__,__sub__,__mul__,concat")])

p("C05", "Reported inference always describes the latest fit",
  "At any point of any history, coefficients, standard errors, summaries, confidence intervals, p-values, bootstrap statistics and sensitivity results that a model reports all refer to its latest successful fit, with its current sample splitting and treatment order, and to the latest bootstrap and sensitivity analysis run since that fit. Joint confidence intervals and bootstrap-based p-value adjustment are refused unless a bootstrap was run since the latest fit; results from before a new sample splitting was set are no longer reported.",
  ["histories", "fault_sequences"],
  "all operation histories (fit, refit with other options, bootstrap with other methods and sizes, sensitivity analysis, new sample splittings, tuning, failed operations)",
  "Tests follow one fixed sequence (fit, bootstrap, confint); stale results can only show in longer histories.",
  [BASE, FW, "doubleml/irm/qte.py", "doubleml/irm/apos.py", "doubleml/rdd/rdd.py"],
  [("inference object rebuilt by each fit", BASE + ":fit"), ("bootstrap prerequisite", FW + ":confint,p_adjust")])

p("C06", "Objects passed in by the user are never modified",
  "No operation, successful or failing, changes anything the user passed in: the data frame and the column roles of a data object, arrays, learner objects and their fitted state, external predictions, sample splittings, parameter grids, scoring dictionaries, weights, and group or basis frames. The estimates therefore stay reproducible from the same inputs.",
  ["histories", "fault_sequences", "schedules"],
  "all operations of all model classes in any order, with learner failures, under shared-memory and read-only isolated workers",
  "Tests check a few return values; no test compares every input before and after, and mutation typically shows only on the second use of an input.",
  ["doubleml/double_ml_data.py", BASE, EST, "doubleml/utils/blp.py", "doubleml/utils/policytree.py", "doubleml/utils/_checks.py"] + CLS,
  [("learners are cloned before each fit", EST + ":_dml_cv_predict"), ("data copies", "doubleml/double_ml_data.py")])

p("C07", "Models that share data or learners do not affect each other",
  "Several models built from the same data object, the same learner objects, or the same sample splitting can be used in any interleaving - alternating calls, or at the same time from different threads (data with one treatment) - and each gives exactly the results it gives when used alone. Copies of a model evolve independently of the original.",
  ["schedules", "histories"],
  "all interleavings of the operations of several models, at the granularity of calls and of thread switches inside calls",
  "Tests use one model at a time; sharing bugs need interleaved histories or thread switches at particular points.",
  [BASE, "doubleml/double_ml_data.py", EST, FW, "doubleml/irm/qte.py", "doubleml/irm/apos.py"],
  [("per-model state; learners cloned per fold", BASE + ", " + EST)])

p("C08", "All randomness comes from the caller's NumPy seed, used exactly as needed",
  "Setting the global NumPy seed determines all drawn sample splittings, bootstrap statistics, randomized and fold-based tuning, and generated datasets; two runs from the same generator state agree exactly, and no operation resets or re-seeds the generator. Operations without random choices (fitting on a given splitting, confidence intervals, Bonferroni or Holm adjustment, sensitivity analysis and benchmarks, group effects) neither depend on nor consume the generator, and repeated draws (repetitions, further bootstraps or splittings) are fresh. The bootstrap multiplies the estimated scores by mean-zero multiplier weights of the requested kind with unit variance, shared across the coefficients and drawn independently per repetition.",
  ["schedules", "histories", "inputs"],
  "all generator streams and all histories of random and deterministic operations, for every model class, dataset generator and bootstrap method",
  "Tests seed once at the top; they cannot tell an operation that ignores, resets, or over-consumes the generator.",
  ["doubleml/utils/resampling.py", EST, FW, BASE, "doubleml/datasets.py", "doubleml/rdd/datasets/simple_dgp.py"],
  [("sample splitting", "doubleml/utils/resampling.py"), ("bootstrap weights", EST + ":_draw_weights")])

p("C09", "A fit depends only on its current inputs, not on the object's past",
  "After any history of earlier fits, tuning, bootstraps, failed operations, parameter changes and sample splittings, fitting gives exactly the results of a newly created object with the same data, learners, parameters, sample splitting and fit options. Nothing of an earlier fit (predictions, fitted learners, start values, scores, external predictions) leaks into a later one.",
  ["histories", "fault_sequences"],
  "all operation histories on one object, for every model class",
  "Tests fit each object once; leaks need a second fit with different options or splits.",
  [BASE] + CLS,
  [("result arrays initialised by each fit", BASE + ":_initalize_fit")])

p("C10", "Tuning is honest, reaches the right nuisance function, and is returned in full",
  "Hyperparameter tuning evaluates candidates for a nuisance function only on that function's own target, features and subgroup (a target that contains a preliminary estimate of the effect or quantile may use all observations; preliminary effects are the partialling-out estimates of the tuned models' predictions, probabilities for classifiers); tuning on folds uses, for each fold of each repetition, only that fold's training observations. The selected parameters are those the search found best, they are assigned to exactly that nuisance function, treatment, repetition and fold and used by the next fit, and the returned results contain every treatment and repetition. With assignment switched off the parameters in use do not change; a failing search leaves each parameter set either as before or as found.",
  ["inputs", "configurations", "schedules", "fault_sequences"],
  "all tunable model classes, numbers of treatments, repetitions and folds, grid and randomized search, scoring options, worker schedules, failing candidates",
  "Tests check tuned estimates for a single treatment and mostly one repetition; which rows each candidate saw and where its winner went is not observed.",
  [BASE, EST] + CLS,
  [("tuning and assignment", BASE + ":tune,set_ml_nuisance_params"), ("searches", EST + ":_dml_tune")])

p("C11", "A fit can be resumed from stored nuisance predictions",
  "Supplying any supported subset of a previous fit's stored nuisance predictions to an identically configured model reproduces that fit's estimates, standard errors, scores and stored predictions exactly (for quantile models up to the precision of the numerical solution), with the remaining nuisance functions being estimated as usual. Supplied predictions are used as given, also altered ones. Learners for which predictions were supplied for every nuisance function they serve are never trained, so predictions computed elsewhere combined with placeholder learners suffice.",
  ["histories", "configurations", "inputs"],
  "all supported subsets of nuisance functions, treatments/levels, repetitions, scores and options of every class that accepts external predictions, and any history in between",
  "Tests supply all predictions of a few classes and compare rounded estimates; partial resumption, several repetitions and trained-or-not are hardly covered.",
  [BASE, EST, "doubleml/utils/dummy_learners.py"] + CLS,
  [("external predictions", EST + ":_set_external_predictions")])

p("C12", "Models survive checkpoint and restore at any point",
  "A model that is copied or serialised and restored - in the same or another process - at any point of its life reports exactly what the original reports, and continuing with either of them gives exactly the same results as never having been checkpointed. The original and the restored copy do not influence each other.",
  ["crash_points", "histories"],
  "all points of all histories (before and after fit, bootstrap, tuning, sensitivity analysis, inside parallel workers), copying and pickling, every model class, data object and inference snapshot",
  "Only a deep copy inside one derived analysis is exercised by tests; no test serialises a model mid-life and continues.",
  [BASE, FW, "doubleml/double_ml_data.py", "doubleml/irm/apos.py", "doubleml/irm/qte.py", "doubleml/rdd/rdd.py", "doubleml/utils/blp.py"],
  [("plain picklable state", "all classes"), ("shared data re-attached after parallel fits", "doubleml/irm/apos.py, doubleml/irm/qte.py")])

p("C13", "Downloaded datasets are complete and correct or an error is raised",
  "Fetching a remote dataset either returns the full data set, correctly parsed and transformed in every offered return type, or raises an error; connection failures, HTTP errors, stalled transfers and transfers that end before their announced length never give a silently shortened or altered data set. A failed or earlier download does not affect later ones, and every call returns independent data.",
  ["fault_sequences", "histories"],
  "all network fault kinds and positions (refused, reset, timed out, error status, redirect, truncated body, short and delayed reads) in any sequence of calls and return types",
  "Tests of the fetchers need the network and see only a healthy one; none injects a fault.",
  ["doubleml/datasets.py"],
  [("download and transform", "doubleml/datasets.py:fetch_401K,fetch_bonus")])

p("C14", "Repetitions, treatments, quantiles and levels are estimated independently",
  "The result for one repetition, treatment, quantile or treatment level in a model that covers several is the result of a model that covers only this one (with the same sample splitting and the data roles it implies; up to floating-point rounding), and does not depend on the others, on their number, or on their order. The reported coefficient and standard error aggregate exactly the reported per-repetition values of that coefficient.",
  ["configurations", "inputs", "schedules"],
  "all numbers and orders of treatments, repetitions, quantiles and treatment levels, every class and execution mode",
  "Tests compare joint and separate computation for single repetitions of few classes; leakage from one cell to the next needs several repetitions and treatments at once.",
  [BASE, "doubleml/irm/qte.py", "doubleml/irm/apos.py"] + CLS,
  [("loop over repetitions and treatments", BASE + ":fit"), ("one sub-model per quantile/level", "doubleml/irm/qte.py, doubleml/irm/apos.py")])

p("C15", "Exported fitted models are exactly the ones that made the predictions",
  "When fitted models are stored, there is one per nuisance function, treatment, repetition and fold (none where predictions were supplied externally), and the stored model of a fold reproduces the reported raw predictions (probabilities for classifiers) for the observations held out in that fold. The exported objects are distinct from each other and from the user's learners, and later operations on the model do not change them.",
  ["configurations", "histories", "schedules"],
  "all classes, repetitions, treatments, folds, execution modes, and later histories of the same object",
  "Tests check the export for some classes with one repetition right after the fit, sequentially.",
  [BASE, EST] + CLS,
  [("model export", BASE + ":_store_models"), ("fold order", EST + ":_dml_cv_predict")])

p("C16", "Drawn sample splittings are valid for every random stream",
  "For any random stream, number of folds, repetitions and observations, drawn sample splittings are partitions: test parts are disjoint, balanced, cover every observation once per repetition, and each training part is exactly the complement. For models with categorical treatment or period structure they are stratified on it, and for clustered data training and test parts share no cluster in any clustering dimension while the reported cluster indices describe exactly the parts. Under an ordinary random stream every repetition and every draw is a new random splitting. A splitting that is set explicitly is reported and used exactly as given.",
  ["inputs", "configurations", "schedules"],
  "all generator streams, sizes, fold and repetition counts, group imbalances, cluster structures, every class that draws splittings",
  "Tests check a few default sizes and seeds; group balance and cluster separation depend on the stream and the data.",
  ["doubleml/utils/resampling.py", BASE, "doubleml/irm/qte.py", "doubleml/irm/apos.py", "doubleml/utils/_checks.py", "doubleml/rdd/rdd.py"],
  [("resampling", "doubleml/utils/resampling.py")])

p("C17", "Derived analyses leave the model unchanged and use exactly its fit",
  "Confounder benchmarking, group and conditional effects, policy trees, causal contrasts, learner evaluation, sensitivity analysis and plots neither change the fitted model nor its data, sample splitting or learners (also when an analysis fails), and they give the same answer no matter how, where and in which order the model was fitted and analysed; an analysis that the fit supports is answered. Benchmarking equals comparing the model with an independently fitted one without the covariates; contrasts equal differences of the reported level estimates; group and conditional effects, their pointwise and joint intervals at the requested level, and trees are those of the scores of the latest fit.",
  ["histories", "schedules", "fault_sequences"],
  "all orders of derived analyses after fits in any execution mode, with failing learners inside the analysis",
  "Tests call one analysis after one sequential fit and do not re-check the model afterwards.",
  [BASE, "doubleml/utils/gain_statistics.py", "doubleml/utils/blp.py", "doubleml/utils/policytree.py", "doubleml/irm/apos.py", "doubleml/irm/irm.py", "doubleml/irm/apo.py", "doubleml/plm/plr.py", "doubleml/irm/pq.py"],
  [("benchmark on a copy", BASE + ":sensitivity_benchmark, doubleml/irm/apos.py:sensitivity_benchmark"), ("BLP / tree on the orthogonal signal", "doubleml/irm/irm.py:cate,policy_tree")])

p("C18", "Reported estimates follow from the reported predictions and scores",
  "For every model the estimate of each repetition solves the empirical moment condition of its documented score at the reported nuisance predictions, and the standard error is the documented (cluster-robust where applicable) variance of that score. Coefficients and standard errors aggregate the repetitions by the documented median rule, and confidence intervals, test statistics, p-values, joint intervals and multiplicity-adjusted p-values follow from them and from the reported bootstrap statistics, and sensitivity bounds and robustness values from the reported sensitivity elements; the reported targets of the nuisance functions are the documented ones - after any history and in any execution mode.",
  ["inputs", "configurations", "histories"],
  "all classes, scores, weights, repetitions, treatments, cluster structures, random streams, histories and execution modes",
  "Tests compare with a re-implementation for single fits at fixed seeds; the relation is not checked after refits, failures, tuning, parallel or resumed fits, or with several repetitions and treatments together.",
  ["doubleml/double_ml_score_mixins.py", EST, FW, BASE] + CLS,
  [("score solving", "doubleml/double_ml_score_mixins.py"), ("variance and aggregation", EST + ":_var_est,_aggregate_coefs_and_ses"), ("inference", FW)])

p("C19", "Refused calls have no effect",
  "A call whose arguments are outside their documented domain, or that comes at a time when it is not possible, raises an error before any learner is trained or random number is drawn, and leaves everything as it was: what the model, its parts, its inference objects, data, sample splitting and parameters report, and the arguments. Later results are those of a history without the refused calls, at whatever point of the life of an object they occurred.",
  ["histories", "inputs", "schedules"],
  "all invalid or untimely calls (fits, external predictions, splittings, parameters, tuning, bootstrap, intervals, sensitivity and derived analyses, inference arithmetic, column roles) at all points of all histories",
  "Tests check that an error is raised by a new object for a sample of bad arguments; none looks at the object afterwards.",
  ["doubleml/utils/_checks.py", BASE, FW, "doubleml/double_ml_data.py", "doubleml/irm/apos.py", "doubleml/irm/qte.py"],
  [("checks", "doubleml/utils/_checks.py"), ("validation before assignment", BASE + ":fit,tune,set_ml_nuisance_params,set_sample_splitting"), ("role setters", "doubleml/double_ml_data.py")])

p("C20", "A data object always agrees with its current column roles",
  "After any history of accepted, refused or interrupted changes of column roles (and copies or serialisation), everything a data object reports is what its data frame says for the roles in force, a change is refused exactly when a new object with these roles would be, and the data frame is untouched. Models created on the object, and models created earlier that are fitted again after a change of the covariates, give what a new data object with these roles gives; results reported before a change stay as they are.",
  ["histories", "inputs", "fault_sequences"],
  "all sequences of role changes, frames with missing and infinite entries, clustered or not, created from frames or arrays, all model classes on top",
  "Tests change one role at a time once and compare one array; several changes, refusals in between, cached flags and models already in use are not covered.",
  ["doubleml/double_ml_data.py", BASE],
  [("role setters and caches", "doubleml/double_ml_data.py:DoubleMLData,DoubleMLClusterData"), ("labels of reported results", BASE + ":summary,confint,p_adjust")])

p("C21", "Arguments and answers are values: re-using them later has no effect",
  "Whatever is passed to a data object, model or analysis as a setting - lists of column roles, arrays of data, treatment levels, quantiles, sample splittings with their cluster parts, hyperparameters, weights, subgroups, external predictions, parameter grids, scoring dictionaries, groups and bases - is taken as it is at the time of the call, and the frames and dictionaries returned are the caller's own. Whatever the user later does with these objects, in any history with or without failures, nothing already reported, no analysis made before, and no later fit, bootstrap, search or analysis changes by it. Data frames and learners handed over are references; changing them leaves everything already reported as it is.",
  ["histories", "inputs", "fault_sequences"],
  "all histories of operations with arbitrary in-place changes of all containers, arrays and frames that crossed the interface, all model classes and options",
  "Tests pass fresh literals and never look at an object again after handing it over; whether a container is still referenced only shows in a later operation of a longer history.",
  ["doubleml/double_ml_data.py", BASE, "doubleml/utils/_checks.py", "doubleml/utils/blp.py"],
  [("setters of roles, parameters and splittings", "doubleml/double_ml_data.py:x_cols,d_cols,z_cols,cluster_cols; " + BASE + ":set_ml_nuisance_params,set_sample_splitting"), ("stored settings", "doubleml/irm/irm.py:weights; doubleml/irm/qte.py:quantiles; doubleml/utils/policytree.py:features")])

p("C22", "Row labels, column order and storage types of frames have no influence",
  "Only the values in the columns that have a role count. Whatever the row labels of a data frame (shifted, permuted, filtered, repeated, textual, dates, several levels), the order of its columns, further columns without a role, or the storage of its codes (integers of any width, floats of the same value or, for two-valued codes, truth values; group dummies as truth values or integers), and whatever the row labels of frames passed to analyses (groups, bases, features, rows of interest), every fit, bootstrap, search and analysis in any history and execution mode, also after failures, gives bit-identical results and uses the same random numbers.",
  ["histories", "inputs", "schedules"],
  "all forms of the same data, all model classes, options, histories of operations and execution modes",
  "Tests use frames with default row numbers and floats; frames that were filtered, sorted or merged before are what users pass.",
  ["doubleml/double_ml_data.py", BASE, "doubleml/utils/blp.py", "doubleml/utils/policytree.py"],
  [("columns to arrays", "doubleml/double_ml_data.py:set_x_d,_set_y_z,_set_time_var,_set_score_var"), ("frames of analyses", BASE + ":gate,cate,policy_tree"), ("integer targets", "np.full_like in doubleml/plm, doubleml/rdd, doubleml/did")])

p("N01", "Simulated datasets follow their documented distributions",
  "The dataset generators draw from the data generating processes described in their documentation.",
  ["inputs"], "all parameters and streams",
  "Distributional claims need statistical judgement over many draws; tests check only shapes and types.",
  ["doubleml/datasets.py", "doubleml/rdd/datasets/simple_dgp.py"], [("generators", "doubleml/datasets.py")])
p("N02", "Numerics of the regression-discontinuity local regression and kernels",
  "Bandwidths, kernel weights and bias-corrected local polynomial estimates agree with the published formulas.",
  ["inputs"], "all data sets and kernels",
  "Delegated to an external package; tests compare with that package on fixed data.",
  ["doubleml/rdd/rdd.py"], [("rdrobust calls", "doubleml/rdd/rdd.py")])
p("N04", "Estimators are consistent and intervals have nominal coverage",
  "Under the documented assumptions estimates converge to the true effects and confidence intervals cover them at the nominal rate.",
  ["inputs"], "all admissible data generating processes and learners",
  "An asymptotic statistical claim; tests check a few large simulations.",
  CLS, [("orthogonal scores", "all model classes")])
p("N05", "Numerical tightness of the sensitivity bounds",
  "The sensitivity parameters yield the sharpest omitted-variable-bias bounds for the given strength of confounding.",
  ["inputs"], "all confounding scenarios",
  "A numerical statement about a pure function of the reported sensitivity elements.",
  [FW, "doubleml/utils/_sensitivity.py"], [("bounds", FW + ":_calc_sensitivity_analysis,_calc_robustness_value")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
