prop("C14", "Robust regression applies its two outlier treatments as defined",
 "The filtered variant removes exactly the observations whose externally scaled residual exceeds three and refits without them, so that they have no influence; the iterative variant refits with residual-based down-weights until the error variance settles or the iteration limit is met. Coefficients, standard errors, hat-matrix traces and all diagnostics are those of the last weighted fit, also when the same object is fitted again, with or without threads or hat matrix.",
 ["inputs", "configurations"], "all regression data with any number and size of outliers, both treatments, kernels, bandwidths, serial and parallel",
 "The tests check one data set without real outliers, where no weight changes.",
 [S + "GWRRobust.cpp", I + "GWRRobust.h"], [("filtered and iterative treatment", S + "GWRRobust.cpp robustGWRCaliFirst/robustGWRCaliSecond"), ("residual filter", S + "GWRRobust.cpp filtWeight")],
 "property-based differential testing against a long-double executable specification with injected outliers", "n 12-45; cases whose outlier decision sits within 1e-5 of a threshold are discarded")
prop("C15", "Generalized models are the fixed point of local likelihood iterations",
 "For Poisson and binomial data, coefficients, deviance, AIC, AICc and pseudo R2 are those of locally weighted iterative reweighting run to the set tolerance or iteration limit; bandwidth criteria are those of the same iteration, and predictions use the working responses of the samples. The accompanying global model has the maximum-likelihood deviance, null deviance, AIC and AICc, and the densities, links, variances, likelihoods and starting values of the two families and the weighted solves offered as building blocks equal their formulas.",
 ["inputs", "configurations"], "all count and binary data with a finite local maximum of the likelihood, kernels, bandwidths, tolerances, iteration limits, serial and parallel",
 "The tests fit one Poisson and one binomial data set with the default settings.",
 [S + f for f in ("GWRGeneralized.cpp", "GeneralizedLinearModel.cpp", "PoissonModel.cpp", "BinomialModel.cpp")],
 [("local iterative reweighting", S + "GWRGeneralized.cpp PoissonWt*/BinomialWt*"), ("calibration and diagnostics", S + "GWRGeneralized.cpp fit*/fit"), ("global model", S + "GeneralizedLinearModel.cpp")],
 "property-based differential testing against a long-double reference of the iteration and an independent Newton maximum-likelihood fit", "n 6-60, 1-4 coefficients; separable or ill-conditioned data discarded")
prop("C16", "Locally compensated ridge regression uses the right ridge at every location",
 "Coefficients at every location are those of ridge regression on locally weighted data with the given ridge parameter, or with the one that brings the local condition number to the threshold where adjustment is on and the condition number exceeds it. Fitted diagnostics, predictions and the cross-validation criterion use that same ridge.",
 ["inputs", "configurations"], "all data including nearly collinear predictors, ridge parameters, thresholds, kernels, bandwidths, serial and parallel",
 "The tests use one data set with adjustment triggered everywhere or nowhere.",
 [S + "GWRLocalCollinearity.cpp", I + "GWRLocalCollinearity.h"], [("ridge regression", S + "GWRLocalCollinearity.cpp ridgeLm"), ("fit, prediction, criterion", S + "GWRLocalCollinearity.cpp")],
 "property-based differential testing against an independent long-double ridge solver and eigenvalue method", "two or more coefficients; condition numbers at the threshold discarded")
prop("C17", "Scalable regression is consistent with its reported scale and penalty",
 "The coefficients at every location are those of the polynomial-kernel regression with the reported scale and penalty, the reported criterion is the objective's value at them and no better value is found nearby, and the diagnostics are those of the reported coefficients. Fitting again changes nothing.",
 ["inputs", "configurations"], "all data sets, neighbour counts, polynomial degrees, kernels with unbounded support, both criteria",
 "The tests check one data set with the default polynomial.",
 [S + "GWRScalable.cpp", I + "GWRScalable.h"], [("moment computation and optimisation", S + "GWRScalable.cpp")],
 "property-based testing against a long-double reference of the moment regression and the optimised objective", "n up to about 40; condition numbers beyond 6e3 discarded (the local systems are solved in single passes of doubles)")
prop("C18", "Multiscale regression converges by backfitting with a bandwidth per variable",
 "Starting from a single-bandwidth fit, each sweep refits every variable alone on its partial residual with its own kernel and bandwidth, searching or keeping that bandwidth as configured, until the change criterion falls below the threshold or the iteration limit is met. The coefficients, bandwidths, residuals and diagnostics reported, including hat-matrix traces and degrees of freedom, are those of exactly that procedure; kernels and bandwidth types are never changed.",
 ["inputs", "configurations"], "all data, per-variable weights, initialisation types, criteria, thresholds, retry counts, iteration limits and centring flags, serial and parallel",
 "The tests fit one data set with one configuration and check only final bandwidths and a few quantiles.",
 [S + "GWRMultiscale.cpp", I + "GWRMultiscale.h", S + "BandwidthSelector.cpp"], [("backfitting loop", S + "GWRMultiscale.cpp backfitting"), ("single-variable regressions", S + "GWRMultiscale.cpp fitVarCore*"), ("criteria", S + "GWRMultiscale.cpp bandwidthSizeCriterionVar*")],
 "property-based differential testing against a long-double executable specification of backfitting and golden-section search", "n 22-44, 1-4 variables; ties in stopping or search decisions discarded")
prop("C19", "Space-time regression weights by the combined space-time distance",
 "The coefficients, standard errors, hat matrix and diagnostics of a geographically and temporally weighted fit are those of local weighted least squares with weights from the combined distance of space and time, in which observations later in time have no influence. Bandwidth criteria equal the cross-validation error or AICc of the same weights; an automatically selected bandwidth or space-time balance is the search's best over its range and the fit is the one at the reported value.",
 ["inputs", "configurations"], "all space-time data, balances, angles, kernels, bandwidths, both criteria, serial and parallel",
 "The tests use one data set, one balance and one angle.",
 [S + "GTWR.cpp", I + "GTWR.h", S + "spatialweight/CRSSTDistance.cpp", S + "spatialweight/OneDimDistance.cpp"], [("local fits", S + "GTWR.cpp fitSerial/fitOmp"), ("combined distance", S + "spatialweight/CRSSTDistance.cpp"), ("balance selection", S + "GTWR.cpp LambdaBwAutoSelection")],
 "property-based differential testing against long-double local weighted least squares, plus a non-interference relation (changing later observations)", "n 10-60; automatic bandwidths with time in the distance only for neighbour-count bandwidths, because the sentinel distance of later observations makes a fixed range meaningless")
prop("C20", "Density regression weights by the product of one kernel per coordinate",
 "Coefficients, standard errors, hat matrix and diagnostics equal local weighted least squares whose weights are the product of one kernel per coordinate dimension, and the reported criterion is the cross-validation error or AICc of the same weights. Forward selection of variables keeps the set its AICc rule and threshold give, and the final fit uses exactly that set. A bandwidth optimisation never ends worse than it started, keeps kernels and bandwidth types, and the fit is the one at the reported bandwidths.",
 ["inputs", "configurations"], "all data in one to four dimensions, kernels and bandwidths per dimension, both criteria, serial and parallel",
 "The tests use one data set with one kernel for both dimensions.",
 [S + "GWDR.cpp", I + "GWDR.h"], [("local fits", S + "GWDR.cpp fitCore*"), ("criteria", S + "GWDR.cpp bandwidthCriterion*"), ("optimiser and variable selection", S + "GWDR.cpp GWDRBandwidthOptimizer, indepVarCriterion*")],
 "property-based differential testing against long-double local weighted least squares with product weights", "n 10-45, 1-4 dimensions; searches that hit their iteration limit report an error and are discarded")
prop("C21", "Discriminant analysis classifies by local moments",
 "At every location the score of each group is the one given by its local (or, where switched off, global) mean, covariance and prior, with own covariance per group in the quadratic and pooled covariance in the linear variant, excluding the location itself. The class is the group of the smallest score, probabilities are the normalised exponentials and sum to one, the entropy lies in [0,1], and the correct rate is the share of matching classes; the order of rows and the names of groups do not matter.",
 ["inputs", "configurations"], "all data with two or more groups and variables, all switches, kernels, bandwidths, serial and parallel",
 "The tests check one data set with both variants and default switches.",
 [S + "GWDA.cpp", I + "GWDA.h"], [("scores", S + "GWDA.cpp wqda/wlda"), ("moments", S + "GWDA.cpp wMean/wVarCov/wPrior/covwtmat"), ("probabilities and entropy", S + "GWDA.cpp run")],
 "property-based differential testing against a long-double reference, plus metamorphic reordering and renaming", "n 14-70, 2-4 variables, 2-4 groups; groups without usable local moments discarded")
prop("C22", "Cancellation at any moment is reported, prompt and leaves no trace",
 "Whenever a run or prediction of any algorithm is told to stop through its telegram, at whatever moment (a poll, a message or a progress report), it returns without an error, reports the terminated status and does not go on working; while it works it keeps asking whether to stop. An undisturbed run reports success, progress never exceeds its total and, in serial runs, ends at it, and a new run or prediction of the same object that is not cancelled gives exactly the results of an untouched object.",
 ["inputs", "histories", "schedules"], "all algorithms and configurations, every poll, message or progress report as the moment of the request, repeated cancellations, serial and parallel",
 "The tests cancel at a few named stages of one data set and only look at the status.",
 [I + "Algorithm.h"] + [S + f for f in ("GWRBasic.cpp", "GWRMultiscale.cpp", "GWRGeneralized.cpp", "GWRRobust.cpp", "GWRLocalCollinearity.cpp", "GWRScalable.cpp", "GTWR.cpp", "GWDR.cpp", "GWSS.cpp", "GWPCA.cpp")],
 [("polling macros", I + "Algorithm.h GWM_LOG_STOP_*"), ("polls of every stage", S + "*.cpp")],
 "fault-injection property-based testing: a telegram that cancels at a generated poll index, then a model-based comparison of the next run with an untouched object", "n up to about 40; poll bound after the stop: 20 serial, 4n+60 parallel; longest stretch without a poll: 8+4t reported events (30+4t for density regression)")
prop("C23", "Objects carry nothing from one use into the next",
 "Whatever an algorithm object went through before (fits of other data or settings, failing fits, cancelled runs, predictions, criterion evaluations, changes of the number of threads), once it is configured anew a fit or prediction gives exactly the results, status or error that an untouched object with the same configuration gives. No operation on one object changes the results of another.",
 ["histories", "inputs", "configurations"], "all operation sequences over several objects of all algorithms, including configurations without a solution",
 "The tests use each object once.",
 [S + f for f in ("GWRBasic.cpp", "GWRRobust.cpp", "GWRGeneralized.cpp", "GWRLocalCollinearity.cpp", "GWRMultiscale.cpp", "GWRScalable.cpp", "GTWR.cpp", "GWDR.cpp", "GWSS.cpp", "GWPCA.cpp", "GWDA.cpp")],
 [("initialisation of every run", S + "*.cpp fit/run"), ("results and settings kept in members", I + "*.h")],
 "stateful model-based testing: generated operation histories, the model being a fresh object per operation", "1-2 objects, 2-7 operations before the final fit, n up to about 40; results of switched-off options are not part of a run")
prop("C24", "Impossible configurations and unsolvable problems are refused, never answered",
 "An algorithm reports a consistent configuration as valid and one with missing coordinates, variables or weights, coordinates that are not finite, data of different sizes or a wrong number of per-variable settings (and, for basic, robust, scalable and space-time GWR, a non-positive bandwidth) as invalid, before and after other uses. Whatever is reported valid can be run without crashing the process. A regression without a unique solution, or a prediction where no observation is within reach, ends with an error instead of a success with arbitrary numbers, and the object remains usable.",
 ["inputs", "configurations"], "all algorithms, every single defect of an otherwise consistent configuration, rank-deficient problems, unreachable locations, serial and parallel",
 "The tests never call the validity checks with bad configurations and fit only well-posed data.",
 [S + f for f in ("SpatialAlgorithm.cpp", "SpatialMonoscaleAlgorithm.cpp", "GWRBase.cpp", "GWRBasic.cpp", "GTWR.cpp", "GWDR.cpp", "GWDA.cpp", "GWSS.cpp", "GWPCA.cpp", "GWRMultiscale.cpp", "GWRScalable.cpp", "GWRGeneralized.cpp")],
 [("validity checks", S + "*.cpp isValid"), ("solver failures", S + "*.cpp catch blocks around the local solves")],
 "fault-injection property-based testing: one generated defect per configuration, with the sound counterpart as control", "exactly singular problems (zero columns), so that no rounding decides; problems that are only nearly singular are not judged")
prop("C25", "Odd data and settings never crash, hang or corrupt memory",
 "Whatever configuration an algorithm reports as valid (tiny samples, more variables than observations, a single variable, constant, huge, infinite or missing values, coincident or very distant places, extreme bandwidths, thresholds, polynomial orders and penalties, automatic selection), running it, predicting with it or evaluating a bandwidth criterion ends with results or a standard exception. It never aborts, hangs, reads or writes outside its data or executes undefined behaviour, and a run nobody cancelled is not reported as cancelled.",
 ["inputs", "configurations"], "all algorithms, 1-3 simultaneous oddities per configuration, serial and with 1-5 threads",
 "The tests use one well-behaved data set each and are not run under sanitizers.",
 [S + f for f in ("GWRBasic.cpp", "GWRRobust.cpp", "GWRGeneralized.cpp", "GWRLocalCollinearity.cpp", "GWRMultiscale.cpp", "GWRScalable.cpp", "GTWR.cpp", "GWDR.cpp", "GWSS.cpp", "GWPCA.cpp", "GWDA.cpp", "VariableForwardSelector.cpp", "BandwidthSelector.cpp", "spatialweight/BandwidthWeight.cpp")],
 [("weights of odd distances", S + "spatialweight/BandwidthWeight.cpp weight"), ("selection without candidates", S + "VariableForwardSelector.cpp optimize"), ("error paths", S + "*.cpp catch blocks inside parallel regions")],
 "structured fuzzing of configurations under AddressSanitizer and UndefinedBehaviorSanitizer with shrinking", "finite prediction locations; coordinates up to 1e150; n up to 22; a case that runs longer than 90 s counts as a hang")
prop("C11", "Results follow the data, not their order, units or place on the map",
 "Reordering the observations reorders the results and changes nothing else; reordering, rescaling or recombining the variables, rescaling the response or adding a linear function of the variables to it, complementing a binary response, doubling every observation, and mirroring, moving, turning or rescaling the map (with fixed bandwidths) change coefficients, standard errors, diagnostics, statistics and predictions exactly as the model's definition says. Local results do not depend on an observation whose weight there is zero.",
 ["inputs", "configurations"], "all algorithms, all numerically stable data sets and settings, all such transformations, serial and parallel",
 "The tests compare one data set in one order and one unit with stored numbers; errors that need another order, unit, orientation or place stay hidden.",
 [S + f for f in ("GWRBasic.cpp", "GWRRobust.cpp", "GWRGeneralized.cpp", "GWRLocalCollinearity.cpp", "GWRMultiscale.cpp", "GWRScalable.cpp", "GTWR.cpp", "GWDR.cpp", "GWSS.cpp", "GWPCA.cpp", "GWDA.cpp", "spatialweight/CRSDistance.cpp", "spatialweight/BandwidthWeight.cpp")],
 [("local regressions", S + "*.cpp fit/predict"), ("local statistics", S + "GWSS.cpp, GWPCA.cpp, GWDA.cpp"), ("distances and weights", S + "spatialweight/*.cpp")],
 "metamorphic property-based testing: a generated transformation of a generated problem with a computed expected change of every result", "problems whose results react to input noise of 6e-14 by more than 1e-9 are discarded; searches (bandwidth, scale) only with transformations free of rounding, since they stop on absolute differences; n up to about 40")
prop("C26", "Settings read back as set and act alike in whatever order they are made",
 "Every setting of an algorithm (data, weighting, criteria, thresholds, limits, options, kind of parallelism) reads back as last set, whatever other settings are made before or after it and whatever is run in between, except for what a run is asked to select itself. Validity, results, status and errors depend only on the values set and not on the order of setting them, on earlier values of the same settings, or on whether they were given to the constructor. A kind of parallelism that an algorithm does not offer changes nothing or is carried out in serial.",
 ["histories", "configurations"], "all algorithms, all their settings, all sequences of changes before and after a run",
 "The tests set every option once, in one order, and never read a setting back.",
 [S + f for f in ("GWRBasic.cpp", "GWRRobust.cpp", "GWRGeneralized.cpp", "GWRLocalCollinearity.cpp", "GWRMultiscale.cpp", "GTWR.cpp", "GWDR.cpp", "GWSS.cpp", "GWDA.cpp")] + [I + f for f in ("GWRBase.h", "GWRScalable.h", "GWPCA.h", "SpatialMonoscaleAlgorithm.h", "SpatialMultiscaleAlgorithm.h")],
 [("settings that select an implementation", S + "*.cpp setParallelType, setBandwidthSelectionCriterion*, setFamily, setGWSSMode"), ("plain settings and constructors", I + "*.h")],
 "stateful model-based testing: generated sequences of settings against a model that remembers the last value of each, and a differential run of a second object set up in another order or by constructor", "n 12-36; up to 14 changes before and 6 after a run; MPI kinds only where an algorithm does not run them; bandwidths and variables chosen by a run, and what multiscale regression rewrites (its centred variables and initialisation flags), are not required to stay")
prop("C27", "The messages of a run tell what it does, and observing it changes nothing",
 "Every message a run sends to its observer is true: each bandwidth, set of variables or balance reported with a criterion has that criterion and is one of those the run evaluated (and every one in the reported list was announced), and the sweeps of multiscale regression are reported in order, with their true bandwidths, changes, retries and criterion, and end for the reason the reports give. A run with fixed settings that fails in a local regression reports an error before it fails, and a successful one reports none. Progress counts rise to their total without gaps (with threads, every count of a round once), percentages stay within 0 and 1, and a run or prediction gives the same results, status or failure whether it is observed or not.",
 ["inputs", "configurations"], "all algorithms, data sets, kernels, bandwidths, searches and numbers of threads",
 "No test installs an observer that reads messages; the values in them are only ever seen by the user of a front end.",
 [S + f for f in ("GWRBasic.cpp", "GWRRobust.cpp", "GWRMultiscale.cpp", "GTWR.cpp", "GWDR.cpp", "BandwidthSelector.cpp", "VariableForwardSelector.cpp")] + [I + f for f in ("Logger.h", "Algorithm.h", "IBandwidthSelectable.h", "IVarialbeSelectable.h")],
 [("message formats", I + "IBandwidthSelectable.h, IVarialbeSelectable.h, GTWR.h, GWDR.h infoBandwidthCriterion"), ("reports of a search or sweep", S + "*.cpp GWM_LOG_INFO, GWM_LOG_MGWR_*")],
 "property-based testing: parsing the message history of generated runs against the reported lists, independent refits at the reported settings, a state machine of the sweeps, and a differential run without observer", "n 12-30; messages carry six decimals, so refits allow for the rounding of the setting; the global step of generalized regression and the searches of locally collinear, generalized and spatio-temporal regression (which announce a search but not its steps) are only checked for their announcement")
prop("C28", "Parallel runs are free of data races and separate objects are independent",
 "While a run uses several threads, no two of them touch the same datum without synchronisation when one of them writes it (the one-way mark by which a location that cannot be fitted makes the others stop is exempt). Separate objects, of the same or of different algorithms, can be configured, run and read at the same time from different threads of the program, without data races, and each gives exactly the results, or the failure, it gives alone.",
 ["schedules", "inputs", "configurations"], "all algorithms, data sets, kernels, options, searches, numbers of threads and schedules of them",
 "A race shows in a result only under unlucky timing; the tests run one small data set in one process, and compare rounded numbers.",
 [S + f for f in ("GWRBasic.cpp", "GWRRobust.cpp", "GWRGeneralized.cpp", "GWRLocalCollinearity.cpp", "GWRMultiscale.cpp", "GTWR.cpp", "GWDR.cpp", "GWSS.cpp", "GWDA.cpp")] + [I + f for f in ("spatialweight/SpatialWeight.h", "Logger.h")],
 [("loops shared by the threads", S + "*.cpp #pragma omp parallel for"), ("state shared by objects (there should be none)", I + "Algorithm.h, Logger.h, spatialweight/*.h")],
 "property-based testing with ThreadSanitizer as the oracle for races (every conflicting pair of accesses not ordered by synchronisation is reported, whatever the timing was), a small OpenMP run time on plain threads so that the synchronisation of parallel regions is seen exactly, and a differential check of concurrent against solitary runs", "n 12-40; 2-6 threads per run, 2-4 objects at once; runs in which a local regression fails are not judged; the numerical libraries (BLAS, LAPACK) are not instrumented; no GPU, no MPI")
prop("C29", "Duplicating every observation changes results only as the duplication implies",
 "If every observation of a data set is entered m times (and an adaptive bandwidth counts m times the neighbours), local coefficients, local statistics, explained variance and effective numbers of parameters stay the same, sums of squares and deviances grow m-fold, and standard errors, information criteria and leverage diagnostics follow from the small model by their formulas. This holds for small data sets and for those so large (8192 observations or more) that the hat matrix is not kept, in serial and with threads.",
 ["inputs", "configurations"], "all data sets, kernels, bandwidths, numbers of copies and of threads, for basic, locally collinear, generalized, spatio-temporal and density regression, local summaries and principal components",
 "No test runs a data set near the size at which storage changes, and the expected numbers of a test are those of one data set.",
 [S + f for f in ("GWRBasic.cpp", "GWRGeneralized.cpp", "GWRLocalCollinearity.cpp", "GTWR.cpp", "GWDR.cpp", "GWSS.cpp", "GWPCA.cpp")] + [I + f for f in ("GWRBasic.h", "GTWR.h", "GWDR.h")],
 [("whether the hat matrix is kept", I + "GWRBasic.h, GTWR.h, GWDR.h isStoreS"), ("fits and their diagnostics", S + "*.cpp fitCore*, fitSerial, fitOmp, CalcDiagnostic")],
 "property-based testing, metamorphic relation between the run on a data set and the run on its m-fold duplication, with predicted diagnostics", "n 12-40 with 2-5 copies; n 8192-8250 for basic, spatio-temporal and density regression (8 data sets per quick run); bandwidths given, not searched; nearly singular or saturated small models are not judged")
