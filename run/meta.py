#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (only properties with a harness in props.py)."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "run"))
from props import PROPS
S, I = "src/gwmodelpp/", "include/gwmodelpp/"
T = {}
def prop(pid, title, statement, over, qtext, why, files, mech, technique, note, observe=None):
    T[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, observe=observe)

prop("C01", "Kernel weights follow the chosen kernel and bandwidth for any distances",
 "For every distance vector, kernel (Gaussian, exponential, bisquare, tricube, boxcar) and bandwidth (fixed, or adaptive with integral, fractional or larger-than-sample neighbour counts), the weights are the kernel's formula at the bandwidth distance, lie in [0,1], equal one at distance zero, never grow with distance, never shrink when the bandwidth grows, and are zero at and beyond the bandwidth for the compact kernels. They do not depend on the order of the points or the unit of distance, evaluating them changes no setting, and setters and copies behave like a freshly constructed weighting.",
 ["inputs", "configurations"], "all distance vectors with a positive bandwidth distance, all kernels, fixed and adaptive bandwidths (at least one neighbour)",
 "The tests evaluate two or three fixed configurations on one data set; ties, fractional neighbours, bandwidths larger than the sample and edges of compact kernels are never reached.",
 [I + "spatialweight/BandwidthWeight.h", S + "spatialweight/BandwidthWeight.cpp", I + "spatialweight/SpatialWeight.h"],
 [("kernel functions and adaptive bandwidth distance", S + "spatialweight/BandwidthWeight.cpp"), ("weight vector of a focus point", I + "spatialweight/SpatialWeight.h weightVector")],
 "property-based testing against a long-double reference model plus metamorphic relations (permutation, unit change, monotonicity)", "generated distance vectors of up to 80 points; tolerance 1e-9 relative")
prop("C02", "Distances of every metric are right, with right extremes and bounds checking",
 "Euclidean, great-circle, Minkowski (any order and rotation), one-dimensional and space-time distances from any focus point to all data points equal the metric's definition, are non-negative and zero for coinciding points, and are symmetric where the metric is. The reported minimum and maximum distances are those over all pairs, and a focus index outside the points is rejected with an error.",
 ["inputs", "configurations"], "all focus and data point sets (also different sets, duplicates, longitudes beyond 180), all metric parameters",
 "The tests check a few points of one data set with two metrics; special cases of the formulas (orders 1, 2, chessboard, rotation, same latitude, future observations) are not enumerated.",
 [S + "spatialweight/CRSDistance.cpp", S + "spatialweight/MinkwoskiDistance.cpp", S + "spatialweight/OneDimDistance.cpp", S + "spatialweight/CRSSTDistance.cpp", I + "spatialweight/Distance.h"],
 [("distance functions", "spatialweight/*Distance.cpp distance()"), ("extremes", "spatialweight/*Distance.cpp maxDistance()/minDistance()")],
 "property-based testing against independent long-double metric formulas (haversine as second oracle for great circles) and metric axioms", "up to 25x25 points per case; great-circle pairs nearer than 18500 km compared to 1e-6 relative")
prop("C03", "Weighting schemes behave as values through any history of copies and edits",
 "Whatever sequence of constructing, copying, assigning, moving, self-assigning, editing and destroying weighting schemes and their parts is carried out, each live object yields exactly the weights and distances of its own last configuration. Copies share nothing with their originals, algorithms keep their own copy of the scheme given to them, and no operation of such a history corrupts memory.",
 ["histories"], "all operation sequences over a pool of weighting schemes with every type of distance, in any state of configuration",
 "Aliasing and ownership faults need a particular multi-step history; the tests construct a scheme once and use it.",
 [I + "spatialweight/SpatialWeight.h", I + "spatialweight/CRSDistance.h", I + "spatialweight/CRSSTDistance.h", I + "spatialweight/OneDimDistance.h", I + "spatialweight/DMatDistance.h", I + "spatialweight/MinkwoskiDistance.h", I + "spatialweight/BandwidthWeight.h"],
 [("copy/move/assign/clone of parts", I + "spatialweight/SpatialWeight.h")],
 "stateful model-based testing (operation histories against a value model) under AddressSanitizer and UBSan", "histories of up to 25 operations over 4 slots; moved-from objects are only destroyed or assigned to")
prop("C04", "Bandwidth search stays in bounds and returns the best bandwidth it evaluated",
 "For any criterion function and search range the search terminates, evaluates only bandwidths inside the range (whole neighbour counts for adaptive ones), returns the best of the evaluated bandwidths with kernel and type preserved and the starting weighting unmodified, and locates the minimum of a criterion with a single minimum. Its reported list is exactly the accepted evaluations in ascending order; a cancelled search returns the starting bandwidth, a search with no acceptable start fails. A model that selects its bandwidth reports criteria equal to those of an independent computation and its coefficients are those of the selected bandwidth.",
 ["inputs", "configurations", "histories"], "all criterion functions (smooth, kinked, monotone, multimodal, noisy, partly rejected), ranges, cancellation points",
 "The tests run the search on one data set and compare one number; other shapes of the criterion, rejected regions, rounding at the bounds and cancellation are not sampled.",
 [S + "BandwidthSelector.cpp", I + "BandwidthSelector.h", I + "IBandwidthSelectable.h", S + "GWRBasic.cpp"],
 [("golden section search", S + "BandwidthSelector.cpp optimize")],
 "property-based testing with generated criterion functions and a recording stub, plus an in-model differential against a long-double reference", "adaptive ranges up to 3000, at most 200 evaluations accepted; convergence asserted for unimodal criteria only")
prop("C05", "Forward selection of variables follows the documented greedy procedure",
 "For any candidate variables, criterion and threshold, forward selection evaluates exactly the greedy sequence of models, lists them grouped by size from worst to best with their criteria, and returns the model the threshold rule designates, without modifying its inputs. A cancelled selection keeps all variables. In a regression (basic or density) the criteria are the AICc values of the global models, and the fit after selection is the fit on exactly the selected columns.",
 ["inputs", "configurations", "histories"], "all sets of candidate variables, criterion functions, thresholds, cancellation points",
 "The tests select among three variables of one data set; order, ties with the threshold, rejections and cancellation are not sampled.",
 [S + "VariableForwardSelector.cpp", I + "VariableForwardSelector.h", S + "GWRBasic.cpp", S + "GWDR.cpp"],
 [("greedy selection", S + "VariableForwardSelector.cpp optimize"), ("selection in a fit", S + "GWRBasic.cpp fit")],
 "property-based testing against an executable specification of greedy selection, plus an in-model differential", "up to 9 candidate variables; criteria closer than 1e-7 to a tie or to the threshold are discarded in the in-model check")
prop("C06", "Basic GWR computes the local weighted least-squares fit and its diagnostics",
 "At every location the coefficients of basic GWR are the weighted least-squares solution with that location's kernel weights; hat matrix, its traces, standard errors, residual statistics (RSS, AIC, AICc, degrees of freedom, R2 and adjusted R2) are those of that fit, with or without stored matrices, serially or with any number of threads. An exactly singular local regression is reported as an error, and an unbounded bandwidth gives the global regression.",
 ["inputs", "configurations"], "all well-conditioned data sets, layouts, kernels, bandwidths, metric types, thread counts and storage options",
 "The tests fit one data set with one or two configurations and compare rounded quantiles.",
 [S + "GWRBasic.cpp", I + "GWRBasic.h", S + "GWRBase.cpp"],
 [("local regression", S + "GWRBasic.cpp fitBase/fitCoreSerial/fitCoreOmp"), ("diagnostics", S + "GWRBasic.cpp CalcDiagnostic")],
 "property-based differential testing against an independent long-double implementation", "n up to 60, k up to 5, condition number of every local normal matrix below 1e8")
prop("C07", "Prediction depends only on the data and the queried location",
 "Predicted coefficients at a set of locations are, row by row, those of the local regression at that location: they do not depend on the other queried locations, their number or order, or on whether the model was fitted before, and at the observations they equal the fitted coefficients where the method defines both alike. Predicting leaves the fitted results, data and settings of the model unchanged.",
 ["inputs", "histories", "configurations"], "all location sets (inside, outside, duplicates, more or fewer than the data), for every model with prediction, serial and parallel",
 "The tests predict at the observations once; other sets of locations and repeated calls are not sampled.",
 [S + "GWRBasic.cpp", S + "GWRRobust.cpp", S + "GWRLocalCollinearity.cpp", S + "GWRGeneralized.cpp", S + "GWRScalable.cpp", S + "GTWR.cpp"],
 [("prediction", "predict* functions of each model")],
 "metamorphic property-based testing (subset, permutation, repetition, at-observations) across models", "known findings: models whose prediction is a stub are listed in known_findings.json")
prop("C08", "Parallel (OpenMP) runs give the serial results for any thread count and schedule",
 "For every algorithm, data set and configuration, running with any number of threads gives the same results as the serial run up to rounding: coefficients, statistics, criteria, selected bandwidths and variables, predictions, status. When the serial run fails, the parallel one fails with an error too (never crashes or returns numbers), and repeated parallel runs agree.",
 ["schedules", "inputs", "configurations"], "all algorithms with a multithreaded mode, 1-16 threads, singular and regular data, repeated runs",
 "The tests run two fixed thread counts on one data set where most threads have work of the same kind; races, empty partitions and failures inside parallel regions are not reached.",
 [S + f for f in ("GWRBasic.cpp", "GWRRobust.cpp", "GWRLocalCollinearity.cpp", "GWRGeneralized.cpp", "GTWR.cpp", "GWDR.cpp", "GWSS.cpp", "GWDA.cpp", "GWRMultiscale.cpp")],
 [("OpenMP variants", "functions whose name ends in Omp")],
 "differential property-based testing of serial against parallel runs over generated models, thread counts and repeated schedules", "schedules are those the machine produces (1-16 threads, repeated runs on up to 220 observations), not enumerated")
prop("C09", "Distributed (MPI) runs give the serial results for any number of processes",
 "Basic and multiscale GWR run over any number of processes (also more than the partition has work for, with or without threads) give on the master the results of the serial run up to rounding, including automatic selection, and one object may be used distributed and alone in turn. A failure in one process is reported by all and never leaves the others waiting, and the distributed matrix product equals the serial one for any row partition.",
 ["schedules", "inputs", "configurations"], "1-7 processes, all partitions of rows including empty ones, singular locations met by one process only",
 "The tests of the distributed mode use one process count on one data set and are not part of the reliable test suite here.",
 [S + "GWRBasic.cpp", S + "GWRMultiscale.cpp", S + "utils/armampi.cpp"],
 [("MPI variants", "functions whose name contains Mpi"), ("block product", S + "utils/armampi.cpp mat_mul_mpi")],
 "differential property-based testing: batches of generated models under mpiexec compared with serial runs", "process counts 1-7 on one machine")
prop("C10", "Selection criteria are those of the models they select",
 "The criterion reported for a candidate bandwidth or variable set is the cross-validation score or AICc of exactly that model, evaluating it changes neither the candidate nor the model, and every entry of a reported criterion list reproduces. A model that selects bandwidth or variables itself yields the same results as one given that selection by hand.",
 ["inputs", "configurations"], "all models with automatic selection, candidate bandwidths and kernels, variable subsets, serial and parallel",
 "The tests compare one selected bandwidth on one data set.",
 [S + f for f in ("GWRBasic.cpp", "GWRRobust.cpp", "GWRLocalCollinearity.cpp", "GWRGeneralized.cpp", "GTWR.cpp", "GWDR.cpp", "BandwidthSelector.cpp")],
 [("criteria", "bandwidthSizeCriterion*/indepVarsSelectionCriterion* functions")],
 "property-based differential testing (criterion against a reference; automatic against specified runs)", "n up to 50; ill-conditioned or saturated models discarded")
prop("C12", "Local summary statistics equal their weighted definitions",
 "Local means, variances, standard deviations, skewness, coefficients of variation, medians, quartile ranges, quantile imbalances, covariances and (rank) correlations are at every location the weighted statistics under that location's kernel weights, for all pairs of variables or those with the first only. Correlations stay within [-1,1], quantiles within the data range.",
 ["inputs", "configurations"], "all data sets, kernels, bandwidths, sets of variables, modes",
 "The tests compare one data set with one kernel; dominated quantiles, ties and degenerate weights are not sampled.",
 [S + "GWSS.cpp", I + "GWSS.h"], [("average and correlation modes", S + "GWSS.cpp")],
 "property-based differential testing against a long-double reference", "n up to 60; quantiles compared where the reference is not at a rounding tie")
prop("C13", "Weighted principal components match the local eigen-decomposition",
 "At every location the reported standard deviations, shares of variance and loadings are those of the eigen-decomposition of the local weighted covariance: shares decrease and sum to at most 100%, loadings are orthonormal and match up to sign. Running the analysis again gives the same results.",
 ["inputs", "configurations"], "all data sets, kernels, bandwidths, numbers of variables and kept components",
 "The tests compare one data set with two kept components.",
 [S + "GWPCA.cpp", I + "GWPCA.h"], [("weighted decomposition", S + "GWPCA.cpp")],
 "property-based differential testing against a Jacobi eigen-decomposition in long double", "2-5 variables, n up to 60; loadings compared where the eigenvalue gap exceeds 1e-3")
EXTRA = os.path.join(HERE, "run", "meta_more.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

def main():
    out, checks = [], []
    for pid in sorted(T):
        if pid not in PROPS: continue
        t = T[pid]
        assert len(t["title"]) <= 80, (pid, len(t["title"]))
        o = {"id": pid, "title": t["title"], "statement": t["statement"], "quantifier": {"over": t["over"], "text": t["qtext"]}, "why_tests_cant": t["why"],
             "anchors": {"files": t["files"], "mechanism": [{"name": a, "where": b} for a, b in t["mech"]]}}
        out.append(json.dumps(o))
        checks.append({"property": pid, "quick_cmd": "python3 run/check.py %s --tier quick" % pid, "thorough_cmd": "python3 run/check.py %s --tier thorough" % pid,
                       "technique": t["technique"], "level": "exploration", "level_note": t["note"]})
    open(os.path.join(HERE, "properties.jsonl"), "w").write("\n".join(out) + "\n")
    json.dump({"version": 1, "setup_cmd": "python3 -c \"import sys; sys.exit(0)\"", "checks": checks, "not_applicable": []}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(out), "properties; missing text:", [p for p in PROPS if p not in T])
if __name__ == "__main__":
    main()
