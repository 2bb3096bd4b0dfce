#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 mkmeta.py"""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe or ["the optimizer's public API"], "hook_needed": None}})


ST = "src/cmastrategy.cc"
ES = "src/esostrategy.cc"
SO = "src/cmasolutions.cc"
PA = "src/cmaparameters.cc"
SC = "src/cmastopcriteria.cc"
GP = "include/libcmaes/genopheno.h"

prop("C01", "Reported evaluation counts equal the objective calls actually made",
     "At every progress report, after every evaluation step and at the end of a run, the number of function evaluations the optimizer reports equals the number of calls it has made to the user's objective in that run. Each iteration asks for exactly as many candidates as the population size and evaluates each of them once; the only other calls are one for an initial evaluation when elitism, a requested initial value or an elitist restart needs it, dimension plus one for each numerical gradient (per iteration with the gradient option, once at the end with the expected-distance option), and at least one re-evaluation per iteration with uncertainty handling.",
     ["inputs", "configurations", "histories"], "all objectives, dimensions, population sizes, and combinations of elitism, initial value, gradient, uncertainty handling, two-point adaptation, EDM and restart options, at every point of the run",
     "The tests look at the counter only at the end of a few runs with one option at a time; the counter is maintained at six different places whose combinations they never exercise.",
     [ES, ST, "src/ipopcmastrategy.cc", "src/bipopcmastrategy.cc"], [("eval, update_fevals, gradf, perform_uh", ES), ("optimize: initial evaluation, edm", ST)],
     ["fevals(), nevals() from the progress function and the returned solutions; a counting objective"])

prop("C02", "Iteration, evaluation and target budgets end the search on time",
     "As soon as the iteration budget or the evaluation budget is used up, or the best candidate of the latest iteration reaches the target value, no further iteration of that search starts, whatever else the run is doing; the run reports this outcome as its status unless another criterion that is consulted earlier holds too. An optimization with increasing-population restarts starts no new run once the total number of evaluations has reached the evaluation budget.",
     ["inputs", "configurations", "histories"], "every objective, every budget value (including budgets that run out in the first iteration), every option combination and restart strategy",
     "Tests use one or two budgets on easy functions; whether the budget is respected depends on the history (initial evaluations, gradient and re-evaluations, restarts).",
     [SC, ST, "src/ipopcmastrategy.cc"], [("MAXITER, MAXFEVALS, FTARGET predicates", SC), ("IPOP loop on total evaluations", "src/ipopcmastrategy.cc")])

prop("C03", "A search stops exactly when an enabled stopping criterion holds",
     "Between iterations the search stops if and only if one of the enabled stopping criteria holds for the current history and search distribution, and the reported status is the first such criterion in the documented order; a disabled criterion never stops a search. The optimization returns an error code exactly for the negative statuses, and the status text says error for those, success for convergence and target, and partial success for the other tolerance criteria.",
     ["inputs", "configurations", "histories"], "all histories of objective values and distributions, all subsets of enabled criteria, tolerances, history lengths",
     "The criteria are functions of whole histories (windows of best values, medians of 20 iterations, condition numbers); the tests reach two or three of the twelve statuses on smooth functions.",
     [SC, "include/libcmaes/cmastopcriteria.h", SO, ST], [("criteria predicates, stop order", SC), ("history bookkeeping", SO), ("return code", ST)])

prop("C04", "Ranking and best/worst tracking agree with all values seen",
     "After every iteration the population is ordered by objective value, the best candidate is the one with the smallest value of the latest iteration, the best-seen candidate has the smallest value over the initial evaluation and all iterations of the current run, and the worst-seen candidate has the largest value over all iterations of it. The best solution handed to the user at the end is the best candidate of the last iteration, with uncertainty handling ordering the population by its own rank instead.",
     ["inputs", "histories", "configurations"], "all sequences of objective values (ties, infinities, plateaus), population sizes and options",
     "Tests check the final value on convex functions, where first, last, best and best-seen coincide.",
     [SO, "include/libcmaes/cmasolutions.h", ST], [("sort_candidates, update_best_candidates", SO), ("tell", ST)])

prop("C05", "Increasing-population restarts double, stay in budget, return the best run",
     "An optimization with increasing-population restarts runs at most the configured number of runs; every run starts from scratch (iteration zero, fresh counters, the configured step-size) with a population twice that of the previous run, until the restarts, the evaluation budget or a user abort end it. The solution returned is that of the run whose final best candidate has the smallest objective value, together with that run's own counters.",
     ["inputs", "configurations", "histories"], "all objectives and outcomes of the individual runs, restart counts, budgets and covariance variants",
     "Whether a restart follows, and which run wins, depends on how every earlier run ended; tests only check that a final value is small.",
     ["src/ipopcmastrategy.cc", ST], [("optimize, lambda_inc, reset_search_state, capture_best_solution", "src/ipopcmastrategy.cc")])

prop("C06", "Two-regime restarts follow their budget rule and return the best run",
     "In an optimization with two-regime restarts, a run with a large population is followed by small-population runs until those have used at least as many evaluations (iterations times population) as the large ones, then by the next large run with twice the previous large population, until the configured number of large runs is done or the user aborts. Small runs use a population between the default size and half the current large one, an initial step-size between 0.02 and 2 and half the evaluations spent so far in large runs as their budget; large runs use the configured step-size and budget; the solution returned is that of the run with the smallest final best value.",
     ["inputs", "configurations", "histories"], "all objectives, all random draws of the small regimes, restart counts and covariance variants",
     "The alternation depends on the accumulated cost of all earlier runs; tests only check that a final value is small.",
     ["src/bipopcmastrategy.cc", "src/ipopcmastrategy.cc"], [("optimize, r1, r2, budgets", "src/bipopcmastrategy.cc")])

prop("C07", "Elitism never loses the reference solution nor an improvement",
     "With elitism on the best-seen or the initial solution, whenever fewer than half (rounded down) of a new population (after the first iteration) improve on the reference solution, exactly one candidate that does not improve on it is replaced by the reference, and otherwise the population is left as evaluated. With re-optimization elitism, a finished search whose best-seen solution beats its final best candidate and is at least three iterations old is restarted from that best-seen solution, and any other finished search is not.",
     ["inputs", "histories", "configurations"], "all sequences of objective values and population sizes, all elitism modes, with every transformation of the parameters",
     "The replacement depends on the rank of the reference within every population; the tests run elitism on convex functions and check the final value only.",
     [ES, ST], [("eval: re-injection", ES), ("optimize: elitist restart", ST)])

prop("C08", "The objective is only ever evaluated within the bounds",
     "With box constraints, every point at which the user's objective is called, in every phase (initial evaluation, population, gradient estimation, uncertainty re-evaluation, restarts), lies within the lower and upper bounds, and so do the phenotypes of all solutions returned to the user.",
     ["inputs", "configurations", "histories"], "all bounds, starting points inside them, step-sizes (however large), scalings, objectives and options",
     "Tests check the final solution of some bounded runs, not each evaluated point, and no run with steps far beyond the bounds or gradient/uncertainty options.",
     ["src/pwq_bound_strategy.cc", GP, ES, ST], [("to_f_representation", "src/pwq_bound_strategy.cc"), ("pheno", GP), ("gradf, perform_uh", ES)],
     ["the arguments of the objective; get_x_pheno of the solutions"])

prop("C09", "Each candidate carries the objective value of its own phenotype",
     "After every evaluation each candidate of the population holds the genotype that was asked for and exactly the objective's value at the phenotype of that genotype, and ranking keeps points and values together. The best, best-seen and worst-seen solutions available to the user are evaluated points: the objective was called at their phenotype and returned their recorded value.",
     ["inputs", "configurations", "histories"], "all objectives, transformations, bounds, scalings, options, at every iteration",
     "Tests compare the final value with a tolerance against a known optimum; a swapped or stale pair is invisible to them.",
     [ES, SO, "include/libcmaes/candidate.h"], [("eval", ES), ("sort_candidates", "include/libcmaes/cmasolutions.h")])

prop("C10", "Fixed parameters keep their value in every evaluated candidate",
     "A parameter that is fixed has its fixed value in every candidate of every population and in the solution returned, under every algorithm variant and restart strategy, and the latest value given for it is the one that counts; releasing it makes it vary again.",
     ["inputs", "configurations", "histories"], "all subsets of fixed parameters and values, sequences of fixing and releasing, all variants and restarts",
     "Tests fix one parameter in one variant and look at the final solution.",
     [PA, ST, "src/covarianceupdate.cc"], [("set_fixed_p, unset_fixed_p", "include/libcmaes/parameters.h"), ("ask", ST)])

prop("C11", "Parallel evaluation gives the results of serial evaluation",
     "With parallel evaluation of the population, whatever the order in which evaluations start and finish, every candidate receives the value of its own point, each candidate is evaluated exactly once, the iteration waits for all of them, and the whole run (candidates, values, counters, statuses, result) equals the serial run with the same settings and a deterministic objective.",
     ["schedules", "inputs", "configurations"], "all completion orders of the evaluations in a population, thread counts and options",
     "A test run sees a few schedules the machine happens to produce, and cheap objectives finish in order.",
     [ES], [("eval: parallel loop", ES)])

prop("C12", "A given seed reproduces a run exactly",
     "Two optimizations with the same settings, the same nonzero seed, the same starting point and a deterministic objective evaluate the same points in the same order and return the same result, under every algorithm variant, restart strategy and option, in one process or in several, whatever optimizations were run before. Different seeds give different candidates.",
     ["configurations", "histories", "inputs"], "all settings and seeds, and all histories of earlier runs in the process",
     "Tests reproduce one plain run; the sources of randomness differ per variant and option.",
     [ST, "src/bipopcmastrategy.cc", "include/libcmaes/eigenmvn.h", ES, "include/libcmaes/parameters.h"], [("EigenMultivariateNormal seeding", "include/libcmaes/eigenmvn.h"), ("set_seed", "include/libcmaes/parameters.h")])

prop("C13", "Maximization is the mirror image of minimizing the negated objective",
     "Maximizing an objective evaluates the same points in the same order, iterates, stops with the same status and returns the same points as minimizing its negation with the same seed, under every variant, restart strategy and option; the values recorded are those of the minimized negation.",
     ["inputs", "configurations"], "all objectives and options, including target values, gradients, elitism, uncertainty handling and restarts",
     "One test maximizes one function with one variant.",
     ["include/libcmaes/esoptimizer.h", ES, ST], [("negated objective", ES)])

prop("C14", "Uncertainty handling re-evaluates and re-ranks as documented",
     "With uncertainty handling, every iteration re-evaluates between the floor and the ceiling of max(10%, 2 candidates) of the population, at least one, at slightly perturbed points; the population is ranked by the sum of its ranks among the first and the second values, candidates not re-evaluated keeping their first value. The step-size is multiplied by 1 + 2/(dimension + 10) exactly when the rank changes exceed their tolerance, on top of the regular adaptation.",
     ["inputs", "histories", "configurations"], "all values and re-evaluated values, population sizes and dimensions",
     "Tests check that noisy runs end near the optimum.",
     [ES, ST, PA], [("uncertainty_handling, perform_uh, select_candidates_uh, eval_candidates_uh, set_candidates_uh", ES)])

prop("C15", "Profile-likelihood intervals are made of real, re-optimized points",
     "For a completed search, the profile likelihood curve of a parameter is centred at the solution's best candidate, and each of its other points is a point at which the objective was really called, with the value it returned, found by optimizing the other parameters while that parameter was held; all points respect the bounds. The interval's bounds are the points of the curve on either side whose values are nearest to the minimum plus the level, and its errors are their distances from the best value. The result is recorded in the solution, and the solution and settings are otherwise unchanged. For quadratic objectives without bounds the interval encloses the best value and, unless the iteration limit is used up, its end points reach the level within its tolerance, for negative and maximized objectives too.",
     ["inputs", "configurations"], "all objectives, parameters, levels, sampling resolutions, transformations and iteration limits",
     "The tests look at one parameter of one positive function and print the result.",
     ["src/errstats.cc", "include/libcmaes/pli.h"], [("profile_likelihood, profile_likelihood_search, take_linear_step, optimize_vpk", "src/errstats.cc")],
     ["the returned pli, the solution's recorded pli, and the calls of the objective"])

prop("C16", "Surrogate-assisted search stays truthful about real evaluations",
     "With either surrogate strategy, the surrogate's training set holds exactly the most recent points really evaluated, up to its configured size, with the values the objective returned there; the evaluation counter counts the real calls and nothing else; and when surrogate use is turned off, or the training set is not full yet, every candidate is really evaluated and the population ranked by real values. The model is trained on the full training set after each iteration that adds to it, and never asked for predictions before it was trained. The pre-selecting strategy really evaluates its configured number of candidates per iteration, at least one and among them the one predicted best, ranks those before all others, and its best and best-seen solutions are really evaluated points; the life-length strategy leaves whole iterations to the model, whose candidates then carry the predictions, and never stops on the target value in such an iteration. Reported test errors are the share of wrongly ordered pairs among the points newly evaluated in the iteration, and a nonzero seed reproduces the whole run.",
     ["inputs", "configurations", "histories"], "all surrogate models (good, bad, useless), life lengths, pre-selection sizes, training set sizes, objectives, covariance variants, restarts and histories of turning the surrogate on and off",
     "No test covers the surrogate strategies; what is real depends on the fill level of the training set and on the iteration.",
     ["src/surrogatestrategy.cc", "include/libcmaes/surrogatestrategy.h"], [("eval, tell, optimize, add_to_training_set, pre_selection_eval, compute_error", "src/surrogatestrategy.cc")],
     ["the strategies' getters, the training and prediction functions, and the calls of the objective"])

prop("C17", "Progress reports see every iteration once and can stop the search",
     "The progress function is called once before each iteration and once more before the search ends, with iteration numbers counting from zero without gaps in each run, after the previous iteration's sampling, evaluation and update, in this order, are complete. When it returns a nonzero value, the whole optimization, including restarts of any kind, ends without evaluating another population; a user plotting function is called right after each report, with the same state.",
     ["histories", "configurations"], "every iteration at which the user may abort, all variants, restart strategies and options",
     "Tests use the default reporting function and never abort.",
     [ST, "src/ipopcmastrategy.cc", "src/bipopcmastrategy.cc", SC], [("stop: progress and plot functions", ST), ("optimize loops", ST)])

prop("C18", "Settings mean what they say, whatever the order they are made in",
     "For every setting the last value given is the one used; making the same setting twice, or making independent settings in another order, gives the same optimization; names and codes of the algorithms select the same strategy, and an unknown name changes nothing. The one-call entry point runs the same search as the optimizer object with the same settings.",
     ["configurations", "programs"], "all sequences of setter calls and all algorithm names and codes",
     "Tests make each setting at most once, in one order.",
     [PA, "include/libcmaes/cmaparameters.h", "include/libcmaes/parameters.h", "include/libcmaes/cmaes.h"], [("setters", PA), ("cmaes: dispatch", "include/libcmaes/cmaes.h")])

prop("C19", "Gradient and two-point injections enter the population as documented",
     "With gradient injection the first candidate of every population is the current mean moved against the gradient of the objective, by the step-size times the normalized preconditioned gradient; with two-point adaptation two candidates of every population but the first lie symmetrically about the mean on the line of the last mean shift, and the step-size moves up or down according to which of the two is better; if the mean has not moved they are still points. All other candidates are regular samples.",
     ["inputs", "configurations", "histories"], "all objectives, distributions, dimensions and population sizes",
     "Tests check convergence with the options on.",
     [ST, "src/covarianceupdate.cc", PA], [("ask: gradient and TPA points", ST), ("tell: TPA step-size", "src/covarianceupdate.cc")])

prop("C20", "Each update of the search distribution follows the published equations",
     "After each iteration the mean is the weighted recombination of the best half of the ranked population, and evolution paths, step-size and covariance (full, active, separable and vector-diagonal variants) are those obtained from the previous ones by the documented update with the documented constants for the dimension and population size; weights are positive, decreasing and sum to one.",
     ["inputs", "configurations", "histories"], "all populations and distributions reached in any run of any variant, dimension and population size",
     "Tests see only whether the search converges; wrong constants or a wrong sign in one term usually still converge.",
     ["src/covarianceupdate.cc", "src/acovarianceupdate.cc", "src/vdcmaupdate.cc", PA], [("update", "src/covarianceupdate.cc"), ("initialize_parameters", PA)])

prop("C21", "The reported search distribution is valid and self-consistent",
     "At every iteration the covariance is symmetric positive semi-definite with positive variances, the step-size is positive and finite, the eigen-decomposition and inverse square root reported are those of the covariance they were computed from, and the derived reports (standard deviations, errors, correlations, full covariance, expected distance to the minimum) are what they claim to be for that covariance, under every variant.",
     ["inputs", "configurations", "histories"], "all objectives (ill-conditioned, flat, discontinuous), variants, dimensions, at every iteration",
     "Tests print these numbers or compare one of them for one function.",
     [SO, "include/libcmaes/cmasolutions.h", "include/libcmaes/eigenmvn.h"], [("update_eigenv, stds, errors, corr, corr_matrix, full_cov", SO)])

prop("C22", "The search depends on objective values only through their order",
     "Replacing the objective by any strictly increasing transformation of it leaves the sequence of evaluated points, rankings and distributions unchanged as long as the search does not stop on a criterion about values, under every variant, option (except gradients) and restart strategy; adding an offset or scaling the objective changes nothing else than the recorded values.",
     ["inputs", "configurations"], "all objectives, strictly increasing transformations, variants and options",
     "A relation between two runs that no test makes.",
     [ES, ST, SO], [("rank-based update", "src/covarianceupdate.cc")])

prop("C23", "Starting from an earlier solution continues from its point and settings",
     "An optimization started from an earlier solution of the same covariance model (full or separable) begins at that solution's mean with its step-size and a fresh covariance and evolution paths, with iteration and evaluation counters and status reset and the population size of the new settings; its best-seen and worst-seen solutions carry over; further runs of a restart strategy begin at the earlier solution's best candidate. It honours all settings given (direction, stopping criteria, budgets, restarts) like a cold start, gives the same run through the optimizer class and the one-call entry point, and leaves the earlier solution object unchanged.",
     ["histories", "configurations"], "all earlier runs (any variant, any way of ending) and all settings of the second run",
     "One test restarts one plain run.",
     [ST, SO, PA, "include/libcmaes/cmaes.h"], [("warm constructor", ST), ("reset", SO), ("start_from_solution", "include/libcmaes/cmaes.h")])

prop("C24", "Candidates are samples of the current search distribution",
     "Every candidate that is not an injected point is a draw from the normal distribution with the current mean, step-size and covariance: transforming the candidates of an iteration back by the reported mean, step-size and covariance root yields the same standard normal draws that the seeded generator supplies, for any mean, step-size or covariance the user may have set in between. Lazy updates may keep an older covariance factorization for a bounded number of iterations but never an older mean or step-size.",
     ["inputs", "configurations", "histories"], "all distributions reached or set by the user, all variants, lazy or not",
     "Tests see only whether the search converges.",
     [ST, "include/libcmaes/eigenmvn.h"], [("ask", ST), ("samples, samples_ind, samples_vd", "include/libcmaes/eigenmvn.h")])

prop("C25", "Genotype and phenotype transforms invert each other on the feasible domain",
     "For every feasible parameter vector, transforming it to the search representation and back returns it up to rounding; for every vector of the search representation, however far away, the phenotype is finite, within the bounds and unchanged by a further round trip; bounds, linear scaling and user transformations compose in the documented order, for vectors and for whole populations alike.",
     ["inputs", "configurations"], "all bounds, scalings, shifts, user transformations and real vectors",
     "Tests try a handful of vectors with one set of bounds.",
     [GP, "src/pwq_bound_strategy.cc", "include/libcmaes/scaling.h"], [("geno, pheno", GP), ("to_f_representation, to_internal_representation, shift_into_feasible", "src/pwq_bound_strategy.cc")])

prop("C26", "Removing or adding dimensions keeps the others untouched",
     "Removing a set of dimensions from a vector or matrix keeps every other entry in its place and order, whatever the order in which the dimensions are listed, and adding an entry puts it at the requested position without disturbing the others; so a parameter set reduced by some dimensions describes the same problem for the remaining ones.",
     ["inputs"], "all sizes, sets of dimensions, orders of listing",
     "A test removes single elements from one small vector.",
     ["include/libcmaes/eo_matrix.h", PA, GP], [("removeElement, removeRow, removeColumn, addElement", "include/libcmaes/eo_matrix.h"), ("remove_dimensions", GP)])

prop("C27", "The data file shows every reported state, once and in order",
     "With an output file set, the file holds, when the optimization is over, one line for each progress report that did not end the optimization, in the order of the reports and across all runs of a restart strategy. Each line shows the state at that report: absolute value of the best candidate, evaluations, step-size, axis ratio of the distribution, eigenvalues, standard deviations, phenotype of the mean and elapsed time; in the full format also the best-seen, median and worst-seen values, the extreme eigenvalues and the best-seen point, with a header giving dimension and seed at the start of each run.",
     ["inputs", "configurations", "histories"], "all objectives, variants, options, transforms and restart strategies, both formats",
     "No test reads the file.",
     [ST, "include/libcmaes/cmasolutions.h"], [("fpfuncdef_impl, fpfuncdef_full_impl, plot", ST)], ["the data file, the progress function"])

prop("C28", "Contours pass through the intervals' bounds, at the level and within the bounds",
     "For a completed search, the contour of two parameters has at least four points and at most as many as asked for. Each bound of the two parameters' profile intervals is on it, at the value that re-optimizing all other parameters gives the other one; at every further point the two parameters were held there while the others were re-optimized. The objective is never evaluated outside the bounds, also where the level is out of reach. Intervals computed before are used as they are, others are recorded, and solution and settings are otherwise unchanged. For quadratic objectives without bounds, from their minimum, the points go round the minimum in order, no point is above the level by more than the tolerance of the intervals, and none is near the minimum, for negative and maximized objectives and scaled parameters too.",
     ["inputs", "configurations"], "all objectives, pairs of parameters, levels, numbers of points, transformations, iteration limits and intervals computed before",
     "No test computes a contour.",
     ["src/errstats.cc", "include/libcmaes/contour.h"], [("contour_points, cross, optimize_vpk", "src/errstats.cc")],
     ["the returned contour, the solution's recorded intervals, and the calls of the objective"])

prop("C29", "A search starts where and as wide as it was told",
     "Unless it starts from an earlier solution, the first run of an optimization begins at the initial point given (mapped by the linear scaling, with fixed parameters at their values), or at a point drawn from the range given, each parameter on its own and over all of its range, or from [-4,4] when no initial point is given; with the initial step-size given, 1/dimension when it is not positive, and for step-sizes given per parameter, with these as standard deviations of a scaled search; with identity covariance, zero evolution paths and no status, and the population size given, 4+floor(3 ln dimension) when it is below 2. So does every further run of a restart strategy (with the step-size of small BIPOP runs excepted), while a repeated run of elitism on restarts begins at the best point seen. The initial value, if asked for, is that of the initial point; nothing else is evaluated before the first iteration.",
     ["inputs", "configurations"], "all initial points, ranges, step-sizes, population sizes, dimensions, transforms, variants and restart strategies",
     "Tests look at where a search ends, for a few starting points.",
     [SO, PA, "include/libcmaes/parameters.h", ST], [("CMASolutions::CMASolutions", SO), ("set_x0", "include/libcmaes/parameters.h"), ("CMAParameters::CMAParameters", PA), ("optimize", ST)])


def write():
    from plans import PLANS, TECH
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in PLANS:
            t = TECH.get(i, {})
            checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                           "thorough_cmd": "python3 check.py %s thorough" % i,
                           "technique": t.get("technique", "TLA+ specification (TLC) with trace validation of recorded executions of the real code"),
                           "level": "model_checking",
                           "level_note": t.get("note", "Every recorded execution of the real library (rebuilt from the working tree) is checked by TLC to be a behaviour of the TLA+ specification; holds for the executions explored (generated configurations and objective values), not for all. Trusts TLC, the F64 arithmetic override, the recording driver.")})
        else:
            na.append({"property": i, "reason": "check under construction"})
    m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks: all observation goes through the public API. See DESIGN.md."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    write()
