"""Writes properties.jsonl (kept as code so that the wording stays easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": list(observe), "hook_needed": None}})

p("C01", "A seeded run is a pure function of its options and objective function",
  "With a fixed seed (and parallel updates off) two optimizers built from equal options and given equal objective functions evaluate bit-identical points in the same order and go through bit-identical states, results and termination reasons, generation after generation. This holds however the runs are interleaved with other optimizers, threads or runs, and is unaffected by observing them: getters, plotting, printing and automatic plotting/printing never influence the trajectory. The seed reported by an optimizer that was built without one reproduces that run, and different seeds give different points.",
  ["configurations", "inputs", "histories", "schedules"],
  "all valid configurations and objective functions, all interleavings with other runs, all observation calls at any point",
  "The tests compare a handful of seeded runs by their evaluation counts on one machine state; none varies the configuration, interleaves runs, observes in between or reuses the reported seed.",
  ["src/lib.rs", "src/sampling.rs", "src/state.rs", "src/parameters/mod.rs"],
  [("single seeded ChaCha12 stream owned by the sampler", "src/sampling.rs Sampler::rng"), ("seed chosen once and reported", "src/parameters/mod.rs")],
  ["objective function calls", "CMAES getters", "TerminationData", "CMAES::parameters().seed()"])

p("C02", "Parallel evaluation equals sequential evaluation",
  "Stepping or running with the parallel entry points gives, for every pure objective function, every configuration and every thread-pool size and schedule, exactly the states, results, counters and termination reasons of the sequential entry points, and evaluates exactly the same points, each once. Sequential and parallel steps can be mixed freely in one run without changing anything.",
  ["schedules", "configurations", "histories"],
  "all thread schedules and pool sizes, all mixtures of sequential and parallel steps",
  "The tests compare one sequential with one parallel run; schedules with objective functions of varying duration, ties, small and large pools and mixed stepping are not reached.",
  ["src/lib.rs", "src/sampling.rs"],
  [("points are drawn before they are evaluated; results collected in drawing order and sorted stably", "src/sampling.rs sample_internal, sample_parallel")],
  ["objective function calls", "CMAES getters", "TerminationData"])

p("C03", "Parallel state updates agree with sequential ones up to rounding",
  "With parallel updates enabled an optimizer makes the same draws and the same state update as without, up to floating-point rounding, whatever the number of threads, the population size, the weights and the constraints: the first generation evaluates identical points, and every generation's new mean, step size and covariance matrix are those of the sequential update rule applied to the same evaluated points. No individual is lost, duplicated or misweighted, and the number of evaluations is unchanged.",
  ["schedules", "configurations"],
  "all reduction orders and pool sizes, all population sizes and weightings",
  "Bit-exact comparison is impossible because the reduction order varies, so the tests only check that a parallel run converges.",
  ["src/state.rs", "src/sampling.rs"],
  [("rank-mu update by parallel map/reduce over all individuals", "src/state.rs rank_mu_update_parallel"), ("parallel transform/filter keeps order", "src/sampling.rs sample_internal")],
  ["CMAES getters after each generation", "objective function calls"])

p("C04", "Maximising f is minimising -f",
  "Running in Maximize mode on an objective function f is the mirror image of running in Minimize mode on -f (with a negated function value target): with the same seed the points, states, counters, generation counts and termination reasons are identical bit for bit, and every reported objective value is negated. This includes ties, infinities, value-based termination criteria and best-individual tracking.",
  ["inputs", "configurations", "histories"],
  "all objective functions (any sequence of values including ties and infinities) and configurations",
  "The tests check each mode on a few fixed functions; the duality is a relation over all value sequences, including ties and infinities.",
  ["src/mode.rs", "src/history.rs", "src/termination.rs", "src/sampling.rs"],
  [("all comparisons go through the mode", "src/mode.rs")],
  ["objective function calls", "CMAES getters", "TerminationData"])

p("C05", "Reported best individuals are the best ones evaluated",
  "After every completed generation the current best individual is a point evaluated in that generation whose value no other point of that generation beats, and the overall best individual is an evaluated point whose value no point evaluated in any completed generation beats (in the configured mode), with value equal to what the objective function returned for exactly that point. The overall best never becomes worse, keeps the earliest of equally good generations, and both are absent before the first completed generation. The results returned on termination and by the convenience functions and runs report the same individuals.",
  ["histories", "inputs", "configurations"],
  "all value sequences (ties, infinities, non-monotone histories) in both modes",
  "The tests feed hand-written generations to the history; they do not relate reported individuals to what was really evaluated.",
  ["src/history.rs", "src/lib.rs", "src/sampling.rs", "src/mode.rs"],
  [("sorting by the mode's order", "src/sampling.rs"), ("strict improvement replaces the overall best", "src/history.rs update_best_individuals")],
  ["current_best_individual", "overall_best_individual", "TerminationData"])

p("C06", "A run accounts exactly for its generations, evaluations and results",
  "Every completed generation evaluates exactly lambda points, distinct within the run, and advances the generation counter by one and the evaluation counter by lambda; before the first generation the state is the configured mean and step size with zero counters and nothing has been evaluated. Running until termination is the same as stepping until the first termination, every termination carries a non-empty duplicate-free list of reasons and the current mean, and an optimizer can be stepped or run again afterwards, continuing its history. The parameters and the creation time never change, elapsed time never decreases, and the objective function handed back is the one that received exactly the counted calls.",
  ["histories", "configurations"],
  "all sequences of step/run calls (sequential or parallel), including after termination",
  "The tests run to termination once per configuration; they never resume, mix entry points or count the evaluations independently.",
  ["src/lib.rs", "src/sampling.rs"],
  [("counter in the sampler", "src/sampling.rs function_evals"), ("run is a loop over next", "src/lib.rs run")],
  ["generation()", "function_evals()", "time_created()", "elapsed()", "parameters()", "into_objective_function()", "TerminationData"])

p("C07", "Invalid function values stop a generation without corrupting the run",
  "If and only if the objective function returns NaN in a generation, that generation ends with InvalidFunctionValue as the only reason, and mean, step size, covariance, counters of completed generations and best individuals stay exactly as they were before it; the evaluation counter still counts every call made. The optimizer can be stepped on afterwards as if the aborted generation had not happened. Infinite values of either sign are ordinary values: they never cause InvalidFunctionValue, a NaN result or a panic.",
  ["fault_sequences", "histories", "inputs"],
  "all placements of NaN in the sequence of calls, sequential and parallel, and all value sequences with infinities",
  "One test returns NaN always; placements inside a generation, later generations, resumption, and infinities are not covered.",
  ["src/sampling.rs", "src/lib.rs", "src/history.rs", "src/termination.rs"],
  [("evaluation collects into a Result before any state changes", "src/sampling.rs EvaluatedPoint::new"), ("median of infinities", "src/history.rs get_median_value")],
  ["CMAES getters", "TerminationData.reasons"])

p("C08", "Each generation performs the CMA-ES update",
  "After each generation the mean is the old mean plus cm times the weighted recombination of the mu best evaluated points, the step size follows cumulative step-size adaptation, and the covariance matrix is the rank-one (evolution path, with stall indicator) plus weighted rank-mu update (negative weights rescaled by the whitened step length), all computed with the published equations from the evaluated points, their ranking and the parameters reported by the optimizer. This holds in every generation of every run, for all dimensions, population sizes, weightings and learning rates, up to floating-point rounding.",
  ["histories", "configurations", "inputs"],
  "all configurations, objective functions and generations (the evolution paths carry the whole history)",
  "The tests never check the update itself, only that some functions are eventually minimised, which tolerates wrong learning rates, paths or weights.",
  ["src/state.rs", "src/lib.rs"],
  [("State::update", "src/state.rs")],
  ["mean()", "sigma()", "covariance_matrix()", "objective function calls"],
  [("evolution paths", "hidden history carried by the model", "src/state.rs path_c, path_sigma")])

p("C09", "Strategy parameters and weights follow the published formulas",
  "For every dimension, population size, weighting and mean learning rate, the reported parameters (lambda, mu, mu_eff, weights, cc, c1, c_sigma, c_mu, c_m, damping) equal the published default formulas of CMA-ES, with 4 + floor(3 ln n) as the default population size. The weights are in decreasing order, the positive ones are exactly the recombination weights and sum to one, negative weights appear only with the Negative setting and are scaled so that the covariance update stays positive definite, and all learning rates lie in [0, 1] with c1 + c_mu at most 1.",
  ["configurations"],
  "all dimensions, population sizes and weightings",
  "The tests check a few invariants and fixed values for a handful of sizes.",
  ["src/parameters/mod.rs", "src/parameters/weights.rs", "src/options.rs"],
  [("Parameters::from_options", "src/parameters/mod.rs"), ("InitialWeights/FinalWeights", "src/parameters/weights.rs")],
  ["CMAES::parameters()"])

p("C10", "The covariance matrix and its eigenvalues stay consistent",
  "The covariance matrix is always exactly symmetric and starts as the identity; as long as no PosDefCov termination is reported the eigenvalues are positive and are those of the covariance matrix at the last decomposition, the axis ratio is the square root of the ratio of the largest and smallest eigenvalue, and the decomposition is refreshed at least once every reported number of generations per eigen update (every generation if that number is one). PosDefCov is reported if and only if a covariance matrix to be decomposed is not positive definite.",
  ["histories", "configurations"],
  "all runs, including long, degenerate and ill-conditioned ones",
  "The tests decompose a few fixed matrices.",
  ["src/matrix.rs", "src/state.rs", "src/lib.rs"],
  [("symmetrisation and decomposition", "src/matrix.rs set_cov, update_eigendecomposition"), ("lazy refresh", "src/state.rs evals_per_eigen_update")],
  ["covariance_matrix()", "eigenvalues()", "axis_ratio()", "generations_per_eigen_update()"])

p("C11", "Candidates are drawn from N(mean, sigma^2 C)",
  "Every evaluated point is the current mean plus sigma times a linear transform (the square root of the covariance as of its last decomposition) of a vector of independent standard normal numbers, so the whitened steps of all unconstrained runs are independent standard normal. The underlying normal numbers depend only on the seed, the dimension and how many were drawn before: not on mean, step size, covariance, objective function, mode, weights or termination options.",
  ["inputs", "configurations", "histories"],
  "all seeds, configurations and generations",
  "The tests check bounds and sort order of a sample, never its distribution.",
  ["src/sampling.rs", "src/matrix.rs"],
  [("normal draws and transform", "src/sampling.rs sample_internal"), ("B*D transform", "src/matrix.rs transform")],
  ["objective function calls"])

p("C12", "Constraints are enforced by bounded resampling",
  "Without a resampling limit every evaluated point satisfies the constraints (bounds are closed intervals); with a limit m, in each generation the feasible draws are kept in drawing order, only the missing ones are redrawn, for at most m rounds in which infeasible draws are rejected, and after that infeasible draws are accepted, so a generation always completes with exactly lambda points. The default limit is 10, a limit of zero disables rejection, and constraints accepting everything (or none set) change nothing. The constraint is asked about exactly the point that would be evaluated.",
  ["inputs", "configurations", "histories"],
  "all constraint predicates, limits and configurations",
  "The tests use one box and one limit and look only at the accepted points.",
  ["src/sampling.rs", "src/options.rs"],
  [("resampling loop", "src/sampling.rs sample_internal"), ("Bounds::meets_constraints", "src/sampling.rs")],
  ["constraint queries", "objective function calls"])

p("C13", "Only the ranking of objective values steers the search",
  "Replacing the objective function by any strictly increasing transformation of it leaves every evaluated point, mean, step size, covariance matrix and counter bit-identical in every generation, and the reported best individuals are the same points, with transformed values. Only the value-based termination criteria may react differently.",
  ["inputs", "histories", "configurations"],
  "all strictly increasing transformations of all objective functions",
  "A metamorphic relation between pairs of runs; the tests never compare runs on transformed functions.",
  ["src/sampling.rs", "src/state.rs", "src/history.rs"],
  [("only the sorted order enters the update", "src/state.rs update")],
  ["objective function calls", "CMAES getters"])

p("C14", "The search is equivariant under scaling and translation",
  "Multiplying the initial mean and step size by a power of two (with objective, constraints and step-size tolerance rescaled accordingly) multiplies every evaluated point, mean and step size by exactly that factor and leaves covariance, eigenvalues, counters, values and termination reasons unchanged. Translating the initial mean and the objective by the same vector translates the evaluated points and means, up to rounding.",
  ["inputs", "configurations", "histories"],
  "all scale factors, translations, objective functions and configurations",
  "A metamorphic relation between pairs of runs; the tests never compare shifted or scaled problems.",
  ["src/state.rs", "src/sampling.rs", "src/termination.rs", "src/parameters/mod.rs"],
  [("no absolute constants in sampling and update", "src/state.rs, src/sampling.rs")],
  ["objective function calls", "CMAES getters", "TerminationData"])

p("C15", "Value-based termination criteria fire exactly when documented",
  "FunTarget is reported exactly when a point of the latest generation is better than the target, and TolFun, TolFunHist and TolFunRel exactly when the range of the best values of the latest 10 + ceil(30 n / lambda) generations (and, for TolFun and TolFunRel, the range of the latest generation too) is below the tolerance, the relative one being scaled by the distance of the first generation's median from the best median. TolStagnation is reported exactly when, over a window of a fifth of all generations (at most 20000, not below the configured minimum), the median of the newest 30% of both the best and the median values is worse than that of the oldest 30%.",
  ["histories", "inputs", "configurations"],
  "all histories of objective values, in both modes, at every generation",
  "The tests inject one history per criterion; windows, thresholds, medians, modes and combinations over arbitrary histories are not reached.",
  ["src/termination.rs", "src/history.rs"],
  [("check_termination_criteria", "src/termination.rs"), ("bounded histories", "src/history.rs")],
  ["TerminationData.reasons", "next()"])

p("C16", "Budgets on evaluations, generations and time are respected",
  "MaxFunctionEvals and MaxGenerations are reported exactly in those generations after which the number of evaluations respectively completed generations has reached the limit, so a run overshoots an evaluation limit by less than one generation and never exceeds a generation limit. MaxTime is reported exactly when the time since creation has reached the limit at the end of a generation. Without a limit the corresponding reason never appears.",
  ["configurations", "histories"],
  "all limits (including zero, one and limits that are not multiples of the population size) and configurations",
  "The tests use one value per limit.",
  ["src/termination.rs", "src/lib.rs"],
  [("check_termination_criteria", "src/termination.rs")],
  ["TerminationData.reasons", "function_evals()", "generation()"])

p("C17", "Distribution-based termination criteria fire exactly when documented",
  "TolX is reported exactly when the standard deviation of the distribution in every coordinate and the scaled evolution path are below tol_x, TolXUp exactly when the largest standard deviation along a principal axis exceeds the initial step size by more than the factor tol_x_up, and TolConditionCov exactly when the condition number of the covariance matrix exceeds its tolerance. NoEffectAxis and NoEffectCoord are reported when a tenth of a standard deviation along the checked principal axis, respectively a fifth along some coordinate axis, no longer changes the mean, and not while the standard deviations are well above rounding; every principal axis is checked in turn.",
  ["histories", "configurations", "inputs"],
  "all reachable distributions (converged, diverging, ill-conditioned, far from the origin)",
  "The tests inject one state per criterion (and one of them forces a variance where the documentation says standard deviation).",
  ["src/termination.rs", "src/state.rs"],
  [("check_termination_criteria", "src/termination.rs")],
  ["TerminationData.reasons", "mean()", "sigma()", "covariance_matrix()", "eigenvalues()"])

p("C18", "Options are validated and take effect exactly as set",
  "Building fails with the specific documented error exactly when the dimension is zero, the population is below two, the initial step size is not a positive normal number, or the mean learning rate is outside (0, 1]; likewise for restart options and restart strategies. Every setter changes its own option only, the last call wins, the order of setter calls is irrelevant, unset options have their documented defaults, and the parameters reported by a built optimizer equal the options.",
  ["configurations"],
  "all combinations of option values, valid and invalid, in all orders",
  "The tests build a few fixed invalid configurations.",
  ["src/options.rs", "src/lib.rs", "src/restart/options.rs", "src/parameters/mod.rs"],
  [("CMAES::new validation", "src/lib.rs"), ("builders", "src/options.rs, src/restart/options.rs")],
  ["CMAESOptions fields", "InvalidOptionsError", "CMAES::parameters()"])

p("C19", "Restart strategies follow their documented schedules",
  "Each run of a restart starts at a mean drawn uniformly from the search range in every coordinate, with its own seed, the restart's mode, target, per-run limits and the default options otherwise. Local uses a constant population and initial step size range * factor * 0.01 for at most the configured number of runs; IPOP uses step size range / 2 and multiplies the population by its factor every run, for at most 10 runs; BIPOP starts with an IPOP run, then performs a local run whenever local runs have used fewer evaluations than IPOP runs, with IPOP step size range / 5 and at most 10 IPOP runs, local populations between the default and half the last IPOP population, local step sizes range * factor * 10^-2u, and local runs limited to half the evaluations of the last IPOP run.",
  ["histories", "configurations"],
  "all strategies, parameters, search ranges, run lengths and seeds",
  "The tests count runs of each strategy with default parameters and check a few internals.",
  ["src/restart/mod.rs", "src/restart/local.rs", "src/restart/ipop.rs", "src/restart/bipop.rs", "src/restart/strategy.rs"],
  [("Strategy::next_run", "src/restart/*.rs"), ("Restarter::run_internal", "src/restart/mod.rs")],
  ["objective function calls", "printed run information"])

p("C20", "Restart results account for all runs",
  "The reported number of evaluations and runs equal the objective function calls made and the runs started, and the reported best is the best individual of all completed generations of all runs, with its own value, in the configured mode (only the individuals of a run that ended with NaN may be left out). The restart ends with FunTarget exactly when a run reached the target, with InvalidFunctionValue exactly when the objective returned NaN, with MaxRuns exactly when the strategy's runs are used up, and with MaxFunctionEvals or MaxTime exactly when the total budget is used up before a run would start; no further run is started after any of these.",
  ["histories", "configurations", "fault_sequences"],
  "all strategies, budgets, targets, value sequences and NaN placements",
  "The tests run each strategy on one or two functions and check one reason each.",
  ["src/restart/mod.rs"],
  [("Restarter::run_internal", "src/restart/mod.rs")],
  ["RestartResults", "objective function calls"])

p("C21", "Seeded restarts are reproducible through every entry point",
  "With a seed set a restart evaluates the same points with the same results every time, whichever entry point is used: fresh objective functions or one reused, sequential or parallel evaluation, by value or by reference, printing on or off. The fresh-function entry points obtain exactly one objective function per run and the reuse entry points keep using the one given, and the seed reported by an unseeded restarter reproduces it.",
  ["configurations", "schedules", "histories"],
  "all strategies, seeds, entry points and thread schedules",
  "The tests run the entry points once each without comparing what is evaluated.",
  ["src/restart/mod.rs", "src/restart/strategy.rs"],
  [("one seeded RNG for all runs", "src/restart/mod.rs rng"), ("objective reuse", "src/restart/mod.rs run_internal")],
  ["objective function calls", "RestartResults"])

p("C22", "Plot data records the run faithfully",
  "With plotting enabled, the recorded data contains the initial state, the first generation, and then a point whenever at least the configured number of evaluations has passed since the last one, plus the final state when run to termination or when added by hand, never two for the same generation. Each recorded point equals the state at that moment: evaluations, best and median value of the generation, mean, square roots of the eigenvalues, coordinate standard deviations (without sigma), axis ratio and step size. Clearing removes all but the most recent point, keeps the allocation, and changes nothing else.",
  ["histories", "configurations"],
  "all gaps, configurations and sequences of steps, manual additions and clears",
  "The tests check the number of points for one gap.",
  ["src/plotting/data.rs", "src/plotting/mod.rs", "src/lib.rs"],
  [("PlotData::add_data_point", "src/plotting/data.rs"), ("Plot gap logic", "src/plotting/mod.rs, src/lib.rs")],
  ["Plot (Debug)", "Plot::len", "Plot::capacity", "Plot::clear"])

p("C23", "Plots of any run can be rendered and saved",
  "Saving a non-empty plot produces a valid PNG image file at the given path whatever the run contained: any dimension, generation count, constant, zero, negative or infinite objective values, tiny or huge states, long runs. Rendering neither panics nor hangs, does not change the recorded data, is deterministic, and reports an error, without panicking, if the file cannot be written.",
  ["inputs", "histories", "configurations"],
  "all recorded histories, both scale options",
  "The tests render one or two benign runs.",
  ["src/plotting/draw.rs", "src/plotting/mod.rs", "src/plotting/utils.rs"],
  [("Plot::save_to_file", "src/plotting/mod.rs"), ("drawing", "src/plotting/draw.rs")],
  ["Plot::save_to_file", "files written"])

p("C24", "Printed information is complete and correct",
  "With printing enabled a run prints the algorithm variant, dimension, population size and seed at the start, one row for each of the first three generations and then whenever at least the configured number of evaluations has passed since the last such row, and at termination the final row (unless already printed), the reasons, the current and overall best values and the final mean. Each row shows that generation's number, evaluation count, best value, axis ratio, step size and smallest and largest coordinate standard deviation, to the printed precision; with printing disabled nothing is printed.",
  ["histories", "configurations", "inputs"],
  "all gaps, configurations and values (including infinities and very large or small numbers)",
  "The tests never look at the output; only the number formatter is tested on a few values.",
  ["src/lib.rs", "src/utils.rs", "src/restart/mod.rs"],
  [("print_initial_info, print_info, print_final_info", "src/lib.rs"), ("format_num", "src/utils.rs")],
  ["standard output"])

p("C25", "Objective function adapters are transparent",
  "Closures, references, mutable references, boxed objective functions and user types are interchangeable as objective functions, sequentially and in parallel: the optimizer evaluates the same points and obtains the same results through each. Scale passes on each point multiplied coordinate by coordinate with its factors, and returns the inner function's value unchanged, for every point, in both evaluation modes.",
  ["inputs", "configurations"],
  "all adapters, nestings, factors and points",
  "The tests call each adapter on one point.",
  ["src/objective_function.rs"],
  [("trait implementations and Scale", "src/objective_function.rs")],
  ["objective function calls"])

p("C26", "Convex quadratic functions are solved",
  "On every convex quadratic function (any rotation, any optimum, condition number up to 10^4, dimension up to 10) a run with default population and step size of the order of the distance to the optimum converges to the optimum to high precision, in either mode and with each weighting, within a number of evaluations proportional to known CMA-ES performance, for practically every seed. The restart strategies and convenience functions do so too.",
  ["inputs", "configurations"],
  "all rotated, shifted and scaled convex quadratics, random seeds",
  "The tests use a few fixed functions aligned to the axes.",
  ["src/state.rs", "src/sampling.rs", "src/termination.rs", "src/lib.rs", "src/restart/mod.rs"],
  [("the whole algorithm", "src/state.rs")],
  ["TerminationData", "function_evals()"])

p("C27", "The convenience functions are runs with default options",
  "fmin and fmax run the algorithm with default options for the given mean and step size, respectively minimising and maximising, and return the individual that such a run reports as its overall best, together with its value; the parallel variants evaluate in parallel and are otherwise the same. They work for every objective function type, terminate, and return a point whose value equals the objective function's value there.",
  ["inputs", "configurations"],
  "all objective functions, initial means and step sizes",
  "The tests check convergence on one function.",
  ["src/functions.rs"],
  [("fmin, fmax and parallel variants", "src/functions.rs")],
  ["return values", "objective function calls"])

p("C28", "The plotting feature does not influence the optimisation",
  "Compiling with or without the plotting feature gives the same points, states, results, termination reasons and printed output for every seeded run and restart.",
  ["configurations", "histories"],
  "all configurations and objective functions",
  "The tests are built with one feature set.",
  ["src/lib.rs", "Cargo.toml"],
  [("cfg(feature = \"plotters\") blocks", "src/lib.rs, src/history.rs")],
  ["objective function calls", "CMAES getters", "standard output"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
