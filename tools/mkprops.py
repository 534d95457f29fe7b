import json
import os
P=[]
def loc(sym,files):
    last=sym.split('::')[-1]; head=sym.split('::')[0]
    for f in files:
        t=open('/repo/'+f).read()
        if 'fn '+last in t or 'struct '+last in t or 'enum '+last in t or 'trait '+last in t: return f
    for f in files:
        t=open('/repo/'+f).read()
        if last in t or head in t: return f
    return files[0]
def p(id,title,statement,over,qtext,why,files,syms):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=y,where=loc(y,files)) for y in syms],observe_at=['public API of the crate'],hook_needed=None)))

p("C01","Option validation accepts and rejects exactly the documented values",
"`CMAESOptions::build` never panics and reports, checked in this order, `Dimensions` exactly when the initial mean is empty, `PopulationSize` exactly when the population size is below 2, `InitialStepSize` exactly when the initial step size is not a positive normal float, and `Cm` exactly when `cm` is not a normal float in (0, 1]; every other combination is accepted. `RestartOptions::build` reports `Dimensions` exactly for zero dimensions and otherwise `SearchRange` exactly when the size (end minus start) of the search range is zero or not finite. `Local::new` and `BIPOP::new` report `InitialStepSize` exactly for a given step size factor that is not a positive normal float, and otherwise `IPOP::new` and `BIPOP::new` report `PopulationSize` exactly for a population increase factor of zero.",
["inputs","configurations"],"every bit pattern of the float options, every population size and dimension count in the bounds, every combination of them",
"The tests try a handful of values (0, -1, NAN); they never touch subnormals, infinities, negative zero or the boundary 1.0+ulp, nor combinations that decide which error is reported.",
["src/lib.rs","src/options.rs","src/restart/mod.rs","src/restart/local.rs","src/restart/ipop.rs","src/restart/bipop.rs"],["CMAES::new","is_initial_step_size_valid","Restarter::new","Local::new","IPOP::new","BIPOP::new"])

p("C02","Every configured option takes effect verbatim, with documented defaults",
"After a successful build, every getter of `CMAES::parameters()` (mode, dim, lambda, initial_sigma, cm, seed, weights setting and all termination parameters), `mean()` and `sigma()` returns bit for bit the value set through the option builders. Options left unset have their documented defaults: population size 4 + floor(3 ln N), positive/negative (active) weights, cm 1, tol_fun and tol_fun_hist 1e-12, tol_fun_rel 0, tol_x 1e-12 times the initial step size, tol_stagnation 100 + ceil(100 N^1.5 / lambda), tol_x_up 1e8, tol_condition_cov 1e14, and no limits or target. Before the first generation the covariance matrix is the identity, the generation and evaluation counts are 0 and there is no current or overall best.",
["inputs","configurations"],"every value of every option (all floats, all integers) in every order of the builder calls explored",
"Tests set one or two options to fixed values; swapped, dropped or clamped values for other inputs are invisible to them.",
["src/options.rs","src/parameters/mod.rs","src/lib.rs"],["CMAESOptions","Parameters::new","TerminationParameters::from_options"])

p("C03","A generation evaluates exactly lambda points and is counted exactly once",
"Each `next`/`next_parallel` call that meets no NaN calls the objective function exactly `population_size` times, each with a vector of the problem dimension, increases `function_evals()` by exactly that number and `generation()` by exactly 1, also when the call returns termination data (only a generation ended by `PosDefCov` is evaluated but not completed, and hence not counted in `generation()`). The counts do not depend on the objective values (infinities included), on the constraints or on which of `next`, `next_parallel` and `parallel_update` is used. `run` behaves like calling `next` until it returns termination data.",
["inputs","histories","configurations"],"every sequence of objective values (infinities, ties), every constraint outcome and every seed in the bounds",
"Tests check counts for one function and one seed; they cannot settle histories with ties, infinities or rejected points.",
["src/lib.rs","src/sampling.rs","src/state.rs"],["CMAES::next","Sampler::sample_internal","State::update"])

p("C04","Current and overall best are the true best of what was evaluated",
"After a generation without NaN, `current_best_individual()` holds a point evaluated in that generation together with the value the objective returned for it, and no value of that generation is better under the optimization mode. `overall_best_individual()` likewise holds an evaluated point and its value, no value of any completed generation is better, and it keeps the earlier individual on ties between generations. The termination data returned by `next`/`run` carries these same two individuals and the current mean.",
["inputs","histories"],"every assignment of non-NaN values (ties, infinities, signed zeros) to the evaluated points over several generations, both modes",
"The tests run a few fixed functions where the last generation is normally the best; orders, ties and infinite values are not explored.",
["src/history.rs","src/lib.rs","src/sampling.rs","src/mode.rs"],["History::update","History::update_best_individuals","Mode"])

p("C05","The search depends on objective values only through their order",
"With the same seed and options, two objective functions that rank the points of every generation identically (for example f and any strictly increasing transformation of f) lead to bit-identical sampled points, mean, step size, covariance matrix and eigenvalues after every generation. Maximizing g is bit-identical in the same sense to minimizing -g. Points with tied values are ranked in the order in which they were evaluated.",
["inputs","histories","configurations"],"every pair of value sequences with equal per-generation ranks, every weights setting",
"Tests compare final outcomes of one function under both modes with tolerance; they do not quantify over pairs of objective value sequences.",
["src/sampling.rs","src/mode.rs","src/state.rs","src/lib.rs"],["Sampler::sample_internal","Mode::sort_cmp","State::update"])

p("C06","NaN objective values end the run cleanly and are never used",
"If any evaluation of a generation returns NaN, `next`/`next_parallel` returns termination data whose only reason is `InvalidFunctionValue`, and mean, step size, covariance, generation count, current best and overall best are those of the last completed generation (no bests exactly if there was none). A NaN is never reported as a best value. Infinite values are accepted: they never cause `InvalidFunctionValue`.",
["inputs","histories"],"every position of the NaN in the generation and in the run, every mix of NaN, infinities and finite values",
"Tests return NaN from the first evaluation or everywhere; a single NaN at any position, after any history, mixed with infinities is not covered.",
["src/sampling.rs","src/lib.rs"],["EvaluatedPoint::new","CMAES::next","CMAES::next_parallel"])

p("C07","Budget criteria stop exactly when the budget is reached",
"After each generation, `MaxFunctionEvals` is among the reasons if and only if a limit is set and the number of evaluations made is at least the limit, `MaxGenerations` if and only if a limit is set and the number of completed generations is at least the limit, and `MaxTime` if and only if a limit is set and the time elapsed since creation is at least the limit. Reaching a limit always ends the run in that same generation, whatever other reasons apply, and `next` returns termination data exactly when at least one reason applies.",
["inputs","configurations","histories"],"every limit (full integer range, every duration) and every non-decreasing clock reading",
"Tests use one limit each and real time; off-by-one behaviour around every limit and clock value is not covered.",
["src/termination.rs","src/lib.rs"],["TerminationCheck::check_termination_criteria"])

p("C08","FunTarget is reported exactly when a point beats the target",
"After each generation without NaN, `FunTarget` is among the reasons if and only if a target is set and at least one objective value of that generation is strictly better than it under the mode (below it when minimizing, above it when maximizing). Values of earlier generations, and the order of the points within the generation, play no role.",
["inputs","configurations","histories"],"every target value (NaN and infinities included) and every set of objective values of a generation",
"Tests only run until a small target is reached on one function; equality, infinities and the opposite mode are not decided.",
["src/termination.rs","src/mode.rs"],["TerminationCheck::check_termination_criteria","Mode::is_better"])

p("C09","TolFun, TolFunHist and TolFunRel fire exactly as documented",
"Let W = 10 + ceil(30 N / lambda), H the range (max - min) of the best values of the last W generations and G the range of the values of the latest generation; none of the three reasons appears before W generations are completed. From then on `TolFunHist` is reported if and only if H < tol_fun_hist, `TolFun` if and only if H < tol_fun and G < tol_fun, and `TolFunRel` if and only if both H and G are below tol_fun_rel times the absolute difference between the median value of the first generation and the best median value of any generation.",
["inputs","histories","configurations"],"every tolerance and every best/median/worst value at the explored positions of the history, inside and outside the window",
"The unit tests plant one history each; the window ends, strictness and combinations of ranges over all values are not settled.",
["src/termination.rs","src/history.rs","src/utils.rs"],["TerminationCheck::check_termination_criteria","utils::range","History::update"])

p("C10","TolStagnation compares the medians of the right windows",
"`TolStagnation` is reported if and only if w = min(generation / 5 rounded down, 20000) is at least the tol_stagnation option, w generations are recorded, and for both the best-value history and the median-value history restricted to the last w generations, the median of the oldest floor(0.3 w) values is strictly better than the median of the newest floor(0.3 w) values. It therefore never fires while either history improves, in either optimization mode. A generation whose median is undefined (NaN, because its middle values are infinities of opposite sign) never counts as worse: a history with such a value in one of its compared windows is not considered stagnating.",
["inputs","histories","configurations"],"every value at the explored positions of the best and median histories, every option value in the bounds, both modes",
"The tests use one constant-step history; window boundaries, ties and opposite trends of the two histories are not covered.",
["src/termination.rs","src/history.rs"],["get_tol_stagnation_generations","TerminationCheck::check_termination_criteria"])

p("C11","Distribution-based stopping criteria fire exactly as documented",
"After each generation: `TolX` is reported if and only if sigma times the standard deviation (square root of the covariance diagonal) is below tol_x in every coordinate and sigma times the covariance evolution path is below tol_x in magnitude in every coordinate; `TolXUp` if and only if sigma times the largest axis scale (square root of the largest eigenvalue) divided by the initial step size exceeds tol_x_up; `TolConditionCov` if and only if the squared axis ratio exceeds tol_condition_cov or is not a normal number. `NoEffectAxis` is reported if and only if adding 0.1 sigma times the scaled principal axis with index generation mod N leaves the mean exactly unchanged, and `NoEffectCoord` if and only if adding 0.2 sigma C_ii to mean coordinate i leaves it exactly unchanged for some i.",
["inputs","histories","configurations"],"every tolerance value, every mean/step size and every ranking history in the bounds",
"The tests set one state per criterion; thresholds over all values, all coordinates and all axes are not covered.",
["src/termination.rs","src/state.rs"],["TerminationCheck::check_termination_criteria","State::axis_ratio"])

p("C12","The state update follows the CMA-ES equations",
"After every generation the mean, step size, covariance matrix and both evolution paths' effects equal, up to rounding, what the published (active) CMA-ES update yields for the ranked points of that generation: weighted recombination with learning rate cm, cumulative step-size adaptation with damping, the stall indicator, rank-one and rank-mu updates including rescaled negative weights. Weights, mu, mu_eff, cc, c1, cs, cmu and damp_s reported by `parameters()` equal the published formulas for the chosen N, lambda and weights setting: selected weights are positive, decreasing (equal for `Uniform`) and sum to 1, and negative weights exist only for `Negative`.",
["inputs","histories","configurations"],"every ranking of the sampled points over the explored generations, every weights setting, for the listed dimensions, population sizes, learning rates and seeds",
"The tests compare one seed and function against recorded numbers and otherwise only statistical convergence; other rankings, stalls, cm values and weights settings are not checked.",
["src/state.rs","src/parameters/mod.rs","src/parameters/weights.rs","src/matrix.rs"],["State::update","Parameters::new","InitialWeights","CovarianceMatrix::set_cov"])

p("C13","The covariance stays valid and its decomposition is the one sampled from",
"After every generation that does not end with `PosDefCov` or `InvalidFunctionValue`, the covariance matrix is exactly symmetric, finite and positive definite, the step size is positive and finite, and eigenvalues and axis ratio are those of the covariance matrix at the most recent decomposition. Points of the next generation are mean + sigma B D z for standard normal z, where B D (B D)^T equals the covariance matrix at the most recent decomposition. The decomposition is refreshed exactly in a generation where at least ceil(lambda / (2 N (c1 + cmu))) evaluations have passed since the last refresh.",
["inputs","histories","configurations"],"every ranking history of the points in the bounds, every weights setting and initial step size",
"Tests only check that runs converge; a stale or mismatched decomposition for some histories would not be noticed.",
["src/matrix.rs","src/state.rs","src/sampling.rs"],["CovarianceMatrix::update_eigendecomposition","State::evals_per_eigen_update","Sampler::sample_internal"])

p("C14","Constraints are honoured and resampling is bounded",
"With constraints set and unlimited resampling (`max_resamples(None)`), every point passed to the objective function satisfies the constraints. With `max_resamples(Some(n))`, a generation checks constraints in at most n sampling rounds, in which exactly the satisfying points are kept in order, and only then fills the remainder with unchecked points; with the default options n is 10. `Bounds` accepts exactly the points whose every coordinate lies in the closed interval [lower, upper], and feasible points are evaluated unmodified.",
["inputs","histories","configurations"],"every accept/reject outcome of the constraint for every sampled candidate, every n in the bounds, every bound and coordinate value",
"Tests use one box and one function; sequences of rejections, exhaustion of the budget and boundary points are not covered.",
["src/sampling.rs","src/options.rs"],["Sampler::sample_internal","Bounds","Constraints"])

p("C15","Parallel execution gives the sequential result under every schedule",
"For a pure objective function, `run_parallel`/`next_parallel` give bit-identical points, values, state, bests and termination data to `run`/`next` with the same options and seed, whatever the number of worker threads and the order in which work is executed or stolen. With `parallel_update` set, points, ranking and counts are the same and the covariance differs from the sequential result only by rounding. Each sampled point is evaluated exactly once.",
["schedules","inputs"],"every split/steal/execution order of the parallel iterators, every ranking of the points in the bounds",
"Tests execute whatever schedule the machine happens to produce and compare with a tolerance.",
["src/sampling.rs","src/state.rs","src/lib.rs"],["Sampler::sample_parallel","rank_mu_update_parallel","CMAES::next_parallel"])

p("C16","Runs are a function of options, seed and objective values only",
"Two runs built with equal options and the same seed whose objective functions return the same values produce bit-identical points, state, bests and reasons; this is unaffected by plotting, printing, the clock (when no time limit is set), other instances or earlier runs. Different generations and different individuals use fresh random draws, and a different seed changes the sampled points. A `Restarter` with a fixed seed likewise repeats the same runs (means, seeds, step sizes, population sizes). Every run of a `Restarter` draws from a seed of its own, also if the default options contain one.",
["inputs","configurations","histories"],"every seed in the explored set, every objective value history in the bounds, every plotting/printing setting and clock reading",
"Tests compare one seeded run with recorded numbers; independence from printing, plotting, clock and history is not examined.",
["src/sampling.rs","src/lib.rs","src/restart/mod.rs"],["Sampler::new","CMAES::new","Restarter::run_internal"])

p("C17","Wrappers and convenience functions are transparent",
"A `Scale`-wrapped objective is called with each coordinate multiplied by the corresponding scale (exactly, in float arithmetic) and its value is passed through unchanged, for `evaluate`, `evaluate_parallel`, references and boxed objectives alike; `scales` and `into_wrapped_function` return what was given. `fmin`/`fmin_parallel` return the overall best of the run of the default options in `Minimize` mode and `fmax`/`fmax_parallel` of `Maximize` mode with the given mean and step size; they panic exactly when the options are invalid or there is no best because NaN was returned in the first generation.",
["inputs","configurations"],"every coordinate, scale and objective value; every objective value sequence in the bounds",
"Tests never call most wrappers, and exercise the convenience functions on one function.",
["src/objective_function.rs","src/functions.rs"],["Scale","fmin","fmax","fmin_parallel","fmax_parallel"])

p("C18","Restart results aggregate the runs and stop for the right reason",
"`RestartResults` reports the number of runs executed, the sum of the evaluations of all runs, and the best individual of all runs not ended by an invalid value (earliest on ties, mode-aware). After a run the strategy stops, with this precedence, with `InvalidFunctionValue` if the run ended with it, `FunTarget` if the run reached the target, `MaxRuns` if it was the last allowed run; before each run (the first included) it stops with `MaxRuns` if zero runs are allowed, `MaxFunctionEvals` if the total evaluations are at least the limit, or `MaxTime` if the elapsed time is at least the limit. It stops for no other reason.",
["histories","inputs","configurations"],"every sequence of run outcomes (values, NaN, target hits), every limit and every clock reading",
"Tests cover one outcome per reason; combinations of outcomes over several runs, and the precedence between reasons, are not covered.",
["src/restart/mod.rs"],["Restarter::run_internal","Restarter::update_best_individual","RestartResults"])

p("C19","Restart strategies follow their published schedules",
"`Local` performs at most max_runs runs with the default population size and step size = range size x factor (default 0.5) x 0.01. `IPOP` performs at most 10 runs, run k (from 0) with population = default x factor^k (default factor 2) and step size = half the range size. `BIPOP` uses a large-population run (population = default x factor^j for the j-th such run, step size = a fifth of the range size, at most 10 of them) first and whenever the small runs have used at least as many evaluations in total as the large runs, and otherwise a small run with step size in [0.01, 1] x range size x factor (default 0.2), population between the default and max(default, half the last large run's population), and at most half of the last large run's evaluations as evaluation limit (or the per-run limit if stricter); no valid option makes a strategy panic for lack of a valid step size.",
["inputs","histories","configurations"],"every increase factor, step size factor, range and sequence of per-run evaluation counts in the bounds",
"Tests check the first one or two runs with one configuration; the regime choice for every history of evaluation counts is not covered.",
["src/restart/local.rs","src/restart/ipop.rs","src/restart/bipop.rs","src/restart/strategy.rs"],["Local","IPOP","BIPOP","Strategy::next_run"])

p("C20","Every restart run gets the configured options and objective",
"Every run of a `Restarter` uses the restarter's mode, parallel_update, fun_target and per-run limits on evaluations and generations, an initial mean with every coordinate inside the search range, and otherwise the given default options (weights, cm, tolerances, constraints and so on), apart from what the strategy sets. `run`/`run_parallel` obtain a fresh objective function exactly once per run; `run_with_reuse`/`run_parallel_with_reuse` use the one given object for all runs. Flipped search ranges given to `RestartOptions::new` behave like the corrected range.",
["inputs","configurations","histories"],"every option value, every search range and every number of runs in the bounds",
"Tests look at one or two options for single runs; dropped or swapped options for later runs would go unnoticed.",
["src/restart/mod.rs","src/restart/options.rs"],["Restarter::run_internal","Restarter::generate_initial_mean","RestartOptions"])

p("C21","Plot data points are recorded on schedule, never twice per generation",
"With plotting enabled the plot holds one data point at creation; each generation adds one exactly if it is the first generation or at least min_gap_evals evaluations (for every gap value) have passed since the last point was recorded, and `run` adds a final one exactly if the final state has none yet. `add_plot_point` adds a point exactly if none was recorded for the current generation. `clear` leaves exactly one point and does not disturb the later schedule, and without plotting there is no plot.",
["inputs","histories","configurations"],"every gap value (full integer range), every number of generations, every interleaving of add/clear calls in the bounds",
"Tests use two gap values and a single generation; huge gaps and interleavings with clear are not covered.",
["src/plotting/mod.rs","src/plotting/data.rs","src/lib.rs"],["Plot::add_data_point","Plot::get_next_data_point_evals","CMAES::add_plot_point"])

p("C22","Printing follows its schedule and never changes the run",
"With printing enabled, building prints exactly three header lines, and each completed generation prints exactly one line if at least min_gap_evals evaluations (for every gap value) have passed since the last line printed for this reason (or since the start) or fewer than 4 generations are completed, and otherwise nothing. `run` finally prints the final state line exactly if the last scheduled line was not for the current evaluation count, followed by the reasons, the bests (if any) and the mean. Without printing nothing is written to standard output, and printing never alters results.",
["inputs","histories","configurations"],"every gap value (full integer range) and every number of generations in the bounds",
"No test looks at printed output.",
["src/lib.rs","src/utils.rs"],["CMAES::next","CMAES::print_info","CMAES::print_final_info"])

p("C23","Saved plot images show the recorded data",
"`Plot::save_to_file` creates the missing directories exactly when asked to and writes a bitmap that displays the recorded best and median values, axis ratio, mean, axis scales and standard deviations, for any recorded data.",
["inputs","histories"],"every recorded data set",
"Tests only check that a file appears.",
["src/plotting/mod.rs","src/plotting/draw.rs"],["Plot::save_to_file","draw"])

p("C24","The algorithm converges on the problems it is built for",
"On unimodal functions of moderate conditioning the default configuration reaches a target close to the optimum within a number of evaluations in line with published CMA-ES results, and restarts find the global optimum of multimodal functions with high probability.",
["inputs","configurations"],"every function of the class, every seed",
"Tests sample a few functions with random seeds; a statistical property over infinitely many seeds.",
["src/lib.rs","src/state.rs","src/restart/mod.rs"],["CMAES::run","Restarter::run"])
p("C25","Valid options never panic and a run only continues from a valid distribution",
"Once options are accepted by `build`, no sequence of `next`, `next_parallel`, plot and accessor calls panics or fails to return, whatever the objective function returns (NaN, infinities of both signs, ties, huge values) and however extreme the accepted options are (initial step sizes from the smallest to the largest normal float, means that are huge, infinite or NaN, tiny learning rates cm, long histories). With the default TolXUp and TolConditionCov, whenever `next` returns `None` the step size is positive and finite and the covariance matrix symmetric, finite and with positive diagonal and eigenvalues; otherwise the call ends the run with at least one reason. Calling `next` again after termination is allowed.",
["inputs","histories","configurations"],"every value the objective can return in the explored generations (all bit patterns), every combination of the listed extreme options, every placement of generations of mixed infinities",
"Tests run well-behaved functions from ordinary starting points; histories with mixed infinities or overflowing distributions are not sampled.",
["src/lib.rs","src/state.rs","src/termination.rs","src/history.rs","src/matrix.rs"],["CMAES::next","State::update","TerminationCheck::check_termination_criteria","CovarianceMatrix::set_cov"])

p("C26","Printed run information shows the actual state",
"With printing enabled the first header line names the variant (aCMA-ES exactly with negative weights, CMA-ES otherwise) and shows the dimension, population size and seed. Each information line (`print_info`, and the lines printed during the run) shows, in this order, the generation count, the evaluation count, the best value of the latest generation (blank before the first), the axis ratio, the step size and the smallest and largest standard deviation sigma sqrt(C_ii), to the number of digits displayed, for every value including infinities, signed zeros and subnormals. The final text (`print_final_info`, end of `run`/`run_parallel`) lists all termination reasons in order, the values of the current and overall best individuals and the final mean.",
["inputs","configurations","histories"],"every choice of special values (signed zeros, subnormal, huge, infinite) at the explored places of the run, both modes, all weights, the listed dimensions, population sizes and seeds",
"No test looks at printed output.",
["src/lib.rs","src/utils.rs","src/termination.rs"],["CMAES::print_initial_info","CMAES::print_info","CMAES::print_final_info"])

p("C27","Printed restart information matches the runs",
"A `Restarter` without printing writes nothing, and printing never changes the runs or the results. With printing, the first line names the strategy (LR, IPOP, BIPOP) and shows dimension, search range and seed; every run is announced by exactly one `Run k parameters` line showing its actual population size, before exactly one `Run k results` line showing its best value (None if it has none), its termination reasons and its number of evaluations; the final lines show the total number of evaluations, the reason the strategy stopped for and, if there is a best individual, its value.",
["inputs","histories","configurations"],"every strategy and entry point, every place of the chosen special values and of a NaN in the first runs",
"No test looks at printed output.",
["src/restart/mod.rs"],["Restarter::run_internal","Restarter::new"])

p("C28","Accessors report the true state of the run",
"`time_created()` is the instant at which the instance was built and `elapsed()` the time passed since then for every clock reading; `axis_ratio()` is the square root of the ratio between the largest and the smallest eigenvalue; `generations_per_eigen_update()` is the documented interval of evaluations between decompositions expressed in generations, rounded up; the plot's `len()`, `is_empty()` and `capacity()` agree with the points recorded; `into_objective_function()` returns the given object, in the state left by exactly the counted evaluations.",
["inputs","histories","configurations"],"every clock reading, every payload of the objective object, every ranking of the points in the bounds",
"Tests do not call most of these accessors.",
["src/lib.rs","src/state.rs","src/plotting/mod.rs"],["CMAES::elapsed","CMAES::time_created","CMAES::axis_ratio","CMAES::generations_per_eigen_update","CMAES::into_objective_function","Plot::capacity"])
p("C29","Recorded plot data are the state at the recorded generations",
"Each data point of a plot (visible in its `Debug` output and drawn by `save_to_file`) consists of the evaluation count, the best and the median objective value of that generation (undefined before the first), step size, axis ratio, mean, principal axis scales (square roots of the eigenvalues in ascending order) and coordinate standard deviations (without sigma) at the moment it was recorded, up to the 1e-20 offset that keeps logarithms finite. All recorded series stay aligned, points are kept in order, and `clear` keeps exactly the latest point of every series.",
["histories","inputs","configurations"],"every gap value, every interleaving of next, add_plot_point and clear in the bounds, every non-NaN value at the explored places of the run",
"Tests only check the number of points.",
["src/plotting/data.rs","src/plotting/mod.rs","src/history.rs"],["PlotData::add_data_point","PlotData::clear","Plot::add_data_point","get_median_value"])
p("C30","The search is equivariant under scaling and shifting of the search space",
"With the same seed and options and the same objective values in the order of evaluation, multiplying initial mean and initial step size by a power of two multiplies every sampled point, the mean and the step size of every generation by it; adding a constant to the initial mean adds it to every sampled point and mean. Covariance matrix, eigenvalues, axis ratio, counts and, with the default options, the termination reasons are the same (all up to rounding).",
["inputs","histories","configurations"],"every ranking of the points of the free generations, scales from 2^-400 to 2^300, shifts up to 1e6",
"Tests run single problems at a single place and scale; an absolute constant slipped into the update, the sampling or a criterion only shows at other scales.",
["src/state.rs","src/sampling.rs","src/termination.rs","src/parameters.rs"],["State::update","Sampler::sample","to_point","EvaluatedPoint::new","TerminationCheck::check_termination_criteria"])
p("C31","Termination criteria observe the run and never steer it",
"With the same seed, options and objective values, the sampled points, state and bests of every generation do not depend on any termination option, also in generations after termination data was returned; each criterion is reported exactly as it would be with all other criteria disabled, a disabled criterion (limits and target unset, tolerances 0, upper limits infinite) is not reported apart from `TolConditionCov` for a condition that is not a normal number, and no reason is reported twice.",
["inputs","configurations","histories"],"every value of one criterion's option together with combinations of the others being always met or disabled",
"Tests look at each criterion by itself in the generation in which it fires.",
["src/termination.rs","src/lib.rs"],["TerminationCheck::check_termination_criteria","CMAES::next_internal","CMAES::next"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
