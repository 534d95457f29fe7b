"""Bounds and assumptions of every claim, as reported in the evidence and the manifest."""
COMMON = [
    "engine (trusted, exercised by native replay of sampled paths on every run): /verif/engine executes the LLVM IR rustc emits for harness + cmaes + nalgebra + rand + statrs (opt-level 1, fat LTO, overflow checks on) on symbolic inputs; z3 decides the branch and check conditions",
    "RNG draws are concrete (ChaCha with the stated seeds) unless a harness says otherwise; so is everything computed from them (points, mean, covariance); which point gets which rank, NaN or infinity, and all options named symbolic are forked over all cases",
    "memory allocation succeeds; rayon's join is replaced by running both closures on one thread in an order chosen symbolically (build/patched/rayon-core); the clock returns harness-chosen non-decreasing instants",
    "exp, log, pow etc. of the C library are executed concretely; a symbolic argument is an uninterpreted function and cannot be decided",
]
# the general modifiers of harness/src/common.rs
NOISE = "settings of other options that must not matter (other limits, tolerances, targets, plotting, always-true constraints) one instance each"
BIG = "larger populations (up to %s) with the values of most points on fixed levels and every %s-th value free"
CLAIMS = {
 'C01': dict(bounds="build: dimension 0-3 (thorough 10), the population size over 0..64 (1100) value by value, initial step size and cm any 64-bit float, all Weights; restart: dimensions any value in the listed choices, both ends of the range any 64-bit float; strategies: any 64-bit float factor, any 64-bit increase factor"),
 'C02': dict(bounds="dimension 1-10, population sizes 0 (default) to 13, each option alone and all together, in 4 orders of setting, option values any 64-bit pattern where a float or integer is taken"),
 'C03': dict(bounds="dimension 1-4, lambda 2-5, up to 2 (3) generations, all objective values in each generation any non-NaN float, up to 3 (6) constraint answers free, limit on generations 0..g, also where points of a generation coincide; " + NOISE + "; " + BIG % (17, "6th")),
 'C04': dict(bounds="dimension 1-3, lambda 2-5, up to 2 (3) generations, all objective values any non-NaN float; " + NOISE + "; initial means zero, large, symbolic; " + BIG % (41, "9th to 23rd")),
 'C05': dict(bounds="dimension 1-3, lambda 2-5, up to 2 (3) generations; two sets of objective values, all any non-NaN floats with the same ranking; maximize g against minimize -g; " + NOISE + "; initial means zero, large, tiny; " + BIG % (61, "9th to 31st")),
 'C06': dict(bounds="dimension 1-3, lambda 2-4, up to 2 (3) generations, objective values any float including NaN and infinities; " + NOISE + "; symbolic initial mean; " + BIG % (24, "11th")),
 'C07': dict(bounds="up to 3 (12, thorough 6 with all limits) generations, limits any 64-bit integer or duration, the clock any non-decreasing reading per generation; " + NOISE),
 'C08': dict(bounds="lambda 2-5, up to 2 (3) generations, values and target any non-NaN float; " + NOISE + "; " + BIG % (25, "13th")),
 'C09': dict(bounds="lambda 2-5 and the window of 10 + ceil(30 N / lambda) generations plus up to 2 more: one or two positions of the histories (best, worst, median) and the tolerances symbolic, the rest concrete; window lengths of dimension 1-5 and lambda 2-12, 13, 33 with the tolerance symbolic; the relative tolerance is concrete; the first and the best median after 20010 generations; " + NOISE),
 'C10': dict(bounds="histories of 53 to 85 (110) generations, tol_stagnation any 64-bit integer, two to four entries of both histories symbolic at the edges of the compared windows; other criteria firing at the same time; concrete histories of 6000-10000 (100009, where the cap of 20000 matters) generations"),
 'C11': dict(bounds="dimension 1-5, lambda 3-9, up to 2 (3) generations with all rankings after up to 7 concrete ones, symbolic tolerances (TolX, TolXUp, TolConditionCov: any 64-bit float) or symbolic initial mean out of a table of magnitudes (NoEffect*); " + NOISE),
 'C12': dict(bounds="parameters: N from the list, lambda 2..60, all Weights, compared to the formulas with relative tolerance 1e-9; update: dimension 1-5, lambda 2-13, up to 2 generations with every ranking of the sampled points, followed or preceded by concrete ones, learning rates cm from a list, both modes; the sampled steps are those of the listed seeds or of a table of stubbed normal draws (zero, equal and large steps)"),
 'C13': dict(bounds="dimension 1-5, lambda 2-12, up to 2 symbolic generations after up to 20 concrete ones, every ranking; stubbed draws as for C12; sampling: the drawn normals are fixed to unit vectors by the normal stub"),
 'C14': dict(bounds="dimension 1-3, lambda 2-4 (9), max_resamples None, 0-4, 10 (default) and 99, up to 11 (21) constraint answers free; Bounds: dimension 1-6, limits and coordinates any float; " + NOISE),
 'C15': dict(bounds="lambda 2-17, 24-40 with ties, thread counts 1-16 (they drive rayon's splitting), up to 8 (10) joins of arbitrary order and steal flag per run; data races are excluded by Rust's type system and not part of the claim; " + NOISE),
 'C16': dict(bounds="dimension 1-2, lambda 2-3, up to 5 generations, all objective values (or the sphere); plotting, printing gaps and the clock symbolic; other instances created before and between; restarts: all strategies with up to 7 runs"),
 'C17': dict(bounds="Scale: dimension 1-5, coordinates and scales any float; fmin family: dimension 1-2 with the default options, objective values from up to 4 classes including NaN and infinity; invalid options: mean length and step size"),
 'C18': dict(bounds="up to 3 runs of up to 2 generations of 2-3 evaluations, objective values any float (NaN included), target any float, evaluation limit any integer, clock any non-decreasing reading"),
 'C19': dict(bounds="dimension 1; population sizes 3-8, factors 1-5, total evaluations up to 600; the normal stub makes mean and step size of each run visible; small-run evaluation limits: per-run limit any integer"),
 'C20': dict(bounds="dimension 1-3, up to 6 runs with free choices and sequences of up to 17 (more, thorough) runs, the runs' options read off through observable behaviour (with constraints: what they are asked); objective factory calls counted for all four entry points"),
 'C21': dict(bounds="up to 8 generations, gap any 64-bit integer, every interleaving of up to 3 operations (next, add_plot_point, clear) per step, also in generations that end the run"),
 'C22': dict(bounds="up to 10 generations, also such that end the run, gap any 64-bit integer; the printed text is captured at write(1)"),
 'C25': dict(bounds="calls: dimension 1-3, lambda 2-5, every objective value of 1 (2) generations any 64-bit float, one more generation after; extremes: dimension 1-3, lambda 4-7, 3-8 generations, all combinations of 6 initial step sizes, 4 means, 2 learning rates, 3 value scales and the place of two infinities; long histories of 30-120 generations with up to 5 (8) generations of mixed infinities at free choice; Weights and modes as listed"),
 'C26': dict(bounds="dimension 1-5, lambda 3-33, 3-8 generations, one or two objective values any non-NaN float (printed numbers that depend on them are followed symbolically through the formatting) or out of 9 special ones formatted for real, three entry points, all Weights, both modes"),
 'C27': dict(bounds="dimension 2, lambda 2-5, runs of 1-3 (4) generations (BIPOP 1), up to 60 (120; Local 1000) evaluations in total, three search ranges from 1e-60 to 1e60, all strategies and entry points; an objective value of any float, a special value or NaN at any place of the first two generations"),
 'C28': dict(bounds="update interval: dimension 1-5 (30), lambda 2-40, all Weights, two cm; otherwise dimension 1-5, lambda 2-25, up to 1 (2) generations with the objective values free after up to 9 concrete ones (some of them for large lambda), creation, run and query time any reading of the clock up to 2^30 s"),
 'C29': dict(bounds="dimension 1-5, lambda 3-9, 8 generations of concrete values or every sequence of 3 (4) operations out of next, add_plot_point and clear, gap any 64-bit integer, one or two objective values any non-NaN float, or one whole generation of equal values (any float or infinite), all Weights, both modes; recorded data read off the plot's Debug output"),
 'C30': dict(bounds="dimension 1-5, lambda 3-17, up to 2 generations of free rankings (some of the values for large lambda) after up to 8 (12) concrete ones, scales 2^-400, 2^-40, 2^10, 2^300, shifts 1, -1000, 1e6"),
 'C31': dict(bounds="dimension 1-3, lambda 5-12, 6-24 (40) generations of concrete objective values, the option of any one criterion any value (a time limit any number of whole seconds below 2^40), the others disabled, always met, or a mix"),
}
