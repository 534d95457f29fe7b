//! C01 option validation, C02 options take effect
use crate::common::*;
use crate::rt::*;
use cmaes::options::InvalidOptionsError as E;
use cmaes::PlotOptions;
use cmaes::restart::options::{InvalidRestartOptionsError as RE, InvalidRestartStrategyOptionsError as SE};
use cmaes::restart::{Local, RestartOptions, RestartStrategy, BIPOP, IPOP};
use std::time::Duration;

fn normal(x: f64) -> bool {
    let e = (x.to_bits() >> 52) & 0x7ff;
    (e != 0) & (e != 0x7ff)
}
fn pos(x: f64) -> bool {
    (x.to_bits() >> 63) == 0
}
fn flat(_: &DVector<f64>) -> f64 {
    0.0
}

/// args: dimensions, weights, setter order
pub fn c01_build() {
    let n = arg(0) as usize;
    let pop = any_range(0, arg(3)) as usize;
    let step = any_f64();
    let cm = any_f64();
    // one path per population size
    let pop = conc(pop as u64) as usize;
    let o = if arg(2) == 0 {
        CMAESOptions::new(mean0(n), step).population_size(pop).cm(cm)
    } else {
        CMAESOptions::new(vec![1.0; 3], 1.0).cm(cm).initial_step_size(step).initial_mean(mean0(n)).population_size(pop)
    };
    let r = o.weights(weights_of(arg(1))).seed(1).build(flat).map(|_| ());
    let bad_step = !(normal(step) & pos(step));
    let bad_cm = !(normal(cm) & pos(cm) & (cm <= 1.0));
    let want = if n == 0 {
        Some(E::Dimensions)
    } else if pop < 2 {
        Some(E::PopulationSize)
    } else if bad_step {
        Some(E::InitialStepSize)
    } else if bad_cm {
        Some(E::Cm)
    } else {
        None
    };
    if want.is_none() {
        reach("accepted");
    } else {
        reach("rejected");
    }
    obs(match &r {
        Ok(_) => 0,
        Err(E::Dimensions) => 1,
        Err(E::PopulationSize) => 2,
        Err(E::InitialStepSize) => 3,
        Err(E::Cm) => 4,
    });
    check(r.is_ok() == want.is_none(), "build accepts exactly the valid options");
    if let (Err(e), Some(w)) = (r, want) {
        check(e == w, "build reports the documented error");
    }
}

/// args: how the range is given (0: RestartOptions::new, 1: written to the public field)
pub fn c01_restart() {
    let n = choose(4) as usize;
    let (a, b) = (any_f64(), any_f64());
    let s = RestartStrategy::Local(Local::new(1, None).unwrap());
    let o = if arg(0) == 0 {
        RestartOptions::new(n, a..=b, s)
    } else {
        let mut o = RestartOptions::new(n, 0.0..=1.0, s);
        o.search_range = a..=b;
        o
    };
    let size = o.search_range.end() - o.search_range.start();
    let r = o.seed(1).build().map(|_| ());
    let bad = (size == 0.0) | !size.is_finite();
    obs(match &r {
        Ok(_) => 0,
        Err(RE::Dimensions) => 1,
        Err(RE::SearchRange) => 2,
    });
    match r {
        Ok(_) => {
            reach("accepted");
            check(n != 0, "zero dimensions are rejected");
            check(!bad, "a range of zero or non-finite size is rejected");
        }
        Err(RE::Dimensions) => {
            reach("dimensions");
            check(n == 0, "Dimensions only for zero dimensions");
        }
        Err(RE::SearchRange) => {
            reach("range");
            check((n != 0) & bad, "SearchRange only for a range of zero or non-finite size");
        }
    }
}

/// args: constructor
pub fn c01_strategy() {
    let given = any_bool();
    let x = any_f64();
    let f = if given { Some(x) } else { None };
    let bad_f = given & !(normal(x) & pos(x));
    let (r, bad_f, bad_i) = match arg(0) {
        0 => (Local::new(any_u64() as usize, f).map(|_| ()), bad_f, false),
        1 => {
            let k = any_u64() as usize;
            (IPOP::new(k).map(|_| ()), false, k == 0)
        }
        _ => {
            let k = any_u64() as usize;
            let gk = any_bool();
            (BIPOP::new(f, if gk { Some(k) } else { None }).map(|_| ()), bad_f, gk & (k == 0))
        }
    };
    obs(match &r {
        Ok(_) => 0,
        Err(SE::InitialStepSize) => 1,
        Err(SE::PopulationSize) => 2,
    });
    match r {
        Ok(_) => {
            reach("accepted");
            check(!bad_f & !bad_i, "a strategy accepts only valid parameters");
        }
        Err(SE::InitialStepSize) => check(bad_f, "InitialStepSize only for a factor that is not a positive normal float"),
        Err(SE::PopulationSize) => check(!bad_f & bad_i, "PopulationSize only for a zero increase factor"),
    }
}

/// args: dimensions, population, which options are set (bit mask), order of the builder calls
pub fn c02_options() {
    let (n, lambda, mask, order) = (arg(0) as usize, arg(1) as usize, arg(2), arg(3));
    let set = |b: u64| mask >> b & 1 == 1;
    let sigma0 = any_f64();
    assume(normal(sigma0) & pos(sigma0));
    let cm = any_f64();
    assume(normal(cm) & pos(cm) & (cm <= 1.0));
    let mean: Vec<f64> = (0..n).map(|_| any_f64()).collect();
    let (mfe, mg, tstag, seed) = (any_u64() as usize, any_u64() as usize, any_u64() as usize, any_u64());
    let (secs, nanos) = (any_u64(), any_bits(32));
    assume(nanos < 1_000_000_000);
    let mt = Duration::new(secs, nanos as u32);
    let ft = any_f64();
    let (tf, tfr, tfh, tx, txu, tcc) = (any_f64(), any_f64(), any_f64(), any_f64(), any_f64(), any_f64());
    let mode = choose(2);
    let w = choose(3);
    let par = choose(2) == 1;
    // the seed runs through the generator's key schedule: some special values, otherwise the given one
    let _ = seed;
    let seed_c = if set(15) { [0, 1, 2, 1 << 31, 1 << 32, 1 << 63, u64::MAX - 1, u64::MAX][choose(8) as usize] } else { arg(4) };
    // bit 16: the mean (of another dimension when the population size is given) and the step size are replaced by
    // their own setters; bit 17: constraints, resampling limit and plot are configured first
    let mut o = if set(16) {
        CMAESOptions::new(vec![0.5; if lambda != 0 { n + 2 } else { n }], 3.0)
    } else {
        CMAESOptions::new(mean.clone(), sigma0)
    };
    if set(17) {
        o = o.enable_plot(PlotOptions::new(7, false)).bounds(vec![f64::NEG_INFINITY; n], vec![f64::INFINITY; n]).max_resamples(None);
    }
    if set(14) {
        // a later call replaces an earlier one
        o = o.tol_fun(1.0).tol_fun_rel(2.0).tol_fun_hist(3.0).tol_x(4.0).tol_x_up(5.0).tol_condition_cov(6.0).cm(0.25).tol_stagnation(7).max_generations(8).max_function_evals(9).fun_target(10.0).seed(11).population_size(12).max_time(Duration::new(13, 0)).mode(mode_of(1 - mode)).weights(weights_of((w + 1) % 3)).parallel_update(!par);
    }
    let nset = if set(16) { 17u64 } else { 15 };
    for k in 0..nset {
        // several orders of the calls
        let k = match order {
            0 => k,
            1 => nset - 1 - k,
            2 => (k * 4) % nset,
            _ => (k * 7 + 3) % nset,
        };
        o = match k {
            15 => o.initial_mean(mean.clone()),
            16 => o.initial_step_size(sigma0),
            0 if set(0) => o.mode(mode_of(mode)),
            1 if set(1) => o.weights(weights_of(w)),
            2 if set(2) => o.parallel_update(par),
            3 if set(3) => o.cm(cm),
            4 if set(4) => o.max_function_evals(mfe),
            5 if set(5) => o.max_generations(mg),
            6 if set(6) => o.max_time(mt),
            7 if set(7) => o.fun_target(ft),
            8 if set(8) => o.tol_fun(tf),
            9 if set(9) => o.tol_fun_rel(tfr),
            10 if set(10) => o.tol_fun_hist(tfh),
            11 if set(11) => o.tol_x(tx),
            12 if set(12) => o.tol_stagnation(tstag),
            13 if set(13) => o.tol_x_up(txu).tol_condition_cov(tcc),
            14 => {
                let o = o.seed(seed_c);
                if lambda != 0 {
                    o.population_size(lambda)
                } else {
                    o
                }
            }
            _ => o,
        };
    }
    let s = match o.build(flat) {
        Ok(s) => s,
        Err(_) => {
            check(false, "valid options are accepted");
            return;
        }
    };
    reach("built");
    let p = s.parameters();
    let over = set(14);
    let dl = 4 + (3.0 * (n as f64).ln()).floor() as usize;
    let lam = if lambda != 0 {
        lambda
    } else if over {
        12
    } else {
        dl
    };
    check(p.dim() == n, "dim()");
    check(p.lambda() == lam, "lambda()");
    check(same_bits(p.initial_sigma(), sigma0), "initial_sigma()");
    check(same_bits(s.sigma(), sigma0), "sigma()");
    check(p.seed() == seed_c, "seed()");
    let dm = if over { mode_of(1 - mode) } else { Mode::Minimize };
    check(p.mode() == if set(0) { mode_of(mode) } else { dm }, "mode()");
    let dw = if over { weights_of((w + 1) % 3) } else { Weights::Negative };
    check(p.weights_setting() == if set(1) { weights_of(w) } else { dw }, "weights_setting()");
    check(p.parallel_update() == if set(2) { par } else { over & !par }, "parallel_update()");
    check(same_bits(p.cm(), if set(3) { cm } else if over { 0.25 } else { 1.0 }), "cm()");
    let oo = |b: u64, v: usize, d: usize| if set(b) { Some(v) } else if over { Some(d) } else { None };
    check(p.max_function_evals() == oo(4, mfe, 9), "max_function_evals()");
    check(p.max_generations() == oo(5, mg, 8), "max_generations()");
    let wt = if set(6) { Some(mt) } else if over { Some(Duration::new(13, 0)) } else { None };
    check(p.max_time().is_some() == wt.is_some(), "max_time() is set");
    if let (Some(a), Some(b)) = (p.max_time(), wt) {
        check((a.as_secs() == b.as_secs()) & (a.subsec_nanos() == b.subsec_nanos()), "max_time()");
    }
    let wf = if set(7) { Some(ft) } else if over { Some(10.0) } else { None };
    check(p.fun_target().is_some() == wf.is_some(), "fun_target() is set");
    if let (Some(a), Some(b)) = (p.fun_target(), wf) {
        check(same_bits(a, b), "fun_target()");
    }
    let d = |b: u64, v: f64, o: f64, def: f64| if set(b) { v } else if over { o } else { def };
    check(same_bits(p.tol_fun(), d(8, tf, 1.0, 1e-12)), "tol_fun()");
    check(same_bits(p.tol_fun_rel(), d(9, tfr, 2.0, 0.0)), "tol_fun_rel()");
    check(same_bits(p.tol_fun_hist(), d(10, tfh, 3.0, 1e-12)), "tol_fun_hist()");
    check(same_bits(p.tol_x(), d(11, tx, 4.0, 1e-12 * sigma0)), "tol_x()");
    let ds = 100 + (100.0 * (n as f64).powf(1.5) / lam as f64).ceil() as usize;
    check(p.tol_stagnation() == if set(12) { tstag } else if over { 7 } else { ds }, "tol_stagnation()");
    check(same_bits(p.tol_x_up(), d(13, txu, 5.0, 1e8)), "tol_x_up()");
    check(same_bits(p.tol_condition_cov(), d(13, tcc, 6.0, 1e14)), "tol_condition_cov()");
    let mut ok = s.mean().len() == n;
    for (i, m) in mean.iter().enumerate() {
        ok &= same_bits(s.mean()[i], *m);
    }
    check(ok, "mean() is the initial mean");
    let c = s.covariance_matrix();
    let mut id = c.nrows() == n && c.ncols() == n;
    for i in 0..n {
        for j in 0..n {
            id &= c[(i, j)] == if i == j { 1.0 } else { 0.0 };
        }
    }
    check(id, "the initial covariance is the identity");
    check(s.eigenvalues().iter().all(|e| *e == 1.0), "the initial eigenvalues are 1");
    check(s.generation() == 0 && s.function_evals() == 0, "the counts start at 0");
    check(s.current_best_individual().is_none() && s.overall_best_individual().is_none(), "no best before the first generation");
    check(s.get_plot().is_some() == set(17), "there is a plot exactly when enabled");
    obs(p.lambda() as u64);
    obs(p.tol_stagnation() as u64);
    obs_f(p.tol_x());
}
