//! C18 restart aggregation, C19 strategy schedules, C20 options of the runs
use crate::common::*;
use crate::g2::F;
use crate::rt::*;
use cmaes::restart::{Local, RestartOptions, RestartResults, RestartStrategy, RestartTerminationReason as R, BIPOP, IPOP};
use std::time::Duration;

type Fun = fn(&DVector<f64>) -> f64;

/// start of every run in the evaluation log, as seen by the objective factory
static mut STARTS: Vec<usize> = vec![];
#[allow(static_mut_refs)]
fn starts() -> &'static mut Vec<usize> {
    unsafe { &mut STARTS }
}
fn fresh() -> Fun {
    starts().push(ob().vals.len());
    on_run();
    F
}
static mut CLK: Vec<(u64, u64)> = vec![];
static mut CLK_ON: bool = false;
#[allow(static_mut_refs)]
fn on_run() {}

fn go(o: RestartOptions, how: u64) -> RestartResults {
    let r = o.build().unwrap();
    if how == 0 {
        r.run(fresh)
    } else {
        r.run_parallel(fresh)
    }
}

/// args: lambda, max_runs, per-run generations, how (0 run, 1 run_parallel), mode, which limits are set (1 evals, 2 target), kind (0 no NaN, 1 any, 2 any value in the first place of each generation)
pub fn c18_agg() {
    let (l, mr, g, how, m, set) = (arg(0) as usize, arg(1) as usize, arg(2) as usize, arg(3), mode_of(arg(4)), arg(5));
    env().threads = 2;
    reset([Kind::Num, Kind::Any, Kind::Given][arg(6) as usize], 1);
    if arg(6) == 2 {
        ob().given = (0..mr * g * l).map(|k| if k % l == 0 { any_f64() } else { ((k * 5 + k / 3) % 7) as f64 - 2.5 }).collect();
    }
    let limit = any_u64() as usize;
    let target = any_f64();
    let mut o = RestartOptions::new(1, -1.0..=1.0, RestartStrategy::Local(Local::new(mr, None).unwrap()))
        .mode(m)
        .seed(5)
        .max_generations_per_run(g)
        .default_options(CMAESOptions::new(vec![0.0], 1.0).population_size(l));
    if set & 1 != 0 {
        o = o.max_function_evals(limit);
    }
    if set & 2 != 0 {
        o = o.fun_target(target);
    }
    let r = go(o, how);
    let st = starts().clone();
    let (pts, vals) = (&ob().pts, &ob().vals);
    // the expected aggregation of the logged runs
    let mut evals = 0usize;
    let mut best: Option<usize> = None;
    let mut reason = None;
    let mut runs = 0;
    for k in 0..st.len() {
        let end = if k + 1 < st.len() { st[k + 1] } else { vals.len() };
        check(reason.is_none(), "no run is started after a reason to stop");
        if k == 0 {
            check(mr > 0, "no run if zero runs are allowed");
        }
        check(implies(set & 1 != 0, evals < limit), "no run is started at the evaluation limit");
        runs += 1;
        let v = &vals[st[k]..end];
        let mut nan = false;
        for x in v {
            nan |= x.is_nan();
        }
        let complete = v.len() / l;
        if nan {
            // only completed generations are counted
            reason = Some(R::InvalidFunctionValue);
            let mut full = 0;
            for gk in 0..complete {
                let mut bad = false;
                for x in &v[gk * l..(gk + 1) * l] {
                    bad |= x.is_nan();
                }
                if bad {
                    break;
                }
                full += 1;
            }
            evals += full * l;
            continue;
        }
        check(v.len() % l == 0, "whole generations");
        evals += v.len();
        let mut hit = false;
        for i in st[k]..end {
            best = match best {
                None => Some(i),
                Some(b) => {
                    if better(m, vals[i], vals[b]) {
                        Some(i)
                    } else {
                        Some(b)
                    }
                }
            };
            hit |= (set & 2 != 0) & better(m, vals[i], target);
        }
        if hit {
            reason = Some(R::FunTarget);
        } else if runs == mr {
            reason = Some(R::MaxRuns);
        } else {
            let over = (set & 1 != 0) & (evals >= limit);
            if over {
                reason = Some(R::MaxFunctionEvals);
            }
        }
    }
    if st.is_empty() {
        reason = Some(if mr == 0 { R::MaxRuns } else { R::MaxFunctionEvals });
        check(mr == 0 || ((set & 1 != 0) & (limit == 0)), "a run is started unless a limit forbids it");
    }
    check(r.runs == runs, "runs is the number of runs");
    check(r.function_evals == evals, "function_evals is the sum over all runs");
    check(Some(r.reason) == reason, "the reason follows the documented precedence");
    match (&r.best, best) {
        (None, None) => {}
        (Some(i), Some(b)) => {
            check(same_bits(i.value, vals[b]), "best has the best value of all runs, the earliest on ties");
            check(vec_eq(i.point.as_slice(), &pts[b]), "best is the point of the best value");
        }
        _ => check(false, "best is set exactly if a run completed without a NaN"),
    }
    match r.reason {
        R::MaxRuns => reach("MaxRuns"),
        R::FunTarget => reach("FunTarget"),
        R::MaxFunctionEvals => reach("MaxFunctionEvals"),
        R::MaxTime => reach("MaxTime"),
        R::InvalidFunctionValue => reach("InvalidFunctionValue"),
    }
    obs(runs as u64);
    obs(evals as u64);
}

/// MaxTime of the restarter. args: max_runs
static mut NEXT_CLK: usize = 0;
#[allow(static_mut_refs)]
fn timed(x: &DVector<f64>) -> f64 {
    unsafe {
        // the clock jumps during the first evaluation of every run
        if ob().vals.len() % 2 == 0 {
            let (s, n) = CLK[NEXT_CLK];
            NEXT_CLK += 1;
            set_clock(s, n);
        }
    }
    obj(x)
}
#[allow(static_mut_refs)]
pub fn c18_time() {
    let mr = arg(0) as usize;
    let (ls, ln) = (any_bits(48), any_bits(32));
    assume(ln < 1_000_000_000);
    set_clock(0, 0);
    let (mut ps, mut pn) = (0u64, 0u64);
    for _ in 0..mr {
        let (s, n) = (any_bits(40), any_bits(32));
        assume(n < 1_000_000_000);
        assume((s > ps) | ((s == ps) & (n >= pn)));
        ps = s;
        pn = n;
        unsafe { CLK.push((s, n)) };
    }
    reset(Kind::Sphere, 1);
    let o = RestartOptions::new(1, -1.0..=1.0, RestartStrategy::Local(Local::new(mr, None).unwrap()))
        .seed(5)
        .max_time(Duration::new(ls, ln as u32))
        .max_generations_per_run(1)
        .default_options(CMAESOptions::new(vec![0.0], 1.0).population_size(2));
    let t: Fun = timed;
    let r = o.build().unwrap().run(|| {
        starts().push(ob().vals.len());
        t
    });
    let runs = starts().len();
    // expected: runs continue while the time limit is not reached
    let at = |k: usize| -> bool {
        let (s, n) = if k == 0 { (0, 0) } else { unsafe { CLK[k - 1] } };
        (s > ls) | ((s == ls) & (n >= ln))
    };
    check(r.runs == runs && runs <= mr, "runs counts the runs");
    check(r.function_evals == 2 * runs, "evaluations");
    for k in 0..runs {
        check(!at(k), "no run is started when the time limit is reached");
    }
    if runs < mr {
        check(at(runs), "the strategy does not stop before the time limit");
        check(r.reason == R::MaxTime, "MaxTime is the reason");
        reach("time");
    } else {
        check(r.reason == R::MaxRuns, "MaxRuns is the reason when the last run was executed");
        reach("runs");
    }
    obs(runs as u64);
}

// ---- C19 ---------------------------------------------------------------------------------------
/// observation of each run: population size, step size, mean (draws: first individual 0, others 1 in coordinate 0)
struct Run {
    evals: usize,
    mean: f64,
    sigma: f64,
}
/// per run: number of evaluations of the first generation cannot be seen from outside; runs are one generation long
fn probe_runs(n: usize) -> Vec<Run> {
    let st = starts();
    let mut v = vec![];
    for k in 0..st.len() {
        let end = if k + 1 < st.len() { st[k + 1] } else { ob().vals.len() };
        let p = &ob().pts[st[k]..end];
        v.push(Run { evals: end - st[k], mean: p[0][0], sigma: p.get(1).map(|q| q[0] - p[0][0]).unwrap_or(0.0) });
        let _ = n;
    }
    v
}
static mut ZK: u64 = 0;
/// draws for one-generation runs of unknown population size with N = 1: 0, 1, then small alternating values
fn provide_normals(kinds: usize) {
    let e = env();
    e.normal_mode = 1;
    e.normals = vec![];
    e.normal_i = 0;
    let _ = kinds;
}
/// called for every new run: the next draws are 0, 1, 0.5, -0.5, ...
fn new_run_normals(upto: usize) {
    let e = env();
    e.normal_i = 0;
    e.normals.clear();
    for i in 0..upto {
        e.normals.push(match i {
            0 => 0.0,
            1 => 1.0,
            k => (((k * 7) % 13) as f64 - 6.0) * 0.25,
        });
    }
}

/// Local with a symbolic factor and range; the run ends at its first evaluation (NaN). args: default factor (0/1)
pub fn c19_local_step() {
    let f = any_f64();
    let lo = any_f64();
    let hi = any_f64();
    assume(lo <= hi);
    let dflt = arg(0) == 1;
    let strat = match Local::new(1, if dflt { None } else { Some(f) }) {
        Ok(s) => s,
        Err(_) => return,
    };
    let ro = match RestartOptions::new(1, lo..=hi, RestartStrategy::Local(strat)).seed(3).build() {
        Ok(r) => r,
        Err(_) => return,
    };
    reset(Kind::Nan, 1);
    provide_normals(1);
    new_run_normals(32);
    env().normals[0] = 0.0;
    let r = ro.run(fresh);
    check(r.runs == 1 && r.reason == R::InvalidFunctionValue, "one run, ended by the NaN");
    reach("ran");
}
/// the step size formulas on concrete ranges and factors. args: strategy (0 Local, 1 IPOP, 2 BIPOP), lambda, factor, runs
pub fn c19_schedule() {
    let (which, l, factor) = (arg(0), arg(1) as usize, arg(2) as usize);
    let sets = [(-1.0f64, 1.0f64), (0.0, 10.0), (-300.0, -100.0), (0.25, 0.2500001), (-1e6, 2e6)];
    let (lo, hi) = sets[choose(sets.len() as u64) as usize];
    let size = hi - lo;
    let ff = [None, Some(0.5), Some(0.01), Some(3.0), Some(1.0)][choose(5) as usize];
    let maxev = arg(3) as usize;
    let s = match which {
        0 => RestartStrategy::Local(Local::new(factor, ff).unwrap()),
        1 => RestartStrategy::IPOP(if factor == 0 { IPOP::default() } else { IPOP::new(factor).unwrap() }),
        _ => RestartStrategy::BIPOP(BIPOP::new(ff, if factor == 0 { None } else { Some(factor) }).unwrap()),
    };
    let seed = choose(arg(4));
    reset(Kind::Sphere, 1);
    env().normal_mode = 1;
    let mut o = RestartOptions::new(1, lo..=hi, s).seed(seed).max_generations_per_run(1).default_options(CMAESOptions::new(vec![0.0], 7.0).population_size(l));
    if maxev > 0 {
        o = o.max_function_evals(maxev);
    }
    let t: Fun = F;
    let r = o.build().unwrap().run(|| {
        starts().push(ob().vals.len());
        new_run_normals(1 << 13);
        t
    });
    let runs = probe_runs(1);
    check(r.runs == runs.len(), "runs");
    let mut total = 0;
    let tol = 1e-9;
    let inc = if factor == 0 { 2 } else { factor };
    match which {
        0 => {
            check(runs.len() == factor, "Local performs exactly max_runs runs");
            for q in &runs {
                check(q.evals == l, "Local keeps the default population size");
                check(close(q.sigma, size * ff.unwrap_or(0.5) * 0.01, (lo.abs() + hi.abs()) * 1e-6, tol), "Local: step size = range * factor * 0.01");
            }
        }
        1 => {
            let mut pop = l;
            for q in &runs {
                check(q.evals == pop, "IPOP: population = default * factor^k");
                check(close(q.sigma, size / 2.0, (lo.abs() + hi.abs()) * 1e-6, tol), "IPOP: step size = range / 2");
                pop *= inc;
                total += q.evals;
            }
            check(runs.len() == 10 || (maxev > 0 && total >= maxev), "IPOP performs 10 runs");
            check(runs.len() <= 10, "IPOP performs at most 10 runs");
        }
        _ => {
            let (mut big, mut small, mut nbig, mut pop, mut last) = (0usize, 0usize, 0usize, l, 0usize);
            for q in &runs {
                check(nbig < 10, "BIPOP stops after 10 large runs");
                if nbig == 0 || small >= big {
                    check(q.evals == pop, "BIPOP large run: population = default * factor^j");
                    check(close(q.sigma, size / 5.0, (lo.abs() + hi.abs()) * 1e-6, tol), "BIPOP large run: step size = range / 5");
                    big += q.evals;
                    nbig += 1;
                    last = pop;
                    pop *= inc;
                    reach("large");
                } else {
                    check(q.evals >= l && q.evals <= l.max(last / 2), "BIPOP small run: population between the default and half the last large one");
                    let f = ff.unwrap_or(0.2);
                    let slack = (lo.abs() + hi.abs()) * 1e-14;
                    check(q.sigma >= 0.01 * size * f * (1.0 - 1e-9) - slack && q.sigma <= size * f * (1.0 + 1e-9) + slack, "BIPOP small run: step size in [0.01, 1] * range * factor");
                    small += q.evals;
                    reach("small");
                }
                total += q.evals;
            }
            check(nbig == 10 || (maxev > 0 && total >= maxev), "BIPOP stops only after 10 large runs");
        }
    }
    for q in &runs {
        check(q.mean >= lo && q.mean <= hi, "the initial mean lies in the search range");
    }
    reach("end");
    obs(runs.len() as u64);
    obs(total as u64);
}

/// BIPOP: the evaluation limit of a small run is half the evaluations of the last large run (or the per-run limit if stricter)
/// args: lambda, generations of the large runs, limit set, number of runs looked at
pub fn c19_lr_limit() {
    let (l, set) = (arg(0) as usize, arg(1));
    let (gmax, lim) = (1 + choose(arg(2)) as usize, any_u64() as usize);
    reset(Kind::Sphere, 1);
    let maxev = arg(3) as usize;
    let mut o = RestartOptions::new(1, -1.0..=1.0, RestartStrategy::BIPOP(BIPOP::default()))
        .seed(arg(4))
        .max_generations_per_run(gmax)
        .max_function_evals(maxev)
        .default_options(CMAESOptions::new(vec![0.0], 7.0).population_size(l).tol_fun(0.0).tol_fun_hist(0.0).tol_x(0.0).tol_condition_cov(f64::INFINITY).tol_x_up(f64::INFINITY));
    if set == 1 {
        o = o.max_function_evals_per_run(lim);
    }
    env().normal_mode = 0;
    let t: Fun = F;
    let r = o.build().unwrap().run(|| {
        starts().push(ob().vals.len());
        t
    });
    check(r.runs == starts().len(), "runs");
    let st = starts();
    let (mut big, mut small, mut nbig, mut pop, mut last) = (0usize, 0usize, 0usize, l, 0usize);
    for k in 0..st.len() {
        let end = if k + 1 < st.len() { st[k + 1] } else { ob().vals.len() };
        let ev = end - st[k];
        if nbig == 0 || small >= big {
            // large: stops in the first generation that reaches the per-run limit or gmax
            let mut g = gmax;
            for j in (1..gmax).rev() {
                let stop = (set == 1) & (j * pop >= lim);
                if stop {
                    g = j;
                }
            }
            check(ev == g * pop, "a large run uses the configured limits");
            big += ev;
            nbig += 1;
            last = ev;
            pop *= 2;
        } else {
            let half = last / 2;
            // population unknown in [l, ..]: the limit is reached in the last generation and not before it
            let mut ok = false;
            for p in l..=l.max(pop / 4) {
                if ev % p != 0 {
                    continue;
                }
                let g = ev / p;
                let fits = (g == gmax) | (ev >= half) | ((set == 1) & (ev >= lim));
                let before = (g == 1) | (((g - 1) * p < half) & ((set != 1) | ((g - 1) * p < lim)));
                ok |= fits & before & (g <= gmax);
            }
            check(ok, "a small run stops at half the evaluations of the last large run");
            if ev >= half {
                reach("half");
            }
            small += ev;
        }
    }
    reach("end");
    obs(r.function_evals as u64);
}

/// no valid strategy parameter makes a run panic for lack of a valid step size.
/// args: strategy (0 Local, 1 IPOP, 2 BIPOP small run), range kind
pub fn c19_no_panic() {
    let which = arg(0);
    let (lo, hi);
    if arg(1) == 0 {
        lo = any_f64();
        hi = any_f64();
        assume(lo <= hi);
    } else {
        let k = choose(4) as usize;
        lo = [0.0, 0.0, -1e308, 0.0][k];
        hi = [1.0, 5e-324, 0.7e308, 1e-300][k];
    }
    let f = any_f64();
    let s = match which {
        0 => match Local::new(1, Some(f)) {
            Ok(x) => RestartStrategy::Local(x),
            Err(_) => return,
        },
        1 => RestartStrategy::IPOP(IPOP::default()),
        2 => match BIPOP::new(Some(f), None) {
            Ok(x) => RestartStrategy::BIPOP(x),
            Err(_) => return,
        },
        _ => RestartStrategy::BIPOP(BIPOP::default()),
    };
    let o = RestartOptions::new(1, lo..=hi, s).seed(3).max_generations_per_run(1).default_options(CMAESOptions::new(vec![0.0], 7.0).population_size(2));
    let ro = match o.build() {
        Ok(r) => r,
        Err(_) => return,
    };
    env().normal_mode = 1;
    env().normals = vec![0.0; 64];
    reset(Kind::Given, 1);
    // BIPOP: one ordinary large run, then a small run that ends at once
    ob().given = if which == 2 { vec![1.0, 2.0, f64::NAN] } else { vec![f64::NAN] };
    let r = ro.run(fresh);
    check(r.reason == R::InvalidFunctionValue, "the run was started with a valid step size");
    reach("ran");
    obs(r.runs as u64);
}

// ---- C20 ---------------------------------------------------------------------------------------
/// A restarter run is the plain run of the configured options.
/// args: strategy, n, lambda, generations, shard of option values, how (0 run, 1 run_parallel, 2 with_reuse, 3 parallel_with_reuse)
pub fn c20_options() {
    let (which, n, l, g, how) = (arg(0), arg(1) as usize, arg(2) as usize, arg(3) as usize, arg(5));
    env().threads = 2;
    let shard = arg(4);
    let m = mode_of(choose(2));
    let pu = choose(2) == 1;
    let w = weights_of(shard % 3);
    let cm = [1.0, 0.5, 0.25][(shard / 3 % 3) as usize];
    let flip = arg(6);
    let (lo, hi) = (-2.0, 3.0);
    let (tx, txu, tcc) = (any_f64(), any_f64(), any_f64());
    let mut d = CMAESOptions::new(vec![9.0; n], 7.0).population_size(l).weights(w).cm(cm).tol_x(tx).tol_x_up(txu).tol_condition_cov(tcc);
    // options that the restarter overwrites
    if shard & 1 == 1 {
        d = d.mode(mode_of(1 - (m == Mode::Maximize) as u64)).parallel_update(!pu).max_generations(1).max_function_evals(1).fun_target(0.0).seed(99);
    }
    let bounded = shard & 2 == 2;
    if bounded {
        d = d.bounds(vec![-1.5; n], vec![2.5; n]).max_resamples(Some(3));
    }
    let lims = choose(3);
    let (limg, lime) = (any_u64() as usize, any_u64() as usize);
    let ft = any_f64();
    let strat = match which {
        0 => RestartStrategy::Local(Local::new(1, Some(20.0)).unwrap()),
        1 => RestartStrategy::IPOP(IPOP::default()),
        _ => RestartStrategy::BIPOP(BIPOP::default()),
    };
    let sigma = match which {
        0 => (hi - lo) * 20.0 * 1e-2,
        1 => (hi - lo) / 2.0,
        _ => (hi - lo) / 5.0,
    };
    let mut o = if flip == 1 { RestartOptions::new(n, hi..=lo, strat) } else { RestartOptions::new(n, lo..=hi, strat) };
    o = o.mode(m).parallel_update(pu).default_options(d.clone()).seed(1).max_function_evals(1);
    match lims {
        0 => {
            assume(limg <= g);
            o = o.max_generations_per_run(limg);
        }
        1 => {
            assume(lime <= g * l);
            o = o.max_function_evals_per_run(lime);
        }
        _ => o = o.max_generations_per_run(g).fun_target(ft),
    }
    // the same draws for both; the first individual is the mean itself unless constrained away
    let mut zs = vec![];
    let mut h = 77u64;
    for k in 0..(g * l * n * 5) {
        h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        zs.push(if k < n { 0.0 } else { ((h >> 33) as f64) / (1u64 << 31) as f64 * 3.0 - 1.5 });
    }
    env().normal_mode = 1;
    env().normals = zs;
    reset(Kind::Sphere, n);
    let ro = o.build().unwrap();
    let mut made = 0;
    let t: Fun = F;
    let r = match how {
        0 => ro.run(|| {
            made += 1;
            t
        }),
        1 => ro.run_parallel(|| {
            made += 1;
            t
        }),
        2 => ro.run_with_reuse(t),
        _ => ro.run_parallel_with_reuse(t),
    };
    check(r.runs == 1 && (how >= 2 || made == 1), "one run, one objective function");
    let (pts, vals) = (ob().pts.clone(), ob().vals.clone());
    let mean = pts[0].clone();
    let feasible = !bounded || mean.iter().all(|x| *x >= -1.5 && *x <= 2.5);
    assume(feasible);
    check(mean.iter().all(|x| *x >= lo && *x <= hi), "every coordinate of the initial mean lies in the search range");
    // the plain run
    env().normal_i = 0;
    reset(Kind::Given, n);
    ob().given = vals.clone();
    let mut p = d.clone().mode(m).parallel_update(pu).seed(1).initial_mean(mean).initial_step_size(sigma);
    p.max_generations = None;
    p.max_function_evals = None;
    p.fun_target = None;
    match lims {
        0 => p = p.max_generations(limg),
        1 => p = p.max_function_evals(lime),
        _ => p = p.max_generations(g).fun_target(ft),
    }
    let mut s = p.build(t).unwrap();
    let td = if how & 1 == 1 { s.run_parallel() } else { s.run() };
    check(r.function_evals == s.function_evals(), "a restart run makes the evaluations of the configured run");
    check(ob().pts.len() == pts.len(), "a restart run evaluates as many points as the configured run");
    // sigma is only equal up to rounding
    let mut ok = ob().pts.len() == pts.len();
    for (a, b) in ob().pts.iter().zip(&pts) {
        for (x, y) in a.iter().zip(b) {
            ok &= close(*x, *y, 1.0, 1e-9);
        }
    }
    check(ok, "a restart run evaluates the points of the configured run");
    let b = td.overall_best.unwrap();
    let rb = r.best.unwrap();
    check(same_bits(rb.value, b.value), "the best of the run is the best of the restarter");
    reach("end");
    obs(r.function_evals as u64);
}

/// factories and reuse. args: strategy, max_runs, how
pub struct Counter {
    pub n: std::sync::atomic::AtomicUsize,
    pub id: usize,
}
static mut COUNTS: Vec<usize> = vec![];
#[allow(static_mut_refs)]
impl ObjectiveFunction for Counter {
    fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
        unsafe { COUNTS[self.id] += 1 };
        obj(x)
    }
}
#[allow(static_mut_refs)]
impl ParallelObjectiveFunction for Counter {
    fn evaluate_parallel(&self, x: &DVector<f64>) -> f64 {
        unsafe { COUNTS[self.id] += 1 };
        obj(x)
    }
}
#[allow(static_mut_refs)]
pub fn c20_objective() {
    let (which, l, how) = (arg(0), arg(1) as usize, arg(2));
    env().threads = 2;
    let g = 1 + choose(2) as usize;
    let lim = any_u64() as usize;
    assume(lim <= 12 * l);
    reset(Kind::Sphere, 2);
    let s = match which {
        0 => RestartStrategy::Local(Local::new(3, None).unwrap()),
        1 => RestartStrategy::IPOP(IPOP::new(1).unwrap()),
        _ => RestartStrategy::BIPOP(BIPOP::new(None, Some(1)).unwrap()),
    };
    let ro = RestartOptions::new(2, -1.0..=1.0, s).seed(4).max_generations_per_run(g).max_function_evals(lim).default_options(CMAESOptions::new(vec![0.0; 2], 1.0).population_size(l)).build().unwrap();
    let mk = || unsafe {
        COUNTS.push(0);
        Counter { n: Default::default(), id: COUNTS.len() - 1 }
    };
    let r = match how {
        0 => ro.run(mk),
        1 => ro.run_parallel(mk),
        2 => ro.run_with_reuse(mk()),
        _ => ro.run_parallel_with_reuse(mk()),
    };
    let c = unsafe { &COUNTS };
    if how < 2 {
        check(c.len() == r.runs, "a fresh objective function is obtained exactly once per run");
        check(c.iter().all(|x| *x > 0), "every obtained objective function is used for its run");
    } else {
        check(c.len() == 1, "one objective function serves all runs");
    }
    check(c.iter().sum::<usize>() == r.function_evals, "all evaluations go to the given objective functions");
    if r.runs > 1 {
        reach("several runs");
    }
    reach("end");
    obs(r.runs as u64);
}

/// two restarters with equal seeds repeat each other (C16). args: strategy, seed, evaluation limit, 1: the default options have a seed of their own
pub fn c16_restart() {
    let (which, seed) = (arg(0), arg(1));
    reset(if arg(3) == 1 { Kind::Sphere } else { Kind::Num }, 1);
    let cap = arg(2) as usize;
    let lam = if arg(3) == 1 { 3 } else { 2 };
    let mut d = CMAESOptions::new(vec![0.0], 1.0).population_size(lam);
    if arg(3) == 1 {
        d = d.seed(5);
    }
    let mk = |sd: u64| {
        let s = match which {
            0 => RestartStrategy::Local(Local::new(3, None).unwrap()),
            1 => RestartStrategy::IPOP(IPOP::new(2).unwrap()),
            _ => RestartStrategy::BIPOP(BIPOP::default()),
        };
        RestartOptions::new(1, -1.0..=1.0, s).seed(sd).max_generations_per_run(1).max_function_evals(cap).default_options(d.clone()).build().unwrap()
    };
    let r = mk(seed);
    check(r.seed() == seed, "seed() returns the seed");
    let a = r.run(fresh);
    let (pts, vals, st) = (ob().pts.clone(), ob().vals.clone(), starts().clone());
    starts().clear();
    reset(Kind::Given, 1);
    ob().given = vals;
    set_clock(any_bits(20), 77);
    let b = mk(seed).run(fresh);
    check(a.runs == b.runs && a.function_evals == b.function_evals && a.reason == b.reason, "a restarter with a fixed seed repeats its results");
    check(*starts() == st, "a restarter with a fixed seed repeats its runs");
    check(ob().pts.len() == pts.len() && ob().pts.iter().zip(&pts).all(|(a, b)| vec_eq(a, b)), "a restarter with a fixed seed evaluates bit-identical points");
    // every run starts elsewhere
    let mut fresh_means = true;
    for i in 0..st.len() {
        for j in 0..i {
            fresh_means &= !vec_eq(&pts[st[i]], &pts[st[j]]);
        }
    }
    // the ratio of two steps depends on the draws only
    if lam == 3 {
        let print = |i: usize| (pts[st[i] + 1][0] - pts[st[i]][0]) / (pts[st[i] + 2][0] - pts[st[i]][0]);
        for i in 0..st.len() {
            for j in 0..i {
                fresh_means &= !close(print(i), print(j), 0.0, 1e-9);
            }
        }
    }
    check(fresh_means, "every run uses fresh random numbers");
    reset(Kind::Sphere, 1);
    let _ = mk(seed + 1).run(fresh);
    check(!vec_eq(&ob().pts[0], &pts[0]), "another seed gives other runs");
    reach("end");
    obs(a.runs as u64);
}

/// Every run of a restarter against a plain run with the configured options. args: strategy, n, lambda, generations, how (0..3), shard
/// the draws are given: the first individual of a run is its initial mean, the second shows its step size
pub fn c20_runs() {
    let (which, n, l, g, how, shard) = (arg(0), arg(1) as usize, arg(2) as usize, arg(3) as usize, arg(4), arg(5));
    env().threads = 2;
    let m = mode_of(choose(2));
    let pu = choose(2) == 1;
    let lims = choose(4);
    let never = if m == Mode::Minimize { f64::NEG_INFINITY } else { f64::INFINITY };
    let runs = 3usize;
    // any value of an option of the runs that has no effect here
    let (txu, tfr) = (any_f64(), any_f64());
    assume((txu > 1e9) & (tfr <= 0.0));
    let mut d = CMAESOptions::new(vec![9.0; n], 7.0).population_size(l).weights(weights_of(shard % 3)).cm([1.0, 0.5][(shard / 3 % 2) as usize]).tol_x_up(txu).tol_fun_rel(tfr).tol_fun(0.0).tol_fun_hist(0.0).tol_x(0.0);
    let trap = shard & 1 == 1;
    if trap {
        // the restarter replaces these in every run
        d = d.mode(mode_of(1 - (m == Mode::Maximize) as u64)).parallel_update(!pu).max_generations(1).max_function_evals(1).fun_target(if m == Mode::Minimize { f64::INFINITY } else { f64::NEG_INFINITY }).seed(99);
    }
    let strat = match which {
        0 => RestartStrategy::Local(Local::new(runs, Some(20.0)).unwrap()),
        1 => RestartStrategy::IPOP(IPOP::new(2).unwrap()),
        _ => RestartStrategy::BIPOP(BIPOP::default()),
    };
    let lim_e = (g - 1) * l + 1;
    let mut o = RestartOptions::new(n, -2.0..=3.0, strat).mode(m).parallel_update(pu).default_options(d.clone()).seed(1).max_generations_per_run(g);
    if lims & 1 == 1 {
        o = o.max_function_evals_per_run(lim_e);
    }
    if lims & 2 == 2 {
        o = o.fun_target(never);
    }
    // population, evaluation limit and evaluations of the runs
    let mut plan: Vec<(usize, Option<usize>, usize)> = vec![];
    for k in 0..runs {
        let pop = match which {
            0 => l,
            1 => l << k,
            _ => [l, l, 2 * l][k],
        };
        let mut lim = if lims & 1 == 1 { Some(lim_e) } else { None };
        if which == 2 && k == 1 {
            let half = plan[0].2 / 2;
            lim = Some(lim.map_or(half, |x| x.min(half)));
        }
        let mut gens = 1;
        while gens < g && lim.map_or(true, |x| gens * pop < x) {
            gens += 1;
        }
        plan.push((pop, lim, gens * pop));
        // BIPOP: the small run needs as many evaluations as the large one before the next large run
        if which == 2 && k == 1 && plan[1].2 < plan[0].2 {
            break;
        }
    }
    let total: usize = plan.iter().map(|p| p.2).sum();
    o = o.max_function_evals(total);
    let mut zs: Vec<Vec<f64>> = vec![];
    let mut h = 4242u64;
    for p in &plan {
        let mut z = vec![];
        for k in 0..p.2 * n {
            h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            z.push(if k < n {
                0.0
            } else if k == n {
                1.0
            } else {
                ((h >> 33) as f64) / (1u64 << 31) as f64 * 3.0 - 1.5
            });
        }
        zs.push(z);
    }
    let mut all: Vec<f64> = zs.concat();
    all.extend(std::iter::repeat(0.25).take(20 * l * n * g));
    env().normal_mode = 1;
    env().normals = all;
    reset(Kind::Sphere, n);
    let ro = o.build().unwrap();
    let t: Fun = F;
    let mut made = 0;
    let r = match how {
        0 => ro.run(|| {
            made += 1;
            t
        }),
        1 => ro.run_parallel(|| {
            made += 1;
            t
        }),
        2 => ro.run_with_reuse(t),
        _ => ro.run_parallel_with_reuse(t),
    };
    check(how >= 2 || made == r.runs, "a fresh objective function is obtained exactly once per run");
    let (pts, vals) = (ob().pts.clone(), ob().vals.clone());
    check(r.runs == plan.len(), "the restarter makes the runs its limits allow");
    check(pts.len() == total && r.function_evals == total, "every run makes the evaluations its own limits allow");
    if pts.len() != total {
        return;
    }
    let mut at = 0;
    for (k, p) in plan.iter().enumerate() {
        let (sp, sv) = (&pts[at..at + p.2], &vals[at..at + p.2]);
        at += p.2;
        let mean = sp[0].clone();
        let sigma = sp[1][0] - mean[0];
        check(mean.iter().all(|x| *x >= -2.0 && *x <= 3.0), "every coordinate of the initial mean lies in the search range");
        env().normals = zs[k].clone();
        env().normals.extend(std::iter::repeat(0.25).take(20 * l * n * g));
        env().normal_i = 0;
        reset(Kind::Given, n);
        ob().given = sv.to_vec();
        let mut q = d.clone().mode(m).parallel_update(pu).seed(1).initial_mean(mean).initial_step_size(sigma).population_size(p.0).max_generations(g);
        q.max_function_evals = p.1;
        q.fun_target = if lims & 2 == 2 { Some(never) } else { None };
        let mut s = q.build(t).unwrap();
        let _ = if how & 1 == 1 { s.run_parallel() } else { s.run() };
        check(s.function_evals() == p.2, "a restart run makes the evaluations of the configured run");
        let mut ok = ob().pts.len() == sp.len();
        for (a, b) in ob().pts.iter().zip(sp) {
            for (x, y) in a.iter().zip(b) {
                ok &= close(*x, *y, 1.0, 1e-7);
            }
        }
        check(ok, "a restart run evaluates the points of the configured run");
        if k > 0 {
            reach("later run");
        }
    }
    let mut b = 0;
    for i in 0..vals.len() {
        if better(m, vals[i], vals[b]) {
            b = i;
        }
    }
    check(r.best.is_some() && same_bits(r.best.as_ref().unwrap().value, vals[b]), "the best of all runs");
    reach("end");
    obs(r.function_evals as u64);
}

static mut ASKED_RUNS: Vec<Vec<Vec<f64>>> = vec![];
fn asked() -> &'static mut Vec<Vec<Vec<f64>>> {
    unsafe { &mut *std::ptr::addr_of_mut!(ASKED_RUNS) }
}
fn long_normals(n: usize) {
    let e = env();
    e.normal_i = 0;
    e.normals.clear();
    let mut h = 4242u64 + starts().len() as u64;
    for k in 0..1 << 13 {
        h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        e.normals.push(if k < n {
            0.0
        } else if k == n {
            1.0
        } else {
            ((h >> 33) as f64) / (1u64 << 31) as f64 * 3.0 - 1.5
        });
    }
}
/// Every run of a long sequence against a plain run with the configured options (the population of a small BIPOP run
/// is any one the schedule allows). args: strategy, n, lambda, generations, how (0, 1), shard, evaluation limit of the restarter
/// shards from 6 on: with constraints, which reject points when the update is not parallel; values (0 sphere, 1 repeating, 2 repeating with tolerances)
#[derive(Debug, Clone)]
struct Asked {
    reject: bool,
}
static ASKED: std::sync::Mutex<Vec<Vec<f64>>> = std::sync::Mutex::new(Vec::new());
impl cmaes::Constraints for Asked {
    fn meets_constraints(&self, x: &DVector<f64>) -> bool {
        let mut a = ASKED.lock().unwrap();
        a.push(x.iter().cloned().collect());
        !(self.reject && a.len() % 4 == 3)
    }
    fn clone_box(&self) -> Box<dyn cmaes::Constraints> {
        Box::new(self.clone())
    }
}
pub fn c20_long() {
    let (which, n, l, g, how, shard, maxev) = (arg(0), arg(1) as usize, arg(2) as usize, arg(3) as usize, arg(4), arg(5), arg(6) as usize);
    env().threads = 2;
    let m = mode_of(choose(2));
    let pu = choose(2) == 1;
    let lims = choose(4);
    let never = if m == Mode::Minimize { f64::NEG_INFINITY } else { f64::INFINITY };
    let mut d = CMAESOptions::new(vec![9.0; n], 7.0).population_size(l).weights(weights_of(shard % 3)).cm([1.0, 0.5][(shard / 3 % 2) as usize]).tol_x_up(1e30).tol_condition_cov(1e30).tol_fun(0.0).tol_fun_hist(0.0).tol_x(0.0);
    let flat = arg(7) > 0;
    if arg(7) == 2 {
        d = d.tol_fun_hist(1e-9).tol_x(1e-9).tol_fun(1e-9);
    }
    let cons = shard >= 6;
    if cons {
        d = d.constraints(Box::new(Asked { reject: !pu })).max_resamples([None, Some(1), Some(100)][(shard % 3) as usize]);
    }
    let trap = shard & 1 == 1;
    if trap {
        d = d.mode(mode_of(1 - (m == Mode::Maximize) as u64)).parallel_update(!pu).max_generations(1).max_function_evals(1).fun_target(if m == Mode::Minimize { f64::INFINITY } else { f64::NEG_INFINITY }).seed(99);
    }
    let strat = match which {
        0 => RestartStrategy::Local(Local::new(7, Some(20.0)).unwrap()),
        1 => RestartStrategy::IPOP(IPOP::new(2).unwrap()),
        _ => RestartStrategy::BIPOP(BIPOP::default()),
    };
    let lim_e = (g - 1) * l + 1;
    let mut o = RestartOptions::new(n, -2.0..=3.0, strat).mode(m).parallel_update(pu).default_options(d.clone()).seed(1 + shard).max_generations_per_run(g).max_function_evals(maxev);
    if lims & 1 == 1 {
        o = o.max_function_evals_per_run(lim_e);
    }
    if lims & 2 == 2 {
        o = o.fun_target(never);
    }
    env().normal_mode = 1;
    reset(if flat { Kind::Given } else { Kind::Sphere }, n);
    let ro = o.build().unwrap();
    let t: Fun = F;
    let new = || {
        starts().push(ob().vals.len());
        let mut a = ASKED.lock().unwrap();
        asked().push(std::mem::take(&mut *a));
        long_normals(n);
        t
    };
    let r = if how == 0 { ro.run(new) } else { ro.run_parallel(new) };
    let (pts, vals) = (ob().pts.clone(), ob().vals.clone());
    let st = starts().clone();
    asked().push(std::mem::take(&mut *ASKED.lock().unwrap()));
    check(r.runs == st.len(), "a fresh objective function is obtained exactly once per run");
    check(r.function_evals == vals.len(), "every evaluation is counted");
    let (mut big, mut small, mut nbig, mut last_pop, mut last_ev) = (0usize, 0usize, 0u32, 0usize, 0usize);
    for k in 0..st.len() {
        let (a, b) = (st[k], if k + 1 < st.len() { st[k + 1] } else { vals.len() });
        let (sp, sv) = (&pts[a..b], &vals[a..b]);
        check(sp.len() >= 2 && a < maxev, "a run is made only below the evaluation limit");
        if sp.len() < 2 {
            return;
        }
        let cfg = if lims & 1 == 1 { Some(lim_e) } else { None };
        let large = which == 2 && (nbig == 0 || small >= big);
        let (pops, lim) = match which {
            0 => (l..=l, cfg),
            1 => (l << k..=l << k, cfg),
            _ if large => (l << nbig..=l << nbig, cfg),
            _ => (l..=l.max(last_pop / 2), Some(cfg.map_or(last_ev / 2, |x| x.min(last_ev / 2)))),
        };
        // the points the constraints of the run were asked about
        let ak = asked()[k + 1].clone();
        check(!cons || ak.len() >= sp.len(), "the constraints of the default options apply to every run");
        if cons && ak.len() < sp.len() {
            return;
        }
        let first = if cons && !pu { &ak } else { sp };
        let mean = first[0].clone();
        let sigma = first[1][0] - mean[0];
        check(mean.iter().all(|x| *x >= -2.0 && *x <= 3.0), "every coordinate of the initial mean lies in the search range");
        let mut found = false;
        for pop in pops {
            let mut gens = 1;
            while gens < g && lim.map_or(true, |x| gens * pop < x) {
                gens += 1;
            }
            // negative weights can end a run earlier: its covariance may lose positive definiteness
            if gens * pop != sp.len() && ((shard % 3 != 0 && arg(7) < 2) || sp.len() > gens * pop) {
                continue;
            }
            starts().truncate(k + 1);
            long_normals(n);
            reset(Kind::Given, n);
            ob().given = sv.to_vec();
            let mut q = d.clone().mode(m).parallel_update(pu).seed(1).initial_mean(mean.clone()).initial_step_size(sigma).population_size(pop).max_generations(g);
            q.max_function_evals = lim;
            q.fun_target = if lims & 2 == 2 { Some(never) } else { None };
            ASKED.lock().unwrap().clear();
            let mut s = q.build(t).unwrap();
            let _ = if how == 1 { s.run_parallel() } else { s.run() };
            let mut ok = ob().pts.len() == sp.len();
            for (a, b) in ob().pts.iter().zip(sp) {
                for (x, y) in a.iter().zip(b) {
                    ok &= close(*x, *y, 1.0, 1e-7);
                }
            }
            found |= ok & (ASKED.lock().unwrap().len() == ak.len());
            *starts() = st.clone();
        }
        check(found, "a restart run makes the evaluations of the configured run");
        if which == 2 && !large {
            small += sp.len();
            reach("small run");
        } else {
            big += sp.len();
            nbig += 1;
            last_pop = l << (nbig - 1);
            last_ev = sp.len();
        }
        if k > 2 {
            reach("later run");
        }
    }
    let all = match which {
        0 => st.len() == 7,
        1 => st.len() == 10,
        _ => nbig == 10,
    };
    check(st.len() > 0 && (all || vals.len() >= maxev), "the restarter makes the runs its limits allow");
    reach("end");
    obs(r.runs as u64);
}
