//! C03 counts, C04 bests, C05 rank invariance, C06 NaN, C15 parallel, C16 determinism
use crate::common::*;
use crate::rt::*;

/// constraint whose outcome is symbolic for the first `budget` queries and accepting afterwards
#[derive(Debug, Clone)]
pub struct SymCons;
pub static mut CONS: Cons = Cons { budget: 0, calls: 0, cand: vec![], ok: vec![], dim: 0 };
pub struct Cons {
    pub budget: usize,
    pub calls: usize,
    pub cand: Vec<Vec<f64>>,
    pub ok: Vec<bool>,
    pub dim: usize,
}
pub fn cons() -> &'static mut Cons {
    unsafe { &mut *std::ptr::addr_of_mut!(CONS) }
}
impl Constraints for SymCons {
    fn meets_constraints(&self, x: &DVector<f64>) -> bool {
        let c = cons();
        check(x.len() == c.dim, "constraints are asked about a point of the problem dimension");
        c.calls += 1;
        let r = if c.calls <= c.budget { conc(any_bool() as u64) == 1 } else { true };
        c.cand.push(x.iter().cloned().collect());
        c.ok.push(r);
        r
    }
    fn clone_box(&self) -> Box<dyn Constraints> {
        Box::new(self.clone())
    }
}

fn call(s: &mut CMAES<fn(&DVector<f64>) -> f64>, par: u64) -> Option<TerminationData> {
    if par & 1 == 1 {
        s.next_parallel()
    } else {
        s.next()
    }
}
pub const F: fn(&DVector<f64>) -> f64 = obj;

/// args: n, lambda, generations, bit0 next_parallel | bit1 parallel_update, weights, mode, constraint budget
pub fn c03_counts() {
    let (n, l, g, par) = (arg(0) as usize, arg(1) as usize, arg(2) as usize, arg(3));
    env().threads = 2;
    reset(Kind::Num, n);
    let mut o = base(n, l, arg(4), arg(5), 3).parallel_update(par & 2 != 0);
    let cb = arg(6) as usize;
    if cb > 0 {
        cons().budget = cb;
        cons().dim = n;
        o = o.constraints(Box::new(SymCons)).max_resamples(Some(2));
    }
    // the limit makes the last generations return termination data
    let lim = choose(g as u64 + 1) as usize;
    o = o.max_generations(lim);
    let mut s = o.build(F).unwrap();
    for k in 1..=g {
        let before = ob().vals.len();
        let r = call(&mut s, par);
        check(ob().vals.len() - before == l, "a generation evaluates exactly lambda points");
        check(s.function_evals() == k * l, "function_evals counts every evaluation once");
        check(s.generation() == k, "generation grows by exactly one");
        if lim <= k {
            check(r.is_some(), "the generation limit ends the run");
            reach("terminated");
        }
    }
    check(cons().calls > 0 || cb == 0, "constraints are consulted");
    reach("end");
    obs_snap(&snap(&s));
}

/// `run` is `next` until it returns data. args: n, lambda, weights, mode, parallel
pub fn c03_run() {
    let (n, l, par) = (arg(0) as usize, arg(1) as usize, arg(4));
    env().threads = 2;
    reset(Kind::Num, n);
    let lim = choose(3) as usize;
    let mk = || base(n, l, arg(2), arg(3), 3).parallel_update(par & 2 != 0).max_generations(lim).build(F).unwrap();
    let mut s = mk();
    let r = if par & 1 == 1 { s.run_parallel() } else { s.run() };
    let a = snap(&s);
    let given = ob().vals.clone();
    let pts = ob().pts.clone();
    check(given.len() == a.evals, "every evaluation of the run is counted");
    check(a.evals == a.gen * l, "lambda evaluations per generation");
    reset(Kind::Given, n);
    ob().given = given;
    let mut t = mk();
    let mut last = None;
    for _ in 0..4 {
        last = call(&mut t, par);
        if last.is_some() {
            break;
        }
    }
    check(last.is_some(), "next returns data where run stopped");
    let q = last.unwrap();
    check(same_all(&a, &snap(&t)), "run ends in the state of repeated next calls");
    check(same_td(&r, &q), "run returns the data of the last next call");
    check(ob().pts.len() == pts.len() && ob().pts.iter().zip(&pts).all(|(a, b)| vec_eq(a, b)), "run evaluates the same points as next");
    reach("end");
    obs_snap(&a);
}

/// args: n, lambda, generations, mode, weights, parallel
pub fn c04_best() {
    let (n, l, g, m, par) = (arg(0) as usize, arg(1) as usize, arg(2) as usize, mode_of(arg(3)), arg(5));
    env().threads = 2;
    reset(Kind::Num, n);
    let last = choose(2) == 1;
    let mut o = base(n, l, arg(4), arg(3), 5).parallel_update(par & 2 != 0);
    if last {
        o = o.max_generations(g);
    }
    let mut s = o.build(F).unwrap();
    let mut best: Option<(Vec<f64>, f64)> = None;
    for k in 0..g {
        let r = call(&mut s, par);
        let o = ob();
        let (pts, vals) = (&o.pts[k * l..], &o.vals[k * l..]);
        check(vals.len() == l, "lambda values");
        let cur = match s.current_best_individual() {
            Some(c) => c,
            None => {
                check(false, "a current best exists after a generation");
                return;
            }
        };
        let mut found = false;
        let mut none_better = true;
        for i in 0..l {
            if vec_eq(cur.point.as_slice(), &pts[i]) {
                found = true;
                check(same_bits(cur.value, vals[i]), "the current best has the value the objective returned for its point");
            }
            none_better &= !better(m, vals[i], cur.value);
        }
        check(found, "the current best is a point of this generation");
        check(none_better, "no value of the generation is better than the current best");
        let c = (cur.point.as_slice().to_vec(), cur.value);
        // the earlier individual stays on ties
        best = match best {
            None => Some(c),
            Some(b) => {
                if better(m, c.1, b.1) {
                    reach("improved");
                    Some(c)
                } else {
                    reach("kept");
                    Some(b)
                }
            }
        };
        let ov = snap(&s).best;
        check(same_ind(&ov, &best), "the overall best is the earliest best of all generations");
        if let Some(t) = r {
            reach("data");
            let z = snap(&s);
            check(same_ind(&td_ind(&t.current_best), &z.cur), "termination data carries the current best");
            check(same_ind(&td_ind(&t.overall_best), &z.best), "termination data carries the overall best");
            check(vec_eq(t.final_mean.as_slice(), &z.mean), "termination data carries the mean");
        } else {
            check(!(last & (k + 1 == g)), "the generation limit ends the run");
        }
    }
    obs_snap(&snap(&s));
}

/// args: n, lambda, generations, mode, weights, parallel_update, seed
/// every run is bit-identical to the run on the ranks of its values (minimization, ties by evaluation order)
pub fn c05_rank() {
    let (n, l, g, m) = (arg(0) as usize, arg(1) as usize, arg(2) as usize, mode_of(arg(3)));
    env().threads = 2;
    reset(Kind::Num, n);
    let mut s = base(n, l, arg(4), arg(3), arg(6)).parallel_update(arg(5) == 1).build(F).unwrap();
    let mut snaps = vec![];
    for _ in 0..g {
        let _ = s.next();
        snaps.push(snap(&s));
    }
    let vals = ob().vals.clone();
    let pts = ob().pts.clone();
    check(vals.len() == g * l, "lambda evaluations per generation");
    let mut canon = vec![0.0; g * l];
    for k in 0..g {
        for (r, &i) in ranking(m, &vals[k * l..(k + 1) * l]).iter().enumerate() {
            canon[k * l + i] = r as f64;
        }
    }
    reset(Kind::Given, n);
    ob().given = canon;
    let mut t = base(n, l, arg(4), 0, arg(6)).parallel_update(arg(5) == 1).build(F).unwrap();
    for k in 0..g {
        let _ = t.next();
        check(same_dist(&snaps[k], &snap(&t)), "the distribution depends on the ranks of the values only");
    }
    check(ob().pts.len() == pts.len() && ob().pts.iter().zip(&pts).all(|(a, b)| vec_eq(a, b)), "the sampled points depend on the ranks of the values only");
    reach("end");
    obs_snap(&snaps[g - 1]);
}

/// args: n, lambda, generations, mode, parallel, weights
pub fn c06_nan() {
    let (n, l, g, m, par) = (arg(0) as usize, arg(1) as usize, arg(2) as usize, arg(3), arg(4));
    env().threads = 2;
    reset(Kind::Any, n);
    let mut s = base(n, l, arg(5), m, 7).parallel_update(par & 2 != 0).build(F).unwrap();
    for k in 0..g {
        let before = snap(&s);
        let nb = ob().vals.len();
        let r = call(&mut s, par);
        let vals = &ob().vals[nb..];
        let mut nan = false;
        for v in vals {
            nan |= v.is_nan();
        }
        let after = snap(&s);
        if nan {
            reach("nan");
            let t = match r {
                Some(t) => t,
                None => {
                    check(false, "a NaN ends the run");
                    return;
                }
            };
            check(t.reasons.len() == 1 && t.reasons[0] == TerminationReason::InvalidFunctionValue, "InvalidFunctionValue is the only reason");
            check(same_dist(&before, &after) && before.gen == after.gen, "a NaN leaves the distribution and the generation count alone");
            check(same_ind(&before.cur, &after.cur) & same_ind(&before.best, &after.best), "a NaN leaves the bests alone");
            check((after.cur.is_none() & after.best.is_none()) == (k == 0), "no best exactly if no generation was completed");
            check(same_ind(&td_ind(&t.current_best), &before.cur) & same_ind(&td_ind(&t.overall_best), &before.best), "the data carries the bests of the last completed generation");
            check(vec_eq(t.final_mean.as_slice(), &before.mean), "the data carries the mean of the last completed generation");
            obs_snap(&after);
            return;
        }
        check(vals.len() == l, "lambda evaluations");
        check(!has(&r, TerminationReason::InvalidFunctionValue), "InvalidFunctionValue only for NaN");
        check(after.gen == k + 1, "the generation is completed");
        check(!after.cur.as_ref().unwrap().1.is_nan() & !after.best.as_ref().unwrap().1.is_nan(), "a NaN is never a best value");
    }
    reach("clean");
    obs_snap(&snap(&s));
}

/// args: n, lambda, generations, values (0 symbolic, 1 concrete), threads, joins with a symbolic order, weights, mode
pub fn c15_parallel() {
    let (n, l, g) = (arg(0) as usize, arg(1) as usize, arg(2) as usize);
    reset([Kind::Num, Kind::Sphere, Kind::Given][arg(3) as usize], n);
    let mk = |pu: bool| base(n, l, arg(6), arg(7), 11).parallel_update(pu).max_generations(g).build(F).unwrap();
    let mut s = mk(false);
    let ra = s.run();
    let a = snap(&s);
    let (pts, vals) = (ob().pts.clone(), ob().vals.clone());
    let e = env();
    e.threads = arg(4);
    // the schedule of the second run is symbolic
    e.sched = 1;
    e.join_budget = arg(5);
    reset(Kind::ByPoint, n);
    ob().table = pts.iter().cloned().zip(vals.iter().cloned()).collect();
    ob().hits = vec![0; pts.len()];
    let mut t = mk(false);
    let rb = t.run_parallel();
    check(e.joins > 0 || l < 2 || e.threads < 2, "the parallel run uses the parallel scheduler");
    check(same_all(&a, &snap(&t)), "run_parallel ends in the state of run");
    check(same_td(&ra, &rb), "run_parallel returns the data of run");
    check(ob().hits.iter().all(|h| *h == 1), "each sampled point is evaluated exactly once");
    reach("end");
    obs_snap(&a);
    obs(e.joins);
}

/// parallel_update against the sequential update. args as c15_parallel
pub fn c15_update() {
    let (n, l, g) = (arg(0) as usize, arg(1) as usize, arg(2) as usize);
    reset([Kind::Num, Kind::Sphere, Kind::Given][arg(3) as usize], n);
    let mk = |pu: bool| base(n, l, arg(6), arg(7), 11).parallel_update(pu).build(F).unwrap();
    let mut s = mk(false);
    let mut sa = vec![];
    for _ in 0..g {
        let _ = s.next();
        sa.push(snap(&s));
    }
    let (pts, vals) = (ob().pts.clone(), ob().vals.clone());
    let e = env();
    e.threads = arg(4);
    e.sched = 1;
    e.join_budget = arg(5);
    reset(Kind::Given, n);
    ob().given = vals;
    let mut t = mk(true);
    for k in 0..g {
        let _ = t.next();
        let b = snap(&t);
        let a = &sa[k];
        check(a.gen == b.gen && a.evals == b.evals, "the counts do not depend on parallel_update");
        check(same_ind(&a.cur, &b.cur) || k > 0, "parallel_update evaluates the same first generation");
        let sc = a.cov.iter().fold(0.0f64, |x, y| x.max(y.abs()));
        let mut ok = close(a.sigma, b.sigma, a.sigma, 1e-9);
        for (x, y) in a.cov.iter().zip(&b.cov) {
            ok &= close(*x, *y, sc, 1e-9);
        }
        for (x, y) in a.mean.iter().zip(&b.mean) {
            ok &= close(*x, *y, 1.0, 1e-9);
        }
        check(ok, "parallel_update changes the state by rounding only");
    }
    let mut ok = ob().pts.len() == pts.len();
    for (p, q) in ob().pts.iter().zip(&pts) {
        for (x, y) in p.iter().zip(q) {
            ok &= close(*x, *y, 1.0, 1e-9);
        }
    }
    check(ok, "parallel_update evaluates the same points in the same order");
    check(e.joins > 0, "the parallel update uses the parallel scheduler");
    reach("end");
    obs(e.joins);
}

/// args: n, lambda, generations, seed, weights, mode, bits (1 concrete values and printing with any gap, 2 many instances in between)
pub fn c16_seed() {
    let (n, l, g, seed) = (arg(0) as usize, arg(1) as usize, arg(2) as usize, arg(3));
    reset(if arg(6) & 1 == 1 { Kind::Sphere } else { Kind::Num }, n);
    env().capture = true;
    let mk = || base(n, l, arg(4), arg(5), seed);
    let mut s = mk().build(F).unwrap();
    let mut ra = vec![];
    let mut sa = vec![];
    for _ in 0..g {
        ra.push(s.next());
        sa.push(snap(&s));
    }
    let (pts, vals) = (ob().pts.clone(), ob().vals.clone());
    // the second run happens at another time, after other runs, next to another instance, with a plot
    let (cs, cn) = (any_bits(20), any_bits(32));
    assume(cn < 1_000_000_000);
    set_clock(cs, cn);
    let gap = any_u64() as usize;
    let plot = any_bool();
    let mut noise = base(2, 4, 0, 0, seed + 1).build(|x: &DVector<f64>| x[0]).unwrap();
    let _ = noise.next();
    reset(Kind::Given, n);
    ob().given = vals;
    let mut o = mk();
    if plot {
        o = o.enable_plot(PlotOptions::new(gap, false));
    }
    if arg(6) & 1 == 1 && any_bool() {
        o = o.enable_printing(any_u64() as usize);
    }
    if arg(6) & 2 == 2 {
        for k in 0..1100 {
            let _ = CMAESOptions::new(vec![0.0], 1.0).seed(k).population_size(2).build(F).unwrap();
        }
    }
    let mut t = o.build(F).unwrap();
    for k in 0..g {
        let r = t.next();
        let _ = noise.next();
        check(same_all(&sa[k], &snap(&t)), "equal options, seed and values give bit-identical states");
        check(r.is_some() == ra[k].is_some(), "equal options, seed and values stop in the same generation");
        if let (Some(a), Some(b)) = (&ra[k], &r) {
            check(same_td(a, b), "equal options, seed and values give the same termination data");
        }
    }
    check(ob().pts.len() == pts.len() && ob().pts.iter().zip(&pts).all(|(a, b)| vec_eq(a, b)), "equal options, seed and values give bit-identical points");
    // draws are fresh
    let mut fresh = true;
    for k in 0..g {
        let (m, sg) = if k == 0 { (mean0(n), 0.75) } else { (sa[k - 1].mean.clone(), sa[k - 1].sigma) };
        for i in 0..l {
            for j in 0..n {
                let z = (pts[k * l + i][j] - m[j]) / sg;
                for k2 in 0..=k {
                    let (m2, sg2) = if k2 == 0 { (mean0(n), 0.75) } else { (sa[k2 - 1].mean.clone(), sa[k2 - 1].sigma) };
                    for i2 in 0..l {
                        for j2 in 0..n {
                            if (k2, i2, j2) != (k, i, j) {
                                fresh &= ((pts[k2 * l + i2][j2] - m2[j2]) / sg2 - z).abs() > 1e-9;
                            }
                        }
                    }
                }
            }
        }
    }
    check(fresh, "every coordinate of every point uses a fresh draw");
    reset(Kind::Sphere, n);
    for d in 1..4 {
        let mut u = base(n, l, arg(4), arg(5), seed + d).build(F).unwrap();
        let _ = u.next();
        check(!vec_eq(&ob().pts[(d as usize - 1) * l], &pts[0]), "another seed gives other points");
    }
    reach("end");
    obs_snap(&sa[g - 1]);
}
