//! C30 equivariance
use crate::common::*;
use crate::g2::F;
use crate::rt::*;

/// Scaling the search space by a power of two scales the run; shifting it shifts the run.
/// args: n, lambda, free generations, mode, weights, what (0-3 scale by 2^-400, 2^-40, 2^10, 2^300; 4-6 shift by 1, -1000, 1e6),
/// concrete generations before, parallel_update, free values of the last generations (0: all)
pub fn c30_equivariance() {
    let (n, l, g, what, pre) = (arg(0) as usize, arg(1) as usize, arg(2) as usize, arg(5), arg(6) as usize);
    env().threads = 2;
    let all = g + pre;
    let few = arg(8) as usize;
    let free = |k: usize| k >= pre * l && (few == 0 || (k * 3 + 1) % l < few);
    let given: Vec<f64> = (0..all * l).map(|k| if !free(k) { ((k * 5 + k / 3 + k * k / 7) % 11) as f64 } else { any_num() }).collect();
    let (s, t): (f64, f64) = match what {
        0 => (2f64.powi(-400), 0.0),
        1 => (2f64.powi(-40), 0.0),
        2 => (1024.0, 0.0),
        3 => (2f64.powi(300), 0.0),
        4 => (1.0, 1.0),
        5 => (1.0, -1000.0),
        _ => (1.0, 1e6),
    };
    let tol = if t == 0.0 { 1e-9 } else { 1e-11 };
    let map = |x: f64| x * s + t;
    let run = |mean: Vec<f64>, sigma: f64| {
        reset(Kind::Given, n);
        ob().given = given.clone();
        let mut q = noise(CMAESOptions::new(mean, sigma).population_size(l).weights(weights_of(arg(4))).mode(mode_of(arg(3))).parallel_update(arg(7) == 1).seed(3), arg(3)).build(F).unwrap();
        let mut v = vec![];
        for _ in 0..all {
            let r = q.next();
            v.push((snap(&q), r.map(|r| r.reasons).unwrap_or(vec![]), q.axis_ratio()));
        }
        (v, ob().pts.clone())
    };
    let (a, pa) = run(mean0(n), 0.75);
    let (b, pb) = run(mean0(n).iter().map(|x| map(*x)).collect(), 0.75 * s);
    let mut ok = pa.len() == pb.len();
    for (x, y) in pa.iter().zip(&pb) {
        for (u, v) in x.iter().zip(y) {
            ok &= close(map(*u), *v, s, tol);
        }
    }
    check(ok, "the sampled points are those of the original run, scaled or shifted");
    for ((x, rx, ax), (y, ry, ay)) in a.iter().zip(&b) {
        let big = x.cov.iter().fold(1e-300f64, |p, q| p.max(q.abs()));
        let mut ok = close(x.sigma * s, y.sigma, 0.0, 1e-9) & close(*ax, *ay, 1.0, 1e-7);
        for (u, v) in x.mean.iter().zip(&y.mean) {
            ok &= close(map(*u), *v, s, tol);
        }
        check(ok, "mean, step size and axis ratio are scaled or shifted");
        let mut ok = true;
        for (u, v) in x.cov.iter().zip(&y.cov) {
            ok &= close(*u, *v, big, 1e-8);
        }
        for (u, v) in x.eig.iter().zip(&y.eig) {
            ok &= close(*u, *v, big, 1e-8);
        }
        check(ok, "the covariance matrix does not depend on the place and scale of the search");
        check(same_reasons(rx, ry), "the termination reasons do not depend on the place and scale of the search");
        check((x.gen == y.gen) & (x.evals == y.evals), "the counts do not depend on the place and scale of the search");
    }
    reach("end");
    obs_snap(&a[all - 1].0);
}

use TerminationReason as T;
#[derive(Clone, Copy, PartialEq)]
enum Set {
    Off,
    Met,
    Any(u64),
}
const CRITERIA: [T; 11] = [T::MaxFunctionEvals, T::MaxGenerations, T::MaxTime, T::FunTarget, T::TolFun, T::TolFunRel, T::TolFunHist, T::TolX, T::TolStagnation, T::TolXUp, T::TolConditionCov];
fn with(o: CMAESOptions, k: usize, v: Set, max: bool) -> CMAESOptions {
    let inf = f64::INFINITY;
    let f = |off: f64, met: f64| match v {
        Set::Off => off,
        Set::Met => met,
        Set::Any(b) => f64::from_bits(b),
    };
    let u = |met: u64| match v {
        Set::Any(b) => b,
        _ => met,
    };
    match k {
        0 | 1 | 2 | 3 if v == Set::Off => o,
        0 => o.max_function_evals(u(1) as usize),
        1 => o.max_generations(u(1) as usize),
        2 => o.max_time(std::time::Duration::from_secs(u(0))),
        3 => o.fun_target(f(0.0, if max { -inf } else { inf })),
        4 => o.tol_fun(f(0.0, inf)),
        5 => o.tol_fun_rel(f(0.0, inf)),
        6 => o.tol_fun_hist(f(0.0, inf)),
        7 => o.tol_x(f(0.0, inf)),
        8 => o.tol_stagnation(match v {
            Set::Off => usize::MAX,
            Set::Met => 1,
            Set::Any(b) => b as usize,
        }),
        9 => o.tol_x_up(f(inf, 0.0)),
        _ => o.tol_condition_cov(f(inf, 0.5)),
    }
}
/// No termination option steers the run, and each criterion is judged on its own.
/// args: n, lambda, generations, the criterion with any value, the others that are met (bits), mode, weights
pub fn c31_observer() {
    let (n, l, g, which, mask) = (arg(0) as usize, arg(1) as usize, arg(2) as usize, arg(3) as usize, arg(4));
    env().threads = 2;
    let max = arg(5) == 1;
    let sym = Set::Any(match which {
        0 | 1 | 8 => any_u64(),
        2 => any_bits(40),
        _ => any_f64().to_bits(),
    });
    let run = |set: &dyn Fn(usize) -> Set| {
        reset(Kind::Given, n);
        // values that improve, stall and get worse
        ob().given = (0..g * l)
            .map(|i| {
                let k = i / l;
                let t = if k < g / 3 { 40.0 - 3.0 * k as f64 } else { 10.0 + (k / 4) as f64 };
                (t + ((i * 5 + i / 3) % 7) as f64 * 0.25) * if max { -1.0 } else { 1.0 }
            })
            .collect();
        set_clock(0, 0);
        let mut o = CMAESOptions::new(mean0(n), 0.75).population_size(l).weights(weights_of(arg(6))).mode(mode_of(arg(5))).seed(3);
        for k in 0..CRITERIA.len() {
            o = with(o, k, set(k), max);
        }
        let mut s = o.build(F).unwrap();
        let mut v = vec![];
        for k in 0..g {
            set_clock(3 * k as u64 + 1, 0);
            let r = s.next();
            check(r.as_ref().map_or(true, |r| !r.reasons.is_empty()), "termination data names a reason");
            v.push((snap(&s), r.map(|r| r.reasons).unwrap_or(vec![])));
        }
        (v, ob().pts.clone())
    };
    let on = |k: usize| if mask >> k & 1 == 1 { Set::Met } else { Set::Off };
    let (a, pa) = run(&|_| Set::Off);
    let (b, pb) = run(&|k| if k == which { sym } else { on(k) });
    let (c, pc) = run(&|k| if k == which { sym } else { Set::Off });
    let (d, _) = run(&|k| if k == which { Set::Off } else { on(k) });
    let same = |x: &Vec<Vec<f64>>, y: &Vec<Vec<f64>>| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| vec_eq(p, q));
    check(same(&pa, &pb) & same(&pa, &pc), "the sampled points do not depend on the termination options");
    for k in 0..g {
        check(same_all(&a[k].0, &b[k].0) & same_all(&a[k].0, &c[k].0), "the state does not depend on the termination options");
        let w = CRITERIA[which];
        check(b[k].1.contains(&w) == c[k].1.contains(&w), "a criterion is judged independently of the others");
        for t in CRITERIA {
            if t != w {
                check(b[k].1.contains(&t) == d[k].1.contains(&t), "a criterion is judged independently of the others");
                check(!c[k].1.contains(&t) || (t == T::TolConditionCov), "a disabled criterion is not reported");
            }
        }
        let mut rs = b[k].1.clone();
        while let Some(x) = rs.pop() {
            check(!rs.contains(&x), "a reason is reported once");
        }
        if c[k].1.contains(&w) {
            reach("fires");
        } else {
            reach("quiet");
        }
    }
    reach("end");
    obs_snap(&a[g - 1].0);
}
