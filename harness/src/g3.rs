//! C07 budgets, C08 target, C09 TolFun*, C10 TolStagnation, C11 distribution criteria
use crate::common::*;
use crate::g2::F;
use crate::refm::*;
use crate::rt::*;
use cmaes::TerminationReason as T;
use std::time::Duration;

fn next(s: &mut CMAES<fn(&DVector<f64>) -> f64>, par: u64) -> Option<TerminationData> {
    if par & 1 == 1 {
        s.next_parallel()
    } else {
        s.next()
    }
}

/// args: n, lambda, generations, which limits are set (1 evals, 2 generations, 4 time), parallel, mode
pub fn c07_budget() {
    let (n, l, g, set, par) = (arg(0) as usize, arg(1) as usize, arg(2) as usize, arg(3), arg(4));
    env().threads = 2;
    let (me, mg) = (any_u64() as usize, any_u64() as usize);
    let (ls, ln) = (any_u64(), any_bits(32));
    assume(ln < 1_000_000_000);
    let (mut cs, mut cn) = (0u64, 0u64);
    set_clock(cs, cn);
    reset(Kind::Sphere, n);
    let mut o = base(n, l, 0, arg(5), 3);
    if set & 1 != 0 {
        o = o.max_function_evals(me);
    }
    if set & 2 != 0 {
        o = o.max_generations(mg);
    }
    if set & 4 != 0 {
        o = o.max_time(Duration::new(ls, ln as u32));
    }
    let mut s = o.build(F).unwrap();
    for k in 1..=g {
        // time passes before the generation
        let (ds, dn) = (any_bits(40), any_bits(32));
        assume(dn < 1_000_000_000);
        assume((ds > cs) | ((ds == cs) & (dn >= cn)));
        cs = ds;
        cn = dn;
        set_clock(cs, cn);
        let r = next(&mut s, par);
        check(s.function_evals() == k * l && s.generation() == k, "counts");
        let we = (set & 1 != 0) & (k * l >= me);
        let wg = (set & 2 != 0) & (k >= mg);
        let wt = (set & 4 != 0) & ((cs > ls) | ((cs == ls) & (cn >= ln)));
        check(has(&r, T::MaxFunctionEvals) == we, "MaxFunctionEvals if and only if the evaluations made reach the limit");
        check(has(&r, T::MaxGenerations) == wg, "MaxGenerations if and only if the generations completed reach the limit");
        check(has(&r, T::MaxTime) == wt, "MaxTime if and only if the elapsed time reaches the limit");
        if let Some(t) = &r {
            check(!t.reasons.is_empty(), "termination data has a reason");
            reach("stopped");
        } else {
            reach("continues");
        }
    }
    obs_snap(&snap(&s));
}

/// `run` stops in the first generation that reaches a limit. args: n, lambda, which limits, parallel
pub fn c07_run() {
    let (n, l, set, par) = (arg(0) as usize, arg(1) as usize, arg(2), arg(3));
    env().threads = 2;
    let (me, mg) = (any_u64() as usize, any_u64() as usize);
    let cap = 3usize;
    reset(Kind::Sphere, n);
    let mut o = base(n, l, 0, 0, 3);
    if set & 1 != 0 {
        o = o.max_function_evals(me);
    }
    if set & 2 != 0 {
        o = o.max_generations(mg);
    }
    // keep the path finite
    assume((((set & 1) != 0) & (me <= cap * l)) | (((set & 2) != 0) & (mg <= cap)));
    let mut s = o.build(F).unwrap();
    let r = if par == 1 { s.run_parallel() } else { s.run() };
    let g = s.generation();
    let done = |k: usize| ((set & 1 != 0) & (k * l >= me)) | ((set & 2 != 0) & (k >= mg));
    check(s.function_evals() == g * l, "lambda evaluations per generation");
    check(done(g), "run does not stop before a limit");
    check((g == 1) | !done(g - 1), "run stops in the generation that reaches the limit");
    check(r.reasons.contains(&T::MaxFunctionEvals) == ((set & 1 != 0) & (g * l >= me)), "MaxFunctionEvals");
    check(r.reasons.contains(&T::MaxGenerations) == ((set & 2 != 0) & (g >= mg)), "MaxGenerations");
    reach("end");
    obs(g as u64);
}

/// args: n, lambda, generations, mode, parallel
pub fn c08_target() {
    let (n, l, g, m, par) = (arg(0) as usize, arg(1) as usize, arg(2) as usize, mode_of(arg(3)), arg(4));
    env().threads = 2;
    reset(Kind::Num, n);
    let target = any_f64();
    let set = any_bool();
    let mut o = base(n, l, 0, arg(3), 3).parallel_update(par & 2 != 0);
    if set {
        o = o.fun_target(target);
    }
    let mut s = o.build(F).unwrap();
    for k in 0..g {
        let r = next(&mut s, par);
        let v = &ob().vals[k * l..];
        let mut hit = false;
        for x in v {
            hit |= better(m, *x, target);
        }
        check(has(&r, T::FunTarget) == (set & hit), "FunTarget if and only if a value of the generation beats the target");
        if has(&r, T::FunTarget) {
            reach("hit");
        } else {
            reach("miss");
        }
    }
    obs_snap(&snap(&s));
}

/// args: n, lambda, mode, tolerance under test (0 hist, 1 fun, 2 rel, 3 all), which positions are symbolic (bits), concrete tol_fun_rel or 0 for symbolic, generations beyond the window
/// best, median and worst values per generation; all other positions hold fixed values
pub fn c09_tolfun() {
    let (n, l, m, what, posm) = (arg(0) as usize, arg(1) as usize, mode_of(arg(2)), arg(3), arg(4));
    let w = 10 + (30.0 * n as f64 / l as f64).ceil() as usize;
    let total = w + arg(6) as usize;
    let sgn = if m == Mode::Minimize { 1.0 } else { -1.0 };
    // base values: best 1, others above; a symbolic best lies in [1/2, 2], a symbolic worst in [4, 64]
    let bpos = [0usize, 1, w - 1, w, total - 1];
    let mut bests: Vec<f64> = vec![1.0; total];
    let mut worst: Vec<f64> = vec![8.0; total];
    let mut med: Vec<f64> = vec![3.0; total];
    for (i, &p) in bpos.iter().enumerate() {
        if posm >> i & 1 == 1 && p < total {
            let x = any_f64();
            assume((x >= 0.5) & (x <= 2.0));
            bests[p] = sgn * x;
        } else if p < total {
            bests[p] = sgn * bests[p];
        }
    }
    for k in 0..total {
        if !bpos.contains(&k) {
            bests[k] = sgn;
        }
    }
    for k in 0..total {
        worst[k] = sgn * worst[k];
        med[k] = sgn * (med[k] - 0.5 * (k as f64) / (total as f64));
    }
    if posm >> 5 & 1 == 1 {
        for k in w - 1..total {
            let x = any_f64();
            assume((x >= 4.0) & (x <= 64.0));
            worst[k] = sgn * x;
        }
    }
    if posm >> 6 & 1 == 1 {
        for k in [0, w / 2] {
            let x = any_f64();
            assume((x >= 2.0) & (x <= 4.0));
            med[k] = sgn * x;
        }
    }
    let tol = any_f64();
    let (tf, tr, th) = match what {
        0 => (0.0, 0.0, tol),
        1 => (tol, 0.0, 0.0),
        2 => (0.0, if arg(5) == 0 { tol } else { arg(5) as f64 * 0.25 }, 0.0),
        _ => (tol, if arg(5) == 0 { any_f64() } else { arg(5) as f64 * 0.25 }, any_f64()),
    };
    let mut given = vec![];
    for k in 0..total {
        for i in 0..l {
            // the best is not evaluated first
            given.push(if i == 1 {
                bests[k]
            } else if i == 0 {
                worst[k]
            } else {
                med[k]
            });
        }
    }
    reset(Kind::Given, n);
    ob().given = given.clone();
    let mut s = base(n, l, 0, arg(2), 3).tol_fun(tf).tol_fun_rel(tr).tol_fun_hist(th).build(F).unwrap();
    let medians: Vec<f64> = (0..total)
        .map(|k| {
            // lambda = 2: mean of best and worst; otherwise the middle value is `med` (lambda odd)
            if l == 2 {
                (bests[k] + worst[k]) / 2.0
            } else {
                med[k]
            }
        })
        .collect();
    for k in 1..=total {
        let r = s.next();
        let (a, b, c) = (has(&r, T::TolFun), has(&r, T::TolFunHist), has(&r, T::TolFunRel));
        if k < w {
            check(!a & !b & !c, "no TolFun criterion before the window is filled");
            continue;
        }
        let win = &bests[k - w..k];
        let (mut lo, mut hi) = (win[0], win[0]);
        for x in win {
            lo = if *x < lo { *x } else { lo };
            hi = if *x > hi { *x } else { hi };
        }
        let h = hi - lo;
        let gr = (worst[k - 1] - bests[k - 1]).abs();
        check(b == (h < th), "TolFunHist if and only if the range of the best values of the window is below tol_fun_hist");
        check(a == ((h < tf) & (gr < tf)), "TolFun if and only if both ranges are below tol_fun");
        let mut bm = medians[0];
        for x in &medians[..k] {
            if better(m, *x, bm) {
                bm = *x;
            }
        }
        let lim = tr * (medians[0] - bm).abs();
        check(c == ((h < lim) & (gr < lim)), "TolFunRel if and only if both ranges are below the relative tolerance");
        if a {
            reach("TolFun");
        }
        if b {
            reach("TolFunHist");
        }
        if c {
            reach("TolFunRel");
        }
        if !a & !b & !c {
            reach("none");
        }
    }
    obs_snap(&snap(&s));
}

/// TolFunRel after a long history: the first generation's median and the best one are both long gone.
/// args: n, generations, mode, lambda
pub fn c09_long() {
    let (n, g, m, l) = (arg(0) as usize, arg(1) as usize, mode_of(arg(2)), arg(3) as usize);
    let sgn = if m == Mode::Minimize { 1.0 } else { -1.0 };
    let w = 10 + (30 * n + l - 1) / l;
    let x = any_f64();
    assume((x >= 0.0) & (x <= 0.25));
    assume((x < 0.0625 - 1e-6) | (x > 0.0625 + 1e-6));
    reset(Kind::Given, n);
    ob().given = (0..g * l)
        .map(|i| {
            let k = i / l;
            let v = if k == 0 {
                8.5
            } else if k == 5 {
                2.25
            } else if k + w < g {
                [4.0, 6.0][k % 2]
            } else if k + 3 == g {
                5.0 + x
            } else {
                5.0
            };
            sgn * v
        })
        .collect();
    let mut s = base(n, l, 1, arg(2), 3).tol_x(0.0).tol_x_up(f64::MAX).tol_condition_cov(f64::MAX).tol_fun(0.0).tol_fun_hist(0.0).tol_stagnation(usize::MAX).tol_fun_rel(0.01).build(F).unwrap();
    let mut ok = true;
    for _ in 1..g {
        let r = s.next();
        ok &= !has(&r, T::TolFunRel);
    }
    check(ok, "TolFunRel is quiet while the best values vary");
    let r = s.next();
    if s.generation() != g {
        return;
    }
    let want = x < 0.0625;
    check(has(&r, T::TolFunRel) == want, "TolFunRel compares with the median of the first generation and the best one");
    reach(if want { "fired" } else { "quiet" });
    obs(want as u64);
}

/// long histories: concrete values worse in the newest than in the oldest third of the last window (and worst between),
/// or the reverse. args: n, generations, mode, lambda, shape 0-2, 1: the option is one above the window
pub fn c10_long() {
    let (n, g, m, l) = (arg(0) as usize, arg(1) as usize, mode_of(arg(2)), arg(3) as usize);
    let sgn = if m == Mode::Minimize { 1.0 } else { -1.0 };
    let cap = |k: usize| (k / 5).min(20000);
    let w = cap(g);
    // the option is reached in this generation, or never
    let opt = w + arg(5) as usize;
    let shape = arg(4);
    let x = any_f64();
    assume((x >= 0.0) & (x <= 4.0));
    reset(Kind::Given, n);
    let third = w / 3;
    ob().given = (0..g * l)
        .map(|i| {
            let back = g - 1 - i / l;
            let v = match shape {
                _ if back >= w => 7.0,
                0 => [2.0, 3.0, 1.0][(back / third).min(2)],
                1 => [1.0, 0.5, 2.0][(back / third).min(2)],
                _ => [2.0, 0.0, 1.0][(back / third).min(2)],
            };
            sgn * (v + 1e-3 * ((i % l) as f64 + (i / l * 7 % 11) as f64))
        })
        .collect();
    // one value of the last generation decides nothing
    ob().given[g * l - 1] = sgn * (5.0 + x);
    let mut s = base(n, l, 1, arg(2), 3).tol_x(0.0).tol_x_up(f64::MAX).tol_condition_cov(f64::MAX).tol_fun(0.0).tol_fun_hist(0.0).tol_stagnation(opt).build(F).unwrap();
    for k in 1..g {
        let r = s.next();
        if k % 64 == 0 || g - k < 3 {
            check(!has(&r, T::TolStagnation) || cap(k) >= opt, "TolStagnation not before the window is long enough");
        }
    }
    let r = s.next();
    if s.generation() != g {
        return;
    }
    let want = opt == w && shape != 1;
    check(has(&r, T::TolStagnation) == want, "TolStagnation if and only if both medians got worse over the window");
    reach(if want { "fired" } else { "quiet" });
    obs(want as u64);
}

/// args: n, generations, mode, symbolic positions set, lambda (odd), shift of the symbolic window
pub fn c10_stagnation() {
    let (n, g, m, l) = (arg(0) as usize, arg(1) as usize, mode_of(arg(2)), arg(4) as usize);
    let sgn = if m == Mode::Minimize { 1.0 } else { -1.0 };
    let opt = any_u64() as usize;
    let mut best = vec![sgn; g];
    let mut med = vec![2.0 * sgn; g];
    let w = g / 5;
    let sub = (w as f64 * 0.3).floor() as usize;
    let sh = arg(5) as usize;
    // positions counted from the newest (0) to the oldest (w-1) generation of the last window, and one outside
    let ps: Vec<usize> = match arg(3) {
        0 => vec![0, w - 1],
        1 => vec![0, w - 1, w],
        2 => vec![sub - 1, w - sub],
        3 => vec![sub, w - sub - 1, 0, w - 1],
        _ => vec![0, sub - 1, w - sub, w - 1],
    };
    for p in ps {
        let k = g - 1 - p - sh;
        let x = any_f64();
        assume((x >= 0.0) & (x <= 1.75));
        best[k] = sgn * x;
        let y = any_f64();
        assume((y >= 1.8) & (y <= 3.0));
        med[k] = sgn * y;
    }
    let mut given = vec![];
    for k in 0..g {
        for i in 0..l {
            given.push(if i == l - 1 {
                best[k]
            } else if i < l / 2 {
                5.0 * sgn
            } else {
                med[k]
            });
        }
    }
    reset(Kind::Given, n);
    ob().given = given;
    let mut s = base(n, l, 1, arg(2), 3).tol_stagnation(opt).build(F).unwrap();
    let median = |v: &[f64]| -> f64 {
        let r = ranking(Mode::Minimize, v);
        let k = v.len();
        if k % 2 == 1 {
            v[r[k / 2]]
        } else {
            (v[r[k / 2 - 1]] + v[r[k / 2]]) / 2.0
        }
    };
    for k in 1..=g {
        let r = s.next();
        let fired = has(&r, T::TolStagnation);
        // only the generations whose windows contain symbolic positions, and a few before
        let w = k / 5;
        let sub = (w as f64 * 0.3).floor() as usize;
        let regress = |h: &[f64]| -> bool {
            if sub == 0 {
                return false;
            }
            let win = &h[k - w..k];
            better(m, median(&win[..sub]), median(&win[w - sub..]))
        };
        let reg = sub > 0 && regress(&best[..k]) && regress(&med[..k]);
        let want = reg & (w >= opt);
        check(fired == want, "TolStagnation if and only if both medians got worse over the window");
        if fired {
            reach("fired");
        } else {
            reach("quiet");
        }
    }
    obs_snap(&snap(&s));
}

/// args: n, lambda, generations, weights, criterion (0 TolX, 1 TolXUp, 2 TolConditionCov), seed, initial step size index, concrete generations before
pub fn c11_tol() {
    let (n, l, g, what) = (arg(0) as usize, arg(1) as usize, arg(2) as usize, arg(4));
    let sigma0 = [0.75, 1e-6, 40.0, 0.02][arg(6) as usize];
    let tol = any_f64();
    reset(Kind::Num, n);
    let mut o = noise(CMAESOptions::new(mean0(n), sigma0).population_size(l).weights(weights_of(arg(3))).seed(arg(5)), 0);
    o = match what {
        0 => o.tol_x(tol),
        1 => o.tol_x_up(tol),
        _ => o.tol_condition_cov(tol),
    };
    let mut s = o.build(F).unwrap();
    let mut rf = Ref::new(n, l, weights_of(arg(3)), 1.0, mean0(n), sigma0);
    // arg 7: generations on concrete values first, so that the axes differ in length
    let more = arg(7) as usize;
    for k in 0..more + g {
        if k < more {
            ob().kind = Kind::Sphere;
        } else {
            ob().kind = Kind::Num;
        }
        let r = s.next();
        let vals = ob().vals[k * l..].to_vec();
        let pts = ob().pts[k * l..].to_vec();
        let ord = ranking(Mode::Minimize, &vals);
        let sorted: Vec<&[f64]> = ord.iter().map(|i| &pts[*i][..]).collect();
        rf.update(&sorted);
        if has(&r, T::PosDefCov) {
            return;
        }
        // a result is required outside the rounding band around the threshold
        let (fired, q) = match what {
            0 => {
                let mut q = 0.0f64;
                for i in 0..n {
                    q = q.max(rf.sigma * rf.c[i][i].sqrt()).max((rf.sigma * rf.pc[i]).abs());
                }
                (has(&r, T::TolX), q)
            }
            1 => {
                let e = rf.eig.iter().fold(0.0f64, |a, b| a.max(*b));
                (has(&r, T::TolXUp), rf.sigma * e.sqrt() / sigma0)
            }
            _ => {
                let hi = rf.eig.iter().fold(0.0f64, |a, b| a.max(*b));
                let lo = rf.eig.iter().fold(f64::INFINITY, |a, b| a.min(*b));
                (has(&r, T::TolConditionCov), hi / lo)
            }
        };
        let (below, above) = (tol > q * (1.0 + 1e-7), tol < q * (1.0 - 1e-7));
        match what {
            0 => {
                check(implies(below, fired), "TolX fires when sigma*std and sigma*path are below tol_x in every coordinate");
                check(implies(above | tol.is_nan(), !fired), "TolX is quiet when a coordinate is not below tol_x");
            }
            1 => {
                check(implies(above, fired), "TolXUp fires when the largest standard deviation grew by more than tol_x_up");
                check(implies(below | tol.is_nan(), !fired), "TolXUp is quiet when it did not");
            }
            _ => {
                check(implies(above, fired), "TolConditionCov fires when the squared axis ratio exceeds the tolerance");
                check(implies(below | tol.is_nan(), !fired), "TolConditionCov is quiet when it does not");
            }
        }
        if fired {
            reach("fired");
        } else {
            reach("quiet");
        }
        obs(fired as u64);
    }
}

/// NoEffectAxis / NoEffectCoord over extreme means and step sizes. args: n, lambda, generations, weights, seed
pub fn c11_noeffect() {
    let (n, l, g) = (arg(0) as usize, arg(1) as usize, arg(2) as usize);
    let scales = [0.0, 1.0, 1e8, 3e15, 1e17, 1e300];
    let mut mean = vec![];
    for i in 0..n {
        let k = choose(scales.len() as u64) as usize;
        mean.push(scales[k] * if i % 2 == 0 { 1.0 } else { -1.0 });
    }
    let sigma0 = [1.0, 1e-9, 1e3][choose(3) as usize];
    reset(Kind::Num, n);
    let mut s = noise(CMAESOptions::new(mean.clone(), sigma0).population_size(l).weights(weights_of(arg(3))).seed(arg(4)), 0).build(F).unwrap();
    let mut rf = Ref::new(n, l, weights_of(arg(3)), 1.0, mean, sigma0);
    for k in 0..g {
        let m_old: Vec<f64> = s.mean().iter().cloned().collect();
        let s_old = s.sigma();
        let _ = (m_old, s_old);
        let r = s.next();
        if has(&r, T::PosDefCov) {
            return;
        }
        let z = snap(&s);
        let mut want = false;
        for i in 0..n {
            want |= z.mean[i] == z.mean[i] + 0.2 * z.sigma * z.cov[i * n + i];
        }
        check(has(&r, T::NoEffectCoord) == want, "NoEffectCoord if and only if a coordinate of the mean does not move by 0.2 sigma C_ii");
        // the order of the axes is known as long as the covariance was not decomposed again
        let evals = (k + 1) * l;
        if evals < rf.every {
            let a = (k + 1) % n;
            let want = z.mean[a] == z.mean[a] + 0.1 * z.sigma;
            check(has(&r, T::NoEffectAxis) == want, "NoEffectAxis if and only if the mean does not move along the axis of this generation");
            reach("identity axes");
        } else if n == 1 {
            let want = z.mean[0] == z.mean[0] + 0.1 * z.sigma * z.eig[0].sqrt();
            let want2 = z.mean[0] == z.mean[0] - 0.1 * z.sigma * z.eig[0].sqrt();
            if want == want2 {
                check(has(&r, T::NoEffectAxis) == want, "NoEffectAxis if and only if the mean does not move along the axis of this generation");
            }
        } else {
            // any axis: decided when all axes agree, for every decomposition of the public covariance
            if evals >= rf.last_eig + rf.every {
                rf.last_eig = evals;
                let c: Mat = (0..n).map(|i| (0..n).map(|j| z.cov[i * n + j]).collect()).collect();
                let (e, v) = jacobi(&c);
                rf.eig = e;
                rf.vecs = v;
            }
            let mut all = true;
            let mut none = true;
            for a in 0..n {
                let st = 0.1 * z.sigma * rf.eig[a].abs().sqrt();
                let mut still = true;
                let mut moves = false;
                for i in 0..n {
                    let d = (st * rf.vecs[i][a]).abs();
                    still &= z.mean[i] == z.mean[i] + 2.0 * d && z.mean[i] == z.mean[i] - 2.0 * d;
                    moves |= z.mean[i] != z.mean[i] + 0.5 * d && z.mean[i] != z.mean[i] - 0.5 * d;
                }
                all &= still;
                none &= moves;
            }
            if all {
                check(has(&r, T::NoEffectAxis), "NoEffectAxis when no axis moves the mean");
            }
            if none {
                check(!has(&r, T::NoEffectAxis), "no NoEffectAxis when every axis moves the mean");
            }
        }
        if has(&r, T::NoEffectAxis) {
            reach("axis");
        }
        if has(&r, T::NoEffectCoord) {
            reach("coord");
        }
        obs(has(&r, T::NoEffectAxis) as u64);
        obs(has(&r, T::NoEffectCoord) as u64);
    }
}

/// The window of the TolFun criteria for many shapes. args: n, lambda from, lambda to (odd or 2), mode, criterion (0 hist, 1 fun, 2 rel), magnitude index
/// every generation has the same best and worst value but one earlier one; all values are scaled by a magnitude
pub fn c09_window() {
    let n = arg(0) as usize;
    let l = conc(any_range(arg(1), arg(2))) as usize;
    let m = mode_of(arg(3));
    let what = arg(4);
    let mag = [1.0, 1e-6, 1e4, 1e12][arg(5) as usize];
    let sgn = if m == Mode::Minimize { mag } else { -mag };
    let w = 10 + (30 * n + l - 1) / l;
    let total = w + 2;
    let tol = any_f64();
    // the odd one out leaves the window in the last generation
    let d = any_f64();
    assume((d.abs() >= 0.25 * mag) & (d.abs() <= 4.0 * mag) & ((d > 0.0) == (sgn > 0.0)));
    let odd = 1usize;
    let mut given = vec![];
    let (mut bests, mut worsts, mut meds) = (vec![], vec![], vec![]);
    for k in 0..total {
        let b = if k == odd { d } else { sgn };
        // the median of the first generation is far above the others in the second half of the run
        let md = sgn * if k < 2 { 40.0 } else if k % 3 == 0 { 45.0 } else { 36.0 };
        let wo = sgn * 64.0;
        bests.push(b);
        worsts.push(wo);
        for i in 0..l {
            given.push(if i == l / 2 {
                b
            } else if i == 0 {
                wo
            } else {
                md
            });
        }
        meds.push(if l == 2 { (b + wo) / 2.0 } else { md });
    }
    reset(Kind::Given, n);
    ob().given = given;
    let o = base(n, l, 0, arg(3), 3);
    let o = match what {
        0 => o.tol_fun(0.0).tol_fun_rel(0.0).tol_fun_hist(tol),
        1 => o.tol_fun(tol).tol_fun_rel(0.0).tol_fun_hist(0.0),
        _ => o.tol_fun(0.0).tol_fun_rel(tol).tol_fun_hist(0.0),
    };
    let mut s = o.build(F).unwrap();
    for k in 1..=total {
        let r = s.next();
        let (a, b, c) = (has(&r, T::TolFun), has(&r, T::TolFunHist), has(&r, T::TolFunRel));
        if k < w {
            check(!a & !b & !c, "no TolFun criterion before the window is filled");
            continue;
        }
        let win = &bests[k - w..k];
        let (mut lo, mut hi) = (win[0], win[0]);
        for x in win {
            lo = if *x < lo { *x } else { lo };
            hi = if *x > hi { *x } else { hi };
        }
        let h = hi - lo;
        let gr = (worsts[k - 1] - bests[k - 1]).abs();
        let mut bm = meds[0];
        for x in &meds[..k] {
            if better(m, *x, bm) {
                bm = *x;
            }
        }
        let lim = tol * (meds[0] - bm).abs();
        check(b == ((what == 0) & (h < tol)), "TolFunHist if and only if the range of the best values of the window is below tol_fun_hist");
        check(a == ((what == 1) & (h < tol) & (gr < tol)), "TolFun if and only if both ranges are below tol_fun");
        check(c == ((what == 2) & (h < lim) & (gr < lim)), "TolFunRel if and only if both ranges are below the relative tolerance");
        if a | b | c {
            reach("fired");
        } else {
            reach("quiet");
        }
    }
    obs_snap(&snap(&s));
}
