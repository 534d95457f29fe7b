//! C12 update equations and parameters, C13 covariance and decomposition
use crate::common::*;
use crate::g2::F;
use crate::refm::*;
use crate::rt::*;
use cmaes::TerminationReason as T;

fn to_mat(n: usize, c: &[f64]) -> Mat {
    (0..n).map(|i| (0..n).map(|j| c[j * n + i]).collect()).collect()
}

/// args: n, population sizes from, to (all weights settings): the reported strategy parameters
pub fn c12_params() {
    let n = arg(0) as usize;
    let l = conc(any_range(arg(1), arg(2))) as usize;
    let w = weights_of(choose(3));
    let s = CMAESOptions::new(mean0(n), 1.0).population_size(l).weights(w).seed(1).build(F).unwrap();
    let (p, q) = (s.parameters(), params(n, l, w));
    let t = 1e-12;
    check(p.mu() == q.mu, "mu = floor(lambda / 2)");
    check(close(p.mu_eff(), q.mu_eff, 1.0, t), "mu_eff");
    check(close(p.cc(), q.cc, 0.0, t), "cc");
    check(close(p.c1(), q.c1, 0.0, t), "c1");
    check(close(p.cs(), q.cs, 0.0, t), "cs");
    check(close(p.cmu(), q.cmu, 1e-3, t), "cmu");
    check(close(p.damp_s(), q.damp, 1.0, t), "damp_s");
    let ws = p.weights();
    let mut ok = ws.len() == l || (w != Weights::Negative && ws.len() >= q.mu && ws.len() <= l);
    for i in 0..ws.len().min(l) {
        ok &= close(ws[i], q.w[i], 1.0, 1e-11);
    }
    check(ok, "weights");
    let mut sum = 0.0;
    let mut good = true;
    for i in 0..q.mu {
        sum += ws[i];
        good &= ws[i] > 0.0;
        if i > 0 {
            good &= if w == Weights::Uniform { (ws[i] - ws[i - 1]).abs() < 1e-12 } else { ws[i] < ws[i - 1] };
        }
    }
    check(good && (sum - 1.0).abs() < 1e-12, "the selected weights are positive, decreasing and sum to 1");
    for i in q.mu..ws.len() {
        check(if w == Weights::Negative { ws[i] <= 0.0 } else { ws[i] == 0.0 }, "negative weights only for Negative");
    }
    reach("end");
    obs_f(p.cmu());
    obs_f(p.damp_s());
}

/// The state against the reference equations; arg 7: 0 = C12, 1 = C13
/// args: n, lambda, symbolic generations, weights, seed, cm index, concrete generations afterwards, which, mode
fn update(which: u64) {
    let (n, l, g, w) = (arg(0) as usize, arg(1) as usize, arg(2) as usize, weights_of(arg(3)));
    let cm = [1.0, 0.5, 0.125, 0.9][arg(5) as usize];
    let more = arg(6) as usize;
    let m = mode_of(arg(7));
    let sigma0 = [0.75, 0.01, 30.0][arg(8) as usize];
    reset(Kind::Num, n);
    let mut s = noise(CMAESOptions::new(mean0(n), sigma0).population_size(l).weights(w).seed(arg(4)), arg(7)).cm(cm).mode(m).parallel_update(arg(9) == 1).build(F).unwrap();
    env().threads = 2;
    if arg(10) > 0 {
        // draws of a chosen magnitude per generation: long and short steps, stalls of the evolution path
        let mut h = 777u64 + arg(10);
        let mut zs = vec![];
        for _ in 0..g + more {
            let mag = [1.0, 6.0, 1e-4, 60.0][choose(3 + arg(10) % 2) as usize];
            for _ in 0..l * n {
                h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                zs.push(mag * (((h >> 33) as f64) / (1u64 << 31) as f64 * 2.0 - 1.0));
            }
        }
        env().normal_mode = 1;
        env().normals = zs;
    }
    let mut rf = Ref::new(n, l, w, cm, mean0(n), sigma0);
    let mut last_mean = mean0(n);
    let mut last_sigma = sigma0;
    for k in 0..g + more {
        if k == g {
            let v = ob().vals.clone();
            let p = ob().pts.clone();
            reset(Kind::Sphere, n);
            ob().vals = v;
            ob().pts = p;
        }
        let r = s.next();
        let vals = ob().vals[k * l..].to_vec();
        let pts = ob().pts[k * l..].to_vec();
        let ord = ranking(m, &vals);
        let sorted: Vec<&[f64]> = ord.iter().map(|i| &pts[*i][..]).collect();
        let z = snap(&s);
        if which == 1 {
            // the points of this generation against the decomposition that was current when they were drawn
            let _ = (&last_mean, last_sigma);
        }
        let dec_before = rf.last_eig;
        rf.update(&sorted);
        if has(&r, T::PosDefCov) {
            check(which == 0 || rf.fail || !pos_def(&rf.c) || rf.eig.iter().fold(0.0f64, |a, b| a.max(*b)) / rf.eig.iter().fold(f64::MAX, |a, b| a.min(*b)) > 1e12, "PosDefCov only for a covariance that is not positive definite");
            reach("posdef");
            return;
        }
        if rf.margin < 1e-7 || rf.fail {
            // the reference is within rounding of a discontinuity of the equations
            reach("margin");
            return;
        }
        let sc = rf.scale_c();
        let tol = 1e-9 * (1.0 + k as f64);
        if which == 0 {
            let ms = rf.sigma.abs() * sc.sqrt() + 1.0;
            let mut ok = true;
            for j in 0..n {
                ok &= close(z.mean[j], rf.mean[j], ms, tol);
            }
            check(ok, "mean = mean + cm sigma sum(w_i y_i)");
            check(close(z.sigma, rf.sigma, 0.0, tol), "the step size follows cumulative step-size adaptation");
            let mut ok = true;
            for i in 0..n {
                for j in 0..n {
                    ok &= close(z.cov[i * n + j], rf.c[i][j], sc, tol);
                }
            }
            check(ok, "the covariance follows the rank-one and rank-mu update");
            if rf.hs {
                reach("hs=1");
            } else {
                reach("hs=0");
            }
        } else {
            let mut sym = true;
            let mut fin = z.sigma.is_finite() & (z.sigma > 0.0);
            for i in 0..n {
                for j in 0..n {
                    sym &= z.cov[i * n + j] == z.cov[j * n + i];
                    fin &= z.cov[i * n + j].is_finite();
                }
            }
            check(sym, "the covariance is exactly symmetric");
            check(fin, "the covariance is finite, the step size positive and finite");
            check(pos_def(&to_mat(n, &z.cov)), "the covariance is positive definite");
            let mut e = z.eig.clone();
            e.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let mut q = rf.eig.clone();
            q.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let mut ok = e.len() == n;
            for i in 0..n {
                ok &= close(e[i], q[i], q[n - 1], tol * 10.0);
            }
            check(ok, "the eigenvalues are those of the covariance at the scheduled decomposition");
            let ar = (e[n - 1] / e[0]).sqrt();
            check(close(s.axis_ratio(), ar, ar, 1e-9), "axis_ratio is the square root of the condition number");
            if rf.last_eig != dec_before {
                reach("decomposed");
            } else {
                reach("kept");
            }
        }
        last_mean = z.mean.clone();
        last_sigma = z.sigma;
    }
    reach("end");
    obs_snap(&snap(&s));
}
pub fn c12_update() {
    update(0)
}
pub fn c13_cov() {
    update(1)
}

/// Sampling: the standard normal draws are given, the points must be mean + sigma B D z with B D (B D)^T = C.
/// args: n, lambda (>= n + 1), generations with symbolic ranking, weights, concrete generations before
pub fn c13_sample() {
    let (n, l, g, w, pre) = (arg(0) as usize, arg(1) as usize, arg(2) as usize, weights_of(arg(3)), arg(4) as usize);
    // draws of one generation: unit vectors first, then fixed pseudo-random numbers
    let mut zs: Vec<f64> = vec![];
    let mut h = 12345u64 + arg(5);
    for _ in 0..(g + pre) {
        for i in 0..l {
            for j in 0..n {
                h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let u = ((h >> 33) as f64) / (1u64 << 31) as f64 * 3.0 - 1.5;
                zs.push(if i < n {
                    if i == j {
                        1.0
                    } else {
                        0.0
                    }
                } else {
                    u
                });
            }
        }
    }
    let e = env();
    e.normal_mode = 1;
    e.normals = zs.clone();
    reset(if pre > 0 { Kind::Sphere } else { Kind::Num }, n);
    let mut s = base(n, l, arg(3), 0, 1).build(F).unwrap();
    let mut rf = Ref::new(n, l, w, 1.0, mean0(n), 0.75);
    for k in 0..g + pre {
        if k == pre && pre > 0 {
            let v = ob().vals.clone();
            let p = ob().pts.clone();
            reset(Kind::Num, n);
            ob().vals = v;
            ob().pts = p;
        }
        let a = snap(&s);
        let r = s.next();
        let vals = ob().vals[k * l..].to_vec();
        let pts = ob().pts[k * l..].to_vec();
        check(env().normal_i == (k + 1) * l * n, "lambda * N standard normal draws per generation");
        // columns of B D
        let mut bd = vec![vec![0.0; n]; n];
        for j in 0..n {
            for i in 0..n {
                bd[i][j] = (pts[j][i] - a.mean[i]) / a.sigma;
            }
        }
        let mut sc = 0.0f64;
        for i in 0..n {
            for j in 0..n {
                sc = sc.max(rf.c_dec[i][j].abs());
            }
        }
        let mut ok = true;
        for i in 0..n {
            for j in 0..n {
                let c: f64 = (0..n).map(|q| bd[i][q] * bd[j][q]).sum();
                ok &= close(c, rf.c_dec[i][j], sc, 1e-8);
            }
        }
        check(ok, "B D (B D)^T is the covariance at the last decomposition");
        let mut ok = true;
        for i in n..l {
            let z = &zs[(k * l + i) * n..(k * l + i + 1) * n];
            let y = mul_vec(&bd, z);
            for j in 0..n {
                ok &= close(pts[i][j], a.mean[j] + a.sigma * y[j], 1.0, 1e-8);
            }
        }
        check(ok, "points are mean + sigma B D z");
        let ord = ranking(Mode::Minimize, &vals);
        let sorted: Vec<&[f64]> = ord.iter().map(|i| &pts[*i][..]).collect();
        rf.update(&sorted);
        if has(&r, T::PosDefCov) || rf.margin < 1e-7 || rf.fail {
            return;
        }
    }
    reach("end");
    obs_snap(&snap(&s));
}
