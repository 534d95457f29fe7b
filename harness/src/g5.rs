//! C14 constraints, C17 wrappers and convenience functions
use crate::common::*;
use crate::g2::{cons, SymCons, F};
use crate::rt::*;
use cmaes::objective_function::Scale;

/// args: n, lambda, max_resamples + 1 (0: None, 100: not set), symbolic queries, parallel, generations
pub fn c14_resample() {
    let (n, l, mr, budget, par, g) = (arg(0) as usize, arg(1) as usize, arg(2), arg(3) as usize, arg(4), arg(5) as usize);
    env().threads = 2;
    reset(Kind::Sphere, n);
    let mut o = base(n, l, 0, 0, 9).constraints(Box::new(SymCons)).parallel_update(par & 2 != 0);
    let max = match mr {
        0 => {
            o = o.max_resamples(None);
            None
        }
        100 => Some(10),
        k => {
            o = o.max_resamples(Some(k as usize - 1));
            Some(k as usize - 1)
        }
    };
    let mut s = o.build(F).unwrap();
    let c = cons();
    c.dim = n;
    for k in 0..g {
        c.calls = 0;
        c.budget = budget;
        c.cand.clear();
        c.ok.clear();
        let _ = if par & 1 == 1 { s.next_parallel() } else { s.next() };
        let pts = &ob().pts[k * l..];
        check(pts.len() == l, "lambda points are evaluated");
        // rounds of candidates
        let (mut pos, mut acc, mut rounds) = (0usize, vec![], 0usize);
        while acc.len() < l && pos < c.cand.len() {
            let need = l - acc.len();
            rounds += 1;
            for _ in 0..need {
                if pos >= c.cand.len() {
                    check(false, "a sampling round draws as many candidates as are missing");
                    return;
                }
                if c.ok[pos] {
                    acc.push(pos);
                }
                pos += 1;
            }
        }
        check(pos == c.cand.len(), "no candidate is checked after the generation is full");
        match max {
            Some(m) => {
                check(rounds <= m, "at most max_resamples rounds are checked");
                check(acc.len() == l || rounds == m, "unchecked points only after max_resamples rounds");
                if acc.len() < l {
                    reach("filled");
                }
            }
            None => {
                check(acc.len() == l, "with unlimited resampling every point satisfies the constraints");
            }
        }
        if rounds > 1 {
            reach("resampled");
        }
        for (i, &p) in acc.iter().enumerate() {
            check(vec_eq(&pts[i], &c.cand[p]), "exactly the accepted candidates are evaluated, in order and unmodified");
        }
        for i in acc.len()..l {
            check(!c.cand.iter().any(|q| vec_eq(q, &pts[i])), "the remaining points are fresh draws");
        }
        obs(rounds as u64);
    }
    reach("end");
}

/// every bound and coordinate value. args: n
pub fn c14_bounds() {
    let n = arg(0) as usize;
    let (mut lo, mut hi, mut x) = (vec![], vec![], vec![]);
    for _ in 0..n {
        lo.push(any_f64());
        hi.push(any_f64());
        x.push(any_f64());
    }
    let mut want = true;
    for i in 0..n {
        want &= (x[i] >= lo[i]) & (x[i] <= hi[i]);
    }
    let b = Bounds { lower: lo, upper: hi };
    let r = b.meets_constraints(&DVector::from(x.clone()));
    let r2 = b.clone_box().meets_constraints(&DVector::from(x));
    check(r == want, "Bounds accepts exactly the points of the closed box");
    check(r == r2, "a cloned Bounds behaves alike");
    if r {
        reach("inside");
    } else {
        reach("outside");
    }
    obs(r as u64);
}

/// the whole path with `bounds(...)`: args: n, lambda, max_resamples + 1, seed; symbolic bounds
pub fn c14_box() {
    let (n, l) = (arg(0) as usize, arg(1) as usize);
    reset(Kind::Sphere, n);
    let (mut lo, mut hi) = (vec![], vec![]);
    for i in 0..n {
        let a = any_f64();
        let b = any_f64();
        // at least the half line through the mean is feasible
        assume((a <= mean0(n)[i]) & (b >= mean0(n)[i]));
        lo.push(if i == 0 { a } else { -1e300 });
        hi.push(if i == 0 { b } else { 1e300 });
    }
    let m = arg(2);
    let mut s = base(n, l, 0, 0, arg(3)).bounds(lo.clone(), hi.clone()).max_resamples(if m == 0 { None } else { Some(m as usize - 1) });
    if m == 0 {
        // a draw is feasible after a bounded number of rounds
        s = s.seed(arg(3));
        assume((lo[0] <= mean0(n)[0] - 0.4) & (hi[0] >= mean0(n)[0] + 0.4));
    }
    let mut s = s.build(F).unwrap();
    let _ = s.next();
    let mut all = true;
    for p in &ob().pts {
        let mut ok = true;
        for i in 0..n {
            ok &= (p[i] >= lo[i]) & (p[i] <= hi[i]);
        }
        all &= ok;
    }
    if m == 0 {
        check(all, "with unlimited resampling every evaluated point lies in the box");
    }
    check(ob().pts.len() == l, "lambda points");
    if all {
        reach("inside");
    } else {
        reach("outside");
    }
    obs(ob().pts.len() as u64);
}

// ---- C17 ---------------------------------------------------------------------------------------
static mut SEEN: Vec<Vec<f64>> = vec![];
static mut RET: f64 = 0.0;
#[allow(static_mut_refs)]
fn probe(x: &DVector<f64>) -> f64 {
    unsafe {
        SEEN.push(x.iter().cloned().collect());
        RET
    }
}
struct Own {
    calls: usize,
}
impl ObjectiveFunction for Own {
    fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
        self.calls += 1;
        probe(x)
    }
}
/// args: n
#[allow(static_mut_refs)]
fn through<T: ObjectiveFunction>(mut t: T, v: &DVector<f64>) -> f64 {
    t.evaluate(v)
}
fn through_parallel<T: ParallelObjectiveFunction>(t: T, v: &DVector<f64>) -> f64 {
    t.evaluate_parallel(v)
}
pub fn c17_scale() {
    let n = arg(0) as usize;
    let x: Vec<f64> = (0..n).map(|_| any_f64()).collect();
    let sc: Vec<f64> = (0..n).map(|_| any_f64()).collect();
    let ret = any_f64();
    unsafe { RET = ret };
    let v = DVector::from(x.clone());
    let want: Vec<f64> = (0..n).map(|i| x[i] * sc[i]).collect();
    let f: fn(&DVector<f64>) -> f64 = probe;
    let mut s = Scale::new(f, sc.clone());
    let way = choose(8);
    let r = match way {
        0 => s.evaluate(&v),
        1 => s.evaluate_parallel(&v),
        2 => through(&mut s, &v),
        3 => through_parallel(&s, &v),
        4 => {
            let b: Box<dyn ObjectiveFunction> = Box::new(f);
            Scale::new(b, sc.clone()).evaluate(&v)
        }
        5 => {
            let b: Box<dyn ParallelObjectiveFunction> = Box::new(f);
            Scale::new(b, sc.clone()).evaluate_parallel(&v)
        }
        6 => {
            let mut b: Box<dyn ObjectiveFunction> = Box::new(s.clone());
            b.evaluate(&v)
        }
        _ => {
            let b: Box<dyn ParallelObjectiveFunction> = Box::new(s.clone());
            b.evaluate_parallel(&v)
        }
    };
    let same = |a: f64, b: f64| same_bits(a, b) | (a.is_nan() & b.is_nan());
    check(same_bits(r, ret) | (r.is_nan() & ret.is_nan()), "the value of the wrapped function is passed through");
    let seen = unsafe { &SEEN };
    check(seen.len() == 1 && seen[0].len() == n, "the wrapped function is called once");
    let mut ok = true;
    for i in 0..n {
        ok &= same(seen[0][i], want[i]);
    }
    check(ok, "the wrapped function receives x_i * scale_i");
    let z = s.scale(&v);
    let mut ok = z.len() == n;
    for i in 0..n {
        ok &= same(z[i], want[i]);
    }
    check(ok, "scale() multiplies the coordinates");
    let mut ok = s.scales().len() == n;
    for i in 0..n {
        ok &= same_bits(s.scales()[i], sc[i]);
    }
    check(ok, "scales() returns the scales");
    let mut o = Scale::new(Own { calls: 0 }, sc.clone());
    let _ = o.evaluate(&v);
    let _ = through(&mut o, &v);
    check(o.into_wrapped_function().calls == 2, "into_wrapped_function returns the function");
    reach("end");
    for w in &want {
        obs_f(*w);
    }
}

/// args: function (0 fmin, 1 fmin_parallel, 2 fmax, 3 fmax_parallel), n, number of value classes in generation 1
/// (values are printed, hence a symbolic choice from fixed values instead of a symbolic float)
pub fn c17_fmin() {
    let (which, n) = (arg(0), arg(1) as usize);
    let m = if which < 2 { Mode::Minimize } else { Mode::Maximize };
    let l = 4 + (3.0 * (n as f64).ln()).floor() as usize;
    env().capture = true;
    env().threads = 2;
    // symbolic values in the first generation, then a plateau, which ends the run with a TolFun criterion
    let mut vals = vec![];
    let mut nan = false;
    let set = [-3.0, 4.5, 1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    for _ in 0..l {
        let v = set[choose(arg(2)) as usize];
        nan |= v.is_nan();
        vals.push(v);
    }
    reset(Kind::Given, n);
    for k in 0..200 * l {
        vals.push(if k < 199 * l { 1.0 } else { f64::NAN });
    }
    ob().given = vals;
    if nan {
        expect_panic(true);
    }
    let sigma = 0.5;
    let r = match which {
        0 => fmin(F, mean0(n), sigma),
        1 => fmin_parallel(F, mean0(n), sigma),
        2 => fmax(F, mean0(n), sigma),
        _ => fmax_parallel(F, mean0(n), sigma),
    };
    check(!nan, "a NaN in the first generation panics");
    let (pts, vals) = (&ob().pts, &ob().vals);
    check(vals.len() % l == 0 && vals.len() < 200 * l, "the default population size is used and the plateau ends the run");
    let mut best = 0;
    for i in 1..l + 1 {
        if better(m, vals[i], vals[best]) {
            best = i;
        }
    }
    // first of the best generation: generation 1 wins ties against the plateau
    let mut top = 0;
    for i in 1..l {
        if better(m, vals[i], vals[top]) {
            top = i;
        }
    }
    let want = if better(m, 1.0, vals[top]) { l } else { top };
    let _ = best;
    check(same_bits(r.value, vals[want]), "the overall best value is returned");
    check(vec_eq(r.point.as_slice(), &pts[want]), "the overall best point is returned");
    let mut near = true;
    for i in 0..l {
        for j in 0..n {
            near &= (pts[i][j] - mean0(n)[j]).abs() < 10.0 * sigma;
        }
    }
    check(near, "the run starts from the given mean and step size");
    check(env().out_lines >= 3, "progress is printed");
    reach("end");
    obs_f(r.value);
}

/// invalid options panic, valid ones do not: args: function
pub fn c17_invalid() {
    let which = arg(0);
    let n = choose(3) as usize;
    env().capture = true;
    env().threads = 2;
    let sigma = any_f64();
    let normal = (sigma.to_bits() >> 52) & 0x7ff;
    let bad = (n == 0) | (normal == 0) | (normal == 0x7ff) | (sigma.to_bits() >> 63 == 1);
    assume(bad);
    reset(Kind::Nan, n);
    expect_panic(true);
    let r = match which {
        0 => fmin(F, mean0(n), sigma),
        1 => fmin_parallel(F, mean0(n), sigma),
        2 => fmax(F, mean0(n), sigma),
        _ => fmax_parallel(F, mean0(n), sigma),
    };
    let _ = r;
    check(false, "invalid options panic");
}
