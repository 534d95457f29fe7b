//! C25 robustness, C26 printed text, C27 restart printing, C28 accessors
use crate::common::*;
use crate::g2::F;
use crate::rt::*;
use cmaes::restart::{Local, RestartOptions, RestartResults, RestartStrategy, BIPOP, IPOP};

use std::time::Duration;
use TerminationReason as T;

type Fun = fn(&DVector<f64>) -> f64;

fn valid<X>(s: &CMAES<X>) -> bool {
    let z = snap(s);
    let n = z.mean.len();
    let mut ok = z.sigma.is_finite() & (z.sigma > 0.0);
    for i in 0..n {
        for j in 0..n {
            ok &= z.cov[i * n + j].is_finite() & (z.cov[i * n + j] == z.cov[j * n + i]);
        }
        ok &= (z.cov[i * n + i] > 0.0) & (z.eig[i] > 0.0) & z.eig[i].is_finite();
    }
    ok
}
fn touch<X>(s: &mut CMAES<X>) {
    // every accessor and printing entry point in whatever state the run is
    let _ = (s.axis_ratio(), s.eigenvalues(), s.elapsed(), s.generations_per_eigen_update(), s.current_best_individual().is_some(), s.overall_best_individual().is_some());
    s.add_plot_point();
    if let Some(p) = s.get_mut_plot() {
        p.clear();
    }
}

/// values any float, and calls after termination. args: n, lambda, generations, mode, weights, entry points (bit 0 next_parallel, bit 1 parallel_update)
pub fn c25_calls() {
    let (n, l, g) = (arg(0) as usize, arg(1) as usize, arg(2) as usize);
    reset(Kind::Any, n);
    env().threads = 2;
    let mut s = base(n, l, arg(4), arg(3), 3).parallel_update(arg(5) & 2 != 0).build(F).unwrap();
    for k in 0..g + 1 {
        // concrete values in the last generation: the run goes on after whatever happened before
        if k == g {
            ob().kind = Kind::Sphere;
        }
        let r = if arg(5) & 1 == 1 { s.next_parallel() } else { s.next() };
        check(r.is_some() | valid(&s), "the run only continues from a valid distribution");
        if let Some(t) = &r {
            check(!t.reasons.is_empty(), "termination data comes with a reason");
            reach("terminated");
        }
        touch(&mut s);
    }
    reach("end");
    obs(s.generation() as u64);
}

/// extreme but valid options. args: n, lambda, generations, weights, mode, salt
pub fn c25_extremes() {
    let (n, l, g) = (arg(0) as usize, arg(1) as usize, arg(2) as usize);
    let sigma0 = [1.0, f64::MIN_POSITIVE, 1e-200, 1e150, 1e300, f64::MAX][choose(6) as usize];
    let m0 = [0.0, 1e308, f64::NEG_INFINITY, f64::NAN][choose(4) as usize];
    let cm = [1.0, f64::MIN_POSITIVE][choose(2) as usize];
    let flat = choose(3);
    reset(Kind::Given, n);
    let mut h = arg(5) * 7 + 1;
    let k0 = choose((2 * l) as u64) as usize;
    ob().given = (0..g * l)
        .map(|k| {
            h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let v = ((h >> 40) % 17) as f64 - 8.0;
            if k == k0 {
                f64::INFINITY
            } else if k == k0 + 1 {
                f64::NEG_INFINITY
            } else {
                [v, 1.0, v * 1e307][flat as usize]
            }
        })
        .collect();
    let mut m = vec![0.25; n];
    m[n - 1] = m0;
    let mut s = CMAESOptions::new(m, sigma0).population_size(l).cm(cm).weights(weights_of(arg(3))).mode(mode_of(arg(4))).seed(3).enable_plot(PlotOptions::new(0, false)).build(F).unwrap();
    for _ in 0..g {
        let r = s.next();
        check(r.is_some() | valid(&s), "the run only continues from a valid distribution");
        touch(&mut s);
        if r.is_some() {
            reach("terminated");
        } else {
            reach("continues");
        }
    }
    obs(s.generation() as u64);
}

/// long histories with infinities of both signs. args: lambda, generations, tol_stagnation, free values, mode, spacing of the free values
pub fn c25_infinities() {
    let (l, g, opt, free) = (arg(0) as usize, arg(1) as usize, arg(2) as usize, arg(3) as usize);
    let (inf, at) = (f64::INFINITY, arg(5) as usize);
    reset(Kind::Given, 1);
    // generations that mix both infinities have no median
    let mut v = vec![];
    for k in 0..g {
        for i in 0..l {
            v.push(((k * 7 + i * 3) % 5) as f64);
        }
    }
    for f in 0..free {
        // counted from the newest generation
        let k = g - 1 - (f * at) % g;
        if any_bool() {
            for i in 0..l {
                v[k * l + i] = if i % 2 == 0 { inf } else { -inf };
            }
        }
    }
    ob().given = v;
    let mut s = noise(CMAESOptions::new(vec![0.5], 1.0).population_size(l).mode(mode_of(arg(4))).seed(3).tol_stagnation(opt), 0).build(F).unwrap();
    for _ in 0..g {
        let r = s.next();
        check(r.is_some() | valid(&s), "the run only continues from a valid distribution");
        if has(&r, T::TolStagnation) {
            reach("stagnation");
        }
    }
    reach("end");
    obs(s.generation() as u64);
}

// ---- C26 ---------------------------------------------------------------------------------------
const VALUES: [f64; 9] = [1.5, -2.25, 0.0, -0.0, 3e-320, 1.7e308, f64::INFINITY, f64::NEG_INFINITY, 123456.789012345678];
fn text() -> String {
    String::from_utf8_lossy(&env().buf).into_owned()
}
fn clear_text() {
    env().buf.clear();
    env().out_lines = 0;
}
/// shown as a number with at least `digits` correct digits after the point of the mantissa
fn shows(s: &str, v: f64, digits: i32) -> bool {
    let p: String = s.chars().filter(|c| !c.is_whitespace()).collect();
    let (neg, m) = match p.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, p.as_str()),
    };
    if let Some((b, prec)) = token_value(m) {
        let t = f64::from_bits(b);
        let t = if neg { -t } else { t };
        let tail = &m[8..];
        return ((t == v) | (t.is_nan() & v.is_nan())) & (prec >= digits as u64) & ((tail == "") | (tail == "e0") | (tail == "e+00"));
    }
    match p.parse::<f64>() {
        Ok(x) => (x == v) | (x.is_nan() & v.is_nan()) | (x.is_finite() & v.is_finite() & ((x - v).abs() <= v.abs() * 10f64.powi(-digits) * 0.51 + 1e-322)),
        Err(_) => false,
    }
}
fn int_after(s: &str, key: &str) -> Option<u64> {
    let i = s.find(key)? + key.len();
    let d: String = s[i..].chars().take_while(|c| c.is_ascii_digit()).collect();
    d.parse().ok()
}
fn token_after<'a>(s: &'a str, key: &str) -> Option<&'a str> {
    let i = s.find(key)? + key.len();
    Some(s[i..].split(|c: char| c == ',' || c == '\n' || c == ']').next().unwrap_or("").trim())
}
fn info_line_ok<X>(line: &str, s: &CMAES<X>) -> bool {
    let c: Vec<&str> = line.split('|').collect();
    if c.len() != 7 {
        return false;
    }
    let z = snap(s);
    let n = z.mean.len();
    let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
    for i in 0..n {
        let d = z.sigma * z.cov[i * n + i].sqrt();
        lo = lo.min(d);
        hi = hi.max(d);
    }
    let best = match &z.cur {
        Some((_, v)) => shows(c[2], *v, 11),
        None => c[2].trim().is_empty(),
    };
    (c[0].trim() == z.gen.to_string()) & (c[1].trim() == z.evals.to_string()) & best & shows(c[3], s.axis_ratio(), 3) & shows(c[4], z.sigma, 3) & shows(c[5], lo, 3) & shows(c[6], hi, 3)
}
/// the reasons named in the text, in order
fn reasons_ok(t: &str, r: &[T]) -> bool {
    let shown: Vec<&str> = t.split(|c: char| !c.is_ascii_alphanumeric()).filter(|w| REASONS.contains(w)).collect();
    let want: Vec<String> = r.iter().map(|x| format!("{:?}", x)).collect();
    shown.len() == want.len() && shown.iter().zip(&want).all(|(a, b)| a == b)
}
const REASONS: [&str; 15] = [
    "MaxFunctionEvals", "MaxGenerations", "MaxTime", "FunTarget", "TolFun", "TolFunRel", "TolFunHist", "TolX", "TolStagnation", "TolXUp", "TolConditionCov", "NoEffectAxis", "NoEffectCoord",
    "InvalidFunctionValue", "PosDefCov",
];
/// args: n, lambda, generations, weights, mode, entry (0 next, 1 run, 2 run_parallel, 3 next with special values), free values, seed
pub fn c26_text() {
    let (n, l, g, how, seed) = (arg(0) as usize, arg(1) as usize, arg(2) as usize, arg(5), arg(7));
    reset(Kind::Given, n);
    ob().given = (0..g * l).map(|k| ((k * 5 + k / 3) % 7) as f64 - 2.5).collect();
    for f in 0..arg(6) as usize {
        let k = (f * 3 + 1) % (g * l);
        ob().given[k] = if how == 3 { VALUES[choose(VALUES.len() as u64) as usize] } else { any_num() };
    }
    env().capture = true;
    clear_text();
    let o = base(n, l, arg(3), arg(4), seed).max_generations(g);
    let mut s = o.clone().enable_printing(0).build(F).unwrap();
    let t = text();
    let head: Vec<&str> = t.lines().collect();
    check(head.len() == 3, "building prints exactly three header lines");
    check(
        (int_after(head[0], "dimension=") == Some(n as u64)) & (int_after(head[0], "lambda=") == Some(l as u64)) & (int_after(head[0], "seed=") == Some(seed)),
        "the header shows dimension, population size and seed",
    );
    check(head[0].starts_with("aCMA-ES") == (arg(3) == 0) && head[0].contains("CMA-ES"), "the header names the variant");
    clear_text();
    s.print_info();
    check(info_line_ok(text().trim_end_matches('\n'), &s), "before the first generation the line shows the initial state and no value");
    clear_text();
    let mut last = None;
    if how % 3 == 0 {
        for _ in 0..g {
            let r = s.next();
            let t = text();
            check((t.lines().count() == 1) && info_line_ok(t.lines().next().unwrap_or(""), &s), "the line shows counts, best value, axis ratio, step size and extreme standard deviations");
            clear_text();
            if r.is_some() {
                last = r;
                break;
            }
        }
        if let Some(d) = &last {
            s.print_final_info(&d.reasons);
        }
    } else {
        // a gap that is never reached: only the first generations and the final state are shown
        let r = if how == 2 { s.run_parallel() } else { s.run() };
        let t = text();
        let k = r.reasons.len();
        check(k > 0, "run ends with a reason");
        // the line of the last generation is the last with columns
        let row = t.lines().filter(|x| x.contains('|')).last().unwrap_or("");
        check(info_line_ok(row, &s), "the last line shows the final state");
        last = Some(r);
        clear_text();
        s.print_final_info(&last.as_ref().unwrap().reasons);
        let u = text();
        check(t.ends_with(&u), "run ends its output with the final information");
    }
    if let Some(d) = &last {
        let t = text();
        check(reasons_ok(t.lines().find(|x| x.contains("reason")).unwrap_or(""), &d.reasons), "the reasons are shown in order");
        let cur = t.lines().find(|x| x.starts_with("Current best")).and_then(|x| x.rsplit(' ').next()).unwrap_or("");
        let all = t.lines().find(|x| x.starts_with("Overall best")).and_then(|x| x.rsplit(' ').next()).unwrap_or("");
        let (c, a) = (s.current_best_individual().map(|i| i.value).unwrap(), s.overall_best_individual().map(|i| i.value).unwrap());
        check(shows(cur, c, 17), "the final text shows the best value of the latest generation");
        check(shows(all, a, 17), "the final text shows the best value of any generation");
        let i = t.find("Final mean:").map(|i| i + 11).unwrap_or(0);
        let shown: Vec<f64> = t[i..].split(|c: char| !(c.is_ascii_digit() || c == '.' || c == '-' || c == 'e')).filter_map(|x| x.parse().ok()).collect();
        let mut ok = shown.len() == n;
        for (x, y) in shown.iter().zip(s.mean().iter()) {
            ok &= (x - y).abs() <= 1e-2 * y.abs().max(1.0);
        }
        check(ok, "the final text shows the mean");
        reach("final");
    }
    reach("end");
    obs(s.generation() as u64);
}

// ---- C27 ---------------------------------------------------------------------------------------
static mut STARTS: Vec<usize> = vec![];
#[allow(static_mut_refs)]
fn starts() -> &'static mut Vec<usize> {
    unsafe { &mut STARTS }
}
fn fresh() -> Fun {
    starts().push(ob().vals.len());
    F
}
fn strategy(k: u64) -> RestartStrategy {
    match k {
        0 => RestartStrategy::Local(Local::new(3, None).unwrap()),
        1 => RestartStrategy::IPOP(IPOP::new(2).unwrap()),
        _ => RestartStrategy::BIPOP(BIPOP::new(None, Some(2)).unwrap()),
    }
}
fn go(o: RestartOptions, how: u64) -> RestartResults {
    starts().clear();
    ob().pts.clear();
    ob().vals.clear();
    let r = o.build().unwrap();
    match how {
        0 => r.run(fresh),
        1 => r.run_parallel(fresh),
        2 => r.run_with_reuse(F),
        _ => r.run_parallel_with_reuse(F),
    }
}
/// args: strategy, lambda, how (0 run, 1 run_parallel, 2/3 with reuse), mode, values (0 sphere; at a chosen place 1 any float, 2 NaN, 3 a special value), evaluation limit, generations per run (0: 1)
pub fn c27_restart() {
    let (lo, hi) = [(-1.25, 2.75), (-1e60, 3e60), (-2e-60, 1e-60)][arg(7) as usize];
    let (st, l, how) = (arg(0), arg(1) as usize, arg(2));
    let gens = (arg(6) as usize).max(1);
    env().threads = 2;
    reset(if arg(4) == 0 { Kind::Sphere } else { Kind::Given }, 2);
    if arg(4) > 0 {
        ob().given = (0..200).map(|k| ((k * 5 + k / 3) % 7) as f64 - 2.5).collect();
        let k = choose((gens + 1) as u64 * l as u64 + 2) as usize;
        ob().given[k] = if arg(4) == 2 { f64::NAN } else if arg(4) == 3 { VALUES[choose(VALUES.len() as u64) as usize] } else { any_f64() };
    }
    let mk = |p: bool| {
        RestartOptions::new(2, lo..=hi, strategy(st))
            .mode(mode_of(arg(3)))
            .seed(9)
            .max_generations_per_run(gens)
            .max_function_evals(arg(5) as usize)
            .default_options(CMAESOptions::new(vec![0.0], 1.0).population_size(l))
            .enable_printing(p)
    };
    env().capture = true;
    clear_text();
    let a = go(mk(false), how);
    check(env().out_bytes == 0, "without printing nothing is written");
    let (pts, vals) = (ob().pts.clone(), ob().vals.clone());
    clear_text();
    let b = go(mk(true), how);
    let same = (a.runs == b.runs) & (a.function_evals == b.function_evals) & (a.reason == b.reason) & same_ind(&td_ind(&a.best), &td_ind(&b.best));
    check(same & (pts.len() == ob().pts.len()) && ob().pts.iter().zip(&pts).all(|(x, y)| vec_eq(x, y)), "printing does not alter the runs");
    let t = text();
    let first = t.lines().next().unwrap_or("");
    check((int_after(first, "dimension=") == Some(2)) & (int_after(first, "seed=") == Some(9)) & (arg(7) > 0 || first.contains("-1.25") & first.contains("2.75")), "the first line shows dimension, search range and seed");
    check(first.starts_with(["LR", "IPOP", "BIPOP"][st as usize]), "the first line names the strategy");
    check(t.lines().filter(|x| x.contains("parameters:")).count() == a.runs, "every run is announced once");
    check(t.lines().filter(|x| x.contains("results:")).count() == a.runs, "the results of every run are shown once");
    let mut total = 0;
    let mut at = 0;
    for k in 1..=a.runs {
        let pre = t.lines().position(|x| x.starts_with(&format!("Run {} parameters:", k)));
        let post = t.lines().position(|x| x.starts_with(&format!("Run {} results:", k)));
        check(pre.is_some() & post.is_some() & (pre < post), "a run is announced before its results");
        if let (Some(i), Some(j)) = (pre, post) {
            let (p, q) = (t.lines().nth(i).unwrap(), t.lines().nth(j).unwrap());
            let lam = int_after(p, "lambda=").unwrap_or(0) as usize;
            let ev = int_after(q, "f-evals=").unwrap_or(77777) as usize;
            let end = (at + lam * gens).min(vals.len());
            let v = &vals[at.min(end)..end];
            let nan = v.iter().any(|x| x.is_nan());
            // the evaluations of completed generations
            let done = if nan && lam > 0 { v.iter().position(|x| x.is_nan()).unwrap_or(0) / lam * lam } else { v.len() };
            check((lam > 0) & (nan | (v.len() == lam * gens)), "the announced population size is the one of the run");
            check(ev == done, "the evaluations shown are those of the run");
            check(q.contains("InvalidFunctionValue") == nan && q.contains("MaxGenerations") == !nan, "the reasons of the run are shown");
            let shown = token_after(q, "best f-val=").unwrap_or("");
            if done == 0 {
                check(shown == "None", "a run without a completed generation has no best value");
            } else {
                let o = ranking(mode_of(arg(3)), &v[..done]);
                check(shows(shown, v[o[0]], 11), "the best value shown is that of the run");
            }
            at = end;
            total += ev;
        }
    }
    check(total == a.function_evals, "the evaluations shown add up");
    let tail = t.lines().find(|x| x.starts_with("Terminated in")).unwrap_or("");
    check((int_after(tail, "Terminated in ") == Some(a.function_evals as u64)) & tail.contains(&format!("{}", a.reason)), "the final line shows the total evaluations and the reason");
    let best = t.lines().find(|x| x.starts_with("Best function value")).and_then(|x| x.rsplit(' ').next());
    match (&a.best, best) {
        (Some(i), Some(x)) => check(shows(x, i.value, 17), "the best value shown is the one returned"),
        (None, None) => reach("no best"),
        _ => check(false, "a best value is shown exactly if there is one"),
    }
    check(first.contains(["=0.5", "=2,", "=0.2"][st as usize]), "the first line shows the strategy's parameters");
    // the announced seed and step size reproduce the sampled steps
    let was = pts;
    at = 0;
    for k in 1..=a.runs {
        let p = t.lines().find(|x| x.starts_with(&format!("Run {} parameters:", k))).unwrap_or("");
        let (lam, seed) = (int_after(p, "lambda=").unwrap_or(2) as usize, int_after(p, "seed=").unwrap_or(0));
        let sigma0: f64 = token_after(p, "sigma0=").and_then(|x| x.parse().ok()).unwrap_or(1.0);
        if at + 1 < was.len() {
            reset(Kind::Sphere, 2);
            check(sigma0.is_finite() & (sigma0 > 0.0), "the step size and seed shown are those of the run");
            let mut s = CMAESOptions::new(vec![0.0; 2], sigma0).population_size(lam).seed(seed).build(F).unwrap();
            let _ = s.next();
            let mut ok = true;
            for i in 0..2 {
                ok &= close(was[at + 1][i] - was[at][i], ob().pts[1][i] - ob().pts[0][i], sigma0, 1e-3);
            }
            check(ok, "the step size and seed shown are those of the run");
        }
        at += lam * gens;
    }
    if a.runs > 1 {
        reach("several runs");
    }
    reach("end");
    obs(a.function_evals as u64);
}

// ---- C28 ---------------------------------------------------------------------------------------
struct Counter {
    k: u64,
    tag: u64,
}
impl ObjectiveFunction for Counter {
    fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
        self.k += 1;
        if self.k <= arg(1) * arg(4) {
            return ((self.k * 5 + self.k / 3) % 7) as f64;
        }
        F(x)
    }
}
/// args: n, lambda, generations, weights, concrete generations before
pub fn c28_accessors() {
    let (n, l, g) = (arg(0) as usize, arg(1) as usize, arg(2) as usize);
    reset(Kind::Num, n);
    let tag = any_u64();
    let (s0, n0, s1, n1) = (any_bits(30), any_bits(32), any_bits(30), any_bits(32));
    assume((n0 < 1_000_000_000) & (n1 < 1_000_000_000));
    assume((s1 > s0) | ((s1 == s0) & (n1 >= n0)));
    set_clock(s0, n0);
    let t0 = std::time::Instant::now();
    let mut s = base(n, l, arg(3), 0, 3).enable_plot(PlotOptions::new(0, false)).build(Counter { k: 0, tag }).unwrap();
    let p = (s.parameters().mu(), s.parameters().cs(), s.parameters().c1(), s.parameters().cmu());
    let every = 0.5 * l as f64 / ((p.2 + p.3) * n as f64);
    let ratio_ok = |s: &CMAES<Counter>| {
        let mx = snap(s).eig.iter().fold(0.0f64, |a, b| a.max(*b));
        let mn = snap(s).eig.iter().fold(f64::INFINITY, |a, b| a.min(*b));
        check(close(s.axis_ratio(), (mx / mn).sqrt(), 1.0, 1e-9), "axis_ratio is the ratio of the longest to the shortest axis");
    };
    for k in 0..arg(4) as usize + g {
        let _ = s.next();
        ratio_ok(&s);
        check(s.get_plot().map(|p| (p.len() == k + 2) & (p.capacity() >= p.len()) & !p.is_empty()).unwrap_or(false), "the plot counts its points");
    }
    set_clock(s1, n1);
    check(s.time_created() == t0, "time_created is the instant of creation");
    let want = Duration::new(s1, n1 as u32) - Duration::new(s0, n0 as u32);
    check(s.elapsed() == want, "elapsed is the time since creation");
    check(interval_ok(s.generations_per_eigen_update(), every, l), "generations_per_eigen_update rounds the evaluations per update up to generations");
    ratio_ok(&s);
    let e = s.function_evals() as u64;
    let c = s.into_objective_function();
    check((c.tag == tag) & (c.k == e), "into_objective_function returns the objective in its current state");
    reach("end");
    obs(e);
}

/// the instant of creation stays. args: how (0 next, 1 next_parallel, 2 run, 3 run_parallel, 4 add_plot_point), generations
pub fn c28_created() {
    let (how, g) = (arg(0), arg(1) as usize);
    env().threads = 2;
    reset(Kind::Sphere, 2);
    let (s0, n0, s1, n1, s2, n2) = (any_bits(30), any_bits(32), any_bits(30), any_bits(32), any_bits(30), any_bits(32));
    assume((n0 < 1_000_000_000) & (n1 < 1_000_000_000) & (n2 < 1_000_000_000));
    assume((s1 > s0) | ((s1 == s0) & (n1 >= n0)));
    assume((s2 > s1) | ((s2 == s1) & (n2 >= n1)));
    set_clock(s0, n0);
    let t0 = std::time::Instant::now();
    let mut s = base(2, 3, 0, 0, 3).max_generations(g).max_time(Duration::MAX).enable_plot(PlotOptions::new(0, false)).enable_printing(1).build(F).unwrap();
    set_clock(s1, n1);
    env().capture = true;
    let rounds = if how == 2 || how == 3 { 2 } else { g };
    for _ in 0..rounds {
        let _ = match how {
            0 => s.next(),
            1 => s.next_parallel(),
            2 => Some(s.run()),
            3 => Some(s.run_parallel()),
            _ => {
                s.add_plot_point();
                s.print_final_info(&[]);
                None
            }
        };
        check(s.time_created() == t0, "time_created is the instant of creation");
        check(s.elapsed() == Duration::new(s1, n1 as u32) - Duration::new(s0, n0 as u32), "elapsed is the time since creation");
    }
    env().capture = false;
    set_clock(s2, n2);
    check(s.elapsed() == Duration::new(s2, n2 as u32) - Duration::new(s0, n0 as u32), "elapsed is the time since creation");
    reach("end");
    obs(s.generation() as u64);
}

/// `got` is the number of evaluations `every`, rounded up, in generations, rounded up (a rounding error of `every` apart)
fn interval_ok(got: usize, every: f64, l: usize) -> bool {
    let f = |e: f64| (e.ceil() / l as f64).ceil() as usize;
    (got == f(every)) | (got == f(every * (1.0 + 1e-12))) | (got == f(every * (1.0 - 1e-12)))
}
/// the update interval of every population size. args: n, lambda from, lambda to
pub fn c28_interval() {
    let n = arg(0) as usize;
    let l = conc(any_range(arg(1), arg(2))) as usize;
    let w = weights_of(choose(3));
    let cm = [1.0, 0.5][choose(2) as usize];
    let s = CMAESOptions::new(vec![0.5; n], 1.0).population_size(l).weights(w).cm(cm).seed(1).build(F).unwrap();
    let p = s.parameters();
    let every = 0.5 * l as f64 / ((p.c1() + p.cmu()) * n as f64);
    check(interval_ok(s.generations_per_eigen_update(), every, l), "generations_per_eigen_update rounds the evaluations per update up to generations");
    check(close(s.axis_ratio(), 1.0, 1.0, 1e-12), "axis_ratio is 1 at the start");
    reach("end");
    obs(s.generations_per_eigen_update() as u64);
}

// ---- C29 ---------------------------------------------------------------------------------------
/// the innermost bracketed lists of numbers in a text
fn lists(t: &str) -> Vec<Vec<f64>> {
    let mut out = vec![];
    let mut from = None;
    for (i, c) in t.char_indices() {
        if c == '[' {
            from = Some(i + 1);
        } else if c == ']' {
            if let Some(k) = from.take() {
                let v: Result<Vec<f64>, _> = t[k..i]
                    .split(',')
                    .map(|x| match token_value(x.trim()) {
                        Some((b, _)) => Ok(f64::from_bits(b)),
                        None => x.trim().parse::<f64>(),
                    })
                    .collect();
                if let Ok(v) = v {
                    out.push(v);
                }
            }
        }
    }
    out
}
/// equal up to the offset that keeps logarithms finite
fn plotted(a: f64, b: f64) -> bool {
    let o = if b >= 0.0 { b + 1e-20 } else { b - 1e-20 };
    (a == o) || (a == b) | (a.is_nan() & b.is_nan()) | (a.is_finite() & b.is_finite() & ((a - b).abs() <= 2e-20 + b.abs() * 1e-9))
}
/// the recorded data are the state at the recorded times, read off the plot's Debug output.
/// args: n, lambda, steps, weights, mode, free values, operations (1 next, 2 add_plot_point, 3 clear), seed,
/// 1: a generation of equal values, any or infinite
pub fn c29_data() {
    let (n, l, steps, ops) = (arg(0) as usize, arg(1) as usize, arg(2) as usize, arg(6));
    reset(Kind::Given, n);
    ob().given = (0..steps * l + l).map(|k| ((k * 5 + k / 3) % 7) as f64 - 2.5).collect();
    for f in 0..arg(5) as usize {
        let k = (f * 3 + 1) % (steps * l);
        ob().given[k] = any_num();
    }
    if arg(8) == 1 {
        let k = choose(steps as u64) as usize;
        let v = match choose(3) {
            0 => f64::INFINITY,
            1 => f64::NEG_INFINITY,
            _ => any_num(),
        };
        for x in ob().given[k * l..(k + 1) * l].iter_mut() {
            *x = v;
        }
    }
    let gap = any_u64() as usize;
    let mut s = base(n, l, arg(3), arg(4), arg(7)).tol_stagnation(1000).enable_plot(PlotOptions::new(gap, arg(7) % 2 == 0)).build(F).unwrap();
    // one row per recorded point: evaluations, best, median, sigma, axis ratio, mean, axis scales, coordinate scales
    let row = |s: &CMAES<fn(&DVector<f64>) -> f64>| {
        let z = snap(s);
        let (mut best, mut med) = (f64::NAN, f64::NAN);
        if z.gen > 0 {
            let v = &ob().vals[(z.gen - 1) * l..z.gen * l];
            let o = ranking(mode_of(arg(4)), v);
            best = v[o[0]];
            med = if l % 2 == 0 { (v[o[l / 2 - 1]] + v[o[l / 2]]) / 2.0 } else { v[o[l / 2]] };
        }
        let mut r = vec![z.evals as f64, best, med, z.sigma, s.axis_ratio()];
        r.extend(z.mean.iter());
        let mut e: Vec<f64> = z.eig.iter().map(|x| x.sqrt()).collect();
        e.sort_by(|a, b| a.partial_cmp(b).unwrap());
        r.extend(e);
        r.extend((0..n).map(|i| z.cov[i * n + i].sqrt()));
        r
    };
    let mut rows = vec![row(&s)];
    let (mut last_e, mut last_g) = (0usize, 0usize);
    for _ in 0..steps {
        let op = choose(ops);
        let mut add = false;
        if op == 0 {
            let _ = s.next();
            add = (s.generation() == 1) | (s.function_evals() - last_e >= gap);
        } else if op == 1 {
            s.add_plot_point();
            add = true;
        } else {
            s.get_mut_plot().unwrap().clear();
            let k = rows.len() - 1;
            rows.swap(0, k);
            rows.truncate(1);
            reach("cleared");
        }
        if add && s.generation() != last_g {
            rows.push(row(&s));
            last_g = s.generation();
            last_e = s.function_evals();
        }
    }
    let t = format!("{:?}", s.get_plot().unwrap());
    let mut have = lists(&t);
    let mut ok = true;
    // the coordinates of the mean, the axis scales from the shortest to the longest, the coordinate scales: in this order
    for group in 0..3 {
        let mut at = 0;
        for c in 5 + group * n..5 + (group + 1) * n {
            let same = |x: &Vec<f64>| x.len() == rows.len() && x.iter().zip(&rows).all(|(a, r)| plotted(*a, r[c]));
            match have[at..].iter().position(same) {
                Some(i) => at += i + 1,
                None => ok = false,
            }
        }
    }
    for c in 0..5 + 3 * n {
        let want: Vec<f64> = rows.iter().map(|r| r[c]).collect();
        match have.iter().position(|x| x.len() == want.len() && x.iter().zip(&want).all(|(a, b)| plotted(*a, *b))) {
            Some(i) => {
                have.remove(i);
            }
            None => ok = false,
        }
    }
    check(ok, "the plot holds the evaluations, best and median value, step size, axis ratio, mean, axis and coordinate scales of the recorded generations");
    if rows.len() > 2 {
        reach("several points");
    }
    reach("end");
    obs(rows.len() as u64);
}
