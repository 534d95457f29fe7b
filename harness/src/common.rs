//! Shared by the property harnesses: objective functions driven by the harness, snapshots, references.
#![allow(dead_code)]
use crate::rt::*;
pub use cmaes::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    /// every call returns a fresh symbolic value that is not NaN
    Num,
    /// every call returns a fresh symbolic value
    Any,
    /// call k returns `given[k]`
    Given,
    /// looks the point up in `table`
    ByPoint,
    /// a concrete function of the point
    Sphere,
    /// always NaN
    Nan,
}

pub struct Obj {
    pub kind: Kind,
    pub dim: usize,
    pub pts: Vec<Vec<f64>>,
    pub vals: Vec<f64>,
    pub given: Vec<f64>,
    pub table: Vec<(Vec<f64>, f64)>,
    pub hits: Vec<u32>,
}
static mut OBJ: Obj = Obj { kind: Kind::Num, dim: 0, pts: vec![], vals: vec![], given: vec![], table: vec![], hits: vec![] };
pub fn ob() -> &'static mut Obj {
    unsafe { &mut *std::ptr::addr_of_mut!(OBJ) }
}
pub fn reset(kind: Kind, dim: usize) {
    let o = ob();
    o.kind = kind;
    o.dim = dim;
    o.pts.clear();
    o.vals.clear();
}
fn bits_eq(a: &[f64], b: &[f64]) -> bool {
    let mut r = a.len() == b.len();
    for (x, y) in a.iter().zip(b) {
        r &= x.to_bits() == y.to_bits();
    }
    r
}
pub fn vec_eq(a: &[f64], b: &[f64]) -> bool {
    bits_eq(a, b)
}
/// the objective used by most harnesses; logs every point and value
pub fn obj(x: &DVector<f64>) -> f64 {
    let o = ob();
    check(x.len() == o.dim, "the objective receives a point of the problem dimension");
    let p: Vec<f64> = x.iter().cloned().collect();
    let k = o.vals.len();
    let v = match o.kind {
        Kind::Num if levels(k) => level(k),
        Kind::Any if levels(k) => level(k),
        Kind::Num => any_num(),
        Kind::Any => any_f64(),
        Kind::Given => {
            if k < o.given.len() {
                o.given[k]
            } else {
                (k % 3) as f64
            }
        }
        Kind::ByPoint => {
            let mut r = None;
            for (i, (q, v)) in o.table.iter().enumerate() {
                if bits_eq(q, &p) {
                    r = Some(*v);
                    if i < o.hits.len() {
                        o.hits[i] += 1;
                    }
                    break;
                }
            }
            match r {
                Some(v) => v,
                None => {
                    check(false, "a point was evaluated that the reference run did not evaluate");
                    0.0
                }
            }
        }
        Kind::Sphere => x.iter().map(|a| a * a).sum(),
        Kind::Nan => f64::NAN,
    };
    o.pts.push(p);
    o.vals.push(v);
    v
}

pub fn mode_of(k: u64) -> Mode {
    if k == 0 {
        Mode::Minimize
    } else {
        Mode::Maximize
    }
}
pub fn weights_of(k: u64) -> Weights {
    match k {
        0 => Weights::Negative,
        1 => Weights::Positive,
        _ => Weights::Uniform,
    }
}
pub fn better(m: Mode, a: f64, b: f64) -> bool {
    if m == Mode::Minimize {
        a < b
    } else {
        a > b
    }
}
pub const MEAN0: [f64; 8] = [0.5, -0.25, 1.0, 2.0, -1.5, 0.125, 3.0, -2.0];
/// initial mean. argument 12: 0 the table, 1 zeros, 2 large, 3 symbolic in [-1000, 1000], 4 tiny,
/// 5 so large that points of a generation coincide
pub fn mean0(n: usize) -> Vec<f64> {
    static mut SYM: Vec<f64> = vec![];
    let t = |i: usize| MEAN0[i % 8] + (i / 8) as f64;
    match arg(12) {
        1 => vec![0.0; n],
        2 => (0..n).map(|i| 1e6 * t(i)).collect(),
        3 => {
            let v = unsafe { &mut *std::ptr::addr_of_mut!(SYM) };
            while v.len() < n {
                let x = any_f64();
                assume((x >= -1000.0) & (x <= 1000.0));
                v.push(x);
            }
            v[..n].to_vec()
        }
        4 => (0..n).map(|i| 1e-9 * t(i)).collect(),
        5 => (0..n).map(|i| 1e17 * t(i)).collect(),
        _ => (0..n).map(t).collect(),
    }
}
/// argument 13: number of fixed levels most values are taken from (0: every value is symbolic);
/// argument 14: every how many evaluations a value is symbolic nevertheless
fn levels(k: usize) -> bool {
    arg(13) > 0 && (arg(14) == 0 || k % arg(14) as usize != arg(14) as usize / 2)
}
fn level(k: usize) -> f64 {
    let k = k as u64 + 1;
    ((k * k * 7 + k * 3 + k / 5) % arg(13)) as f64 - 1.0
}
/// settings that must not matter to the property at hand. argument 11, bits:
/// 1 a target that is never met, 2 the largest limits, 4 all tolerances disabled, 8 plot, 32 constraints that accept everything, 64 cm 1/2,
/// 256 a target that is always met, 512 TolX/TolXUp/TolConditionCov always met, 1024 evaluation and generation limit 1, 2048 TolFun/TolFunHist met once the window is full, 4096 time limit 0
pub fn noise(mut o: CMAESOptions, m: u64) -> CMAESOptions {
    let b = arg(11);
    let inf = f64::INFINITY;
    if b & 1 != 0 {
        o = o.fun_target(if m == 0 { -inf } else { inf });
    }
    if b & 2 != 0 {
        o = o.max_function_evals(usize::MAX).max_generations(usize::MAX).max_time(std::time::Duration::MAX);
    }
    if b & 4 != 0 {
        o = o.tol_fun(0.0).tol_fun_rel(0.0).tol_fun_hist(0.0).tol_x(0.0).tol_x_up(inf).tol_condition_cov(inf).tol_stagnation(usize::MAX);
    }
    if b & 8 != 0 {
        o = o.enable_plot(PlotOptions::new(0, false));
    }
    if b & 32 != 0 {
        o = o.constraints(Box::new(Accept)).max_resamples(None);
    }
    if b & 64 != 0 {
        o = o.cm(0.5);
    }
    if b & 256 != 0 {
        o = o.fun_target(if m == 0 { inf } else { -inf });
    }
    if b & 512 != 0 {
        o = o.tol_x(inf).tol_x_up(0.0).tol_condition_cov(0.5);
    }
    if b & 1024 != 0 {
        o = o.max_function_evals(1).max_generations(1);
    }
    if b & 2048 != 0 {
        o = o.tol_fun(inf).tol_fun_hist(inf);
    }
    if b & 4096 != 0 {
        o = o.max_time(std::time::Duration::new(0, 0));
    }
    o
}
#[derive(Debug, Clone)]
struct Accept;
impl Constraints for Accept {
    fn meets_constraints(&self, _: &DVector<f64>) -> bool {
        true
    }
    fn clone_box(&self) -> Box<dyn Constraints> {
        Box::new(Accept)
    }
}
/// indices of the values from best to worst, ties in evaluation order
pub fn ranking(m: Mode, v: &[f64]) -> Vec<usize> {
    let mut o: Vec<usize> = vec![];
    for i in 0..v.len() {
        let mut j = o.len();
        while j > 0 && better(m, v[i], v[o[j - 1]]) {
            j -= 1;
        }
        o.insert(j, i);
    }
    o
}

#[derive(Clone)]
pub struct Snap {
    pub mean: Vec<f64>,
    pub sigma: f64,
    pub cov: Vec<f64>,
    pub eig: Vec<f64>,
    pub gen: usize,
    pub evals: usize,
    pub cur: Option<(Vec<f64>, f64)>,
    pub best: Option<(Vec<f64>, f64)>,
}
fn ind(i: Option<&Individual>) -> Option<(Vec<f64>, f64)> {
    i.map(|i| (i.point.iter().cloned().collect(), i.value))
}
pub fn snap<F>(s: &CMAES<F>) -> Snap {
    Snap {
        mean: s.mean().iter().cloned().collect(),
        sigma: s.sigma(),
        cov: s.covariance_matrix().iter().cloned().collect(),
        eig: s.eigenvalues().iter().cloned().collect(),
        gen: s.generation(),
        evals: s.function_evals(),
        cur: ind(s.current_best_individual()),
        best: ind(s.overall_best_individual()),
    }
}
pub fn same_ind(a: &Option<(Vec<f64>, f64)>, b: &Option<(Vec<f64>, f64)>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(x), Some(y)) => bits_eq(&x.0, &y.0) & same_bits(x.1, y.1),
        _ => false,
    }
}
/// distribution state: mean, step size, covariance, eigenvalues
pub fn same_dist(a: &Snap, b: &Snap) -> bool {
    bits_eq(&a.mean, &b.mean) & same_bits(a.sigma, b.sigma) & bits_eq(&a.cov, &b.cov) & bits_eq(&a.eig, &b.eig)
}
pub fn same_all(a: &Snap, b: &Snap) -> bool {
    same_dist(a, b) & (a.gen == b.gen) & (a.evals == b.evals) & same_ind(&a.cur, &b.cur) & same_ind(&a.best, &b.best)
}
pub fn td_ind(i: &Option<Individual>) -> Option<(Vec<f64>, f64)> {
    ind(i.as_ref())
}
pub fn same_td(a: &TerminationData, b: &TerminationData) -> bool {
    same_ind(&td_ind(&a.current_best), &td_ind(&b.current_best))
        & same_ind(&td_ind(&a.overall_best), &td_ind(&b.overall_best))
        & bits_eq(a.final_mean.as_slice(), b.final_mean.as_slice())
        & same_reasons(&a.reasons, &b.reasons)
}
/// equal as sets
pub fn same_reasons(a: &[TerminationReason], b: &[TerminationReason]) -> bool {
    a.len() == b.len() && a.iter().all(|r| b.contains(r))
}
pub fn has(r: &Option<TerminationData>, x: TerminationReason) -> bool {
    match r {
        Some(t) => t.reasons.contains(&x),
        None => false,
    }
}
pub fn obs_snap(s: &Snap) {
    for v in &s.mean {
        obs_f(*v);
    }
    obs_f(s.sigma);
    for v in &s.cov {
        obs_f(*v);
    }
    obs(s.gen as u64);
    obs(s.evals as u64);
    if let Some((_, v)) = &s.best {
        obs_f(*v);
    }
}
pub fn close(a: f64, b: f64, scale: f64, tol: f64) -> bool {
    let d = (a - b).abs();
    (d <= tol * scale.abs().max(a.abs()).max(b.abs())) & (d < f64::INFINITY)
}
pub fn base(n: usize, lambda: usize, w: u64, m: u64, seed: u64) -> CMAESOptions {
    noise(CMAESOptions::new(mean0(n), 0.75).population_size(lambda).weights(weights_of(w)).mode(mode_of(m)).seed(seed), m)
}
