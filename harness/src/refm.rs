//! Reference CMA-ES written from the published equations (Hansen, "The CMA Evolution Strategy: A Tutorial")
#![allow(dead_code)]
use crate::common::*;

pub type Mat = Vec<Vec<f64>>;

pub fn ident(n: usize) -> Mat {
    (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 } else { 0.0 }).collect()).collect()
}
/// eigenvalues and eigenvectors (columns) of a symmetric matrix, cyclic Jacobi
pub fn jacobi(a: &Mat) -> (Vec<f64>, Mat) {
    let n = a.len();
    let mut a = a.clone();
    let mut v = ident(n);
    for _ in 0..30 {
        let mut off = 0.0;
        let mut dia = 0.0;
        for i in 0..n {
            for j in 0..n {
                if i == j {
                    dia += a[i][j] * a[i][j];
                } else {
                    off += a[i][j] * a[i][j];
                }
            }
        }
        if off <= 1e-34 * dia {
            break;
        }
        for p in 0..n {
            for q in p + 1..n {
                if a[p][q] == 0.0 {
                    continue;
                }
                let th = (a[q][q] - a[p][p]) / (2.0 * a[p][q]);
                let t = if th >= 0.0 { 1.0 } else { -1.0 } / (th.abs() + (th * th + 1.0).sqrt());
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (a[k][p], a[k][q]);
                    a[k][p] = c * x - s * y;
                    a[k][q] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (a[p][k], a[q][k]);
                    a[p][k] = c * x - s * y;
                    a[q][k] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (v[k][p], v[k][q]);
                    v[k][p] = c * x - s * y;
                    v[k][q] = s * x + c * y;
                }
            }
        }
    }
    ((0..n).map(|i| a[i][i]).collect(), v)
}
pub fn mul_vec(m: &Mat, x: &[f64]) -> Vec<f64> {
    m.iter().map(|r| r.iter().zip(x).map(|(a, b)| a * b).sum()).collect()
}
pub fn norm(x: &[f64]) -> f64 {
    x.iter().map(|a| a * a).sum::<f64>().sqrt()
}
/// all leading principal minors positive (Cholesky succeeds)
pub fn pos_def(a: &Mat) -> bool {
    let n = a.len();
    let mut l = vec![vec![0.0; n]; n];
    for i in 0..n {
        for j in 0..=i {
            let mut s = a[i][j];
            for k in 0..j {
                s -= l[i][k] * l[j][k];
            }
            if i == j {
                if !(s > 0.0) {
                    return false;
                }
                l[i][i] = s.sqrt();
            } else {
                l[i][j] = s / l[j][j];
            }
        }
    }
    true
}

#[derive(Clone, Debug)]
pub struct Params {
    pub mu: usize,
    pub mu_eff: f64,
    pub w: Vec<f64>,
    pub cc: f64,
    pub c1: f64,
    pub cmu: f64,
    pub cs: f64,
    pub damp: f64,
    pub chi: f64,
}
pub fn params(n: usize, l: usize, w: Weights) -> Params {
    let mu = l / 2;
    let nf = n as f64;
    let raw: Vec<f64> = (1..=l)
        .map(|i| match w {
            Weights::Uniform => {
                if i <= mu {
                    1.0
                } else {
                    0.0
                }
            }
            _ => (((l as f64) + 1.0) / 2.0).ln() - (i as f64).ln(),
        })
        .collect();
    let sp: f64 = raw[..mu].iter().sum();
    let sq: f64 = raw[..mu].iter().map(|x| x * x).sum();
    let mu_eff = sp * sp / sq;
    let cc = (4.0 + mu_eff / nf) / (nf + 4.0 + 2.0 * mu_eff / nf);
    let cs = (mu_eff + 2.0) / (nf + mu_eff + 5.0);
    let c1 = 2.0 / ((nf + 1.3) * (nf + 1.3) + mu_eff);
    let cmu = (1.0 - c1).min(2.0 * (mu_eff - 2.0 + 1.0 / mu_eff) / ((nf + 2.0) * (nf + 2.0) + mu_eff));
    let damp = 1.0 + cs + 2.0 * (((mu_eff - 1.0) / (nf + 1.0)).sqrt() - 1.0).max(0.0);
    let mut ws = vec![];
    let sneg: f64 = raw[mu..].iter().sum();
    let qneg: f64 = raw[mu..].iter().map(|x| x * x).sum();
    let mu_eff_neg = sneg * sneg / qneg;
    // all weights of rank mu and later count, also a weight of exactly zero (odd population sizes)
    let neg: f64 = raw.iter().filter(|x| **x < 0.0).map(|x| -x).sum();
    let posi: f64 = raw.iter().filter(|x| **x > 0.0).sum();
    for i in 0..l {
        if raw[i] > 0.0 {
            ws.push(raw[i] / posi);
        } else if w == Weights::Negative && raw[i] < 0.0 {
            let a = (1.0 + c1 / cmu).min(1.0 + 2.0 * mu_eff_neg / (mu_eff + 2.0)).min((1.0 - c1 - cmu) / (nf * cmu));
            ws.push(raw[i] * a / neg);
        } else {
            ws.push(0.0);
        }
    }
    let chi = nf.sqrt() * (1.0 - 1.0 / (4.0 * nf) + 1.0 / (21.0 * nf * nf));
    Params { mu, mu_eff, w: ws, cc, c1, cmu, cs, damp, chi }
}

#[derive(Clone)]
pub struct Ref {
    pub n: usize,
    pub l: usize,
    pub p: Params,
    pub cm: f64,
    pub mean: Vec<f64>,
    pub sigma: f64,
    pub c: Mat,
    pub ps: Vec<f64>,
    pub pc: Vec<f64>,
    pub gen: usize,
    pub last_eig: usize,
    pub every: usize,
    /// covariance at the last decomposition, its inverse square root and eigenvalues
    pub c_dec: Mat,
    pub isq: Mat,
    pub eig: Vec<f64>,
    pub vecs: Mat,
    pub hs: bool,
    pub fail: bool,
    pub margin: f64,
}
impl Ref {
    pub fn new(n: usize, l: usize, w: Weights, cm: f64, mean: Vec<f64>, sigma: f64) -> Ref {
        let p = params(n, l, w);
        let every = (0.5 * n as f64 * l as f64 / ((p.c1 + p.cmu) * (n * n) as f64)).ceil() as usize;
        Ref {
            n,
            l,
            p,
            cm,
            mean,
            sigma,
            c: ident(n),
            ps: vec![0.0; n],
            pc: vec![0.0; n],
            gen: 0,
            last_eig: 0,
            every,
            c_dec: ident(n),
            isq: ident(n),
            eig: vec![1.0; n],
            vecs: ident(n),
            hs: true,
            fail: false,
            margin: 1.0,
        }
    }
    /// `pts` are the points of the generation from best to worst
    pub fn update(&mut self, pts: &[&[f64]]) {
        let (n, p) = (self.n, self.p.clone());
        let y: Vec<Vec<f64>> = pts.iter().map(|x| (0..n).map(|j| (x[j] - self.mean[j]) / self.sigma).collect()).collect();
        let mut yw = vec![0.0; n];
        for i in 0..p.mu {
            for j in 0..n {
                yw[j] += p.w[i] * y[i][j];
            }
        }
        for j in 0..n {
            self.mean[j] += self.cm * self.sigma * yw[j];
        }
        let z = mul_vec(&self.isq, &yw);
        let f = (p.cs * (2.0 - p.cs) * p.mu_eff).sqrt();
        for j in 0..n {
            self.ps[j] = (1.0 - p.cs) * self.ps[j] + f * z[j];
        }
        let len = norm(&self.ps);
        let left = len / (1.0 - (1.0 - p.cs).powi(2 * (self.gen as i32 + 1))).sqrt();
        let right = (1.4 + 2.0 / (n as f64 + 1.0)) * p.chi;
        self.hs = left < right;
        self.margin = self.margin.min((left / right - 1.0).abs());
        let h = if self.hs { 1.0 } else { 0.0 };
        let g = h * (p.cc * (2.0 - p.cc) * p.mu_eff).sqrt();
        for j in 0..n {
            self.pc[j] = (1.0 - p.cc) * self.pc[j] + g * yw[j];
        }
        self.sigma *= ((p.cs / p.damp) * (len / p.chi - 1.0)).exp();
        let dh = (1.0 - h) * p.cc * (2.0 - p.cc);
        let sw: f64 = p.w.iter().sum();
        let keep = 1.0 + p.c1 * dh - p.c1 - p.cmu * sw;
        let mut c = vec![vec![0.0; n]; n];
        for i in 0..n {
            for j in 0..n {
                c[i][j] = keep * self.c[i][j] + p.c1 * self.pc[i] * self.pc[j];
            }
        }
        for k in 0..self.l {
            let mut w = p.w[k];
            if w < 0.0 {
                let q = norm(&mul_vec(&self.isq, &y[k]));
                w *= n as f64 / (q * q);
            }
            for i in 0..n {
                for j in 0..n {
                    c[i][j] += p.cmu * w * y[k][i] * y[k][j];
                }
            }
        }
        self.c = c;
        self.gen += 1;
        let evals = self.gen * self.l;
        if evals >= self.last_eig + self.every {
            self.last_eig = evals;
            let (e, b) = jacobi(&self.c);
            if e.iter().any(|x| !(*x > 0.0)) {
                self.fail = true;
                return;
            }
            self.isq = (0..n).map(|i| (0..n).map(|j| (0..n).map(|k| b[i][k] * b[j][k] / e[k].sqrt()).sum()).collect()).collect();
            self.c_dec = self.c.clone();
            self.eig = e;
            self.vecs = b;
        }
    }
    pub fn scale_c(&self) -> f64 {
        let mut m = 0.0f64;
        for r in &self.c {
            for x in r {
                m = m.max(x.abs());
            }
        }
        m
    }
}
