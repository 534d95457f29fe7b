use crate::rt::*;
use cmaes::*;

/// exercises the translator: every operation family on symbolic and concrete values
pub fn selftest() {
    let x = any_f64();
    let y = any_num();
    let a = any_u64();
    let b = any_bits(8);
    obs((x < y) as u64);
    obs_f(x.max(y));
    obs(a.wrapping_mul(3).rotate_left(7) ^ b);
    obs(a.leading_zeros() as u64 + (b as u8).count_ones() as u64);
    let mut v = vec![a, b, a ^ b, 77];
    v.sort();
    for q in &v {
        obs(*q);
    }
    let s = format!("{:?} {}", v.len(), b & 3);
    obs(s.len() as u64);
    check(v[0] <= v[1] && v[1] <= v[2] && v[2] <= v[3], "sorted");
}

#[allow(dead_code)]
pub fn one() {
    let mut n = 0usize;
    let mut s = CMAESOptions::new(vec![0.0; 2], 1.0)
        .population_size(4)
        .seed(1)
        .build(|_: &DVector<f64>| {
            n += 1;
            any_num()
        })
        .unwrap();
    let r = s.next();
    check(r.is_none(), "no termination in generation 1");
    let best = s.overall_best_individual().unwrap().value;
    let cur = s.current_best_individual().unwrap().value;
    check(best == cur, "best");
    for v in s.mean().iter() {
        obs_f(*v);
    }
    obs_f(s.sigma());
    for v in s.covariance_matrix().iter() {
        obs_f(*v);
    }
    obs_f(best);
}
