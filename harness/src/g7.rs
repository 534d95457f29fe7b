//! C21 plot schedule, C22 printing schedule
use crate::common::*;
use crate::g2::F;
use crate::rt::*;

/// args: n, lambda, steps, operations allowed (1 next only; 2 adds add_plot_point; 3 adds clear), gap class (0 all)
pub fn c21_plot() {
    let (n, l, steps, ops) = (arg(0) as usize, arg(1) as usize, arg(2) as usize, arg(3));
    reset(Kind::Sphere, n);
    let gap = any_u64() as usize;
    let mut s = base(n, l, 0, 0, 3).enable_plot(PlotOptions::new(gap, false)).build(F).unwrap();
    let len = |s: &CMAES<fn(&DVector<f64>) -> f64>| s.get_plot().unwrap().len();
    check(len(&s) == 1, "one data point at creation");
    let (mut want, mut last_e, mut last_g) = (1usize, 0usize, 0usize);
    let (mut gen, mut ev) = (0usize, 0usize);
    for _ in 0..steps {
        match choose(ops) {
            0 => {
                let _ = s.next();
                gen += 1;
                ev += l;
                // at least `gap` evaluations since the last point
                if (gen == 1) | (ev - last_e >= gap) {
                    if last_g != gen {
                        want += 1;
                        reach("recorded");
                    }
                    last_e = ev;
                    last_g = gen;
                } else {
                    reach("skipped");
                }
            }
            1 => {
                s.add_plot_point();
                if last_g != gen {
                    want += 1;
                    last_e = ev;
                    last_g = gen;
                    reach("added");
                }
            }
            _ => {
                s.get_mut_plot().unwrap().clear();
                want = 1;
            }
        }
        check(len(&s) == want, "data points are recorded on schedule and once per generation");
        check(!s.get_plot().unwrap().is_empty(), "the plot is not empty");
    }
    obs(want as u64);
    reach("end");
}
/// run adds the final point. args: n, lambda, parallel
pub fn c21_run() {
    let (n, l) = (arg(0) as usize, arg(1) as usize);
    env().threads = 2;
    reset(Kind::Sphere, n);
    let gap = any_u64() as usize;
    let on = choose(2) == 1;
    let g = 1 + choose(arg(3)) as usize;
    let mut o = base(n, l, 0, 0, 3).max_generations(g);
    if on {
        o = o.enable_plot(PlotOptions::new(gap, true));
    }
    let mut s = o.build(F).unwrap();
    let _ = if arg(2) == 1 { s.run_parallel() } else { s.run() };
    check(s.generation() == g, "generations");
    check(s.get_plot().is_some() == on && s.get_mut_plot().is_some() == on, "a plot exists exactly if it was enabled");
    if !on {
        s.add_plot_point();
        check(s.get_plot().is_none(), "no plot without plotting");
        return;
    }
    let (mut want, mut last) = (1usize, 0usize);
    for k in 1..=g {
        if (k == 1) | (k * l - last >= gap) {
            want += 1;
            last = k * l;
        }
    }
    if last != g * l {
        want += 1;
        reach("final point");
    }
    check(s.get_plot().unwrap().len() == want, "run records the scheduled points and the final state once");
    s.add_plot_point();
    check(s.get_plot().unwrap().len() == want, "the final state is recorded once");
    obs(want as u64);
    reach("end");
}
/// a NaN ends the run: no generation is completed. args: n, lambda
pub fn c21_nan() {
    let (n, l) = (arg(0) as usize, arg(1) as usize);
    reset(Kind::Given, n);
    let at = choose(2 * l as u64) as usize;
    let mut v: Vec<f64> = (0..3 * l).map(|k| k as f64).collect();
    v[at] = f64::NAN;
    ob().given = v;
    let gap = any_u64() as usize;
    let mut s = base(n, l, 0, 0, 3).enable_plot(PlotOptions::new(gap, true)).build(F).unwrap();
    let _ = s.run();
    let g = at / l;
    check(s.generation() == g, "generations");
    check(s.get_plot().unwrap().len() == 1 + g, "one point per completed state");
    reach("end");
    obs(g as u64);
}

/// args: n, lambda, generations, parallel
pub fn c22_next() {
    let (n, l, g) = (arg(0) as usize, arg(1) as usize, arg(2) as usize);
    env().threads = 2;
    reset(Kind::Sphere, n);
    let gap = any_u64() as usize;
    let on = choose(2) == 1;
    let mut o = base(n, l, 0, 0, 3);
    if on {
        o = o.enable_printing(gap);
    }
    env().capture = true;
    let mut s = o.build(F).unwrap();
    check(env().out_lines == if on { 3 } else { 0 }, "building prints three header lines exactly if printing is enabled");
    let mut last = 0usize;
    for k in 1..=g {
        let b = env().out_lines;
        let by = env().out_bytes;
        let _ = if arg(3) == 1 { s.next_parallel() } else { s.next() };
        let lines = env().out_lines - b;
        let due = k * l - last >= gap;
        if due {
            last = k * l;
        }
        let want = on & (due | (k < 4));
        check(lines == want as u64, "a generation prints one line exactly if it is due");
        if !on {
            check(env().out_bytes == by, "nothing is printed without printing");
        }
        if want {
            reach("printed");
        } else {
            reach("silent");
        }
    }
    obs(env().out_lines);
    reach("end");
}
/// the final report of run. args: n, lambda, parallel, generations
pub fn c22_run() {
    let (n, l) = (arg(0) as usize, arg(1) as usize);
    env().threads = 2;
    let nan_at = choose(2) == 1;
    reset(if nan_at { Kind::Nan } else { Kind::Sphere }, n);
    let gap = any_u64() as usize;
    let g = 1 + choose(arg(3)) as usize;
    env().capture = true;
    let mut s = base(n, l, 0, 0, 3).max_generations(g).enable_printing(gap).build(F).unwrap();
    let r = if arg(2) == 1 { s.run_parallel() } else { s.run() };
    let lines = env().out_lines;
    let (mut want, mut last) = (3u64, 0usize);
    let done = if nan_at { 0 } else { g };
    for k in 1..=done {
        let due = k * l - last >= gap;
        if due {
            last = k * l;
        }
        if due | (k < 4) {
            want += 1;
        }
    }
    if last != done * l {
        want += 1;
        reach("final line");
    }
    want += 1;
    if done > 0 {
        want += 2;
    }
    env().capture = false;
    let text = format!("Final mean: {}\n", r.final_mean);
    want += text.bytes().filter(|b| *b == b'\n').count() as u64;
    check(lines == want, "run prints the scheduled lines, the final line if due, the reasons, the bests and the mean");
    obs(lines);
    reach("end");
}
/// printing never alters results. args: n, lambda, generations
pub fn c22_same() {
    let (n, l, g) = (arg(0) as usize, arg(1) as usize, arg(2) as usize);
    let gap = any_u64() as usize;
    reset(Kind::Sphere, n);
    let mut a = base(n, l, 0, 0, 3).build(F).unwrap();
    env().capture = true;
    let mut b = base(n, l, 0, 0, 3).enable_printing(gap).build(F).unwrap();
    for _ in 0..g {
        let _ = a.next();
        let _ = b.next();
        check(same_all(&snap(&a), &snap(&b)), "printing does not alter the run");
    }
    reach("end");
    obs(env().out_lines);
}
