#![allow(static_mut_refs)]
mod rt;
mod common;
mod refm;
mod t00;
mod g1;
mod g2;
mod g3;
mod g4;
mod g5;
mod g6;
mod g7;
mod g8;
mod g9;

extern "C" {
    fn v_native(f: extern "C" fn(), args: *const u8, file: *const u8) -> i32;
}

macro_rules! harnesses {
    ($($name:ident => $f:path),* $(,)?) => {
        $(#[no_mangle] pub extern "C" fn $name() { $f() })*
        fn table() -> Vec<(&'static str, extern "C" fn())> {
            vec![$((stringify!($name), $name as extern "C" fn())),*]
        }
    };
}
harnesses! {
    h_selftest => t00::selftest,
    h_c01_build => g1::c01_build,
    h_c01_restart => g1::c01_restart,
    h_c01_strategy => g1::c01_strategy,
    h_c02_options => g1::c02_options,
    h_c03_counts => g2::c03_counts,
    h_c03_run => g2::c03_run,
    h_c04_best => g2::c04_best,
    h_c05_rank => g2::c05_rank,
    h_c06_nan => g2::c06_nan,
    h_c07_budget => g3::c07_budget,
    h_c07_run => g3::c07_run,
    h_c08_target => g3::c08_target,
    h_c09_tolfun => g3::c09_tolfun,
    h_c09_long => g3::c09_long,
    h_c09_window => g3::c09_window,
    h_c10_long => g3::c10_long,
    h_c10_stagnation => g3::c10_stagnation,
    h_c11_tol => g3::c11_tol,
    h_c11_noeffect => g3::c11_noeffect,
    h_c12_params => g4::c12_params,
    h_c12_update => g4::c12_update,
    h_c13_cov => g4::c13_cov,
    h_c13_sample => g4::c13_sample,
    h_c14_resample => g5::c14_resample,
    h_c14_bounds => g5::c14_bounds,
    h_c14_box => g5::c14_box,
    h_c15_parallel => g2::c15_parallel,
    h_c15_update => g2::c15_update,
    h_c16_seed => g2::c16_seed,
    h_c16_restart => g6::c16_restart,
    h_c17_scale => g5::c17_scale,
    h_c17_fmin => g5::c17_fmin,
    h_c17_invalid => g5::c17_invalid,
    h_c18_agg => g6::c18_agg,
    h_c18_time => g6::c18_time,
    h_c19_schedule => g6::c19_schedule,
    h_c19_lr_limit => g6::c19_lr_limit,
    h_c19_no_panic => g6::c19_no_panic,
    h_c20_options => g6::c20_options,
    h_c20_runs => g6::c20_runs,
    h_c20_long => g6::c20_long,
    h_c20_objective => g6::c20_objective,
    h_c21_plot => g7::c21_plot,
    h_c21_run => g7::c21_run,
    h_c21_nan => g7::c21_nan,
    h_c22_next => g7::c22_next,
    h_c22_run => g7::c22_run,
    h_c22_same => g7::c22_same,
    h_c25_calls => g8::c25_calls,
    h_c25_extremes => g8::c25_extremes,
    h_c25_infinities => g8::c25_infinities,
    h_c26_text => g8::c26_text,
    h_c27_restart => g8::c27_restart,
    h_c28_accessors => g8::c28_accessors,
    h_c28_created => g8::c28_created,
    h_c28_interval => g8::c28_interval,
    h_c29_data => g8::c29_data,
    h_c30_equivariance => g9::c30_equivariance,
    h_c31_observer => g9::c31_observer,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let name = format!("h_{}", a[1]);
    let f = table().into_iter().find(|x| x.0 == name).map(|x| x.1).unwrap_or_else(|| std::process::exit(40));
    let args = format!("{}\0", a[2]);
    let file = format!("{}\0", a[3]);
    std::process::exit(unsafe { v_native(f, args.as_ptr(), file.as_ptr()) });
}
