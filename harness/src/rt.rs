//! Harness API: symbolic inputs, assumptions, checks, observations, and the environment stubs
//! (clock, standard output, the parallel scheduler, the normal sampler).
#![allow(dead_code)]
use std::fmt::Write;

extern "C" {
    fn v_in(w: u32) -> u64;
    fn v_assume(c: u8);
    fn v_check_raw(c: u8, p: *const u8, n: u64);
    fn v_obs(v: u64);
    fn v_arg(i: u32) -> u64;
    fn v_conc(v: u64) -> u64;
    fn v_reach_raw(p: *const u8, n: u64);
    fn v_expect_panic(on: u8);
    fn v_forkhint(on: u8);
    fn v_token(v: u64) -> u64;
    fn v_token_value(k: u64) -> u64;
    fn v_ext_write(fd: u32, p: *const u8, n: u64) -> u64;
}

pub fn any_u64() -> u64 {
    unsafe { v_in(64) }
}
pub fn any_bits(w: u32) -> u64 {
    unsafe { v_in(w) }
}
pub fn any_f64() -> f64 {
    f64::from_bits(unsafe { v_in(64) })
}
/// any double that is not NaN
pub fn any_num() -> f64 {
    let x = any_f64();
    assume(!x.is_nan());
    x
}
pub fn any_finite() -> f64 {
    let x = any_f64();
    assume(x.is_finite());
    x
}
pub fn any_bool() -> bool {
    unsafe { v_in(1) != 0 }
}
/// symbolic value in 0..n, then split into one path per value
pub fn choose(n: u64) -> u64 {
    let x = unsafe { v_in(8) };
    assume(x < n);
    unsafe { v_conc(x) }
}
/// symbolic value in lo..=hi (not split)
pub fn any_range(lo: u64, hi: u64) -> u64 {
    let x = unsafe { v_in(64) };
    assume((x >= lo) & (x <= hi));
    x
}
pub fn conc(x: u64) -> u64 {
    unsafe { v_conc(x) }
}
pub fn assume(c: bool) {
    unsafe { v_assume(c as u8) }
}
pub fn check(c: bool, m: &str) {
    unsafe { v_check_raw(c as u8, m.as_ptr(), m.len() as u64) }
}
pub fn reach(m: &str) {
    unsafe { v_reach_raw(m.as_ptr(), m.len() as u64) }
}
pub fn obs(v: u64) {
    unsafe { v_obs(v) }
}
pub fn obs_f(v: f64) {
    // one NaN: the payload is not part of any claim
    let b = if v.is_nan() { 0x7ff8_0000_0000_0000 } else { v.to_bits() };
    unsafe { v_obs(b) }
}
pub fn arg(i: u32) -> u64 {
    unsafe { v_arg(i) }
}
/// from here on a panic ends the path as expected (`true`) or is a violation (`false`)
pub fn expect_panic(on: bool) {
    unsafe { v_expect_panic(on as u8) }
}
/// from here on the engine follows both arms of a choice between concrete integers instead of joining them
pub fn split_choices(on: bool) {
    unsafe { v_forkhint(on as u8) }
}
/// branch-free implication
pub fn implies(a: bool, b: bool) -> bool {
    !a | b
}
pub fn same_bits(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits()
}

// ---- printed numbers -------------------------------------------------------------------------
// The engine calls these instead of core's formatting when the number is symbolic: it is printed as
// `@<k>.<precision>`, a token that stands for the value.
fn token(x: u64, f: &mut std::fmt::Formatter, tail: &str) -> std::fmt::Result {
    let p = f.precision().unwrap_or(99) as u64;
    let mut put = |mut v: u64| {
        let mut b = [0u8; 20];
        let mut i = 20;
        loop {
            i -= 1;
            b[i] = b'0' + (v % 10) as u8;
            v /= 10;
            if v == 0 {
                break;
            }
        }
        f.write_str(std::str::from_utf8(&b[i..]).unwrap())
    };
    let k = unsafe { v_token(x) };
    put(k + 1000)?;
    put(p + 100)?;
    f.write_str(tail)
}
#[no_mangle]
fn v_fmt_exp(x: &u64, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.write_char('@')?;
    token(*x, f, "e0")
}
#[no_mangle]
fn v_fmt_plain(x: &u64, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.write_char('@')?;
    token(*x, f, "")
}
#[used]
static FMT: [fn(&u64, &mut std::fmt::Formatter) -> std::fmt::Result; 2] = [v_fmt_exp, v_fmt_plain];
/// the value of a token (`@` followed by 4 digits of the number of the token and 3 of the precision) and its precision
pub fn token_value(s: &str) -> Option<(u64, u64)> {
    let d = s.strip_prefix('@')?.get(..7)?;
    let k: u64 = d[..4].parse().ok()?;
    let p: u64 = d[4..].parse().ok()?;
    Some((unsafe { v_token_value(k - 1000) }, p - 100))
}

// ---- environment -------------------------------------------------------------------------------
pub struct Env {
    pub time_mode: u64,
    pub now_s: u64,
    pub now_n: u64,
    pub time_reads: u64,
    pub max_step_s: u64,
    pub out_lines: u64,
    pub out_bytes: u64,
    pub capture: bool,
    pub threads: u64,
    pub sched: u64,
    pub joins: u64,
    pub join_budget: u64,
    pub normal_mode: u64,
    pub normal_i: usize,
    pub normals: Vec<f64>,
    pub buf: Vec<u8>,
}
pub static mut ENV: Env = Env {
    time_mode: 0,
    now_s: 0,
    now_n: 0,
    time_reads: 0,
    max_step_s: 0,
    out_lines: 0,
    out_bytes: 0,
    capture: false,
    threads: 1,
    sched: 0,
    joins: 0,
    join_budget: 0,
    normal_mode: 0,
    normal_i: 0,
    normals: vec![],
    buf: vec![],
};
pub fn env() -> &'static mut Env {
    unsafe { &mut *std::ptr::addr_of_mut!(ENV) }
}

#[repr(C)]
pub struct Timespec {
    s: i64,
    n: i64,
}
/// the clock. mode 0: constant; mode 1: every reading is an arbitrary instant not before the previous one;
/// mode 2: reads the instant the harness last set with `set_clock`.
#[no_mangle]
pub extern "C" fn clock_gettime(_id: i32, t: *mut Timespec) -> i32 {
    let e = env();
    e.time_reads += 1;
    if e.time_mode == 1 {
        let ds = unsafe { v_in(64) };
        let ns = unsafe { v_in(32) };
        assume((ds <= e.max_step_s) & (ns < 1_000_000_000));
        assume((ds > 0) | (ns >= e.now_n));
        e.now_s += ds;
        e.now_n = ns;
    }
    unsafe {
        (*t).s = 1000 + e.now_s as i64;
        (*t).n = e.now_n as i64;
    }
    0
}
pub fn set_clock(s: u64, n: u64) {
    let e = env();
    e.time_mode = 2;
    e.now_s = s;
    e.now_n = n;
}

#[no_mangle]
pub extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    let e = env();
    if fd == 1 && e.capture {
        let s = unsafe { std::slice::from_raw_parts(p, n) };
        for &c in s {
            if c == b'\n' {
                e.out_lines += 1;
            }
        }
        e.out_bytes += n as u64;
        if e.buf.len() < 1 << 16 {
            e.buf.extend_from_slice(s);
        }
        return n as isize;
    }
    unsafe { v_ext_write(fd as u32, p, n as u64) };
    n as isize
}

/// order in which a parallel join runs its two halves
#[no_mangle]
pub extern "C" fn v_join_order() -> u64 {
    let e = env();
    e.joins += 1;
    if e.sched == 1 && e.joins <= e.join_budget {
        unsafe { v_conc(v_in(1)) }
    } else {
        0
    }
}
#[no_mangle]
pub extern "C" fn v_join_migrated() -> u64 {
    let e = env();
    if e.sched == 1 && e.joins <= e.join_budget {
        unsafe { v_conc(v_in(1)) }
    } else {
        0
    }
}
#[no_mangle]
pub extern "C" fn v_num_threads() -> u64 {
    env().threads
}
#[no_mangle]
pub extern "C" fn v_normal_mode() -> u64 {
    env().normal_mode
}
#[no_mangle]
pub extern "C" fn v_normal_next() -> f64 {
    let e = env();
    let k = e.normal_i;
    e.normal_i += 1;
    match e.normals.get(k) {
        Some(x) => *x,
        None => {
            check(false, "harness: more normal draws than provided");
            0.0
        }
    }
}
