//! Hash-consed symbolic expressions over bit-vectors (booleans are width-1 vectors, IEEE doubles are
//! width-64 vectors with floating-point operators on top).
use crate::ir::{mask128, sext128, BinOp, FBinOp};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BOp {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum COp { Eq, Ult, Ule, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FOp { Add, Sub, Mul, Div, Rem }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FC { Oeq, Olt, Ole }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FU { Sqrt, Floor, Ceil, Trunc, Round, RoundEven }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Lib { Exp, Log, Pow, Sin, Cos, Exp2, Log2, Log10, Fma, Cbrt, Tanh, Expm1, Log1p, Atan, Powi }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum N {
    Const(u128),
    Var(u32),
    Bin(BOp, E, E),
    Not(E),
    Cmp(COp, E, E),
    Ite(E, E, E),
    Ext(E, u32),
    Cat(E, E),
    ZExt(E),
    SExt(E),
    FBin(FOp, E, E),
    FCmp(FC, E, E),
    FUn(FU, E),
    IsNan(E),
    FtoI(bool, E),
    ItoF(bool, E),
    Lib(Lib, Vec<E>),
}

#[derive(Default)]
pub struct Pool {
    pub nodes: Vec<N>,
    pub w: Vec<u16>,
    map: HashMap<(N, u16), E>,
    pub vars: Vec<(String, u16)>,
    var_ix: HashMap<(String, u16), E>,
    varsets: Vec<Option<Rc<Vec<u32>>>>,
}

pub fn f(b: u128) -> f64 {
    f64::from_bits(b as u64)
}
pub fn fb(x: f64) -> u128 {
    x.to_bits() as u128
}

pub fn conv_bin(op: BinOp) -> BOp {
    match op {
        BinOp::Add => BOp::Add,
        BinOp::Sub => BOp::Sub,
        BinOp::Mul => BOp::Mul,
        BinOp::UDiv => BOp::UDiv,
        BinOp::SDiv => BOp::SDiv,
        BinOp::URem => BOp::URem,
        BinOp::SRem => BOp::SRem,
        BinOp::And => BOp::And,
        BinOp::Or => BOp::Or,
        BinOp::Xor => BOp::Xor,
        BinOp::Shl => BOp::Shl,
        BinOp::LShr => BOp::LShr,
        BinOp::AShr => BOp::AShr,
    }
}
pub fn conv_fbin(op: FBinOp) -> FOp {
    match op {
        FBinOp::Add => FOp::Add,
        FBinOp::Sub => FOp::Sub,
        FBinOp::Mul => FOp::Mul,
        FBinOp::Div => FOp::Div,
        FBinOp::Rem => FOp::Rem,
    }
}

/// concrete bit-vector arithmetic (SMT-LIB conventions for division by zero)
pub fn ev_bin(op: BOp, w: u32, a: u128, b: u128) -> u128 {
    let r = match op {
        BOp::Add => a.wrapping_add(b),
        BOp::Sub => a.wrapping_sub(b),
        BOp::Mul => a.wrapping_mul(b),
        BOp::UDiv => if b == 0 { u128::MAX } else { a / b },
        BOp::URem => if b == 0 { a } else { a % b },
        BOp::SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 { if x < 0 { 1 } else { u128::MAX } } else { x.wrapping_div(y) as u128 }
        }
        BOp::SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 { a } else { x.wrapping_rem(y) as u128 }
        }
        BOp::And => a & b,
        BOp::Or => a | b,
        BOp::Xor => a ^ b,
        BOp::Shl => if b >= w as u128 { 0 } else { a << b },
        BOp::LShr => if b >= w as u128 { 0 } else { a >> b },
        BOp::AShr => {
            let x = sext128(a, w);
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (x >> s) as u128
        }
    };
    mask128(r, w)
}
pub fn ev_cmp(op: COp, w: u32, a: u128, b: u128) -> bool {
    match op {
        COp::Eq => a == b,
        COp::Ult => a < b,
        COp::Ule => a <= b,
        COp::Slt => sext128(a, w) < sext128(b, w),
        COp::Sle => sext128(a, w) <= sext128(b, w),
    }
}
pub fn ev_fbin(op: FOp, a: u128, b: u128) -> u128 {
    let (x, y) = (f(a), f(b));
    fb(match op {
        FOp::Add => x + y,
        FOp::Sub => x - y,
        FOp::Mul => x * y,
        FOp::Div => x / y,
        FOp::Rem => x % y,
    })
}
pub fn ev_fcmp(op: FC, a: u128, b: u128) -> bool {
    let (x, y) = (f(a), f(b));
    match op {
        FC::Oeq => x == y,
        FC::Olt => x < y,
        FC::Ole => x <= y,
    }
}
pub fn ev_fun(op: FU, a: u128) -> u128 {
    let x = f(a);
    fb(match op {
        FU::Sqrt => x.sqrt(),
        FU::Floor => x.floor(),
        FU::Ceil => x.ceil(),
        FU::Trunc => x.trunc(),
        FU::Round => x.round(),
        FU::RoundEven => x.round_ties_even(),
    })
}
/// saturating conversion (Rust `as`)
pub fn ev_ftoi(signed: bool, w: u32, a: u128) -> u128 {
    let x = f(a);
    if signed {
        let v: i128 = if x.is_nan() { 0 } else { x as i128 };
        let lo = if w == 128 { i128::MIN } else { -(1i128 << (w - 1)) };
        let hi = if w == 128 { i128::MAX } else { (1i128 << (w - 1)) - 1 };
        mask128(v.clamp(lo, hi) as u128, w)
    } else {
        let v: u128 = x as u128;
        let hi = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
        v.min(hi)
    }
}
pub fn ev_itof(signed: bool, w: u32, a: u128) -> u128 {
    if signed { fb(sext128(a, w) as f64) } else { fb(a as f64) }
}
extern "C" {
    fn exp(x: f64) -> f64;
    fn log(x: f64) -> f64;
    fn pow(x: f64, y: f64) -> f64;
    fn sin(x: f64) -> f64;
    fn cos(x: f64) -> f64;
    fn exp2(x: f64) -> f64;
    fn log2(x: f64) -> f64;
    fn log10(x: f64) -> f64;
    fn cbrt(x: f64) -> f64;
    fn tanh(x: f64) -> f64;
    fn expm1(x: f64) -> f64;
    fn log1p(x: f64) -> f64;
    fn atan(x: f64) -> f64;
}
/// compiler-rt's __powidf2
pub fn powi(a: f64, b: i32) -> f64 {
    let recip = b < 0;
    let mut n = b;
    let mut a = a;
    let mut r = 1.0f64;
    loop {
        if n & 1 != 0 {
            r *= a;
        }
        n /= 2;
        if n == 0 {
            break;
        }
        a *= a;
    }
    if recip { 1.0 / r } else { r }
}
pub fn ev_lib(l: Lib, a: &[u128]) -> u128 {
    unsafe {
        fb(match l {
            Lib::Exp => exp(f(a[0])),
            Lib::Log => log(f(a[0])),
            Lib::Pow => pow(f(a[0]), f(a[1])),
            Lib::Sin => sin(f(a[0])),
            Lib::Cos => cos(f(a[0])),
            Lib::Exp2 => exp2(f(a[0])),
            Lib::Log2 => log2(f(a[0])),
            Lib::Log10 => log10(f(a[0])),
            Lib::Cbrt => cbrt(f(a[0])),
            Lib::Tanh => tanh(f(a[0])),
            Lib::Expm1 => expm1(f(a[0])),
            Lib::Log1p => log1p(f(a[0])),
            Lib::Atan => atan(f(a[0])),
            Lib::Fma => f(a[0]).mul_add(f(a[1]), f(a[2])),
            Lib::Powi => powi(f(a[0]), a[1] as u32 as i32),
        })
    }
}

pub const SIGN: u128 = 1u128 << 63;

impl Pool {
    pub fn mk(&mut self, n: N, w: u32) -> E {
        let key = (n, w as u16);
        if let Some(&e) = self.map.get(&key) {
            return e;
        }
        let e = self.nodes.len() as E;
        self.nodes.push(key.0.clone());
        self.w.push(w as u16);
        self.varsets.push(None);
        self.map.insert(key, e);
        e
    }
    pub fn width(&self, e: E) -> u32 {
        self.w[e as usize] as u32
    }
    pub fn n(&self, e: E) -> &N {
        &self.nodes[e as usize]
    }
    pub fn c(&mut self, v: u128, w: u32) -> E {
        self.mk(N::Const(mask128(v, w)), w)
    }
    pub fn bool(&mut self, b: bool) -> E {
        self.c(b as u128, 1)
    }
    pub fn as_c(&self, e: E) -> Option<u128> {
        match self.n(e) {
            N::Const(v) => Some(*v),
            _ => None,
        }
    }
    pub fn var(&mut self, name: &str, w: u32) -> E {
        if let Some(&e) = self.var_ix.get(&(name.to_string(), w as u16)) {
            return e;
        }
        let k = self.vars.len() as u32;
        self.vars.push((name.to_string(), w as u16));
        let e = self.mk(N::Var(k), w);
        self.var_ix.insert((name.to_string(), w as u16), e);
        e
    }

    pub fn bin(&mut self, op: BOp, a: E, b: E) -> E {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        let (ca, cb) = (self.as_c(a), self.as_c(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.c(ev_bin(op, w, x, y), w);
        }
        let ones = mask128(u128::MAX, w);
        let (mut a, mut b, ca, cb) = if ca.is_some() && matches!(op, BOp::Add | BOp::Mul | BOp::And | BOp::Or | BOp::Xor) {
            (b, a, cb, ca)
        } else {
            (a, b, ca, cb)
        };
        match (op, cb) {
            (BOp::Add | BOp::Sub | BOp::Or | BOp::Xor | BOp::Shl | BOp::LShr | BOp::AShr, Some(0)) => return a,
            (BOp::Mul | BOp::And, Some(0)) => return b,
            (BOp::Mul | BOp::UDiv | BOp::SDiv, Some(1)) => return a,
            (BOp::And, Some(o)) if o == ones => return a,
            (BOp::Or, Some(o)) if o == ones => return b,
            (BOp::Xor, Some(o)) if o == ones => return self.not(a),
            _ => {}
        }
        if ca == Some(0) && matches!(op, BOp::Shl | BOp::LShr | BOp::AShr | BOp::UDiv | BOp::URem) && !matches!(op, BOp::UDiv | BOp::URem) {
            return a;
        }
        if a == b {
            match op {
                BOp::And | BOp::Or => return a,
                BOp::Xor | BOp::Sub => return self.c(0, w),
                _ => {}
            }
        }
        if w == 1 {
            // boolean and/or/xor
            match op {
                BOp::And => {
                    if self.is_neg(a, b) { return self.bool(false); }
                }
                BOp::Or => {
                    if self.is_neg(a, b) { return self.bool(true); }
                }
                BOp::Add | BOp::Sub => return self.bin(BOp::Xor, a, b),
                BOp::Mul => return self.bin(BOp::And, a, b),
                _ => {}
            }
        }
        // (x + c1) + c2
        if let (BOp::Add, Some(c2)) = (op, cb) {
            if let N::Bin(BOp::Add, x, y) = *self.n(a) {
                if let Some(c1) = self.as_c(y) {
                    let k = self.c(c1.wrapping_add(c2), w);
                    return self.bin(BOp::Add, x, k);
                }
            }
        }
        if let (BOp::Sub, Some(c2)) = (op, cb) {
            let k = self.c(0u128.wrapping_sub(c2), w);
            return self.bin(BOp::Add, a, k);
        }
        // nested masks and sign flips
        if let (BOp::And | BOp::Xor | BOp::Or, Some(c2)) = (op, cb) {
            if let N::Bin(o2, x, y) = *self.n(a) {
                if o2 == op {
                    if let Some(c1) = self.as_c(y) {
                        let k = self.c(ev_bin(op, w, c1, c2), w);
                        return self.bin(op, x, k);
                    }
                }
            }
        }
        // push constant operations into if-then-else over constants
        if cb.is_some() {
            if let N::Ite(c, x, y) = *self.n(a) {
                if self.as_c(x).is_some() || self.as_c(y).is_some() {
                    let p = self.bin(op, x, b);
                    let q = self.bin(op, y, b);
                    return self.ite(c, p, q);
                }
            }
        }
        if cb.is_none() && matches!(op, BOp::Add | BOp::Mul | BOp::And | BOp::Or | BOp::Xor) && a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.mk(N::Bin(op, a, b), w)
    }
    fn is_neg(&self, a: E, b: E) -> bool {
        matches!(self.n(a), N::Not(x) if *x == b) || matches!(self.n(b), N::Not(x) if *x == a)
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.width(a);
        match *self.n(a) {
            N::Const(v) => return self.c(!v, w),
            N::Not(x) => return x,
            _ => {}
        }
        if w == 1 {
            match *self.n(a) {
                N::Cmp(COp::Ult, x, y) => return self.mk(N::Cmp(COp::Ule, y, x), 1),
                N::Cmp(COp::Ule, x, y) => return self.mk(N::Cmp(COp::Ult, y, x), 1),
                N::Cmp(COp::Slt, x, y) => return self.mk(N::Cmp(COp::Sle, y, x), 1),
                N::Cmp(COp::Sle, x, y) => return self.mk(N::Cmp(COp::Slt, y, x), 1),
                _ => {}
            }
        }
        self.mk(N::Not(a), w)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(BOp::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(BOp::Or, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.cmp(COp::Eq, a, b)
    }
    pub fn cmp(&mut self, op: COp, a: E, b: E) -> E {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        let (ca, cb) = (self.as_c(a), self.as_c(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = ev_cmp(op, w, x, y);
            return self.bool(r);
        }
        if a == b {
            return self.bool(matches!(op, COp::Eq | COp::Ule | COp::Sle));
        }
        let (mut a, mut b, ca, cb) = if op == COp::Eq && ca.is_some() { (b, a, cb, ca) } else { (a, b, ca, cb) };
        if op == COp::Eq && w == 1 {
            if let Some(v) = cb {
                return if v == 1 { a } else { self.not(a) };
            }
            let x = self.bin(BOp::Xor, a, b);
            return self.not(x);
        }
        let ones = mask128(u128::MAX, w);
        match op {
            COp::Ult => {
                if cb == Some(0) || ca == Some(ones) { return self.bool(false); }
            }
            COp::Ule => {
                if ca == Some(0) || cb == Some(ones) { return self.bool(true); }
            }
            _ => {}
        }
        // comparison of if-then-else over a constant with a constant
        if let Some(_) = cb {
            if let N::Ite(c, x, y) = *self.n(a) {
                if self.as_c(x).is_some() || self.as_c(y).is_some() {
                    let p = self.cmp(op, x, b);
                    let q = self.cmp(op, y, b);
                    return self.ite(c, p, q);
                }
            }
        }
        if let Some(_) = ca {
            if let N::Ite(c, x, y) = *self.n(b) {
                if self.as_c(x).is_some() || self.as_c(y).is_some() {
                    let p = self.cmp(op, a, x);
                    let q = self.cmp(op, a, y);
                    return self.ite(c, p, q);
                }
            }
        }
        if let (COp::Eq, Some(v)) = (op, cb) {
            match *self.n(a) {
                N::ZExt(x) => {
                    let wx = self.width(x);
                    if v > mask128(u128::MAX, wx) {
                        return self.bool(false);
                    }
                    let k = self.c(v, wx);
                    return self.eq(x, k);
                }
                N::SExt(x) => {
                    let wx = self.width(x);
                    let lo = mask128(v, wx);
                    if mask128(sext128(lo, wx) as u128, w) != v {
                        return self.bool(false);
                    }
                    let k = self.c(lo, wx);
                    return self.eq(x, k);
                }
                N::Bin(BOp::Add, x, y) => {
                    if let Some(c1) = self.as_c(y) {
                        let k = self.c(v.wrapping_sub(c1), w);
                        return self.eq(x, k);
                    }
                }
                N::Bin(BOp::Xor, x, y) => {
                    if let Some(c1) = self.as_c(y) {
                        let k = self.c(v ^ c1, w);
                        return self.eq(x, k);
                    }
                }
                N::Cat(h, l) => {
                    let (wh, wl) = (self.width(h), self.width(l));
                    let kh = self.c(v >> wl, wh);
                    let kl = self.c(v, wl);
                    let p = self.eq(h, kh);
                    let q = self.eq(l, kl);
                    return self.and(p, q);
                }
                _ => {}
            }
        }
        // zero-extended operands compared unsigned against constants
        if matches!(op, COp::Ult | COp::Ule | COp::Slt | COp::Sle) {
            if let (N::ZExt(x), Some(v)) = (self.n(a).clone(), cb) {
                let wx = self.width(x);
                if (v >> (w - 1)) & 1 == 0 {
                    let m = mask128(u128::MAX, wx);
                    let uop = if matches!(op, COp::Ult | COp::Slt) { COp::Ult } else { COp::Ule };
                    if v > m {
                        return self.bool(true);
                    }
                    let k = self.c(v, wx);
                    return self.cmp(uop, x, k);
                }
            }
            if let (N::ZExt(x), Some(v)) = (self.n(b).clone(), ca) {
                let wx = self.width(x);
                if (v >> (w - 1)) & 1 == 0 {
                    let m = mask128(u128::MAX, wx);
                    let uop = if matches!(op, COp::Ult | COp::Slt) { COp::Ult } else { COp::Ule };
                    if v > m {
                        return self.bool(false);
                    }
                    let k = self.c(v, wx);
                    return self.cmp(uop, k, x);
                }
            }
        }
        if op == COp::Eq && cb.is_none() && a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.mk(N::Cmp(op, a, b), 1)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.as_c(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let N::Not(x) = *self.n(c) {
            return self.ite(x, b, a);
        }
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        if w == 1 {
            match (self.as_c(a), self.as_c(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                (None, Some(0)) => return self.and(c, a),
                _ => {}
            }
        }
        let a = match *self.n(a) { N::Ite(c2, x, _) if c2 == c => x, _ => a };
        let b = match *self.n(b) { N::Ite(c2, _, y) if c2 == c => y, _ => b };
        self.mk(N::Ite(c, a, b), w)
    }
    pub fn ext(&mut self, a: E, lo: u32, w: u32) -> E {
        let wa = self.width(a);
        if lo == 0 && w == wa {
            return a;
        }
        match *self.n(a) {
            N::Const(v) => return self.c(v >> lo, w),
            N::Ext(x, l2) => return self.ext(x, lo + l2, w),
            N::Cat(h, l) => {
                let wl = self.width(l);
                if lo >= wl {
                    return self.ext(h, lo - wl, w);
                }
                if lo + w <= wl {
                    return self.ext(l, lo, w);
                }
            }
            N::ZExt(x) => {
                let wx = self.width(x);
                if lo >= wx {
                    return self.c(0, w);
                }
                if lo + w <= wx {
                    return self.ext(x, lo, w);
                }
                if lo == 0 {
                    return self.zext(x, w);
                }
            }
            N::SExt(x) => {
                let wx = self.width(x);
                if lo + w <= wx {
                    return self.ext(x, lo, w);
                }
                if lo == 0 {
                    return self.sext(x, w);
                }
            }
            N::Ite(c, x, y) => {
                if self.as_c(x).is_some() || self.as_c(y).is_some() {
                    let p = self.ext(x, lo, w);
                    let q = self.ext(y, lo, w);
                    return self.ite(c, p, q);
                }
            }
            N::Bin(op @ (BOp::And | BOp::Or | BOp::Xor), x, y) => {
                let p = self.ext(x, lo, w);
                let q = self.ext(y, lo, w);
                return self.bin(op, p, q);
            }
            N::Bin(op @ (BOp::Add | BOp::Sub | BOp::Mul), x, y) if lo == 0 => {
                let p = self.ext(x, lo, w);
                let q = self.ext(y, lo, w);
                return self.bin(op, p, q);
            }
            N::Bin(BOp::LShr, x, y) => {
                if let Some(k) = self.as_c(y) {
                    if k + (lo + w) as u128 <= wa as u128 {
                        return self.ext(x, lo + k as u32, w);
                    }
                }
            }
            _ => {}
        }
        self.mk(N::Ext(a, lo), w)
    }
    pub fn cat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.width(h), self.width(l));
        if let (Some(x), Some(y)) = (self.as_c(h), self.as_c(l)) {
            return self.c((x << wl) | y, wh + wl);
        }
        if self.as_c(h) == Some(0) {
            return self.zext(l, wh + wl);
        }
        if let (N::Ext(x, lx), N::Ext(y, ly)) = (self.n(h).clone(), self.n(l).clone()) {
            if x == y && lx == ly + wl {
                return self.ext(x, ly, wh + wl);
            }
        }
        self.mk(N::Cat(h, l), wh + wl)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.width(a);
        if w == wa {
            return a;
        }
        match *self.n(a) {
            N::Const(v) => return self.c(v, w),
            N::ZExt(x) => return self.zext(x, w),
            N::Ite(c, x, y) if self.as_c(x).is_some() && self.as_c(y).is_some() => {
                let p = self.zext(x, w);
                let q = self.zext(y, w);
                return self.ite(c, p, q);
            }
            _ => {}
        }
        self.mk(N::ZExt(a), w)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.width(a);
        if w == wa {
            return a;
        }
        match *self.n(a) {
            N::Const(v) => return self.c(sext128(v, wa) as u128, w),
            N::SExt(x) => return self.sext(x, w),
            N::ZExt(x) => return self.zext(x, w),
            _ => {}
        }
        if wa == 1 {
            let o = self.c(u128::MAX, w);
            let z = self.c(0, w);
            return self.ite(a, o, z);
        }
        self.mk(N::SExt(a), w)
    }
    pub fn fbin(&mut self, op: FOp, a: E, b: E) -> E {
        let (ca, cb) = (self.as_c(a), self.as_c(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.c(ev_fbin(op, x, y), 64);
        }
        // exact identities for every double up to the NaN payload (which nothing observes)
        match (op, ca, cb) {
            (FOp::Mul | FOp::Div, _, Some(y)) if f(y) == 1.0 => return a,
            (FOp::Mul, Some(x), _) if f(x) == 1.0 => return b,
            (FOp::Sub, _, Some(0)) => return a,
            (FOp::Add, _, Some(y)) if y == SIGN => return a,
            (FOp::Add, Some(x), _) if x == SIGN => return b,
            _ => {}
        }
        let (a, b) = if matches!(op, FOp::Add | FOp::Mul) && a > b { (b, a) } else { (a, b) };
        self.mk(N::FBin(op, a, b), 64)
    }
    pub fn isnan(&mut self, a: E) -> E {
        match self.n(a).clone() {
            N::Const(v) => {
                let r = f(v).is_nan();
                return self.bool(r);
            }
            N::ItoF(..) => return self.bool(false),
            N::Bin(BOp::Xor, x, y) if self.as_c(y) == Some(SIGN) => return self.isnan(x),
            N::Bin(BOp::And, x, y) if self.as_c(y) == Some(SIGN - 1) => return self.isnan(x),
            N::Ite(c, x, y) => {
                let p = self.isnan(x);
                let q = self.isnan(y);
                return self.ite(c, p, q);
            }
            N::FUn(u, x) if u != FU::Sqrt => return self.isnan(x),
            _ => {}
        }
        self.mk(N::IsNan(a), 1)
    }
    pub fn fcmp(&mut self, op: FC, a: E, b: E) -> E {
        let (ca, cb) = (self.as_c(a), self.as_c(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = ev_fcmp(op, x, y);
            return self.bool(r);
        }
        if ca.map_or(false, |x| f(x).is_nan()) || cb.map_or(false, |x| f(x).is_nan()) {
            return self.bool(false);
        }
        if a == b {
            if op == FC::Olt {
                return self.bool(false);
            }
            let n = self.isnan(a);
            return self.not(n);
        }
        match op {
            FC::Olt => {
                if ca.map_or(false, |x| f(x) == f64::INFINITY) || cb.map_or(false, |x| f(x) == f64::NEG_INFINITY) {
                    return self.bool(false);
                }
            }
            _ => {}
        }
        if let (Some(_), N::Ite(c, x, y)) = (cb, self.n(a).clone()) {
            let p = self.fcmp(op, x, b);
            let q = self.fcmp(op, y, b);
            return self.ite(c, p, q);
        }
        if let (Some(_), N::Ite(c, x, y)) = (ca, self.n(b).clone()) {
            let p = self.fcmp(op, a, x);
            let q = self.fcmp(op, a, y);
            return self.ite(c, p, q);
        }
        // x - y < 0 exactly when x < y (gradual underflow; NaN and equal infinities give false on both sides)
        if op == FC::Olt && cb.map_or(false, |x| f(x) == 0.0) {
            if let N::FBin(FOp::Sub, x, y) = self.n(a).clone() {
                return self.fcmp(FC::Olt, x, y);
            }
        }
        if op == FC::Olt && ca.map_or(false, |x| f(x) == 0.0) {
            if let N::FBin(FOp::Sub, x, y) = self.n(b).clone() {
                return self.fcmp(FC::Olt, y, x);
            }
        }
        // x < 0 * y exactly when x < 0 and 0 * y is no NaN
        if op == FC::Olt {
            if let N::FBin(FOp::Mul, x, y) = self.n(b).clone() {
                if self.as_c(x).map_or(false, |v| f(v) == 0.0) || self.as_c(y).map_or(false, |v| f(v) == 0.0) {
                    let z = self.c(0, 64);
                    let l = self.fcmp(FC::Olt, a, z);
                    let n = self.isnan(b);
                    let n = self.not(n);
                    return self.and(l, n);
                }
            }
        }
        let (a, b) = if op == FC::Oeq && a > b { (b, a) } else { (a, b) };
        self.mk(N::FCmp(op, a, b), 1)
    }
    pub fn fun(&mut self, op: FU, a: E) -> E {
        if let Some(v) = self.as_c(a) {
            return self.c(ev_fun(op, v), 64);
        }
        if op != FU::Sqrt {
            if let N::ItoF(_, x) = *self.n(a) {
                let _ = x;
                return a;
            }
        }
        self.mk(N::FUn(op, a), 64)
    }
    pub fn ftoi(&mut self, signed: bool, a: E, w: u32) -> E {
        if let Some(v) = self.as_c(a) {
            return self.c(ev_ftoi(signed, w, v), w);
        }
        self.mk(N::FtoI(signed, a), w)
    }
    pub fn itof(&mut self, signed: bool, a: E) -> E {
        let w = self.width(a);
        if let Some(v) = self.as_c(a) {
            return self.c(ev_itof(signed, w, v), 64);
        }
        self.mk(N::ItoF(signed, a), 64)
    }
    pub fn lib(&mut self, l: Lib, a: Vec<E>) -> E {
        if a.iter().all(|&x| self.as_c(x).is_some()) {
            let v: Vec<u128> = a.iter().map(|&x| self.as_c(x).unwrap()).collect();
            return self.c(ev_lib(l, &v), 64);
        }
        self.mk(N::Lib(l, a), 64)
    }

    pub fn kids(&self, e: E) -> Vec<E> {
        match self.n(e) {
            N::Const(_) | N::Var(_) => vec![],
            N::Bin(_, a, b) | N::Cmp(_, a, b) | N::Cat(a, b) | N::FBin(_, a, b) | N::FCmp(_, a, b) => vec![*a, *b],
            N::Not(a) | N::Ext(a, _) | N::ZExt(a) | N::SExt(a) | N::FUn(_, a) | N::IsNan(a) | N::FtoI(_, a) | N::ItoF(_, a) => vec![*a],
            N::Ite(c, a, b) => vec![*c, *a, *b],
            N::Lib(_, v) => v.clone(),
        }
    }
    /// sorted list of the variables of an expression
    pub fn vars_of(&mut self, e: E) -> Rc<Vec<u32>> {
        if let Some(v) = &self.varsets[e as usize] {
            return v.clone();
        }
        // iterative post-order
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if self.varsets[x as usize].is_some() {
                st.pop();
                continue;
            }
            let ks = self.kids(x);
            let mut ready = true;
            for k in &ks {
                if self.varsets[*k as usize].is_none() {
                    st.push(*k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            st.pop();
            let mut s: HashSet<u32> = HashSet::new();
            if let N::Var(k) = self.n(x) {
                s.insert(*k);
            }
            for k in ks {
                s.extend(self.varsets[k as usize].as_ref().unwrap().iter());
            }
            let mut v: Vec<u32> = s.into_iter().collect();
            v.sort();
            self.varsets[x as usize] = Some(Rc::new(v));
        }
        self.varsets[e as usize].clone().unwrap()
    }

    /// evaluate under a model; unassigned variables are 0
    pub fn eval(&self, e: E, m: &HashMap<u32, u128>, memo: &mut HashMap<E, u128>) -> u128 {
        match self.n(e) {
            N::Const(v) => return *v,
            N::Var(k) => return m.get(k).copied().unwrap_or(0),
            _ => {}
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let w = self.width(e);
        let r = match self.n(e) {
            N::Const(_) | N::Var(_) => unreachable!(),
            N::Bin(op, a, b) => ev_bin(*op, w, self.eval(*a, m, memo), self.eval(*b, m, memo)),
            N::Not(a) => mask128(!self.eval(*a, m, memo), w),
            N::Cmp(op, a, b) => ev_cmp(*op, self.width(*a), self.eval(*a, m, memo), self.eval(*b, m, memo)) as u128,
            N::Ite(c, a, b) => if self.eval(*c, m, memo) == 1 { self.eval(*a, m, memo) } else { self.eval(*b, m, memo) },
            N::Ext(a, lo) => mask128(self.eval(*a, m, memo) >> lo, w),
            N::Cat(h, l) => (self.eval(*h, m, memo) << self.width(*l)) | self.eval(*l, m, memo),
            N::ZExt(a) => self.eval(*a, m, memo),
            N::SExt(a) => mask128(sext128(self.eval(*a, m, memo), self.width(*a)) as u128, w),
            N::FBin(op, a, b) => ev_fbin(*op, self.eval(*a, m, memo), self.eval(*b, m, memo)),
            N::FCmp(op, a, b) => ev_fcmp(*op, self.eval(*a, m, memo), self.eval(*b, m, memo)) as u128,
            N::FUn(op, a) => ev_fun(*op, self.eval(*a, m, memo)),
            N::IsNan(a) => f(self.eval(*a, m, memo)).is_nan() as u128,
            N::FtoI(s, a) => ev_ftoi(*s, w, self.eval(*a, m, memo)),
            N::ItoF(s, a) => ev_itof(*s, self.width(*a), self.eval(*a, m, memo)),
            N::Lib(l, v) => {
                let a: Vec<u128> = v.iter().map(|x| self.eval(*x, m, memo)).collect();
                ev_lib(*l, &a)
            }
        };
        memo.insert(e, r);
        r
    }
    /// constants appearing in an expression (used to guess candidate models)
    pub fn consts_of(&self, e: E, out: &mut HashSet<u128>, w: u32) {
        let mut st = vec![e];
        let mut seen = HashSet::new();
        while let Some(x) = st.pop() {
            if !seen.insert(x) || seen.len() > 200 {
                continue;
            }
            if let N::Const(v) = self.n(x) {
                if self.width(x) == w {
                    out.insert(*v);
                }
            }
            st.extend(self.kids(x));
        }
    }
}
