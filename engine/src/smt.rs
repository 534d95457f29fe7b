//! SMT-LIB encoding of expressions and the solver processes that decide the queries.
use crate::expr::*;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use std::time::Instant;

pub type Model = HashMap<u32, u128>;

#[derive(Clone)]
pub enum Res {
    Sat(Rc<Model>),
    Unsat,
    Unknown(String),
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub guessed: u64,
    pub solver_ms: f64,
    pub max_ms: f64,
    pub escalated: u64,
    pub order: u64,
}

struct Proc {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    cmds: u64,
}

pub struct Solver {
    bin: String,
    timeout_ms: u64,
    big_timeout_s: u64,
    p: Option<Proc>,
    cache: HashMap<Vec<E>, Res>,
    pub st: Stats,
    pub log_dir: Option<String>,
    pub tmp: String,
}

fn is_fpish(p: &Pool, e: E) -> bool {
    matches!(p.n(e), N::FBin(..) | N::FUn(..) | N::ItoF(..) | N::Lib(..))
}

/// Emits definitions for `e` (bit-vector view, or floating-point view when `fp`)
struct Emit<'a> {
    p: &'a Pool,
    out: String,
    done: &'a mut HashSet<(E, bool)>,
    decl: &'a mut HashSet<u32>,
    libs: &'a mut HashSet<String>,
    bad: Option<String>,
}

fn bvc(v: u128, w: u32) -> String {
    if w % 4 == 0 {
        format!("#x{:0width$x}", v, width = (w / 4) as usize)
    } else {
        format!("#b{:0width$b}", v, width = w as usize)
    }
}

/// IEEE order of the binary64 patterns as an order of signed integers
const PRE: &str = "(define-fun isnan! ((x (_ BitVec 64))) Bool (bvugt (bvand x #x7fffffffffffffff) #x7ff0000000000000))
(define-fun fkey! ((x (_ BitVec 64))) (_ BitVec 64) (ite (= ((_ extract 63 63) x) #b1) (bvneg (bvand x #x7fffffffffffffff)) x))
";

impl<'a> Emit<'a> {
    /// no floating-point arithmetic at the top of the expression
    fn plain(&self, e: E) -> bool {
        match self.p.n(e) {
            N::Ite(_, x, y) => self.plain(*x) && self.plain(*y),
            N::Bin(BOp::Xor, x, y) | N::Bin(BOp::And, x, y) if matches!(self.p.as_c(*y), Some(v) if v == SIGN || v == SIGN - 1) => self.plain(*x),
            _ => !is_fpish(self.p, e),
        }
    }
    fn bv(&mut self, e: E) -> String {
        match self.p.n(e) {
            N::Const(v) => return bvc(*v, self.p.width(e)),
            N::Var(k) => {
                let (n, w) = &self.p.vars[*k as usize];
                if self.decl.insert(*k) {
                    self.out.push_str(&format!("(declare-const {} (_ BitVec {}))\n", n, w));
                }
                return n.clone();
            }
            _ => {}
        }
        let name = format!("e{}", e);
        if self.done.contains(&(e, false)) {
            return name;
        }
        let w = self.p.width(e);
        let b = |x: String| format!("(ite {} #b1 #b0)", x);
        let s = match self.p.n(e).clone() {
            N::Const(_) | N::Var(_) => unreachable!(),
            N::Bin(op, x, y) => {
                let o = match op {
                    BOp::Add => "bvadd",
                    BOp::Sub => "bvsub",
                    BOp::Mul => "bvmul",
                    BOp::UDiv => "bvudiv",
                    BOp::SDiv => "bvsdiv",
                    BOp::URem => "bvurem",
                    BOp::SRem => "bvsrem",
                    BOp::And => "bvand",
                    BOp::Or => "bvor",
                    BOp::Xor => "bvxor",
                    BOp::Shl => "bvshl",
                    BOp::LShr => "bvlshr",
                    BOp::AShr => "bvashr",
                };
                format!("({} {} {})", o, self.bv(x), self.bv(y))
            }
            N::Not(x) => format!("(bvnot {})", self.bv(x)),
            N::Cmp(op, x, y) => {
                let o = match op {
                    COp::Eq => "=",
                    COp::Ult => "bvult",
                    COp::Ule => "bvule",
                    COp::Slt => "bvslt",
                    COp::Sle => "bvsle",
                };
                b(format!("({} {} {})", o, self.bv(x), self.bv(y)))
            }
            N::Ite(c, x, y) => format!("(ite (= {} #b1) {} {})", self.bv(c), self.bv(x), self.bv(y)),
            N::Ext(x, lo) => format!("((_ extract {} {}) {})", lo + w - 1, lo, self.bv(x)),
            N::Cat(h, l) => format!("(concat {} {})", self.bv(h), self.bv(l)),
            N::ZExt(x) => format!("((_ zero_extend {}) {})", w - self.p.width(x), self.bv(x)),
            N::SExt(x) => format!("((_ sign_extend {}) {})", w - self.p.width(x), self.bv(x)),
            N::FCmp(op, x, y) => {
                let o = match op {
                    FC::Oeq => "fp.eq",
                    FC::Olt => "fp.lt",
                    FC::Ole => "fp.leq",
                };
                if self.plain(x) && self.plain(y) {
                    let o = match op {
                        FC::Oeq => "=",
                        FC::Olt => "bvslt",
                        FC::Ole => "bvsle",
                    };
                    let (x, y) = (self.bv(x), self.bv(y));
                    b(format!("(and (not (isnan! {x})) (not (isnan! {y})) ({o} (fkey! {x}) (fkey! {y})))"))
                } else {
                    b(format!("({} {} {})", o, self.fp(x), self.fp(y)))
                }
            }
            N::IsNan(x) => {
                if self.plain(x) {
                    b(format!("(isnan! {})", self.bv(x)))
                } else {
                    b(format!("(fp.isNaN {})", self.fp(x)))
                }
            }
            N::FtoI(signed, x) => {
                let fx = self.fp(x);
                let (lo, hi, lof, hif, op) = if signed {
                    let lo = 1u128 << (w - 1);
                    (lo, lo - 1, -((w as f64 - 1.0).exp2()), (w as f64 - 1.0).exp2(), "fp.to_sbv")
                } else {
                    (0, crate::ir::mask128(u128::MAX, w), 0.0, (w as f64).exp2(), "fp.to_ubv")
                };
                format!(
                    "(ite (fp.isNaN {f}) {z} (ite (fp.leq {f} {lf}) {lo} (ite (fp.geq {f} {hf}) {hi} ((_ {op} {w}) RTZ {f}))))",
                    f = fx,
                    z = bvc(0, w),
                    lf = fpc(lof),
                    lo = bvc(lo, w),
                    hf = fpc(hif),
                    hi = bvc(hi, w),
                    op = op,
                    w = w
                )
            }
            N::FBin(..) | N::FUn(..) | N::ItoF(..) | N::Lib(..) => format!("(fp.to_ieee_bv {})", self.fp(e)),
        };
        self.out.push_str(&format!("(define-fun {} () (_ BitVec {}) {})\n", name, w, s));
        self.done.insert((e, false));
        name
    }
    fn fp(&mut self, e: E) -> String {
        if let N::Const(v) = self.p.n(e) {
            return fpc(f64::from_bits(*v as u64));
        }
        let name = format!("f{}", e);
        if self.done.contains(&(e, true)) {
            return name;
        }
        let s = match self.p.n(e).clone() {
            N::FBin(op, x, y) => {
                let o = match op {
                    FOp::Add => "fp.add",
                    FOp::Sub => "fp.sub",
                    FOp::Mul => "fp.mul",
                    FOp::Div => "fp.div",
                    FOp::Rem => {
                        self.bad = Some("frem".into());
                        "fp.div"
                    }
                };
                format!("({} RNE {} {})", o, self.fp(x), self.fp(y))
            }
            N::FUn(op, x) => {
                let fx = self.fp(x);
                match op {
                    FU::Sqrt => format!("(fp.sqrt RNE {})", fx),
                    FU::Floor => format!("(fp.roundToIntegral RTN {})", fx),
                    FU::Ceil => format!("(fp.roundToIntegral RTP {})", fx),
                    FU::Trunc => format!("(fp.roundToIntegral RTZ {})", fx),
                    FU::Round => format!("(fp.roundToIntegral RNA {})", fx),
                    FU::RoundEven => format!("(fp.roundToIntegral RNE {})", fx),
                }
            }
            N::ItoF(signed, x) => {
                let bx = self.bv(x);
                format!("((_ {} 11 53) RNE {})", if signed { "to_fp" } else { "to_fp_unsigned" }, bx)
            }
            N::Lib(l, v) => {
                let n = format!("lib_{:?}_{}", l, v.len());
                if self.libs.insert(n.clone()) {
                    let args = vec!["(_ FloatingPoint 11 53)"; v.len()].join(" ");
                    self.out.push_str(&format!("(declare-fun {} ({}) (_ FloatingPoint 11 53))\n", n, args));
                }
                let a: Vec<String> = v
                    .iter()
                    .map(|x| {
                        if self.p.width(*x) != 64 {
                            self.bad = Some("powi of a symbolic exponent".into());
                            fpc(0.0)
                        } else {
                            self.fp(*x)
                        }
                    })
                    .collect();
                format!("({} {})", n, a.join(" "))
            }
            N::Ite(c, x, y) => format!("(ite (= {} #b1) {} {})", self.bv(c), self.fp(x), self.fp(y)),
            N::Bin(BOp::Xor, x, y) if self.p.as_c(y) == Some(SIGN) => format!("(fp.neg {})", self.fp(x)),
            N::Bin(BOp::And, x, y) if self.p.as_c(y) == Some(SIGN - 1) => format!("(fp.abs {})", self.fp(x)),
            _ => format!("((_ to_fp 11 53) {})", self.bv(e)),
        };
        self.out.push_str(&format!("(define-fun {} () (_ FloatingPoint 11 53) {})\n", name, s));
        self.done.insert((e, true));
        name
    }
}
/// Order-only encoding: for a query whose variables occur only in floating-point comparisons and
/// NaN tests, a value is exactly a NaN flag and its rank in the IEEE order, an integer. Terms
/// outside the fragment are replaced by unconstrained ones, so that "unsat" carries over to the
/// query; a model counts only if the query evaluates to true under it.
struct Ord<'a> {
    p: &'a Pool,
    out: String,
    done: HashSet<E>,
    decl: BTreeSet<u32>,
    free: HashSet<(E, bool)>,
    exact: bool,
}
const INF_KEY: i128 = 0x7ff0_0000_0000_0000;
fn int_lit(v: i128) -> String {
    if v < 0 {
        format!("(- {})", -v)
    } else {
        format!("{}", v)
    }
}
impl<'a> Ord<'a> {
    /// (NaN condition, rank); a value outside the fragment becomes unconstrained
    fn val(&mut self, e: E) -> (String, String) {
        match self.p.n(e).clone() {
            N::Const(v) => {
                let (m, s) = ((v as u64 & !(1 << 63)) as i128, v as u64 >> 63 == 1);
                let nan = m > INF_KEY;
                (nan.to_string(), int_lit(if nan { 0 } else if s { -m } else { m }))
            }
            N::Var(k) if self.p.vars[k as usize].1 == 64 => {
                let n = self.p.vars[k as usize].0.clone();
                if self.decl.insert(k) {
                    self.rank(&n);
                }
                (format!("n_{}", n), format!("k_{}", n))
            }
            N::Bin(BOp::Xor, x, y) if self.p.as_c(y) == Some(SIGN) => {
                let (n, k) = self.val(x);
                (n, format!("(- {})", k))
            }
            N::Bin(BOp::And, x, y) if self.p.as_c(y) == Some(SIGN - 1) => {
                let (n, k) = self.val(x);
                (n, format!("(abs {})", k))
            }
            N::Ite(c, x, y) => {
                let c = self.boolean(c);
                let (nx, kx) = self.val(x);
                let (ny, ky) = self.val(y);
                (format!("(ite {} {} {})", c, nx, ny), format!("(ite {} {} {})", c, kx, ky))
            }
            _ => {
                self.exact = false;
                let n = format!("x{}", e);
                if self.free.insert((e, false)) {
                    self.rank(&n);
                }
                (format!("n_{}", n), format!("k_{}", n))
            }
        }
    }
    fn rank(&mut self, n: &str) {
        self.out.push_str(&format!(
            "(declare-const k_{n} Int)\n(declare-const n_{n} Bool)\n(assert (and (<= {} k_{n}) (<= k_{n} {})))\n",
            int_lit(-INF_KEY),
            INF_KEY
        ));
    }
    fn any_bool(&mut self, e: E) -> String {
        self.exact = false;
        let n = format!("u{}", e);
        if self.free.insert((e, true)) {
            self.out.push_str(&format!("(declare-const {} Bool)\n", n));
        }
        n
    }
    /// unsigned value of a choice between constants
    fn small(&mut self, e: E) -> Option<String> {
        match self.p.n(e).clone() {
            N::Const(v) => Some(format!("{}", v)),
            N::Ite(c, x, y) => {
                let (a, b) = (self.small(x)?, self.small(y)?);
                Some(format!("(ite {} {} {})", self.boolean(c), a, b))
            }
            N::ZExt(x) if self.p.width(x) == 1 => Some(format!("(ite {} 1 0)", self.boolean(x))),
            N::ZExt(x) => self.small(x),
            _ => None,
        }
    }
    fn bit(&mut self, e: E, b: u32) -> Option<String> {
        match self.p.n(e).clone() {
            N::Const(v) => Some((v >> b & 1 == 1).to_string()),
            N::Ite(c, x, y) => {
                let (a, d) = (self.bit(x, b)?, self.bit(y, b)?);
                Some(format!("(ite {} {} {})", self.boolean(c), a, d))
            }
            _ => None,
        }
    }
    /// a boolean outside the fragment becomes unconstrained
    fn boolean(&mut self, e: E) -> String {
        if let N::Const(v) = self.p.n(e) {
            return (*v == 1).to_string();
        }
        let name = format!("o{}", e);
        if self.done.contains(&e) {
            return name;
        }
        let s = match self.p.n(e).clone() {
            N::Not(x) => format!("(not {})", self.boolean(x)),
            N::Bin(op @ (BOp::And | BOp::Or | BOp::Xor), x, y) => {
                let o = match op {
                    BOp::And => "and",
                    BOp::Or => "or",
                    _ => "xor",
                };
                format!("({} {} {})", o, self.boolean(x), self.boolean(y))
            }
            N::Cmp(COp::Eq, x, y) if self.p.width(x) == 1 => format!("(= {} {})", self.boolean(x), self.boolean(y)),
            N::Cmp(op @ (COp::Eq | COp::Ult | COp::Ule), x, y) => {
                let o = match op {
                    COp::Eq => "=",
                    COp::Ult => "<",
                    _ => "<=",
                };
                match (self.small(x), self.small(y)) {
                    (Some(x), Some(y)) => format!("({} {} {})", o, x, y),
                    _ => self.any_bool(e),
                }
            }
            N::Ext(x, b) => match self.bit(x, b) {
                Some(s) => s,
                None => self.any_bool(e),
            },
            N::Ite(c, x, y) => format!("(ite {} {} {})", self.boolean(c), self.boolean(x), self.boolean(y)),
            N::IsNan(x) => self.val(x).0,
            N::FCmp(op, x, y) => {
                let (nx, kx) = self.val(x);
                let (ny, ky) = self.val(y);
                let o = match op {
                    FC::Oeq => "=",
                    FC::Olt => "<",
                    FC::Ole => "<=",
                };
                format!("(and (not {}) (not {}) ({} {} {}))", nx, ny, o, kx, ky)
            }
            _ => self.any_bool(e),
        };
        self.out.push_str(&format!("(define-fun {} () Bool {})\n", name, s));
        self.done.insert(e);
        name
    }
}

fn fpc(v: f64) -> String {
    if v.is_nan() {
        return "(_ NaN 11 53)".into();
    }
    let b = v.to_bits();
    format!("(fp #b{} #b{:011b} #x{:013x})", b >> 63, (b >> 52) & 0x7ff, b & 0xfffffffffffff)
}

impl Solver {
    pub fn new(bin: &str, timeout_ms: u64, big_timeout_s: u64, tmp: &str) -> Solver {
        Solver { bin: bin.into(), timeout_ms, big_timeout_s, p: None, cache: HashMap::new(), st: Stats::default(), log_dir: None, tmp: tmp.into() }
    }
    fn start(&mut self) {
        let mut child = Command::new(&self.bin)
            .args(["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| panic!("cannot start solver {}: {}", self.bin, e));
        let mut inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        inp.write_all(format!("(set-option :timeout {})\n(set-option :memory_max_size 3000)\n", self.timeout_ms).as_bytes()).unwrap();
        self.p = Some(Proc { child, inp, out, cmds: 0 });
    }
    fn kill(&mut self) {
        if let Some(mut p) = self.p.take() {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
    }

    /// Is the conjunction satisfiable?  A model binds every variable of the conjunction.
    pub fn check(&mut self, pool: &mut Pool, cs: &[E]) -> Res {
        let mut key: Vec<E> = cs.to_vec();
        key.sort();
        key.dedup();
        key.retain(|&e| pool.as_c(e) != Some(1));
        if key.iter().any(|&e| pool.as_c(e) == Some(0)) {
            return Res::Unsat;
        }
        if let Some(r) = self.cache.get(&key) {
            self.st.cache_hits += 1;
            return r.clone();
        }
        let t = Instant::now();
        let mut r = self.query(pool, &key);
        if let Res::Unknown(_) = r {
            self.st.escalated += 1;
            r = self.escalate(pool, &key);
        }
        let ms = t.elapsed().as_secs_f64() * 1e3;
        if let Some(d) = self.log_dir.clone() {
            if ms > 30.0 {
                let (txt, _) = self.text(pool, &key);
                let s = match &r { Res::Sat(_) => "sat", Res::Unsat => "unsat", _ => "unknown" };
                let _ = std::fs::write(format!("{}/{}_{}_{}.smt2", d, self.st.queries, ms as u64, s), txt);
            }
        }
        self.st.queries += 1;
        self.st.solver_ms += ms;
        self.st.max_ms = self.st.max_ms.max(ms);
        match &r {
            Res::Sat(_) => self.st.sat += 1,
            Res::Unsat => self.st.unsat += 1,
            Res::Unknown(_) => self.st.unknown += 1,
        }
        self.cache.insert(key, r.clone());
        r
    }

    fn query(&mut self, pool: &mut Pool, key: &[E]) -> Res {
        if self.p.as_ref().map_or(true, |p| p.cmds > 3000) {
            self.kill();
            self.start();
        }
        let mut vars: BTreeSet<u32> = BTreeSet::new();
        for &e in key {
            vars.extend(pool.vars_of(e).iter());
        }
        if let Some(r) = self.order_query(pool, key) {
            return r;
        }
        // every query starts from a reset solver: the one-shot tactics beat the incremental core by
        // one to two orders of magnitude on floating-point arithmetic
        let (body, bad) = self.text(pool, key);
        if let Some(b) = bad {
            return Res::Unknown(format!("unsupported: {}", b));
        }
        let pr = self.p.as_mut().unwrap();
        pr.cmds += 1;
        let txt = format!("(reset)\n(set-option :timeout {})\n{}(check-sat)\n", self.timeout_ms, body);
        if pr.inp.write_all(txt.as_bytes()).is_err() || pr.inp.flush().is_err() {
            self.kill();
            return Res::Unknown("solver died".into());
        }
        let mut line = String::new();
        if pr.out.read_line(&mut line).unwrap_or(0) == 0 {
            self.kill();
            return Res::Unknown("solver died".into());
        }
        let l = line.trim().to_string();
        let res = match l.as_str() {
            "unsat" => Res::Unsat,
            "sat" => {
                if vars.is_empty() {
                    Res::Sat(Rc::new(Model::new()))
                } else {
                    let vs: Vec<String> = vars.iter().map(|k| pool.vars[*k as usize].0.clone()).collect();
                    let _ = pr.inp.write_all(format!("(get-value ({}))\n", vs.join(" ")).as_bytes());
                    let _ = pr.inp.flush();
                    match read_sexpr(&mut pr.out) {
                        Some(s) => self::parse_model(pool, &s, &vars, key),
                        None => Res::Unknown("no model".into()),
                    }
                }
            }
            x => Res::Unknown(x.to_string()),
        };
        if l.starts_with("(error") {
            self.kill();
            return Res::Unknown(l);
        }
        res
    }

    fn order_query(&mut self, pool: &mut Pool, key: &[E]) -> Option<Res> {
        let mut o = Ord { p: pool, out: String::new(), done: HashSet::new(), decl: BTreeSet::new(), free: HashSet::new(), exact: true };
        let names: Vec<String> = key.iter().map(|&e| o.boolean(e)).collect();
        if o.decl.is_empty() {
            return None;
        }
        let exact = o.exact;
        let (mut txt, vars) = (format!("(reset)\n(set-option :timeout {})\n{}", self.timeout_ms, o.out), o.decl);
        for n in &names {
            txt.push_str(&format!("(assert {})\n", n));
        }
        txt.push_str("(check-sat)\n");
        let pr = self.p.as_mut().unwrap();
        pr.cmds += 1;
        let mut line = String::new();
        if pr.inp.write_all(txt.as_bytes()).is_err() || pr.inp.flush().is_err() || pr.out.read_line(&mut line).unwrap_or(0) == 0 {
            self.kill();
            return None;
        }
        match line.trim() {
            "unsat" => Some(Res::Unsat),
            "sat" => {
                let mut m = Model::new();
                if !vars.is_empty() {
                    let vs: Vec<String> = vars.iter().map(|k| format!("k_{n} n_{n}", n = pool.vars[*k as usize].0)).collect();
                    let _ = pr.inp.write_all(format!("(get-value ({}))\n", vs.join(" ")).as_bytes());
                    let _ = pr.inp.flush();
                    let s = read_sexpr(&mut pr.out)?;
                    let toks: Vec<&str> = s.split(|c: char| c == '(' || c == ')' || c.is_whitespace()).filter(|x| !x.is_empty()).collect();
                    let mut t = toks.into_iter().peekable();
                    for k in &vars {
                        t.next()?;
                        let mut neg = false;
                        if t.peek() == Some(&"-") {
                            neg = true;
                            t.next();
                        }
                        let v: i128 = t.next()?.parse().ok()?;
                        t.next()?;
                        let nan = t.next()? == "true";
                        let v = if neg { -v } else { v };
                        let bits = if nan { 0x7ff8_0000_0000_0000 } else if v < 0 { (-v) as u64 | 1 << 63 } else { v as u64 };
                        m.insert(*k, bits as u128);
                    }
                }
                if !exact {
                    for &e in key {
                        for v in pool.vars_of(e).iter() {
                            m.entry(*v).or_insert(0);
                        }
                    }
                }
                let mut memo = HashMap::new();
                for &e in key {
                    if pool.eval(e, &m, &mut memo) != 1 {
                        return None;
                    }
                }
                self.st.order += 1;
                Some(Res::Sat(Rc::new(m)))
            }
            x => {
                if x.starts_with("(error") {
                    self.kill();
                }
                None
            }
        }
    }

    /// a stand-alone script for the query
    fn text(&mut self, pool: &mut Pool, key: &[E]) -> (String, Option<String>) {
        let (mut d, mut dc, mut lb) = (HashSet::new(), HashSet::new(), HashSet::new());
        let mut em = Emit { p: pool, out: String::new(), done: &mut d, decl: &mut dc, libs: &mut lb, bad: None };
        let names: Vec<String> = key.iter().map(|&e| em.bv(e)).collect();
        let bad = em.bad.take();
        let mut txt = PRE.to_string();
        txt.push_str(&em.out);
        for n in &names {
            txt.push_str(&format!("(assert (= {} #b1))\n", n));
        }
        (txt, bad)
    }

    /// one-shot runs of several solver configurations
    fn escalate(&mut self, pool: &mut Pool, key: &[E]) -> Res {
        let mut vars: BTreeSet<u32> = BTreeSet::new();
        for &e in key {
            vars.extend(pool.vars_of(e).iter());
        }
        let (mut txt, bad) = self.text(pool, key);
        if let Some(b) = bad {
            return Res::Unknown(format!("unsupported: {}", b));
        }
        txt.push_str("(check-sat)\n");
        let vs: Vec<String> = vars.iter().map(|k| pool.vars[*k as usize].0.clone()).collect();
        txt.push_str(&format!("(get-value ({}))\n", vs.join(" ")));
        let _ = std::fs::create_dir_all(&self.tmp);
        let path = format!("{}/q{}_{}.smt2", self.tmp, std::process::id(), self.st.queries);
        if std::fs::write(&path, &txt).is_err() {
            return Res::Unknown("cannot write query".into());
        }
        let mut kids: Vec<Child> = vec![];
        let bb = path.replace(".smt2", "b.smt2");
        let _ = std::fs::write(&bb, txt.replace("(check-sat)\n", "(check-sat-using (then simplify propagate-values fpa2bv simplify solve-eqs bit-blast sat))\n"));
        let has_uf = txt.contains("(declare-fun");
        for (bin, file) in [("z3-new", &path), ("z3", &path), ("z3-new", &bb)] {
            if has_uf && *file == bb {
                continue;
            }
            if let Ok(c) = Command::new(bin)
                .arg(format!("-T:{}", self.big_timeout_s))
                .arg("-memory:6000")
                .arg(file)
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
            {
                kids.push(c);
            }
        }
        let mut res = Res::Unknown("timeout".into());
        let mut live: Vec<bool> = vec![true; kids.len()];
        'o: while live.iter().any(|x| *x) {
            for i in 0..kids.len() {
                if !live[i] {
                    continue;
                }
                if let Ok(Some(_)) = kids[i].try_wait() {
                    live[i] = false;
                    let mut s = String::new();
                    use std::io::Read;
                    if let Some(mut o) = kids[i].stdout.take() {
                        let _ = o.read_to_string(&mut s);
                    }
                    if s.starts_with("unsat") {
                        res = Res::Unsat;
                        break 'o;
                    }
                    if let Some(r) = s.strip_prefix("sat") {
                        let m = parse_model(pool, r, &vars, key);
                        if let Res::Sat(_) = m {
                            res = m;
                            break 'o;
                        }
                    }
                }
            }
            std::thread::sleep(std::time::Duration::from_millis(10));
        }
        for k in kids.iter_mut() {
            let _ = k.kill();
            let _ = k.wait();
        }
        let _ = std::fs::remove_file(&path);
        let _ = std::fs::remove_file(&bb);
        res
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        self.kill();
    }
}

fn read_sexpr(r: &mut BufReader<ChildStdout>) -> Option<String> {
    let mut s = String::new();
    let mut d = 0i32;
    loop {
        let mut l = String::new();
        if r.read_line(&mut l).ok()? == 0 {
            return None;
        }
        for c in l.chars() {
            match c {
                '(' => d += 1,
                ')' => d -= 1,
                _ => {}
            }
        }
        s.push_str(&l);
        if d <= 0 {
            return Some(s);
        }
    }
}

fn parse_model(pool: &Pool, s: &str, vars: &BTreeSet<u32>, key: &[E]) -> Res {
    let mut m = Model::new();
    let toks: Vec<&str> = s.split(|c: char| c == '(' || c == ')' || c.is_whitespace()).filter(|x| !x.is_empty()).collect();
    let ix: HashMap<&str, u32> = vars.iter().map(|k| (pool.vars[*k as usize].0.as_str(), *k)).collect();
    let mut i = 0;
    while i + 1 < toks.len() {
        if let Some(&k) = ix.get(toks[i]) {
            let v = toks[i + 1];
            let val = if let Some(h) = v.strip_prefix("#x") {
                u128::from_str_radix(h, 16).ok()
            } else if let Some(b) = v.strip_prefix("#b") {
                u128::from_str_radix(b, 2).ok()
            } else {
                None
            };
            if let Some(v) = val {
                m.insert(k, v);
            }
        }
        i += 2;
    }
    // a model counts only when the host arithmetic agrees with it
    let mut memo = HashMap::new();
    for &e in key {
        if pool.eval(e, &m, &mut memo) != 1 {
            return Res::Unknown("model rejected by evaluation".into());
        }
    }
    Res::Sat(Rc::new(m))
}
