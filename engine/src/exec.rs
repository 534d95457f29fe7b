//! Symbolic execution of LLVM IR with state forking.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::smt::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

pub enum Stop {
    /// the path is over
    End(String),
    /// the path cannot be followed further by the engine
    Err(String),
}
type R<T> = Result<T, Stop>;

pub struct FuncX {
    pub f: Func,
    pub cvals: Vec<V>,
    pub entry: u32,
    pub cov: RefCell<Vec<bool>>,
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<FuncX>,
    pub regs: Vec<V>,
    pub pc: usize,
    pub block: u32,
    pub allocas: Vec<u32>,
    pub dst: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
    pub gmem: HashMap<u32, Rc<Obj>>,
    pub pc: Vec<E>,
    pub model: Rc<Model>,
    pub memo: HashMap<E, u128>,
    pub facts: HashMap<E, bool>,
    pub conc: HashMap<E, u64>,
    pub inputs: Vec<E>,
    pub obs: Vec<V>,
    pub checks: u64,
    pub depth: u32,
    pub expect_panic: bool,
    pub fork_sel: bool,
    pub tokens: Vec<E>,
    pub rnd: u64,
}

#[derive(Clone)]
pub struct Violation {
    pub msg: String,
    pub at: String,
    pub inputs: Vec<u64>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Api {
    In, Assume, Check, Obs, Arg, Conc, Reach, ExpectPanic, Panicking, Nop, NopZero,
    Malloc, Calloc, Realloc, Free, Memalign, RAlloc, RAllocZ, RDealloc, RRealloc,
    Bcmp, Memcmp, Strlen, Memcpy, Memmove, Memset, Memchr, Getenv, Errno, Syscall, Abort, Sysconf, Panic, ThreadAtexit, ClockReal, ForkHint, Token, TokenValue,
}

#[derive(Clone, Debug)]
pub enum H {
    Unknown,
    Def,
    Llvm(String),
    Api(Api),
    Lib(Lib),
    Un(&'static str),
    Ext(String),
}

pub struct Cfg {
    pub harness: String,
    pub args: Vec<u64>,
    pub time_limit: f64,
    pub max_viol: usize,
    pub max_samples: usize,
    pub max_steps: u64,
}

pub struct Ex {
    pub m: Module,
    pub p: Pool,
    pub sv: Solver,
    pub cfg: Cfg,
    funcs: Vec<Option<Rc<FuncX>>>,
    hs: Vec<H>,
    /// number formatting routines of core, and the harness routine that prints a symbolic number instead
    fmt: HashMap<u32, u32>,
    ginit: HashMap<u32, Rc<Obj>>,
    errno_obj: u32,
    pub work: Vec<State>,
    pub st: Box<State>,
    pub start: Instant,
    pub viol: Vec<Violation>,
    pub viol_seen: HashMap<String, u32>,
    limited: bool,
    pub undecided: Vec<String>,
    pub errors: BTreeMap<String, u64>,
    pub reach: BTreeMap<String, u64>,
    pub checked: BTreeMap<String, (u64, u64)>,
    pub paths: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub steps: u64,
    pub checks_total: u64,
    pub checks_sym: u64,
    pub samples: Vec<(Vec<u64>, Vec<u64>)>,
    pub complete: bool,
    pub max_depth: u32,
    pub outcomes: BTreeMap<String, u64>,
}

fn mkc(v: u128, w: u32) -> V {
    let v = mask128(v, w);
    if w <= 64 { V::C(v as u64) } else { V::W(Rc::new(v)) }
}

pub const OBJ_MAX: u64 = 0x3fff_ffff;
pub const G_BASE: u64 = 0x4000_0000;
pub const F_BASE: u64 = 0x7000_0000;

fn g_addr(g: u32) -> u64 {
    (G_BASE + g as u64) << 32
}
fn f_addr(g: u32) -> u64 {
    (F_BASE + g as u64) << 32
}

fn api_of(name: &str) -> Option<Api> {
    Some(match name {
        "v_in" => Api::In,
        "v_assume" => Api::Assume,
        "v_check_raw" => Api::Check,
        "v_obs" => Api::Obs,
        "v_arg" => Api::Arg,
        "v_conc" => Api::Conc,
        "v_reach_raw" => Api::Reach,
        "v_expect_panic" => Api::ExpectPanic,
        "v_forkhint" => Api::ForkHint,
        "v_token" => Api::Token,
        "v_token_value" => Api::TokenValue,
        "v_ext_write" | "sched_yield" | "pthread_key_create" | "pthread_setspecific" | "close" | "munmap" | "signal" | "sigaction" | "pthread_atfork" => Api::NopZero,
        "__cxa_thread_atexit_impl" => Api::ThreadAtexit,
        "malloc" => Api::Malloc,
        "calloc" => Api::Calloc,
        "realloc" => Api::Realloc,
        "free" => Api::Free,
        "posix_memalign" => Api::Memalign,
        "bcmp" => Api::Bcmp,
        "memcmp" => Api::Memcmp,
        "strlen" => Api::Strlen,
        "memcpy" => Api::Memcpy,
        "memmove" => Api::Memmove,
        "memset" => Api::Memset,
        "memchr" => Api::Memchr,
        "getenv" => Api::Getenv,
        "__errno_location" => Api::Errno,
        "syscall" => Api::Syscall,
        "sysconf" => Api::Sysconf,
        "abort" => Api::Abort,
        _ => return None,
    })
}

fn lib_of(name: &str) -> Option<Lib> {
    Some(match name {
        "exp" => Lib::Exp,
        "log" => Lib::Log,
        "pow" => Lib::Pow,
        "sin" => Lib::Sin,
        "cos" => Lib::Cos,
        "exp2" => Lib::Exp2,
        "log2" => Lib::Log2,
        "log10" => Lib::Log10,
        "fma" | "fmuladd" => Lib::Fma,
        "cbrt" => Lib::Cbrt,
        "tanh" => Lib::Tanh,
        "expm1" => Lib::Expm1,
        "log1p" => Lib::Log1p,
        "atan" => Lib::Atan,
        _ => return None,
    })
}

impl Ex {
    pub fn new(m: Module, sv: Solver, cfg: Cfg) -> Ex {
        let n = m.syms.len();
        let mut hs = vec![];
        let mut fmt = HashMap::new();
        for (g, (name, k)) in m.syms.iter().enumerate() {
            if !matches!(k, GKind::Func { .. }) || !name.contains("4core3fmt") {
                continue;
            }
            let float = name.contains("4core3fmt5floatd");
            let int = ["4core3fmt3num3impj", "4core3fmt3num3impy", "4core3fmt3numj", "4core3fmt3numy"].iter().any(|x| name.contains(x));
            let hook = if float && name.contains("8LowerExp3fmt") {
                "v_fmt_exp"
            } else if float && (name.contains("7Display3fmt") || name.contains("5Debug3fmt")) {
                "v_fmt_plain"
            } else if int && (name.contains("7Display3fmt") || name.contains("5Debug3fmt")) {
                "v_fmt_plain"
            } else {
                continue;
            };
            if let Some(h) = m.sym_ix.get(hook) {
                fmt.insert(g as u32, *h);
            }
        }
        for (name, k) in &m.syms {
            let h = match k {
                GKind::Var { .. } => H::Unknown,
                _ => {
                    let isdef = matches!(k, GKind::Func { .. });
                    if let Some(r) = name.strip_prefix("llvm.") {
                        H::Llvm(r.to_string())
                    } else if name.contains("4core9panicking") || name.contains("17rust_begin_unwind") || name.contains("9panicking15begin_panic") || name.contains("12handle_error") && name.contains("7raw_vec") || name.contains("18handle_alloc_error") || name.contains("17capacity_overflow") || name.contains("14unwrap_failed") && !name.contains("drop_glue") || name.contains("13expect_failed") {
                        H::Api(Api::Panic)
                    } else if name.contains("___rust_alloc_zeroed") {
                        H::Api(Api::RAllocZ)
                    } else if name.contains("___rust_alloc_error_handler") {
                        H::Api(Api::Panic)
                    } else if name.contains("___rust_alloc") {
                        H::Api(Api::RAlloc)
                    } else if name.contains("___rust_dealloc") {
                        H::Api(Api::RDealloc)
                    } else if name.contains("___rust_realloc") {
                        H::Api(Api::RRealloc)
                    } else if name.contains("___rust_no_alloc_shim") {
                        H::Api(Api::Nop)
                    } else if name.contains("std8thread10panicking") || name.contains("3std9panicking11panic_count17is_zero_slow_path") {
                        H::Api(Api::NopZero)
                    } else if let (Some(a), false) = (api_of(name), isdef) {
                        H::Api(a)
                    } else if let (Some(l), false) = (lib_of(name), isdef) {
                        H::Lib(l)
                    } else if !isdef && matches!(name.as_str(), "floor" | "ceil" | "trunc" | "round" | "sqrt" | "fabs" | "rint") {
                        H::Un(match name.as_str() {
                            "floor" => "floor",
                            "ceil" => "ceil",
                            "trunc" => "trunc",
                            "round" => "round",
                            "sqrt" => "sqrt",
                            "rint" => "rint",
                            _ => "fabs",
                        })
                    } else if isdef {
                        H::Def
                    } else {
                        H::Ext(name.clone())
                    }
                }
            };
            hs.push(h);
        }
        let st = Box::new(State {
            frames: vec![],
            mem: vec![],
            free: vec![],
            gmem: HashMap::new(),
            pc: vec![],
            model: Rc::new(Model::new()),
            memo: HashMap::new(),
            facts: HashMap::new(),
            conc: HashMap::new(),
            inputs: vec![],
            obs: vec![],
            checks: 0,
            depth: 0,
            expect_panic: false,
            fork_sel: true,
            tokens: vec![],
            rnd: 0,
        });
        Ex {
            m,
            p: Pool::default(),
            sv,
            cfg,
            funcs: (0..n).map(|_| None).collect(),
            hs,
            fmt,
            ginit: HashMap::new(),
            errno_obj: 0,
            work: vec![],
            st,
            start: Instant::now(),
            viol: vec![],
            viol_seen: HashMap::new(),
            limited: false,
            undecided: vec![],
            errors: BTreeMap::new(),
            reach: BTreeMap::new(),
            checked: BTreeMap::new(),
            paths: 0,
            infeasible: 0,
            forks: 0,
            steps: 0,
            checks_total: 0,
            checks_sym: 0,
            samples: vec![],
            complete: true,
            max_depth: 0,
            outcomes: BTreeMap::new(),
        }
    }

    fn func(&mut self, g: u32) -> Rc<FuncX> {
        if let Some(f) = &self.funcs[g as usize] {
            return f.clone();
        }
        let f = parse_func(&mut self.m, g);
        let consts = f.consts.clone();
        let cvals = consts.iter().map(|(t, c)| self.cval(*t, c)).collect();
        let entry = f.blocks.iter().position(|b| b.start == 0).unwrap() as u32;
        let n = f.insts.len();
        let fx = Rc::new(FuncX { f, cvals, entry, cov: RefCell::new(vec![false; n]) });
        self.funcs[g as usize] = Some(fx.clone());
        fx
    }
    pub fn loaded(&self) -> Vec<Rc<FuncX>> {
        self.funcs.iter().flatten().cloned().collect()
    }

    // ---- constants -------------------------------------------------------------------------
    fn cval(&mut self, t: TyId, c: &Cst) -> V {
        match c {
            Cst::Int(v) => {
                let w = match self.m.types.ty(t) {
                    Ty::Int(w) => *w,
                    Ty::F32 => 32,
                    _ => 64,
                };
                mkc(*v, w)
            }
            Cst::Undef => match self.m.types.ty(t).clone() {
                Ty::Struct(fs, _) => V::A(Rc::new(vec![V::U; fs.len()])),
                Ty::Array(n, _) | Ty::Vector(n, _) => V::A(Rc::new(vec![V::U; n as usize])),
                _ => V::U,
            },
            Cst::Zero => self.zero(t),
            Cst::Global(g) => V::C(self.sym_addr(*g)),
            Cst::GlobalOff(g, o) => V::C(self.sym_addr(*g).wrapping_add(*o as u64)),
            Cst::Agg(v) => {
                let x: Vec<V> = v.iter().map(|(t, c)| self.cval(*t, c)).collect();
                V::A(Rc::new(x))
            }
            Cst::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u64)).collect())),
            Cst::Expr(e) => match &**e {
                CExpr::Gep(st, base, ix) => {
                    let pt = self.m.types.get(Ty::Ptr);
                    let mut a = match self.cval(pt, base) {
                        V::C(a) => a,
                        _ => 0,
                    };
                    let mut cur = *st;
                    for (k, (it, i)) in ix.iter().enumerate() {
                        let w = self.m.types.bits(*it);
                        let v = match self.cval(*it, i) {
                            V::C(v) => sext128(v as u128, w) as i64,
                            _ => 0,
                        };
                        if k == 0 {
                            let l = self.m.types.layout(cur);
                            a = a.wrapping_add((v as u64).wrapping_mul(l.size));
                        } else {
                            match self.m.types.ty(cur).clone() {
                                Ty::Struct(fs, _) => {
                                    let l = self.m.types.layout(cur);
                                    a = a.wrapping_add(l.offs[v as usize]);
                                    cur = fs[v as usize];
                                }
                                Ty::Array(_, e) | Ty::Vector(_, e) => {
                                    let l = self.m.types.layout(e);
                                    a = a.wrapping_add((v as u64).wrapping_mul(l.size));
                                    cur = e;
                                }
                                _ => panic!("gep const"),
                            }
                        }
                    }
                    V::C(a)
                }
                CExpr::Cast(op, ft, v, tt) => {
                    let x = self.cval(*ft, v);
                    match (op.as_str(), x) {
                        ("trunc", V::C(x)) => mkc(x as u128, self.m.types.bits(*tt)),
                        ("sext", V::C(x)) => {
                            let w = self.m.types.bits(*ft);
                            mkc(sext128(x as u128, w) as u128, self.m.types.bits(*tt))
                        }
                        (_, x) => x,
                    }
                }
                CExpr::Bin(op, t, a, b) => {
                    let w = self.m.types.bits(*t);
                    let (x, y) = (self.cval(*t, a), self.cval(*t, b));
                    let (x, y) = match (x, y) {
                        (V::C(x), V::C(y)) => (x as u128, y as u128),
                        _ => (0, 0),
                    };
                    let o = match op.as_str() {
                        "add" => BOp::Add,
                        "sub" => BOp::Sub,
                        "mul" => BOp::Mul,
                        "xor" => BOp::Xor,
                        "and" => BOp::And,
                        "or" => BOp::Or,
                        "shl" => BOp::Shl,
                        _ => BOp::LShr,
                    };
                    mkc(ev_bin(o, w, x, y), w)
                }
            },
        }
    }
    fn zero(&mut self, t: TyId) -> V {
        match self.m.types.ty(t).clone() {
            Ty::Struct(fs, _) => {
                let v: Vec<V> = fs.iter().map(|f| self.zero(*f)).collect();
                V::A(Rc::new(v))
            }
            Ty::Array(n, e) | Ty::Vector(n, e) => {
                let z = self.zero(e);
                V::A(Rc::new(vec![z; n as usize]))
            }
            Ty::Int(w) => mkc(0, w),
            _ => V::C(0),
        }
    }
    fn sym_addr(&mut self, g: u32) -> u64 {
        match self.m.syms[g as usize].1 {
            GKind::Var { .. } => {
                // an alias or an external weak symbol
                match parse_global(&mut self.m, g) {
                    GInit::Alias(c) => {
                        let t = self.m.types.get(Ty::Ptr);
                        match self.cval(t, &c) {
                            V::C(a) => a,
                            _ => 0,
                        }
                    }
                    GInit::Extern => 0,
                    _ => g_addr(g),
                }
            }
            _ => f_addr(g),
        }
    }
    fn write_init(&mut self, data: &mut [u8], t: TyId, c: &Cst) {
        match c {
            Cst::Zero | Cst::Undef => {}
            Cst::Bytes(b) => data[..b.len()].copy_from_slice(b),
            Cst::Agg(v) => match self.m.types.ty(t).clone() {
                Ty::Struct(fs, _) => {
                    let l = self.m.types.layout(t);
                    for (k, (_, c)) in v.iter().enumerate() {
                        let o = l.offs[k] as usize;
                        self.write_init(&mut data[o..], fs[k], c);
                    }
                }
                Ty::Array(_, e) | Ty::Vector(_, e) => {
                    let sz = self.m.types.layout(e).size as usize;
                    for (k, (_, c)) in v.iter().enumerate() {
                        self.write_init(&mut data[k * sz..], e, c);
                    }
                }
                _ => panic!("aggregate initialiser"),
            },
            _ => {
                let v = self.cval(t, c);
                let n = self.store_size(t);
                let x = match v {
                    V::C(x) => x as u128,
                    V::W(x) => *x,
                    _ => 0,
                };
                data[..n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
        }
    }
    fn store_size(&mut self, t: TyId) -> usize {
        match self.m.types.ty(t) {
            Ty::Int(w) => ((*w + 7) / 8) as usize,
            Ty::F32 => 4,
            _ => 8,
        }
    }
    fn global_obj(&mut self, g: u32) -> R<Rc<Obj>> {
        if let Some(o) = self.ginit.get(&g) {
            return Ok(o.clone());
        }
        if g as usize >= self.m.syms.len() || !matches!(self.m.syms[g as usize].1, GKind::Var { .. }) {
            return Err(Stop::Err("access to a non-object address".into()));
        }
        let o = match parse_global(&mut self.m, g) {
            GInit::Init(t, c) => {
                let n = self.m.types.layout(t).size as usize;
                let mut d = vec![0u8; n];
                self.write_init(&mut d, t, &c);
                Obj { data: d, sym: None, freed: false }
            }
            _ => return Err(Stop::Err(format!("external global {}", self.m.syms[g as usize].0))),
        };
        let o = Rc::new(o);
        self.ginit.insert(g, o.clone());
        Ok(o)
    }

    // ---- memory ----------------------------------------------------------------------------
    fn alloc(&mut self, n: usize) -> u64 {
        let o = Rc::new(Obj::new(n));
        let st = &mut self.st;
        let i = if let Some(i) = st.free.pop() {
            st.mem[i as usize] = Some(o);
            i
        } else {
            st.mem.push(Some(o));
            (st.mem.len() - 1) as u32
        };
        (i as u64 + 1) << 32
    }
    fn loc(&mut self, a: u64, n: usize) -> R<(u64, usize)> {
        let id = a >> 32;
        let off = (a & 0xffff_ffff) as usize;
        let _ = n;
        if id == 0 || id >= F_BASE {
            return Err(Stop::Err(format!("bad address {:#x} ({})", a, self.whereami())));
        }
        Ok((id, off))
    }
    fn obj(&mut self, id: u64) -> R<Rc<Obj>> {
        if id <= OBJ_MAX {
            match self.st.mem.get((id - 1) as usize) {
                Some(Some(o)) => Ok(o.clone()),
                _ => Err(Stop::Err(format!("dangling pointer ({})", self.whereami()))),
            }
        } else {
            let g = (id - G_BASE) as u32;
            if let Some(o) = self.st.gmem.get(&g) {
                return Ok(o.clone());
            }
            self.global_obj(g)
        }
    }
    fn with_obj_mut<T>(&mut self, id: u64, f: impl FnOnce(&mut Obj, &mut Pool) -> T) -> R<T> {
        if id <= OBJ_MAX {
            let ok = matches!(self.st.mem.get((id - 1) as usize), Some(Some(_)));
            if !ok {
                return Err(Stop::Err(format!("dangling pointer ({})", self.whereami())));
            }
            let o = self.st.mem[(id - 1) as usize].as_mut().unwrap();
            Ok(f(Rc::make_mut(o), &mut self.p))
        } else {
            let g = (id - G_BASE) as u32;
            if !self.st.gmem.contains_key(&g) {
                let o = self.global_obj(g)?;
                self.st.gmem.insert(g, o);
            }
            let o = self.st.gmem.get_mut(&g).unwrap();
            Ok(f(Rc::make_mut(o), &mut self.p))
        }
    }
    fn bounds(&mut self, id: u64, off: usize, n: usize, len: usize) -> R<()> {
        if off + n > len {
            return Err(Stop::Err(format!("out-of-bounds access of {} bytes at {} in object {:#x} of {} ({})", n, off, id, len, self.whereami())));
        }
        Ok(())
    }
    fn load_scalar(&mut self, a: u64, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as usize;
        let (id, off) = self.loc(a, n)?;
        // fast path
        if id <= OBJ_MAX {
            if let Some(Some(o)) = self.st.mem.get((id - 1) as usize) {
                if o.sym.is_none() && off + n <= o.data.len() && n <= 8 {
                    let mut b = [0u8; 8];
                    b[..n].copy_from_slice(&o.data[off..off + n]);
                    let v = u64::from_le_bytes(b);
                    return Ok(V::C(if w < 64 { v & ((1u64 << w) - 1) } else { v }));
                }
            }
        }
        let o = self.obj(id)?;
        self.bounds(id, off, n, o.data.len())?;
        if o.sym.is_some() && o.has_sym(off, n) {
            let e = o.get_e(&mut self.p, off, n);
            let e = if (n * 8) as u32 != w { self.p.ext(e, 0, w) } else { e };
            return Ok(self.from_e(e));
        }
        let mut b = [0u8; 16];
        b[..n].copy_from_slice(&o.data[off..off + n]);
        Ok(mkc(u128::from_le_bytes(b), w))
    }
    fn store_scalar(&mut self, a: u64, w: u32, v: &V) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        let (id, off) = self.loc(a, n)?;
        let len = if id <= OBJ_MAX {
            match self.st.mem.get((id - 1) as usize) {
                Some(Some(o)) => o.data.len(),
                _ => return Err(Stop::Err(format!("dangling pointer ({})", self.whereami()))),
            }
        } else {
            self.obj(id)?.data.len()
        };
        self.bounds(id, off, n, len)?;
        match v {
            V::C(x) => {
                let b = x.to_le_bytes();
                if n <= 8 {
                    self.with_obj_mut(id, |o, p| o.put_bytes(p, off, &b[..n]))
                } else {
                    let b = (*x as u128).to_le_bytes();
                    self.with_obj_mut(id, |o, p| o.put_bytes(p, off, &b[..n]))
                }
            }
            V::W(x) => {
                let b = x.to_le_bytes();
                self.with_obj_mut(id, |o, p| o.put_bytes(p, off, &b[..n]))
            }
            V::U => self.with_obj_mut(id, |o, p| o.put_bytes(p, off, &vec![0u8; n])),
            V::S(e) => {
                let mut e = *e;
                if self.p.width(e) != (n * 8) as u32 {
                    e = self.p.zext(e, (n * 8) as u32);
                }
                self.with_obj_mut(id, |o, p| o.put_e(p, off, e))
            }
            V::A(_) => Err(Stop::Err("aggregate stored as a scalar".into())),
        }
    }
    fn load(&mut self, a: u64, t: TyId) -> R<V> {
        match self.m.types.ty(t) {
            Ty::Int(w) => {
                let w = *w;
                self.load_scalar(a, w)
            }
            Ty::F64 | Ty::Ptr => self.load_scalar(a, 64),
            Ty::F32 => self.load_scalar(a, 32),
            Ty::Struct(fs, _) => {
                let fs = fs.clone();
                let l = self.m.types.layout(t);
                let mut v = Vec::with_capacity(fs.len());
                for (k, f) in fs.iter().enumerate() {
                    v.push(self.load(a + l.offs[k], *f)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Array(n, e) => {
                let (n, e) = (*n, *e);
                let s = self.m.types.layout(e).size;
                let mut v = vec![];
                for k in 0..n {
                    v.push(self.load(a + k * s, e)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Vector(n, e) => {
                let (n, e) = (*n, *e);
                let w = self.m.types.bits(e);
                if w % 8 != 0 {
                    return Err(Stop::Err("load of a vector of odd width".into()));
                }
                let mut v = vec![];
                for k in 0..n {
                    v.push(self.load_scalar(a + k * (w / 8) as u64, w)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            x => Err(Stop::Err(format!("load of {:?}", x))),
        }
    }
    fn store(&mut self, a: u64, t: TyId, v: &V) -> R<()> {
        match self.m.types.ty(t) {
            Ty::Int(w) => {
                let w = *w;
                self.store_scalar(a, w, v)
            }
            Ty::F64 | Ty::Ptr => self.store_scalar(a, 64, v),
            Ty::F32 => self.store_scalar(a, 32, v),
            Ty::Struct(fs, _) => {
                let fs = fs.clone();
                let l = self.m.types.layout(t);
                for (k, f) in fs.iter().enumerate() {
                    let x = match v {
                        V::A(x) => x[k].clone(),
                        _ => V::U,
                    };
                    self.store(a + l.offs[k], *f, &x)?;
                }
                Ok(())
            }
            Ty::Array(n, e) => {
                let (n, e) = (*n, *e);
                let s = self.m.types.layout(e).size;
                for k in 0..n {
                    let x = match v {
                        V::A(x) => x[k as usize].clone(),
                        _ => V::U,
                    };
                    self.store(a + k * s, e, &x)?;
                }
                Ok(())
            }
            Ty::Vector(n, e) => {
                let (n, e) = (*n, *e);
                let w = self.m.types.bits(e);
                if w % 8 != 0 {
                    return Err(Stop::Err("store of a vector of odd width".into()));
                }
                for k in 0..n {
                    let x = match v {
                        V::A(x) => x[k as usize].clone(),
                        _ => V::U,
                    };
                    self.store_scalar(a + k * (w / 8) as u64, w, &x)?;
                }
                Ok(())
            }
            x => Err(Stop::Err(format!("store of {:?}", x))),
        }
    }
    fn copy(&mut self, d: u64, s: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.loc(s, n)?;
        let (di, dof) = self.loc(d, n)?;
        let o = self.obj(si)?;
        self.bounds(si, so, n, o.data.len())?;
        let dl = self.obj(di)?.data.len();
        self.bounds(di, dof, n, dl)?;
        let bytes = o.data[so..so + n].to_vec();
        let cells = if o.sym.is_some() { o.cells(&mut self.p, so, n) } else { vec![] };
        drop(o);
        self.with_obj_mut(di, |o, p| {
            o.put_bytes(p, dof, &bytes);
            for (k, e) in cells {
                o.put_e(p, dof + k as usize, e);
            }
        })
    }
    fn bytes(&mut self, a: u64, n: usize) -> R<Vec<u8>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (id, off) = self.loc(a, n)?;
        let o = self.obj(id)?;
        self.bounds(id, off, n, o.data.len())?;
        Ok(o.data[off..off + n].to_vec())
    }

    // ---- values ----------------------------------------------------------------------------
    fn from_e(&mut self, e: E) -> V {
        match self.p.as_c(e) {
            Some(v) => mkc(v, self.p.width(e)),
            None => {
                // values fixed on this path
                if let Some(&v) = self.st.conc.get(&e) {
                    return V::C(v);
                }
                V::S(e)
            }
        }
    }
    fn to_e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(x) => self.p.c(*x as u128, w),
            V::W(x) => self.p.c(**x, w),
            V::S(e) => *e,
            V::U => self.p.c(0, w),
            V::A(_) => panic!("aggregate used as a scalar"),
        }
    }
    fn op(&self, fr: &Frame, o: Op) -> V {
        match o {
            Op::Slot(s) => fr.regs[s as usize].clone(),
            Op::Const(c) => fr.f.cvals[c as usize].clone(),
        }
    }

    // ---- decisions -------------------------------------------------------------------------
    fn ev(&mut self, e: E) -> u128 {
        let st = &mut *self.st;
        self.p.eval(e, &st.model, &mut st.memo)
    }
    fn slice(&mut self, c: E) -> Vec<E> {
        let mut vs: HashSet<u32> = self.p.vars_of(c).iter().copied().collect();
        let pc = self.st.pc.clone();
        let sets: Vec<Rc<Vec<u32>>> = pc.iter().map(|&e| self.p.vars_of(e)).collect();
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if !used[i] && sets[i].iter().any(|v| vs.contains(v)) {
                    used[i] = true;
                    vs.extend(sets[i].iter());
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut out: Vec<E> = (0..pc.len()).filter(|&i| used[i]).map(|i| pc[i]).collect();
        out.push(c);
        out
    }
    /// is pc && c satisfiable?
    fn feasible(&mut self, c: E) -> Res {
        if self.p.as_c(c) == Some(0) {
            return Res::Unsat;
        }
        let cs = self.slice(c);
        if let Some(m) = self.guess(c, &cs) {
            self.sv.st.guessed += 1;
            return Res::Sat(Rc::new(m));
        }
        match self.sv.check(&mut self.p, &cs) {
            Res::Sat(m) => {
                let mut n = (*self.st.model).clone();
                for (k, v) in m.iter() {
                    n.insert(*k, *v);
                }
                Res::Sat(Rc::new(n))
            }
            r => r,
        }
    }
    /// cheap search for a model: single-variable changes of the current one
    fn guess(&mut self, c: E, cs: &[E]) -> Option<Model> {
        let vars = self.p.vars_of(c);
        if vars.len() > 12 {
            return None;
        }
        let mut all: BTreeSet<u32> = BTreeSet::new();
        for &e in cs {
            all.extend(self.p.vars_of(e).iter());
        }
        for &v in vars.iter() {
            let w = self.p.vars[v as usize].1 as u32;
            let mut cand: HashSet<u128> = HashSet::new();
            self.p.consts_of(c, &mut cand, w);
            for o in all.iter() {
                if self.p.vars[*o as usize].1 as u32 == w {
                    cand.insert(self.st.model.get(o).copied().unwrap_or(0));
                }
            }
            let base: Vec<u128> = cand.iter().copied().collect();
            for b in base {
                cand.insert(mask128(b.wrapping_add(1), w));
                cand.insert(mask128(b.wrapping_sub(1), w));
                if w == 64 {
                    let x = f64::from_bits(b as u64);
                    if x.is_finite() {
                        for y in [x + 1.0, x - 1.0, x * 2.0, x * 0.5, -x] {
                            cand.insert(y.to_bits() as u128);
                        }
                    }
                }
            }
            cand.insert(0);
            cand.insert(1);
            if w == 64 {
                for x in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1.0, -1.0, f64::MAX, f64::MIN, 5e-324] {
                    cand.insert(x.to_bits() as u128);
                }
            }
            let mut cl: Vec<u128> = cand.into_iter().collect();
            cl.sort();
            if cl.len() > 80 {
                cl.truncate(80);
            }
            let mut m = (*self.st.model).clone();
            for x in cl {
                m.insert(v, x);
                let mut memo = HashMap::new();
                if self.p.eval(c, &m, &mut memo) != 1 {
                    continue;
                }
                if cs.iter().all(|&e| self.p.eval(e, &m, &mut memo) == 1) {
                    return Some(m);
                }
            }
        }
        None
    }
    fn add_pc(&mut self, c: E) {
        self.st.pc.push(c);
        self.learn(c);
    }
    fn learn(&mut self, c: E) {
        self.st.facts.insert(c, true);
        let n = self.p.not(c);
        self.st.facts.insert(n, false);
        match *self.p.n(c) {
            N::Cmp(COp::Eq, a, b) => {
                if let Some(v) = self.p.as_c(b) {
                    if self.p.width(a) <= 64 {
                        self.st.conc.insert(a, v as u64);
                    }
                }
            }
            N::Bin(BOp::And, a, b) if self.p.width(c) == 1 => {
                self.learn(a);
                self.learn(b);
            }
            N::Not(x) => {
                if let N::Bin(BOp::Or, a, b) = *self.p.n(x) {
                    let na = self.p.not(a);
                    let nb = self.p.not(b);
                    self.learn(na);
                    self.learn(nb);
                }
            }
            N::FCmp(FC::Olt, a, b) => {
                // consequences that need no solver
                let e1 = self.p.fcmp(FC::Olt, b, a);
                let e2 = self.p.fcmp(FC::Ole, b, a);
                let e3 = self.p.fcmp(FC::Oeq, a, b);
                let e4 = self.p.fcmp(FC::Ole, a, b);
                self.st.facts.insert(e1, false);
                self.st.facts.insert(e2, false);
                self.st.facts.insert(e3, false);
                self.st.facts.insert(e4, true);
                for x in [a, b] {
                    let n = self.p.isnan(x);
                    if self.p.as_c(n).is_none() {
                        self.st.facts.insert(n, false);
                    }
                }
            }
            N::FCmp(_, a, b) => {
                for x in [a, b] {
                    let n = self.p.isnan(x);
                    if self.p.as_c(n).is_none() {
                        self.st.facts.insert(n, false);
                    }
                }
            }
            _ => {}
        }
    }
    fn known(&mut self, c: E) -> Option<bool> {
        if let Some(v) = self.p.as_c(c) {
            return Some(v == 1);
        }
        if let Some(&b) = self.st.facts.get(&c) {
            return Some(b);
        }
        if let N::Not(x) = *self.p.n(c) {
            if let Some(&b) = self.st.facts.get(&x) {
                return Some(!b);
            }
        }
        None
    }
    /// splits the path on a condition; the other side (if feasible) is queued
    pub fn decide(&mut self, c: E) -> R<bool> {
        if let Some(b) = self.known(c) {
            return Ok(b);
        }
        let v = self.ev(c) == 1;
        let n = self.p.not(c);
        let (cur, other) = if v { (c, n) } else { (n, c) };
        match self.feasible(other) {
            Res::Sat(m) => {
                self.forks += 1;
                let mut alt = (*self.st).clone();
                alt.model = m;
                alt.memo = HashMap::new();
                alt.depth += 1;
                self.st.depth += 1;
                self.add_pc(cur);
                std::mem::swap(&mut *self.st, &mut alt);
                self.add_pc(other);
                std::mem::swap(&mut *self.st, &mut alt);
                self.max_depth = self.max_depth.max(self.st.depth);
                self.work.push(alt);
            }
            Res::Unsat => {
                // implied: remember without adding a constraint
                self.learn(cur);
            }
            Res::Unknown(w) => {
                let loc = self.whereami();
                self.undecided.push(format!("branch at {}: {}", loc, w));
                self.add_pc(cur);
            }
        }
        Ok(v)
    }
    /// fixes an expression to one value; other values are queued as alternatives
    pub fn concretize(&mut self, e: E) -> R<u64> {
        if let Some(v) = self.p.as_c(e) {
            return Ok(v as u64);
        }
        if let Some(&v) = self.st.conc.get(&e) {
            return Ok(v);
        }
        let w = self.p.width(e);
        loop {
            let v = self.ev(e);
            let k = self.p.c(v, w);
            let c = self.p.eq(e, k);
            // decide() follows the side of the current model, i.e. equality
            let r = self.decide(c)?;
            if r {
                self.st.conc.insert(e, v as u64);
                return Ok(v as u64);
            }
        }
    }
    fn cv(&mut self, v: &V) -> R<u64> {
        match v {
            V::C(x) => Ok(*x),
            V::U => Ok(0),
            V::S(e) => self.concretize(*e),
            V::W(x) => Ok(**x as u64),
            V::A(_) => Err(Stop::Err("aggregate used as an integer".into())),
        }
    }
    fn cbool(&mut self, v: &V) -> R<bool> {
        match v {
            V::C(x) => Ok(*x & 1 == 1),
            V::U => Ok(false),
            V::S(e) => self.decide(*e),
            _ => Err(Stop::Err("bad condition".into())),
        }
    }

    pub fn whereami(&self) -> String {
        let mut s = String::new();
        for fr in self.st.frames.iter().rev().take(6) {
            if !s.is_empty() {
                s.push_str(" < ");
            }
            let n = crate::short_name(&fr.f.f.name);
            s.push_str(&n);
            let d = fr.f.f.dbg.get(fr.pc).copied().unwrap_or(u32::MAX);
            if let Some(l) = crate::dbg_line(&self.m, d) {
                s.push_str(&format!("@{}", l));
            }
        }
        s
    }

    // ---- arithmetic ------------------------------------------------------------------------
    fn lanes(&mut self, t: TyId) -> Option<(u64, TyId)> {
        match self.m.types.ty(t) {
            Ty::Vector(n, e) => Some((*n, *e)),
            _ => None,
        }
    }
    fn lane(v: &V, k: usize) -> V {
        match v {
            V::A(x) => x[k].clone(),
            _ => V::U,
        }
    }
    fn bin(&mut self, op: BinOp, t: TyId, a: &V, b: &V) -> R<V> {
        if let Some((n, et)) = self.lanes(t) {
            let mut v = Vec::with_capacity(n as usize);
            for k in 0..n as usize {
                v.push(self.bin(op, et, &Self::lane(a, k), &Self::lane(b, k))?);
            }
            return Ok(V::A(Rc::new(v)));
        }
        let w = self.m.types.bits(t);
        self.bin_w(op, w, a, b)
    }
    fn bin_w(&mut self, op: BinOp, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                let r = match op {
                    BinOp::Add => x.wrapping_add(y),
                    BinOp::Sub => x.wrapping_sub(y),
                    BinOp::Mul => x.wrapping_mul(y),
                    BinOp::And => x & y,
                    BinOp::Or => x | y,
                    BinOp::Xor => x ^ y,
                    BinOp::Shl => if y >= w as u64 { 0 } else { x << y },
                    BinOp::LShr => if y >= w as u64 { 0 } else { x >> y },
                    _ => ev_bin(conv_bin(op), w, x as u128, y as u128) as u64,
                };
                return Ok(V::C(r & m));
            }
        }
        let conc = |v: &V| match v {
            V::C(x) => Some(*x as u128),
            V::W(x) => Some(**x),
            V::U => Some(0),
            _ => None,
        };
        if let (Some(x), Some(y)) = (conc(a), conc(b)) {
            return Ok(mkc(ev_bin(conv_bin(op), w, x, y), w));
        }
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let e = self.p.bin(conv_bin(op), x, y);
        Ok(self.from_e(e))
    }
    fn fbin(&mut self, op: FBinOp, t: TyId, a: &V, b: &V) -> R<V> {
        if let Some((n, et)) = self.lanes(t) {
            let mut v = vec![];
            for k in 0..n as usize {
                v.push(self.fbin(op, et, &Self::lane(a, k), &Self::lane(b, k))?);
            }
            return Ok(V::A(Rc::new(v)));
        }
        if matches!(self.m.types.ty(t), Ty::F32) {
            let x = f32::from_bits(self.cv(a)? as u32);
            let y = f32::from_bits(self.cv(b)? as u32);
            let r = match op {
                FBinOp::Add => x + y,
                FBinOp::Sub => x - y,
                FBinOp::Mul => x * y,
                FBinOp::Div => x / y,
                FBinOp::Rem => x % y,
            };
            return Ok(V::C(r.to_bits() as u64));
        }
        if let (V::C(x), V::C(y)) = (a, b) {
            return Ok(V::C(ev_fbin(conv_fbin(op), *x as u128, *y as u128) as u64));
        }
        let x = self.to_e(a, 64);
        let y = self.to_e(b, 64);
        let e = self.p.fbin(conv_fbin(op), x, y);
        Ok(self.from_e(e))
    }
    fn icmp_w(&mut self, p: IPred, w: u32, a: &V, b: &V) -> R<V> {
        let (op, sw, neg) = match p {
            IPred::Eq => (COp::Eq, false, false),
            IPred::Ne => (COp::Eq, false, true),
            IPred::Ult => (COp::Ult, false, false),
            IPred::Ule => (COp::Ule, false, false),
            IPred::Ugt => (COp::Ult, true, false),
            IPred::Uge => (COp::Ule, true, false),
            IPred::Slt => (COp::Slt, false, false),
            IPred::Sle => (COp::Sle, false, false),
            IPred::Sgt => (COp::Slt, true, false),
            IPred::Sge => (COp::Sle, true, false),
        };
        let (a, b) = if sw { (b, a) } else { (a, b) };
        let conc = |v: &V| match v {
            V::C(x) => Some(*x as u128),
            V::W(x) => Some(**x),
            V::U => Some(0),
            _ => None,
        };
        if let (Some(x), Some(y)) = (conc(a), conc(b)) {
            return Ok(V::C((ev_cmp(op, w, x, y) != neg) as u64));
        }
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let e = self.p.cmp(op, x, y);
        let e = if neg { self.p.not(e) } else { e };
        Ok(self.bool_v(e))
    }
    fn bool_v(&mut self, e: E) -> V {
        match self.known(e) {
            Some(b) => V::C(b as u64),
            None => V::S(e),
        }
    }
    fn icmp(&mut self, p: IPred, t: TyId, a: &V, b: &V) -> R<V> {
        if let Some((n, et)) = self.lanes(t) {
            let mut v = vec![];
            for k in 0..n as usize {
                v.push(self.icmp(p, et, &Self::lane(a, k), &Self::lane(b, k))?);
            }
            return Ok(V::A(Rc::new(v)));
        }
        let w = self.m.types.bits(t);
        self.icmp_w(p, w, a, b)
    }
    fn fcmp(&mut self, p: FPred, t: TyId, a: &V, b: &V) -> R<V> {
        if let Some((n, et)) = self.lanes(t) {
            let mut v = vec![];
            for k in 0..n as usize {
                v.push(self.fcmp(p, et, &Self::lane(a, k), &Self::lane(b, k))?);
            }
            return Ok(V::A(Rc::new(v)));
        }
        let f32t = matches!(self.m.types.ty(t), Ty::F32);
        let (a, b) = if f32t {
            let x = self.cv(a)?;
            let y = self.cv(b)?;
            (V::C((f32::from_bits(x as u32) as f64).to_bits()), V::C((f32::from_bits(y as u32) as f64).to_bits()))
        } else {
            (a.clone(), b.clone())
        };
        if let (V::C(x), V::C(y)) = (&a, &b) {
            let (x, y) = (f64::from_bits(*x), f64::from_bits(*y));
            let un = x.is_nan() || y.is_nan();
            let r = match p {
                FPred::False => false,
                FPred::Oeq => x == y,
                FPred::Ogt => x > y,
                FPred::Oge => x >= y,
                FPred::Olt => x < y,
                FPred::Ole => x <= y,
                FPred::One => !un && x != y,
                FPred::Ord => !un,
                FPred::Ueq => un || x == y,
                FPred::Ugt => un || x > y,
                FPred::Uge => un || x >= y,
                FPred::Ult => un || x < y,
                FPred::Ule => un || x <= y,
                FPred::Une => un || x != y,
                FPred::Uno => un,
                FPred::True => true,
            };
            return Ok(V::C(r as u64));
        }
        let x = self.to_e(&a, 64);
        let y = self.to_e(&b, 64);
        let e = match p {
            FPred::False => self.p.bool(false),
            FPred::True => self.p.bool(true),
            FPred::Oeq => self.p.fcmp(FC::Oeq, x, y),
            FPred::Olt => self.p.fcmp(FC::Olt, x, y),
            FPred::Ole => self.p.fcmp(FC::Ole, x, y),
            FPred::Ogt => self.p.fcmp(FC::Olt, y, x),
            FPred::Oge => self.p.fcmp(FC::Ole, y, x),
            FPred::Une => {
                let e = self.p.fcmp(FC::Oeq, x, y);
                self.p.not(e)
            }
            FPred::Uge => {
                let e = self.p.fcmp(FC::Olt, x, y);
                self.p.not(e)
            }
            FPred::Ugt => {
                let e = self.p.fcmp(FC::Ole, x, y);
                self.p.not(e)
            }
            FPred::Ule => {
                let e = self.p.fcmp(FC::Olt, y, x);
                self.p.not(e)
            }
            FPred::Ult => {
                let e = self.p.fcmp(FC::Ole, y, x);
                self.p.not(e)
            }
            FPred::One => {
                let e = self.p.fcmp(FC::Olt, x, y);
                let g = self.p.fcmp(FC::Olt, y, x);
                self.p.or(e, g)
            }
            FPred::Ueq => {
                let e = self.p.fcmp(FC::Olt, x, y);
                let g = self.p.fcmp(FC::Olt, y, x);
                let o = self.p.or(e, g);
                self.p.not(o)
            }
            FPred::Ord | FPred::Uno => {
                let e = self.p.isnan(x);
                let g = self.p.isnan(y);
                let o = self.p.or(e, g);
                if p == FPred::Uno { o } else { self.p.not(o) }
            }
        };
        Ok(self.bool_v(e))
    }
    fn bits_of(&mut self, v: &V, t: TyId, out: &mut Vec<E>) {
        // little-endian list of 1-bit expressions
        match self.m.types.ty(t).clone() {
            Ty::Vector(n, e) => {
                for k in 0..n as usize {
                    let x = Self::lane(v, k);
                    self.bits_of(&x, e, out);
                }
            }
            _ => {
                let w = self.m.types.bits(t);
                let e = self.to_e(v, w);
                for k in 0..w {
                    let b = self.p.ext(e, k, 1);
                    out.push(b);
                }
            }
        }
    }
    fn cast(&mut self, op: CastOp, from: TyId, to: TyId, a: &V) -> R<V> {
        if op == CastOp::Bitcast {
            let vec_involved = self.lanes(from).is_some() || self.lanes(to).is_some();
            if !vec_involved {
                return Ok(a.clone());
            }
            if from == to {
                return Ok(a.clone());
            }
            let mut bits = vec![];
            self.bits_of(a, from, &mut bits);
            let mut join = |s: &mut Self, bs: &[E]| -> V {
                let mut e = bs[0];
                for &b in &bs[1..] {
                    e = s.p.cat(b, e);
                }
                s.from_e(e)
            };
            return Ok(match self.m.types.ty(to).clone() {
                Ty::Vector(n, e) => {
                    let w = self.m.types.bits(e) as usize;
                    let mut v = vec![];
                    for k in 0..n as usize {
                        v.push(join(self, &bits[k * w..(k + 1) * w]));
                    }
                    V::A(Rc::new(v))
                }
                _ => join(self, &bits),
            });
        }
        if let Some((n, et)) = self.lanes(from) {
            let (_, tt) = self.lanes(to).unwrap();
            let mut v = vec![];
            for k in 0..n as usize {
                v.push(self.cast(op, et, tt, &Self::lane(a, k))?);
            }
            return Ok(V::A(Rc::new(v)));
        }
        let wf = self.m.types.bits(from);
        let wt = self.m.types.bits(to);
        if let V::U = a {
            return Ok(mkc(0, wt));
        }
        let f32f = matches!(self.m.types.ty(from), Ty::F32);
        let f32t = matches!(self.m.types.ty(to), Ty::F32);
        let a = if f32f {
            let x = f32::from_bits(self.cv(a)? as u32);
            if op == CastOp::FpExt {
                return Ok(V::C((x as f64).to_bits()));
            }
            V::C((x as f64).to_bits())
        } else {
            a.clone()
        };
        if op == CastOp::FpTrunc {
            let x = f64::from_bits(self.cv(&a)?);
            return Ok(V::C((x as f32).to_bits() as u64));
        }
        if f32t {
            let x = self.cv(&a)?;
            let r = match op {
                CastOp::UiToFp => x as f32,
                _ => sext128(x as u128, wf) as f32,
            };
            return Ok(V::C(r.to_bits() as u64));
        }
        if let V::C(x) = a {
            if wf <= 64 {
                let x = x as u128;
                return Ok(match op {
                    CastOp::Trunc | CastOp::ZExt => mkc(x, wt),
                    CastOp::SExt => mkc(sext128(x, wf) as u128, wt),
                    CastOp::FpToUi => mkc(ev_ftoi(false, wt, x), wt),
                    CastOp::FpToSi => mkc(ev_ftoi(true, wt, x), wt),
                    CastOp::UiToFp => V::C(ev_itof(false, wf, x) as u64),
                    CastOp::SiToFp => V::C(ev_itof(true, wf, x) as u64),
                    _ => V::C(x as u64),
                });
            }
        }
        if self.st.fork_sel && wf == 1 && wt >= 32 && matches!(op, CastOp::ZExt | CastOp::SExt) {
            if let V::S(e) = a {
                let one = if op == CastOp::SExt { sext128(1, 1) as u128 } else { 1 };
                return Ok(if self.decide(e)? { mkc(one, wt) } else { mkc(0, wt) });
            }
        }
        let e = self.to_e(&a, wf);
        let r = match op {
            CastOp::Trunc => self.p.ext(e, 0, wt),
            CastOp::ZExt => self.p.zext(e, wt),
            CastOp::SExt => self.p.sext(e, wt),
            CastOp::FpToUi => self.p.ftoi(false, e, wt),
            CastOp::FpToSi => self.p.ftoi(true, e, wt),
            CastOp::UiToFp => self.p.itof(false, e),
            CastOp::SiToFp => self.p.itof(true, e),
            _ => e,
        };
        Ok(self.from_e(r))
    }
    fn select(&mut self, c: &V, t: TyId, a: V, b: V) -> R<V> {
        match c {
            V::C(x) => Ok(if x & 1 == 1 { a } else { b }),
            V::U => Ok(b),
            V::A(cs) => {
                let et = self.lanes(t).unwrap().1;
                let cs = cs.clone();
                let mut v = vec![];
                for (k, c) in cs.iter().enumerate() {
                    v.push(self.select(c, et, Self::lane(&a, k), Self::lane(&b, k))?);
                }
                Ok(V::A(Rc::new(v)))
            }
            V::S(e) => {
                let e = *e;
                if let Some(k) = self.known(e) {
                    return Ok(if k { a } else { b });
                }
                let both_c = |a: &V, b: &V| matches!(a, V::C(_) | V::U) || matches!(b, V::C(_) | V::U);
                let fork = match self.m.types.ty(t) {
                    Ty::Int(1) => false,
                    // concrete integers stay concrete: one path per arm (on request, for runs whose numerics must not become symbolic)
                    Ty::Int(w) if self.st.fork_sel && *w >= 32 && *w <= 64 => matches!((&a, &b), (V::C(_), V::C(_))),
                    Ty::Int(w) if *w <= 128 => false,
                    Ty::F64 => both_c(&a, &b),
                    _ => true,
                };
                if let (V::C(x), V::C(y)) = (&a, &b) {
                    if x == y {
                        return Ok(a);
                    }
                }
                if fork {
                    return Ok(if self.decide(e)? { a } else { b });
                }
                let w = self.m.types.bits(t);
                let x = self.to_e(&a, w);
                let y = self.to_e(&b, w);
                let r = self.p.ite(e, x, y);
                Ok(if w == 1 { self.bool_v(r) } else { self.from_e(r) })
            }
            V::W(_) => Err(Stop::Err("bad select".into())),
        }
    }

    // ---- main loop -------------------------------------------------------------------------
    pub fn run(&mut self, gid: u32) {
        // errno cell
        let a = self.alloc(8);
        self.errno_obj = (a >> 32) as u32;
        let fx = self.func(gid);
        let regs = vec![V::U; fx.f.nslots as usize];
        let block = fx.entry;
        self.st.frames.push(Frame { f: fx, regs, pc: 0, block, allocas: vec![], dst: None });
        let debug = std::env::var("IRSYM_DEBUG").is_ok();
        loop {
            let r = self.path();
            match r {
                Stop::End(w) => {
                    if w == "infeasible" {
                        self.infeasible += 1;
                    } else {
                        self.paths += 1;
                        *self.outcomes.entry(w.clone()).or_default() += 1;
                        self.sample();
                    }
                }
                Stop::Err(w) => {
                    if debug {
                        eprintln!("path error: {} at {}", w, self.whereami());
                    }
                    let s = format!("{} at {}", w, self.whereami());
                    *self.errors.entry(s).or_default() += 1;
                }
            }
            if debug && (self.paths + self.infeasible) % 500 == 0 {
                eprintln!("paths {} pending {} forks {} steps {} queries {} time {:.1}", self.paths, self.work.len(), self.forks, self.steps, self.sv.st.queries, self.start.elapsed().as_secs_f64());
            }
            if self.viol.len() >= self.cfg.max_viol {
                self.complete = self.work.is_empty();
                break;
            }
            // one violation decides the instance: look for a few more of them, briefly
            if !self.viol.is_empty() && self.cfg.time_limit > self.start.elapsed().as_secs_f64() + 5.0 && !self.limited {
                self.limited = true;
                self.cfg.time_limit = self.start.elapsed().as_secs_f64() + 5.0;
            }
            if self.start.elapsed().as_secs_f64() > self.cfg.time_limit && !self.work.is_empty() {
                self.complete = false;
                break;
            }
            match self.work.pop() {
                Some(s) => *self.st = s,
                None => break,
            }
        }
    }

    fn sample(&mut self) {
        // the first paths, then a thinning sample of the rest
        let n = self.paths;
        let keep = self.samples.len() < self.cfg.max_samples;
        if !keep {
            // deterministic reservoir
            let h = n.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 20;
            if h % n >= self.cfg.max_samples as u64 {
                return;
            }
        }
        let ins = self.st.inputs.clone();
        let iv: Vec<u64> = ins.iter().map(|&e| self.ev(e) as u64).collect();
        let obs = self.st.obs.clone();
        let mut ov = vec![];
        for o in obs.iter() {
            let v = match o {
                V::C(x) => *x,
                V::S(e) => self.ev(*e) as u64,
                _ => 0,
            };
            ov.push(v);
        }
        if keep {
            self.samples.push((iv, ov));
        } else {
            let k = (n.wrapping_mul(0xD134_2543_DE82_EF95) >> 24) as usize % self.cfg.max_samples.max(1);
            self.samples[k] = (iv, ov);
        }
    }

    fn violation(&mut self, msg: String, model: Option<Rc<Model>>) {
        let k = self.viol_seen.entry(msg.clone()).or_default();
        *k += 1;
        if *k > 3 {
            return;
        }
        let ins = self.st.inputs.clone();
        let iv: Vec<u64> = match model {
            Some(m) => {
                let mut memo = HashMap::new();
                ins.iter().map(|&e| self.p.eval(e, &m, &mut memo) as u64).collect()
            }
            None => ins.iter().map(|&e| self.ev(e) as u64).collect(),
        };
        let at = self.whereami();
        self.viol.push(Violation { msg, at, inputs: iv });
    }

    fn path(&mut self) -> Stop {
        let mut path_steps: u64 = 0;
        loop {
            let fi = self.st.frames.len() - 1;
            let fx = self.st.frames[fi].f.clone();
            // run inside this frame until control leaves it
            loop {
                let pc = self.st.frames[fi].pc;
                self.steps += 1;
                path_steps += 1;
                if path_steps & 0xfffff == 0 {
                    if path_steps > self.cfg.max_steps {
                        return Stop::Err("step limit".into());
                    }
                    if self.start.elapsed().as_secs_f64() > self.cfg.time_limit * 1.2 {
                        self.complete = false;
                        return Stop::Err("time limit inside a path".into());
                    }
                }
                {
                    let mut c = fx.cov.borrow_mut();
                    c[pc] = true;
                }
                match self.step(&fx, pc, fi) {
                    Ok(Flow::Next) => self.st.frames[fi].pc = pc + 1,
                    Ok(Flow::Stay) => {}
                    Ok(Flow::Frame) => break,
                    Err(s) => return s,
                }
            }
        }
    }

    fn jump(&mut self, fx: &Rc<FuncX>, fi: usize, to: u32) {
        let fr = &mut self.st.frames[fi];
        let from = fr.block;
        let b = &fx.f.blocks[to as usize];
        if !b.phis.is_empty() {
            let k = b.preds.iter().position(|&p| p == from).expect("phi predecessor");
            if b.phis.len() == 1 {
                let (d, ops) = &b.phis[0];
                let v = match ops[k] {
                    Op::Slot(s) => fr.regs[s as usize].clone(),
                    Op::Const(c) => fx.cvals[c as usize].clone(),
                };
                fr.regs[*d as usize] = v;
            } else {
                let vals: Vec<V> = b
                    .phis
                    .iter()
                    .map(|(_, ops)| match ops[k] {
                        Op::Slot(s) => fr.regs[s as usize].clone(),
                        Op::Const(c) => fx.cvals[c as usize].clone(),
                    })
                    .collect();
                for ((d, _), v) in b.phis.iter().zip(vals) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        fr.block = to;
        fr.pc = b.start as usize;
    }

    fn set(&mut self, fi: usize, d: u32, v: V) {
        self.st.frames[fi].regs[d as usize] = v;
    }

    fn step(&mut self, fx: &Rc<FuncX>, pc: usize, fi: usize) -> R<Flow> {
        macro_rules! g {
            ($o:expr) => {
                match $o {
                    Op::Slot(s) => self.st.frames[fi].regs[s as usize].clone(),
                    Op::Const(c) => fx.cvals[c as usize].clone(),
                }
            };
        }
        match &fx.f.insts[pc] {
            Inst::Bin { op, ty, a, b, dst } => {
                let (x, y) = (g!(*a), g!(*b));
                let v = self.bin(*op, *ty, &x, &y)?;
                self.set(fi, *dst, v);
            }
            Inst::FBin { op, ty, a, b, dst } => {
                let (x, y) = (g!(*a), g!(*b));
                let v = self.fbin(*op, *ty, &x, &y)?;
                self.set(fi, *dst, v);
            }
            Inst::FNeg { ty, a, dst } => {
                let x = g!(*a);
                let v = self.fneg(*ty, &x)?;
                self.set(fi, *dst, v);
            }
            Inst::ICmp { p, ty, a, b, dst } => {
                let (x, y) = (g!(*a), g!(*b));
                let v = self.icmp(*p, *ty, &x, &y)?;
                self.set(fi, *dst, v);
            }
            Inst::FCmp { p, ty, a, b, dst } => {
                let (x, y) = (g!(*a), g!(*b));
                let v = self.fcmp(*p, *ty, &x, &y)?;
                self.set(fi, *dst, v);
            }
            Inst::Load { ty, ptr, dst } => {
                let a = g!(*ptr);
                let a = self.cv(&a)?;
                let v = self.load(a, *ty)?;
                self.set(fi, *dst, v);
            }
            Inst::Store { ty, val, ptr } => {
                let a = g!(*ptr);
                let a = self.cv(&a)?;
                let v = g!(*val);
                self.store(a, *ty, &v)?;
            }
            Inst::Gep { base, off, idx, dst } => {
                let b = g!(*base);
                if let V::A(_) = b {
                    return Err(Stop::Err("vector gep".into()));
                }
                let mut acc = b;
                if *off != 0 {
                    acc = self.bin_w(BinOp::Add, 64, &acc, &V::C(*off as u64))?;
                }
                for (o, w, scale) in idx {
                    let i = g!(*o);
                    let i = match i {
                        V::C(x) => V::C(sext128(x as u128, *w) as u64),
                        V::S(e) => {
                            let s = self.p.sext(e, 64);
                            V::S(s)
                        }
                        V::U => V::C(0),
                        _ => return Err(Stop::Err("gep index".into())),
                    };
                    let m = self.bin_w(BinOp::Mul, 64, &i, &V::C(*scale as u64))?;
                    acc = self.bin_w(BinOp::Add, 64, &acc, &m)?;
                }
                self.set(fi, *dst, acc);
            }
            Inst::Cast { op, from, to, a, dst } => {
                let x = g!(*a);
                let v = self.cast(*op, *from, *to, &x)?;
                self.set(fi, *dst, v);
            }
            Inst::Select { c, ty, a, b, dst, .. } => {
                let cv = g!(*c);
                let (x, y) = (g!(*a), g!(*b));
                let v = self.select(&cv, *ty, x, y)?;
                self.set(fi, *dst, v);
            }
            Inst::Br { to } => {
                self.jump(fx, fi, *to);
                return Ok(Flow::Stay);
            }
            Inst::CondBr { c, t, f } => {
                let cv = g!(*c);
                let b = self.cbool(&cv)?;
                self.jump(fx, fi, if b { *t } else { *f });
                return Ok(Flow::Stay);
            }
            Inst::Switch { w, v, def, cases } => {
                let x = g!(*v);
                let mut to = *def;
                match x {
                    V::S(e) => {
                        for (k, t) in cases {
                            let kc = self.p.c(*k as u128, *w);
                            let c = self.p.eq(e, kc);
                            if self.decide(c)? {
                                to = *t;
                                break;
                            }
                        }
                    }
                    x => {
                        let x = self.cv(&x)?;
                        if let Some((_, t)) = cases.iter().find(|(k, _)| *k == x) {
                            to = *t;
                        }
                    }
                }
                self.jump(fx, fi, to);
                return Ok(Flow::Stay);
            }
            Inst::Ret { v } => {
                let r = v.map(|o| g!(o));
                let fr = self.st.frames.pop().unwrap();
                for a in fr.allocas {
                    self.st.mem[a as usize] = None;
                    self.st.free.push(a);
                }
                if self.st.frames.is_empty() {
                    return Err(Stop::End("returned".into()));
                }
                let fi = self.st.frames.len() - 1;
                if let (Some(d), Some(r)) = (fr.dst, r) {
                    self.set(fi, d, r);
                }
                self.st.frames[fi].pc += 1;
                // an invoke continues at its normal destination
                let cfx = self.st.frames[fi].f.clone();
                let cpc = self.st.frames[fi].pc - 1;
                if let Inst::Call(c) = &cfx.f.insts[cpc] {
                    if let Some(n) = c.normal {
                        self.jump(&cfx, fi, n);
                    }
                }
                return Ok(Flow::Frame);
            }
            Inst::Call(c) => {
                let mut args: Vec<V> = Vec::with_capacity(c.args.len());
                for (_, o) in &c.args {
                    args.push(g!(*o));
                }
                let gid = match &c.callee {
                    Callee::Global(g) => *g,
                    Callee::Asm => {
                        if let Some(d) = c.dst {
                            let z = self.zero(c.ret);
                            self.set(fi, d, z);
                        }
                        return Ok(Flow::Next);
                    }
                    Callee::Ind(o) => {
                        let v = g!(*o);
                        let a = self.cv(&v)?;
                        if (a >> 32) < F_BASE || a & 0xffff_ffff != 0 {
                            return Err(Stop::Err(format!("indirect call to {:#x}", a)));
                        }
                        ((a >> 32) - F_BASE) as u32
                    }
                };
                let mut gid = gid;
                if let Some(&hook) = self.fmt.get(&gid) {
                    // a symbolic number is printed as a token that stands for it
                    let e = match &args[0] {
                        V::S(_) => Some(args[0].clone()),
                        V::C(a) if matches!(self.m.types.ty(c.args[0].0), Ty::Ptr) => match self.load_scalar(*a, 64)? {
                            v @ V::S(_) => Some(v),
                            _ => None,
                        },
                        _ => None,
                    };
                    if let Some(v) = e {
                        let a = self.alloc(8);
                        self.st.frames[fi].allocas.push((a >> 32) as u32 - 1);
                        self.store_scalar(a, 64, &v)?;
                        args[0] = V::C(a);
                        gid = hook;
                    }
                }
                let h = self.hs[gid as usize].clone();
                if let H::Def = h {
                    if self.st.frames.len() > 400 {
                        return Err(Stop::Err("call depth".into()));
                    }
                    let f = self.func(gid);
                    let mut regs = vec![V::U; f.f.nslots as usize];
                    for (k, a) in args.into_iter().enumerate() {
                        if k < f.f.nparams as usize {
                            regs[k] = a;
                        }
                    }
                    let block = f.entry;
                    self.st.frames.push(Frame { f, regs, pc: 0, block, allocas: vec![], dst: c.dst });
                    return Ok(Flow::Frame);
                }
                let r = self.external(&h, gid, c, &args)?;
                if let (Some(d), Some(v)) = (c.dst, r) {
                    self.set(fi, d, v);
                }
                if let Some(n) = c.normal {
                    self.jump(fx, fi, n);
                    return Ok(Flow::Stay);
                }
            }
            Inst::ExtractValue { a, path, dst } => {
                let mut v = g!(*a);
                for k in path {
                    v = match v {
                        V::A(x) => x[*k as usize].clone(),
                        _ => V::U,
                    };
                }
                self.set(fi, *dst, v);
            }
            Inst::InsertValue { ty, a, v, path, dst } => {
                let base = g!(*a);
                let nv = g!(*v);
                let base = if let V::U = base { self.cval(*ty, &Cst::Undef) } else { base };
                let r = self.insert(*ty, base, nv, path);
                self.set(fi, *dst, r);
            }
            Inst::ExtractElement { a, i, dst } => {
                let v = g!(*a);
                let i = g!(*i);
                let i = self.cv(&i)? as usize;
                let r = Self::lane(&v, i);
                self.set(fi, *dst, r);
            }
            Inst::InsertElement { ty, a, v, i, dst } => {
                let base = g!(*a);
                let nv = g!(*v);
                let i = g!(*i);
                let i = self.cv(&i)? as usize;
                let base = if let V::U = base { self.cval(*ty, &Cst::Undef) } else { base };
                let r = match base {
                    V::A(x) => {
                        let mut y = (*x).clone();
                        y[i] = nv;
                        V::A(Rc::new(y))
                    }
                    _ => V::U,
                };
                self.set(fi, *dst, r);
            }
            Inst::Shuffle { ty, a, b, mask, dst } => {
                let (x, y) = (g!(*a), g!(*b));
                let n = self.lanes(*ty).map(|l| l.0).unwrap_or(0) as i32;
                let v = mask
                    .iter()
                    .map(|&k| if k < 0 { V::U } else if k < n { Self::lane(&x, k as usize) } else { Self::lane(&y, (k - n) as usize) })
                    .collect();
                self.set(fi, *dst, V::A(Rc::new(v)));
            }
            Inst::Alloca { size, n, dst } => {
                let mut sz = *size;
                if let Some(o) = n {
                    let v = g!(*o);
                    sz *= self.cv(&v)?;
                }
                let a = self.alloc(sz as usize);
                self.st.frames[fi].allocas.push((a >> 32) as u32 - 1);
                self.set(fi, *dst, V::C(a));
            }
            Inst::Rmw { op, ty, ptr, v, dst } => {
                let a = g!(*ptr);
                let a = self.cv(&a)?;
                let old = self.load(a, *ty)?;
                let x = g!(*v);
                let w = self.m.types.bits(*ty);
                let new = match op {
                    RmwOp::Xchg => x,
                    RmwOp::Add => self.bin_w(BinOp::Add, w, &old, &x)?,
                    RmwOp::Sub => self.bin_w(BinOp::Sub, w, &old, &x)?,
                    RmwOp::And => self.bin_w(BinOp::And, w, &old, &x)?,
                    RmwOp::Or => self.bin_w(BinOp::Or, w, &old, &x)?,
                    RmwOp::Xor => self.bin_w(BinOp::Xor, w, &old, &x)?,
                    RmwOp::UMax | RmwOp::UMin | RmwOp::Max | RmwOp::Min => {
                        let p = match op {
                            RmwOp::UMax => IPred::Ugt,
                            RmwOp::UMin => IPred::Ult,
                            RmwOp::Max => IPred::Sgt,
                            _ => IPred::Slt,
                        };
                        let c = self.icmp_w(p, w, &old, &x)?;
                        self.select(&c, *ty, old.clone(), x)?
                    }
                    o => return Err(Stop::Err(format!("atomicrmw {:?}", o))),
                };
                self.store(a, *ty, &new)?;
                self.set(fi, *dst, old);
            }
            Inst::CmpXchg { ty, ptr, cmp, new, dst } => {
                let a = g!(*ptr);
                let a = self.cv(&a)?;
                let old = self.load(a, *ty)?;
                let c = g!(*cmp);
                let w = self.m.types.bits(*ty);
                let eq = self.icmp_w(IPred::Eq, w, &old, &c)?;
                let b = self.cbool(&eq)?;
                if b {
                    let n = g!(*new);
                    self.store(a, *ty, &n)?;
                }
                self.set(fi, *dst, V::A(Rc::new(vec![old, V::C(b as u64)])));
            }
            Inst::Freeze { a, dst } => {
                let v = g!(*a);
                self.set(fi, *dst, v);
            }
            Inst::Nop => {}
            Inst::Unreachable => return Err(Stop::Err("reached unreachable".into())),
            Inst::Unsupported(s) => return Err(Stop::Err(format!("unsupported instruction {}", s))),
        }
        Ok(Flow::Next)
    }

    fn fneg(&mut self, t: TyId, a: &V) -> R<V> {
        if let Some((n, et)) = self.lanes(t) {
            let mut v = vec![];
            for k in 0..n as usize {
                v.push(self.fneg(et, &Self::lane(a, k))?);
            }
            return Ok(V::A(Rc::new(v)));
        }
        let w = self.m.types.bits(t);
        self.bin_w(BinOp::Xor, w, a, &V::C(1u64 << (w - 1)))
    }
    fn insert(&mut self, t: TyId, base: V, nv: V, path: &[u32]) -> V {
        if path.is_empty() {
            return nv;
        }
        let k = path[0] as usize;
        let et = match self.m.types.ty(t).clone() {
            Ty::Struct(fs, _) => fs[k],
            Ty::Array(_, e) => e,
            _ => panic!("insertvalue"),
        };
        let base = if let V::U = base { self.cval(t, &Cst::Undef) } else { base };
        match base {
            V::A(x) => {
                let mut y = (*x).clone();
                let old = y[k].clone();
                y[k] = self.insert(et, old, nv, &path[1..]);
                V::A(Rc::new(y))
            }
            _ => panic!("insertvalue base"),
        }
    }

    fn per_lane(&mut self, t: TyId, args: &[V], f: &mut dyn FnMut(&mut Self, u32, &[V]) -> R<V>) -> R<V> {
        if let Some((n, et)) = self.lanes(t) {
            let w = self.m.types.bits(et);
            let mut v = vec![];
            for k in 0..n as usize {
                let a: Vec<V> = args.iter().map(|x| if let V::A(_) = x { Self::lane(x, k) } else { x.clone() }).collect();
                v.push(f(self, w, &a)?);
            }
            return Ok(V::A(Rc::new(v)));
        }
        let w = self.m.types.bits(t);
        f(self, w, args)
    }

    fn external(&mut self, h: &H, gid: u32, c: &CallInst, args: &[V]) -> R<Option<V>> {
        match h {
            H::Llvm(n) => self.llvm(n, c, args),
            H::Lib(l) => Ok(Some(self.libcall(*l, args)?)),
            H::Un(n) => Ok(Some(self.funary(n, &args[0])?)),
            H::Api(a) => self.api(*a, gid, c, args),
            H::Ext(n) => Err(Stop::Err(format!("external function {}", n))),
            _ => Err(Stop::Err(format!("call of {}", self.m.syms[gid as usize].0))),
        }
    }
    fn libcall(&mut self, l: Lib, args: &[V]) -> R<V> {
        let ws: Vec<u32> = args.iter().enumerate().map(|(k, _)| if l == Lib::Powi && k == 1 { 32 } else { 64 }).collect();
        if l == Lib::Powi {
            let n = self.cv(&args[1])? as u32 as i32;
            if let V::S(mut a) = args[0] {
                // repeated squaring as the runtime library does it
                let recip = n < 0;
                let mut k = n;
                let mut r = self.p.c(fb(1.0), 64);
                loop {
                    if k & 1 != 0 {
                        r = self.p.fbin(FOp::Mul, r, a);
                    }
                    k /= 2;
                    if k == 0 {
                        break;
                    }
                    a = self.p.fbin(FOp::Mul, a, a);
                }
                if recip {
                    let one = self.p.c(fb(1.0), 64);
                    r = self.p.fbin(FOp::Div, one, r);
                }
                return Ok(self.from_e(r));
            }
        }
        let v: Vec<E> = args.iter().zip(ws).map(|(a, w)| self.to_e(a, w)).collect();
        let e = self.p.lib(l, v);
        Ok(self.from_e(e))
    }
    fn funary(&mut self, n: &str, a: &V) -> R<V> {
        let e = self.to_e(a, 64);
        let r = match n {
            "floor" => self.p.fun(FU::Floor, e),
            "ceil" => self.p.fun(FU::Ceil, e),
            "trunc" => self.p.fun(FU::Trunc, e),
            "round" => self.p.fun(FU::Round, e),
            "rint" | "nearbyint" | "roundeven" => self.p.fun(FU::RoundEven, e),
            "sqrt" => self.p.fun(FU::Sqrt, e),
            "fabs" => {
                let k = self.p.c(SIGN - 1, 64);
                self.p.bin(BOp::And, e, k)
            }
            _ => return Err(Stop::Err(format!("function {}", n))),
        };
        Ok(self.from_e(r))
    }

    fn llvm(&mut self, name: &str, c: &CallInst, args: &[V]) -> R<Option<V>> {
        let base: &str = name.split('.').next().unwrap();
        let t0 = c.args.first().map(|x| x.0);
        match base {
            "lifetime" | "assume" | "dbg" | "prefetch" | "invariant" | "var" | "donothing" | "sideeffect" | "pseudoprobe" => return Ok(None),
            "experimental" => return Ok(None),
            "trap" | "ubsantrap" => {
                return self.panic_path("trap");
            }
            "memcpy" | "memmove" => {
                let (d, s, n) = (self.cv(&args[0])?, self.cv(&args[1])?, self.cv(&args[2])?);
                self.copy(d, s, n as usize)?;
                return Ok(None);
            }
            "memset" => {
                self.memset(args)?;
                return Ok(None);
            }
            "threadlocal" | "launder" | "strip" | "ssa" => return Ok(Some(args[0].clone())),
            "expect" => return Ok(Some(args[0].clone())),
            "is" => {
                if name.starts_with("is.constant") {
                    return Ok(Some(V::C(0)));
                }
                if name.starts_with("is.fpclass") {
                    let mask = self.cv(&args[1])?;
                    let x = args[0].clone();
                    return Ok(Some(self.fpclass(&x, mask)?));
                }
            }
            "objectsize" => return Ok(Some(V::C(u64::MAX))),
            "stacksave" => return Ok(Some(V::C(0))),
            "stackrestore" => return Ok(None),
            _ => {}
        }
        let t = match t0 {
            Some(t) => t,
            None => return Err(Stop::Err(format!("llvm.{}", name))),
        };
        let nm = name.to_string();
        if let Some(l) = lib_of(base) {
            return Ok(Some(self.per_lane(t, args, &mut |s, _, a| s.libcall(l, a))?));
        }
        match base {
            "powi" => return Ok(Some(self.libcall(Lib::Powi, args)?)),
            "sqrt" | "floor" | "ceil" | "trunc" | "round" | "fabs" | "rint" | "nearbyint" | "roundeven" => {
                if matches!(self.m.types.ty(t), Ty::F32) {
                    let x = f32::from_bits(self.cv(&args[0])? as u32);
                    let r = match base {
                        "sqrt" => x.sqrt(),
                        "floor" => x.floor(),
                        "ceil" => x.ceil(),
                        "trunc" => x.trunc(),
                        "round" => x.round(),
                        "fabs" => x.abs(),
                        _ => x.round_ties_even(),
                    };
                    return Ok(Some(V::C(r.to_bits() as u64)));
                }
                let b = base.to_string();
                return Ok(Some(self.per_lane(t, args, &mut |s, _, a| s.funary(&b, &a[0]))?));
            }
            "copysign" => {
                return Ok(Some(self.per_lane(t, args, &mut |s, w, a| {
                    let sg = 1u64 << (w - 1);
                    let x = s.bin_w(BinOp::And, w, &a[0], &V::C(sg - 1))?;
                    let y = s.bin_w(BinOp::And, w, &a[1], &V::C(sg))?;
                    s.bin_w(BinOp::Or, w, &x, &y)
                })?))
            }
            "maxnum" | "minnum" | "maximumnum" | "minimumnum" | "maximum" | "minimum" => {
                let f64t = self.lanes(t).map(|l| l.1).unwrap_or(t);
                let ismax = base.starts_with("max");
                let propagate = base == "maximum" || base == "minimum";
                return Ok(Some(self.per_lane(t, args, &mut |s, w, a| {
                    if w != 64 {
                        return Err(Stop::Err("f32 min/max".into()));
                    }
                    let (x, y) = (a[0].clone(), a[1].clone());
                    if let (V::C(p), V::C(q)) = (&x, &y) {
                        let (p, q) = (f64::from_bits(*p), f64::from_bits(*q));
                        let r = if p.is_nan() || q.is_nan() {
                            if propagate { f64::NAN } else if p.is_nan() { q } else { p }
                        } else if p == q {
                            // zeros of different sign
                            let pneg = p.is_sign_negative();
                            if (pneg && ismax) || (!pneg && !ismax) { q } else { p }
                        } else if (p > q) == ismax {
                            p
                        } else {
                            q
                        };
                        return Ok(V::C(r.to_bits()));
                    }
                    // decided by forking on the comparison
                    let xn = s.fcmp(FPred::Uno, f64t, &x, &x)?;
                    if s.cbool(&xn)? {
                        return Ok(if propagate { V::C(f64::NAN.to_bits()) } else { y });
                    }
                    let yn = s.fcmp(FPred::Uno, f64t, &y, &y)?;
                    if s.cbool(&yn)? {
                        return Ok(if propagate { V::C(f64::NAN.to_bits()) } else { x });
                    }
                    let lt = s.fcmp(FPred::Olt, f64t, &x, &y)?;
                    let b = s.cbool(&lt)?;
                    if b {
                        return Ok(if ismax { y } else { x });
                    }
                    let gt = s.fcmp(FPred::Ogt, f64t, &x, &y)?;
                    if s.cbool(&gt)? {
                        return Ok(if ismax { x } else { y });
                    }
                    // equal: the sign of zero
                    let op = if ismax { BinOp::And } else { BinOp::Or };
                    s.bin_w(op, 64, &x, &y)
                })?));
            }
            "umax" | "umin" | "smax" | "smin" => {
                let p = match base {
                    "umax" => IPred::Ugt,
                    "umin" => IPred::Ult,
                    "smax" => IPred::Sgt,
                    _ => IPred::Slt,
                };
                let et = self.lanes(t).map(|l| l.1).unwrap_or(t);
                return Ok(Some(self.per_lane(t, args, &mut |s, w, a| {
                    let c = s.icmp_w(p, w, &a[0], &a[1])?;
                    s.select(&c, et, a[0].clone(), a[1].clone())
                })?));
            }
            "abs" => {
                let et = self.lanes(t).map(|l| l.1).unwrap_or(t);
                return Ok(Some(self.per_lane(t, &args[..1], &mut |s, w, a| {
                    let n = s.bin_w(BinOp::Sub, w, &V::C(0), &a[0])?;
                    let c = s.icmp_w(IPred::Slt, w, &a[0], &V::C(0))?;
                    s.select(&c, et, n, a[0].clone())
                })?));
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let sat = nm.contains(".sat");
                let et = self.lanes(t).map(|l| l.1).unwrap_or(t);
                let b0 = base.to_string();
                if sat {
                    return Ok(Some(self.per_lane(t, args, &mut |s, w, a| s.satop(&b0, w, et, &a[0], &a[1]))?));
                }
                let w = self.m.types.bits(t);
                let (r, o) = self.overflow(base, w, &args[0], &args[1])?;
                return Ok(Some(V::A(Rc::new(vec![r, o]))));
            }
            "fptoui" | "fptosi" => {
                let signed = base == "fptosi";
                if let Some((n, et)) = self.lanes(t) {
                    let rt = self.lanes(c.ret).unwrap().1;
                    let mut v = vec![];
                    for k in 0..n as usize {
                        v.push(self.cast(if signed { CastOp::FpToSi } else { CastOp::FpToUi }, et, rt, &Self::lane(&args[0], k))?);
                    }
                    return Ok(Some(V::A(Rc::new(v))));
                }
                return Ok(Some(self.cast(if signed { CastOp::FpToSi } else { CastOp::FpToUi }, t, c.ret, &args[0])?));
            }
            "ctlz" | "cttz" | "ctpop" | "bswap" | "bitreverse" => {
                let b0 = base.to_string();
                return Ok(Some(self.per_lane(t, &args[..1], &mut |s, w, a| {
                    if let V::S(e) = a[0] {
                        return s.bitcount(&b0, e);
                    }
                    let x = match &a[0] {
                        V::C(x) => *x as u128,
                        V::W(x) => **x,
                        _ => 0,
                    };
                    let r = match b0.as_str() {
                        "ctlz" => (x.leading_zeros() - (128 - w)) as u128,
                        "cttz" => if x == 0 { w as u128 } else { x.trailing_zeros() as u128 },
                        "ctpop" => x.count_ones() as u128,
                        "bswap" => x.swap_bytes() >> (128 - w),
                        _ => x.reverse_bits() >> (128 - w),
                    };
                    Ok(mkc(r, w))
                })?));
            }
            "fshl" | "fshr" => {
                let left = base == "fshl";
                return Ok(Some(self.per_lane(t, args, &mut |s, w, a| {
                    let k = s.cv(&a[2])? % w as u64;
                    let k = if left { k } else { (w as u64 - k) % w as u64 };
                    // fshr by k == fshl by w-k, except k == 0
                    if k == 0 {
                        return Ok(if left { a[0].clone() } else { a[1].clone() });
                    }
                    let hi = s.bin_w(BinOp::Shl, w, &a[0], &V::C(k))?;
                    let lo = s.bin_w(BinOp::LShr, w, &a[1], &V::C(w as u64 - k))?;
                    s.bin_w(BinOp::Or, w, &hi, &lo)
                })?));
            }
            "ucmp" | "scmp" => {
                let (lt, gt) = if base == "ucmp" { (IPred::Ult, IPred::Ugt) } else { (IPred::Slt, IPred::Sgt) };
                let w = self.m.types.bits(t);
                let rw = self.m.types.bits(c.ret);
                let l = self.icmp_w(lt, w, &args[0], &args[1])?;
                let g = self.icmp_w(gt, w, &args[0], &args[1])?;
                let one = mkc(1, rw);
                let z = mkc(0, rw);
                let m = mkc(u128::MAX, rw);
                let i = self.select(&g, c.ret, one, z)?;
                return Ok(Some(self.select(&l, c.ret, m, i)?));
            }
            "vector" => {
                // vector.reduce.*
                let (n, et) = self.lanes(t).ok_or_else(|| Stop::Err(format!("llvm.{}", nm)))?;
                let w = self.m.types.bits(et);
                let parts: Vec<&str> = name.split('.').collect();
                let op = parts.get(2).copied().unwrap_or("");
                let mut acc = Self::lane(&args[0], 0);
                for k in 1..n as usize {
                    let x = Self::lane(&args[0], k);
                    acc = match op {
                        "add" => self.bin_w(BinOp::Add, w, &acc, &x)?,
                        "mul" => self.bin_w(BinOp::Mul, w, &acc, &x)?,
                        "and" => self.bin_w(BinOp::And, w, &acc, &x)?,
                        "or" => self.bin_w(BinOp::Or, w, &acc, &x)?,
                        "xor" => self.bin_w(BinOp::Xor, w, &acc, &x)?,
                        "umax" | "umin" | "smax" | "smin" => {
                            let p = match op {
                                "umax" => IPred::Ugt,
                                "umin" => IPred::Ult,
                                "smax" => IPred::Sgt,
                                _ => IPred::Slt,
                            };
                            let c = self.icmp_w(p, w, &acc, &x)?;
                            self.select(&c, et, acc.clone(), x)?
                        }
                        _ => return Err(Stop::Err(format!("llvm.{}", nm))),
                    };
                }
                return Ok(Some(acc));
            }
            "x86" => {
                if name.contains("vzeroupper") || name.contains("pause") {
                    return Ok(None);
                }
                if name.contains("xgetbv") {
                    return Ok(Some(V::C(0)));
                }
            }
            _ => {}
        }
        Err(Stop::Err(format!("llvm.{}", nm)))
    }
    fn bitcount(&mut self, op: &str, e: E) -> R<V> {
        let w = self.p.width(e);
        let r = match op {
            "ctpop" => {
                let mut acc = self.p.c(0, w);
                for k in 0..w {
                    let b = self.p.ext(e, k, 1);
                    let z = self.p.zext(b, w);
                    acc = self.p.bin(BOp::Add, acc, z);
                }
                acc
            }
            "ctlz" => {
                let mut acc = self.p.c(w as u128, w);
                for k in 0..w {
                    let b = self.p.ext(e, k, 1);
                    let v = self.p.c((w - 1 - k) as u128, w);
                    acc = self.p.ite(b, v, acc);
                }
                acc
            }
            "cttz" => {
                let mut acc = self.p.c(w as u128, w);
                for k in (0..w).rev() {
                    let b = self.p.ext(e, k, 1);
                    let v = self.p.c(k as u128, w);
                    acc = self.p.ite(b, v, acc);
                }
                acc
            }
            "bswap" => {
                let mut acc = self.p.ext(e, 0, 8);
                for k in 1..w / 8 {
                    let b = self.p.ext(e, 8 * k, 8);
                    acc = self.p.cat(acc, b);
                }
                acc
            }
            _ => return Err(Stop::Err(format!("symbolic {}", op))),
        };
        Ok(self.from_e(r))
    }
    fn satop(&mut self, base: &str, w: u32, t: TyId, a: &V, b: &V) -> R<V> {
        let (r, o) = self.overflow(base, w, a, b)?;
        let sat = match base {
            "uadd" | "umul" => mkc(u128::MAX, w),
            "usub" => mkc(0, w),
            _ => {
                let neg = self.icmp_w(IPred::Slt, w, a, &mkc(0, w))?;
                let lo = mkc(1u128 << (w - 1), w);
                let hi = mkc((1u128 << (w - 1)) - 1, w);
                self.select(&neg, t, lo, hi)?
            }
        };
        self.select(&o, t, sat, r)
    }
    fn overflow(&mut self, base: &str, w: u32, a: &V, b: &V) -> R<(V, V)> {
        let op = match &base[1..] {
            "add" => BinOp::Add,
            "sub" => BinOp::Sub,
            _ => BinOp::Mul,
        };
        let r = self.bin_w(op, w, a, b)?;
        if let (V::C(x), V::C(y), true) = (a, b, w <= 64) {
            let o = if base.starts_with('u') {
                let (x, y) = (*x as u128, *y as u128);
                match op {
                    BinOp::Add => (x + y) >> w != 0,
                    BinOp::Sub => x < y,
                    _ => (x * y) >> w != 0,
                }
            } else {
                let (x, y) = (sext128(*x as u128, w), sext128(*y as u128, w));
                let v = match op {
                    BinOp::Add => x + y,
                    BinOp::Sub => x - y,
                    _ => x * y,
                };
                sext128(mask128(v as u128, w), w) != v
            };
            return Ok((r, V::C(o as u64)));
        }
        let o = match base {
            "uadd" => self.icmp_w(IPred::Ult, w, &r, a)?,
            "usub" => self.icmp_w(IPred::Ult, w, a, b)?,
            _ => {
                if w > 64 {
                    return Err(Stop::Err("wide overflow".into()));
                }
                let signed = base.starts_with('s');
                let (x, y) = (self.to_e(a, w), self.to_e(b, w));
                let (x2, y2) = if signed { (self.p.sext(x, 2 * w), self.p.sext(y, 2 * w)) } else { (self.p.zext(x, 2 * w), self.p.zext(y, 2 * w)) };
                let v = self.p.bin(conv_bin(op), x2, y2);
                let lo = self.p.ext(v, 0, w);
                let back = if signed { self.p.sext(lo, 2 * w) } else { self.p.zext(lo, 2 * w) };
                let eq = self.p.eq(back, v);
                let ne = self.p.not(eq);
                self.bool_v(ne)
            }
        };
        Ok((r, o))
    }
    fn fpclass(&mut self, x: &V, mask: u64) -> R<V> {
        let e = self.to_e(x, 64);
        let mk = |s: &mut Self, lo: u128, hi: u128| -> E {
            // lo <= bits <= hi (unsigned)
            let l = s.p.c(lo, 64);
            let h = s.p.c(hi, 64);
            let a = s.p.cmp(COp::Ule, l, e);
            let b = s.p.cmp(COp::Ule, e, h);
            s.p.and(a, b)
        };
        let classes: [(u64, u128, u128); 12] = [
            (1, 0x7ff0_0000_0000_0001, 0x7ff7_ffff_ffff_ffff),
            (1, 0xfff0_0000_0000_0001, 0xfff7_ffff_ffff_ffff),
            (2, 0x7ff8_0000_0000_0000, 0x7fff_ffff_ffff_ffff),
            (2, 0xfff8_0000_0000_0000, 0xffff_ffff_ffff_ffff),
            (4, 0xfff0_0000_0000_0000, 0xfff0_0000_0000_0000),
            (8, 0x8010_0000_0000_0000, 0xffef_ffff_ffff_ffff),
            (16, 0x8000_0000_0000_0001, 0x800f_ffff_ffff_ffff),
            (32, 0x8000_0000_0000_0000, 0x8000_0000_0000_0000),
            (64, 0, 0),
            (128, 1, 0x000f_ffff_ffff_ffff),
            (256, 0x0010_0000_0000_0000, 0x7fef_ffff_ffff_ffff),
            (512, 0x7ff0_0000_0000_0000, 0x7ff0_0000_0000_0000),
        ];
        if mask == 3 {
            let n = self.p.isnan(e);
            return Ok(self.bool_v(n));
        }
        let mut r = self.p.bool(false);
        // merge adjacent ranges: the unsigned order of the bit patterns
        let mut rs: Vec<(u128, u128)> = classes.iter().filter(|c| c.0 & mask != 0).map(|c| (c.1, c.2)).collect();
        rs.sort();
        let mut merged: Vec<(u128, u128)> = vec![];
        for (l, h) in rs {
            match merged.last_mut() {
                Some(m) if m.1 + 1 == l => m.1 = h,
                _ => merged.push((l, h)),
            }
        }
        for (l, h) in merged {
            let q = mk(self, l, h);
            r = self.p.or(r, q);
        }
        Ok(self.bool_v(r))
    }
    fn memset(&mut self, args: &[V]) -> R<()> {
        let d = self.cv(&args[0])?;
        let n = self.cv(&args[2])? as usize;
        if n == 0 {
            return Ok(());
        }
        let b = self.cv(&args[1])? as u8;
        let (id, off) = self.loc(d, n)?;
        let len = self.obj(id)?.data.len();
        self.bounds(id, off, n, len)?;
        let v = vec![b; n];
        self.with_obj_mut(id, |o, p| o.put_bytes(p, off, &v))
    }

    fn panic_path<T>(&mut self, what: &str) -> R<T> {
        if self.st.expect_panic {
            return Err(Stop::End("expected panic".into()));
        }
        let loc = self.whereami();
        self.violation(format!("panic: {}", what), None);
        let _ = loc;
        Err(Stop::End("panic".into()))
    }

    fn str_arg(&mut self, p: &V, n: &V) -> R<String> {
        let a = self.cv(p)?;
        let n = self.cv(n)? as usize;
        Ok(String::from_utf8_lossy(&self.bytes(a, n)?).into_owned())
    }

    fn api(&mut self, a: Api, gid: u32, c: &CallInst, args: &[V]) -> R<Option<V>> {
        match a {
            Api::In => {
                let w = self.cv(&args[0])? as u32;
                let k = self.st.inputs.len();
                let e = self.p.var(&format!("i{}w{}", k, w), w);
                self.st.inputs.push(e);
                let z = self.p.zext(e, 64);
                return Ok(Some(V::S(z)));
            }
            Api::Assume => {
                let e = match &args[0] {
                    V::S(e) => {
                        let e = *e;
                        if self.p.width(e) == 1 {
                            e
                        } else {
                            let z = self.p.c(0, self.p.width(e));
                            let q = self.p.eq(e, z);
                            self.p.not(q)
                        }
                    }
                    V::C(0) | V::U => return Err(Stop::End("infeasible".into())),
                    _ => return Ok(None),
                };
                match self.known(e) {
                    Some(true) => return Ok(None),
                    Some(false) => return Err(Stop::End("infeasible".into())),
                    None => {}
                }
                if self.ev(e) != 1 {
                    match self.feasible(e) {
                        Res::Sat(m) => {
                            self.st.model = m;
                            self.st.memo.clear();
                        }
                        Res::Unsat => return Err(Stop::End("infeasible".into())),
                        Res::Unknown(w) => {
                            self.undecided.push(format!("assume at {}: {}", self.whereami(), w));
                            return Err(Stop::End("infeasible".into()));
                        }
                    }
                }
                self.add_pc(e);
                return Ok(None);
            }
            Api::Check => {
                let msg = self.str_arg(&args[1], &args[2])?;
                self.checks_total += 1;
                self.st.checks += 1;
                let ent = self.checked.entry(msg.clone()).or_default();
                ent.0 += 1;
                let e = match &args[0] {
                    V::S(e) => {
                        let e = *e;
                        if self.p.width(e) == 1 {
                            e
                        } else {
                            let z = self.p.c(0, self.p.width(e));
                            let q = self.p.eq(e, z);
                            self.p.not(q)
                        }
                    }
                    V::C(0) | V::U => {
                        self.violation(msg, None);
                        return Err(Stop::End("violation".into()));
                    }
                    _ => return Ok(None),
                };
                match self.known(e) {
                    Some(true) => return Ok(None),
                    Some(false) => {
                        self.violation(msg, None);
                        return Err(Stop::End("violation".into()));
                    }
                    None => {}
                }
                self.checks_sym += 1;
                self.checked.get_mut(&msg).unwrap().1 += 1;
                let n = self.p.not(e);
                if self.ev(e) != 1 {
                    self.violation(msg, None);
                    // go on with the inputs that satisfy the check
                    match self.feasible(e) {
                        Res::Sat(m) => {
                            self.st.model = m;
                            self.st.memo.clear();
                            self.add_pc(e);
                            return Ok(None);
                        }
                        _ => return Err(Stop::End("violation".into())),
                    }
                }
                match self.feasible(n) {
                    Res::Unsat => self.learn(e),
                    Res::Sat(m) => {
                        self.violation(msg, Some(m));
                        self.add_pc(e);
                    }
                    Res::Unknown(w) => {
                        self.undecided.push(format!("check '{}': {}", msg, w));
                        self.add_pc(e);
                    }
                }
                return Ok(None);
            }
            Api::Obs => {
                self.st.obs.push(args[0].clone());
                return Ok(None);
            }
            Api::Arg => {
                let k = self.cv(&args[0])? as usize;
                return Ok(Some(V::C(self.cfg.args.get(k).copied().unwrap_or(0))));
            }
            Api::Token => {
                let e = self.to_e(&args[0], 64);
                let k = match self.st.tokens.iter().position(|x| *x == e) {
                    Some(k) => k,
                    None => {
                        self.st.tokens.push(e);
                        self.st.tokens.len() - 1
                    }
                };
                return Ok(Some(V::C(k as u64)));
            }
            Api::TokenValue => {
                let k = self.cv(&args[0])? as usize;
                return Ok(Some(match self.st.tokens.get(k).copied() {
                    Some(e) => self.from_e(e),
                    None => V::C(0),
                }));
            }
            Api::Conc => {
                let v = self.cv(&args[0])?;
                return Ok(Some(V::C(v)));
            }
            Api::Reach => {
                let msg = self.str_arg(&args[0], &args[1])?;
                *self.reach.entry(msg).or_default() += 1;
                return Ok(None);
            }
            Api::ExpectPanic => {
                self.st.expect_panic = self.cv(&args[0])? != 0;
                return Ok(None);
            }
            Api::ForkHint => {
                self.st.fork_sel = self.cv(&args[0])? != 0;
                return Ok(None);
            }
            Api::Nop | Api::Panicking | Api::ClockReal => return Ok(None),
            Api::NopZero => {
                let z = if matches!(self.m.types.ty(c.ret), Ty::Void) { None } else { Some(self.zero(c.ret)) };
                return Ok(z);
            }
            Api::ThreadAtexit => return Ok(Some(V::C(0))),
            Api::Panic => {
                let n = crate::short_name(&self.m.syms[gid as usize].0);
                // name the source line of the caller in the code under test
                return self.panic_path(&n);
            }
            Api::Abort => return self.panic_path("abort"),
            _ => {}
        }
        match a {
            Api::Malloc | Api::RAlloc | Api::RAllocZ => {
                let n = self.cv(&args[0])?;
                if n > 1 << 28 {
                    return Err(Stop::Err(format!("allocation of {} bytes", n)));
                }
                let p = self.alloc(n as usize);
                Ok(Some(V::C(p)))
            }
            Api::Calloc => {
                let n = self.cv(&args[0])? * self.cv(&args[1])?;
                let p = self.alloc(n as usize);
                Ok(Some(V::C(p)))
            }
            Api::Memalign => {
                let n = self.cv(&args[2])?;
                let out = self.cv(&args[0])?;
                let p = self.alloc(n as usize);
                self.store_scalar(out, 64, &V::C(p))?;
                Ok(Some(V::C(0)))
            }
            Api::Free | Api::RDealloc => {
                let p = self.cv(&args[0])?;
                self.free(p)?;
                Ok(None)
            }
            Api::Realloc | Api::RRealloc => {
                let p = self.cv(&args[0])?;
                let n = self.cv(if a == Api::Realloc { &args[1] } else { &args[3] })?;
                if n > 1 << 28 {
                    return Err(Stop::Err(format!("allocation of {} bytes", n)));
                }
                if p == 0 {
                    let q = self.alloc(n as usize);
                    return Ok(Some(V::C(q)));
                }
                let id = p >> 32;
                let old = self.obj(id)?.data.len();
                let q = self.alloc(n as usize);
                self.copy(q, p, old.min(n as usize))?;
                self.free(p)?;
                Ok(Some(V::C(q)))
            }
            Api::Bcmp | Api::Memcmp => {
                let (x, y, n) = (self.cv(&args[0])?, self.cv(&args[1])?, self.cv(&args[2])? as usize);
                if n == 0 {
                    return Ok(Some(V::C(0)));
                }
                let (i, io) = self.loc(x, n)?;
                let (j, jo) = self.loc(y, n)?;
                let (o1, o2) = (self.obj(i)?, self.obj(j)?);
                self.bounds(i, io, n, o1.data.len())?;
                self.bounds(j, jo, n, o2.data.len())?;
                if !o1.has_sym(io, n) && !o2.has_sym(jo, n) {
                    let r = o1.data[io..io + n].cmp(&o2.data[jo..jo + n]) as i32;
                    return Ok(Some(V::C(r as u32 as u64)));
                }
                let mut r = self.p.c(0, 32);
                for k in (0..n).rev() {
                    let b1 = o1.get_byte(&mut self.p, io + k);
                    let b2 = o2.get_byte(&mut self.p, jo + k);
                    let eq = self.p.eq(b1, b2);
                    let lt = self.p.cmp(COp::Ult, b1, b2);
                    let m = self.p.c(u32::MAX as u128, 32);
                    let one = self.p.c(1, 32);
                    let d = if a == Api::Bcmp { one } else { self.p.ite(lt, m, one) };
                    r = self.p.ite(eq, r, d);
                }
                Ok(Some(self.from_e(r)))
            }
            Api::Memchr => {
                let (x, ch, n) = (self.cv(&args[0])?, self.cv(&args[1])? as u8, self.cv(&args[2])? as usize);
                let b = self.bytes(x, n)?;
                Ok(Some(V::C(b.iter().position(|&c| c == ch).map(|k| x + k as u64).unwrap_or(0))))
            }
            Api::Strlen => {
                let x = self.cv(&args[0])?;
                let (id, off) = self.loc(x, 1)?;
                let o = self.obj(id)?;
                let n = o.data[off..].iter().position(|&c| c == 0).unwrap_or(0);
                Ok(Some(V::C(n as u64)))
            }
            Api::Memcpy | Api::Memmove => {
                let (d, s, n) = (self.cv(&args[0])?, self.cv(&args[1])?, self.cv(&args[2])?);
                self.copy(d, s, n as usize)?;
                Ok(Some(V::C(d)))
            }
            Api::Memset => {
                self.memset(args)?;
                Ok(Some(args[0].clone()))
            }
            Api::Getenv => Ok(Some(V::C(0))),
            Api::Errno => Ok(Some(V::C((self.errno_obj as u64) << 32))),
            Api::Sysconf => Ok(Some(V::C(4096))),
            Api::Syscall => {
                let nr = self.cv(&args[0])?;
                match nr {
                    318 => {
                        // getrandom: different bytes on every call of a path (the generator is a stub)
                        let (p, n) = (self.cv(&args[1])?, self.cv(&args[2])? as usize);
                        if n > 0 {
                            let (id, off) = self.loc(p, n)?;
                            self.st.rnd += 1;
                            let r = self.st.rnd as usize;
                            let v: Vec<u8> = (0..n).map(|k| (0x5a ^ (k * 37) ^ (r * 113 + (k + 3) * r)) as u8).collect();
                            self.with_obj_mut(id, |o, p| o.put_bytes(p, off, &v))?;
                        }
                        Ok(Some(V::C(n as u64)))
                    }
                    202 => Ok(Some(V::C(0))),
                    x => Err(Stop::Err(format!("syscall {}", x))),
                }
            }
            _ => Err(Stop::Err("api".into())),
        }
    }
    fn free(&mut self, p: u64) -> R<()> {
        if p == 0 {
            return Ok(());
        }
        let id = p >> 32;
        if id == 0 || id > OBJ_MAX || p & 0xffff_ffff != 0 || !matches!(self.st.mem.get((id - 1) as usize), Some(Some(_))) {
            return Err(Stop::Err(format!("bad free of {:#x}", p)));
        }
        self.st.mem[(id - 1) as usize] = None;
        self.st.free.push((id - 1) as u32);
        Ok(())
    }
}

pub enum Flow {
    Next,
    Stay,
    Frame,
}
