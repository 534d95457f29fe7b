//! Parser for the textual LLVM IR that rustc emits (functions and globals are parsed lazily).
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Label,
    Metadata,
    Token,
    Array(u64, TyId),
    Vector(u64, TyId),
    Struct(Vec<TyId>, bool),
    Opaque,
}

#[derive(Clone, Debug)]
pub struct Layout {
    pub size: u64,
    pub align: u64,
    pub offs: Vec<u64>,
}

#[derive(Default)]
pub struct Types {
    pub tys: Vec<Ty>,
    map: HashMap<Ty, TyId>,
    lay: Vec<Option<Rc<Layout>>>,
    pub named: HashMap<String, TyId>,
}

impl Types {
    pub fn get(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.map.get(&t) {
            return i;
        }
        let i = self.tys.len() as TyId;
        self.tys.push(t.clone());
        self.lay.push(None);
        self.map.insert(t, i);
        i
    }
    pub fn ty(&self, i: TyId) -> &Ty {
        &self.tys[i as usize]
    }
    pub fn layout(&mut self, i: TyId) -> Rc<Layout> {
        if let Some(l) = &self.lay[i as usize] {
            return l.clone();
        }
        let t = self.tys[i as usize].clone();
        let l = match t {
            Ty::Void | Ty::Label | Ty::Metadata | Ty::Token | Ty::Opaque => Layout { size: 0, align: 1, offs: vec![] },
            Ty::Int(w) => {
                let bytes = ((w + 7) / 8) as u64;
                let mut sz = 1;
                while sz < bytes {
                    sz *= 2;
                }
                let al = sz.min(16);
                // odd widths: store size is ceil(w/8); the alloc size is rounded to alignment
                Layout { size: sz.max(((bytes + al - 1) / al) * al), align: al, offs: vec![] }
            }
            Ty::F32 => Layout { size: 4, align: 4, offs: vec![] },
            Ty::F64 | Ty::Ptr => Layout { size: 8, align: 8, offs: vec![] },
            Ty::Array(n, e) => {
                let le = self.layout(e);
                Layout { size: n * le.size, align: le.align, offs: vec![] }
            }
            Ty::Vector(n, e) => {
                let w = self.bits(e);
                let sz = (n * w as u64 + 7) / 8;
                Layout { size: sz.next_power_of_two(), align: sz.next_power_of_two(), offs: vec![] }
            }
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                let mut al = 1;
                let mut offs = vec![];
                for f in fs {
                    let lf = self.layout(f);
                    if !packed {
                        off = (off + lf.align - 1) / lf.align * lf.align;
                        al = al.max(lf.align);
                    }
                    offs.push(off);
                    off += lf.size;
                }
                off = (off + al - 1) / al * al;
                Layout { size: off, align: al, offs }
            }
        };
        let l = Rc::new(l);
        self.lay[i as usize] = Some(l.clone());
        l
    }
    /// bit width of a scalar type
    pub fn bits(&self, i: TyId) -> u32 {
        match self.ty(i) {
            Ty::Int(w) => *w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            t => panic!("bits of non-scalar {:?}", t),
        }
    }
}

/// Constants as written in the IR
#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    Undef,
    Zero,
    Global(u32),   // index of a global symbol
    GlobalOff(u32, i64),
    Agg(Vec<(TyId, Cst)>),
    Bytes(Vec<u8>),
    Expr(Box<CExpr>),
}
#[derive(Clone, Debug)]
pub enum CExpr {
    Gep(TyId, Cst, Vec<(TyId, Cst)>),
    Cast(String, TyId, Cst, TyId),
    Bin(String, TyId, Cst, Cst),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Slot(u32),
    Const(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FBinOp {
    Add, Sub, Mul, Div, Rem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum IPred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FPred { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp { Trunc, ZExt, SExt, FpTrunc, FpExt, FpToUi, FpToSi, UiToFp, SiToFp, Bitcast }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RmwOp { Xchg, Add, Sub, And, Nand, Or, Xor, Max, Min, UMax, UMin, FAdd, FSub }

#[derive(Clone, Debug)]
pub enum Callee {
    Global(u32),
    Ind(Op),
    Asm,
}

#[derive(Clone, Debug)]
pub struct CallInst {
    pub callee: Callee,
    pub args: Vec<(TyId, Op)>,
    pub ret: TyId,
    pub dst: Option<u32>,
    pub normal: Option<u32>, // invoke: the normal destination block
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, ty: TyId, a: Op, b: Op, dst: u32 },
    FBin { op: FBinOp, ty: TyId, a: Op, b: Op, dst: u32 },
    FNeg { ty: TyId, a: Op, dst: u32 },
    ICmp { p: IPred, ty: TyId, a: Op, b: Op, dst: u32 },
    FCmp { p: FPred, ty: TyId, a: Op, b: Op, dst: u32 },
    Load { ty: TyId, ptr: Op, dst: u32 },
    Store { ty: TyId, val: Op, ptr: Op },
    Gep { base: Op, off: i64, idx: Vec<(Op, u32, i64)>, dst: u32 },
    Cast { op: CastOp, from: TyId, to: TyId, a: Op, dst: u32 },
    Select { cty: TyId, c: Op, ty: TyId, a: Op, b: Op, dst: u32 },
    Br { to: u32 },
    CondBr { c: Op, t: u32, f: u32 },
    Switch { w: u32, v: Op, def: u32, cases: Vec<(u64, u32)> },
    Ret { v: Option<Op> },
    Call(Box<CallInst>),
    ExtractValue { a: Op, path: Vec<u32>, dst: u32 },
    InsertValue { ty: TyId, a: Op, v: Op, path: Vec<u32>, dst: u32 },
    ExtractElement { a: Op, i: Op, dst: u32 },
    InsertElement { ty: TyId, a: Op, v: Op, i: Op, dst: u32 },
    Shuffle { ty: TyId, a: Op, b: Op, mask: Vec<i32>, dst: u32 },
    Alloca { size: u64, n: Option<Op>, dst: u32 },
    Rmw { op: RmwOp, ty: TyId, ptr: Op, v: Op, dst: u32 },
    CmpXchg { ty: TyId, ptr: Op, cmp: Op, new: Op, dst: u32 },
    Freeze { a: Op, dst: u32 },
    Nop,
    Unreachable,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Block {
    pub start: u32,
    pub preds: Vec<u32>,
    /// dst, operand per predecessor (parallel to preds)
    pub phis: Vec<(u32, Vec<Op>)>,
}

pub struct Func {
    pub name: String,
    pub gid: u32,
    pub nparams: u32,
    pub nslots: u32,
    pub blocks: Vec<Block>,
    pub insts: Vec<Inst>,
    pub dbg: Vec<u32>,
    pub consts: Vec<(TyId, Cst)>,
    pub slot_names: Vec<String>,
}

pub enum GKind {
    Func { start: usize, end: usize },
    Decl,
    Var { start: usize, end: usize },
}

pub struct Module {
    pub text: String,
    pub syms: Vec<(String, GKind)>,
    pub sym_ix: HashMap<String, u32>,
    pub types: Types,
    pub md: HashMap<u32, (usize, usize)>,
}

pub struct Cur<'a> {
    pub s: &'a [u8],
    pub p: usize,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Cur<'a> {
    pub fn new(s: &'a str) -> Self {
        Cur { s: s.as_bytes(), p: 0 }
    }
    pub fn ws(&mut self) {
        loop {
            while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\n' || self.s[self.p] == b'\t') {
                self.p += 1;
            }
            if self.p + 1 < self.s.len() && self.s[self.p] == b'/' && self.s[self.p + 1] == b'*' {
                while !(self.s[self.p] == b'*' && self.s[self.p + 1] == b'/') {
                    self.p += 1;
                }
                self.p += 2;
            } else {
                break;
            }
        }
    }
    pub fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.p).unwrap_or(&0)
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.p += 1;
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected '{}' at: {}", c as char, self.rest());
        }
    }
    pub fn rest(&self) -> String {
        String::from_utf8_lossy(&self.s[self.p..(self.p + 160).min(self.s.len())]).into_owned()
    }
    pub fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.p;
        while self.p < self.s.len() && (self.s[self.p].is_ascii_alphanumeric() || self.s[self.p] == b'_' || self.s[self.p] == b'.') {
            self.p += 1;
        }
        std::str::from_utf8(&self.s[st..self.p]).unwrap()
    }
    pub fn peek_word(&mut self) -> &'a str {
        self.ws();
        let q = self.p;
        let w = self.word();
        self.p = q;
        w
    }
    pub fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.word();
            true
        } else {
            false
        }
    }
    /// name after % or @ (sigil already consumed)
    pub fn name(&mut self) -> String {
        if self.s.get(self.p) == Some(&b'"') {
            self.p += 1;
            let st = self.p;
            while self.s[self.p] != b'"' {
                self.p += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.p]).into_owned();
            self.p += 1;
            r
        } else {
            let st = self.p;
            while self.p < self.s.len() && is_id(self.s[self.p]) {
                self.p += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.p]).into_owned()
        }
    }
    pub fn int(&mut self) -> i128 {
        self.ws();
        let neg = self.s[self.p] == b'-';
        if neg {
            self.p += 1;
        }
        let mut v: i128 = 0;
        let st = self.p;
        while self.p < self.s.len() && self.s[self.p].is_ascii_digit() {
            v = v.wrapping_mul(10).wrapping_add((self.s[self.p] - b'0') as i128);
            self.p += 1;
        }
        if st == self.p {
            panic!("expected int at {}", self.rest());
        }
        if neg { v.wrapping_neg() } else { v }
    }
    pub fn skip_balanced(&mut self) {
        // current char is an opening bracket
        let mut d = 0;
        loop {
            match self.s[self.p] {
                b'(' | b'[' | b'{' => d += 1,
                b')' | b']' | b'}' => d -= 1,
                b'"' => {
                    self.p += 1;
                    while self.s[self.p] != b'"' {
                        self.p += 1;
                    }
                }
                _ => {}
            }
            self.p += 1;
            if d == 0 {
                break;
            }
        }
    }
    pub fn at_end(&mut self) -> bool {
        self.ws();
        self.p >= self.s.len()
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("cannot read {}: {}", path, e));
        let mut m = Module { text, syms: vec![], sym_ix: HashMap::new(), types: Types::default(), md: HashMap::new() };
        let bytes = m.text.as_bytes();
        let mut p = 0;
        let n = bytes.len();
        let mut named: Vec<(String, usize, usize)> = vec![];
        let mut syms: Vec<(String, GKind)> = vec![];
        while p < n {
            let e = memchr(b'\n', &bytes[p..]).map(|x| p + x).unwrap_or(n);
            match bytes[p..].first() {
                Some(b'@') => {
                    let mut c = Cur { s: &bytes[..e], p: p + 1 };
                    let name = c.name();
                    syms.push((name, GKind::Var { start: c.p, end: e }));
                }
                Some(b'%') => {
                    let mut c = Cur { s: &bytes[..e], p: p + 1 };
                    let name = c.name();
                    named.push((name, c.p, e));
                }
                Some(b'!') => {
                    if p + 1 < n && bytes[p + 1].is_ascii_digit() {
                        let mut c = Cur { s: &bytes[..e], p: p + 1 };
                        let id = c.int() as u32;
                        m.md.insert(id, (c.p, e));
                    }
                }
                Some(b'd') if bytes[p..].starts_with(b"define ") => {
                    let name = fn_name(&bytes[p..e]);
                    // the body ends at a line starting with '}'
                    let mut q = e + 1;
                    loop {
                        if bytes[q] == b'}' {
                            break;
                        }
                        q += memchr(b'\n', &bytes[q..]).unwrap() + 1;
                    }
                    syms.push((name, GKind::Func { start: p, end: q }));
                    p = q;
                    continue;
                }
                Some(b'd') if bytes[p..].starts_with(b"declare ") => {
                    let name = fn_name(&bytes[p..e]);
                    syms.push((name, GKind::Decl));
                }
                _ => {}
            }
            p = e + 1;
        }
        for (i, (n, _)) in syms.iter().enumerate() {
            m.sym_ix.insert(n.clone(), i as u32);
        }
        m.syms = syms;
        // named types
        for (n, _, _) in &named {
            let t = Ty::Opaque;
            let id = m.types.tys.len() as u32;
            m.types.tys.push(t);
            m.types.lay.push(None);
            m.types.named.insert(n.clone(), id);
        }
        for (n, s, e) in named {
            let txt = m.text[s..e].to_string();
            let mut c = Cur::new(&txt);
            c.expect(b'=');
            c.eat_word("type");
            if c.peek_word() == "opaque" {
                continue;
            }
            let t = m.types.parse(&mut c);
            let tt = m.types.ty(t).clone();
            let id = m.types.named[&n];
            m.types.tys[id as usize] = tt;
        }
        m
    }

    pub fn find(&self, name: &str) -> Option<u32> {
        self.sym_ix.get(name).copied()
    }
}

fn memchr(c: u8, s: &[u8]) -> Option<usize> {
    s.iter().position(|&x| x == c)
}

fn fn_name(line: &[u8]) -> String {
    let at = line.iter().position(|&c| c == b'@').unwrap();
    let mut c = Cur { s: line, p: at + 1 };
    c.name()
}

impl Types {
    pub fn is_ty_start(c: &mut Cur) -> bool {
        match c.peek() {
            b'[' | b'{' | b'<' | b'%' => true,
            b'i' => {
                let w = c.peek_word();
                w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit())
            }
            _ => matches!(c.peek_word(), "ptr" | "double" | "float" | "half" | "void" | "label" | "metadata" | "x86_fp80" | "fp128" | "token" | "bfloat"),
        }
    }
    pub fn parse(&mut self, c: &mut Cur) -> TyId {
        let ch = c.peek();
        match ch {
            b'[' => {
                c.p += 1;
                let n = c.int() as u64;
                c.eat_word("x");
                let t = self.parse(c);
                c.expect(b']');
                self.get(Ty::Array(n, t))
            }
            b'<' => {
                c.p += 1;
                if c.peek() == b'{' {
                    let t = self.parse(c);
                    c.expect(b'>');
                    let fs = match self.ty(t) {
                        Ty::Struct(f, _) => f.clone(),
                        _ => unreachable!(),
                    };
                    return self.get(Ty::Struct(fs, true));
                }
                let n = c.int() as u64;
                c.eat_word("x");
                let t = self.parse(c);
                c.expect(b'>');
                self.get(Ty::Vector(n, t))
            }
            b'{' => {
                c.p += 1;
                let mut fs = vec![];
                if !c.eat(b'}') {
                    loop {
                        fs.push(self.parse(c));
                        if c.eat(b'}') {
                            break;
                        }
                        c.expect(b',');
                    }
                }
                self.get(Ty::Struct(fs, false))
            }
            b'%' => {
                c.p += 1;
                let n = c.name();
                *self.named.get(&n).unwrap_or_else(|| panic!("unknown type {}", n))
            }
            _ => {
                let w = c.word();
                match w {
                    "ptr" => {
                        if c.peek_word() == "addrspace" {
                            c.word();
                            c.ws();
                            c.skip_balanced();
                        }
                        self.get(Ty::Ptr)
                    }
                    "double" => self.get(Ty::F64),
                    "float" => self.get(Ty::F32),
                    "void" => self.get(Ty::Void),
                    "label" => self.get(Ty::Label),
                    "metadata" => self.get(Ty::Metadata),
                    "token" => self.get(Ty::Token),
                    "half" | "bfloat" => self.get(Ty::Int(16)),
                    "x86_fp80" => self.get(Ty::Int(80)),
                    "fp128" => self.get(Ty::Int(128)),
                    _ if w.starts_with('i') => {
                        let n: u32 = w[1..].parse().unwrap_or_else(|_| panic!("bad type {} at {}", w, c.rest()));
                        self.get(Ty::Int(n))
                    }
                    _ => panic!("bad type '{}' at {}", w, c.rest()),
                }
            }
        }
    }
}

pub struct FnParser<'m> {
    pub m: &'m mut Module,
    slots: HashMap<String, u32>,
    slot_names: Vec<String>,
    blocks: HashMap<String, u32>,
    consts: Vec<(TyId, Cst)>,
}

fn skip_attrs(c: &mut Cur) {
    loop {
        let ch = c.peek();
        if ch == b'"' {
            // string attribute
            c.p += 1;
            while c.s[c.p] != b'"' {
                c.p += 1;
            }
            c.p += 1;
            if c.peek() == b'=' {
                c.p += 1;
                continue;
            }
            continue;
        }
        if ch == b'#' {
            c.p += 1;
            c.word();
            continue;
        }
        let w = c.peek_word();
        match w {
            "noundef" | "nonnull" | "noalias" | "nocapture" | "readonly" | "readnone" | "writeonly" | "zeroext" | "signext"
            | "inreg" | "returned" | "nofree" | "immarg" | "nest" | "swiftself" | "dead_on_unwind" | "writable" | "noreturn"
            | "nounwind" | "allocptr" | "allocalign" | "dead_on_return" | "noext" | "nosync" | "cold" => {
                c.word();
                if w == "dead_on_return" && c.peek() == b'(' {
                    c.skip_balanced();
                }
            }
            "align" => {
                c.word();
                if c.peek() == b'(' {
                    c.skip_balanced();
                } else {
                    c.int();
                }
            }
            "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "byref" | "inalloca" | "preallocated" | "elementtype" | "captures"
            | "range" | "nofpclass" | "initializes" | "memory" | "alignstack" => {
                c.word();
                c.ws();
                c.skip_balanced();
            }
            _ => break,
        }
    }
}

impl<'m> FnParser<'m> {
    fn slot(&mut self, n: String) -> u32 {
        let k = self.slots.len() as u32;
        if let Some(&i) = self.slots.get(&n) {
            return i;
        }
        self.slots.insert(n.clone(), k);
        self.slot_names.push(n);
        k
    }
    fn block(&mut self, n: String) -> u32 {
        let k = self.blocks.len() as u32;
        *self.blocks.entry(n).or_insert(k)
    }
    fn cst(&mut self, t: TyId, c: Cst) -> Op {
        self.consts.push((t, c));
        Op::Const(self.consts.len() as u32 - 1)
    }
    fn operand(&mut self, c: &mut Cur, t: TyId) -> Op {
        skip_attrs(c);
        if c.peek() == b'%' {
            c.p += 1;
            let n = c.name();
            return Op::Slot(self.slot(n));
        }
        let k = parse_const(self.m, c, t);
        self.cst(t, k)
    }
    fn typed(&mut self, c: &mut Cur) -> (TyId, Op) {
        let t = self.m.types.parse(c);
        (t, self.operand(c, t))
    }
    fn label(&mut self, c: &mut Cur) -> u32 {
        if !c.eat_word("label") {
            panic!("label expected at {}", c.rest());
        }
        c.expect(b'%');
        let n = c.name();
        self.block(n)
    }
}

pub fn parse_float(tok: &str, t: &Ty) -> u128 {
    let v: f64 = match tok {
        "+inf" | "inf" => f64::INFINITY,
        "-inf" => f64::NEG_INFINITY,
        "+qnan" | "qnan" => f64::from_bits(0x7ff8000000000000),
        "-qnan" => f64::from_bits(0xfff8000000000000),
        _ => {
            if let Some(h) = tok.strip_prefix("f0x") {
                let b = u128::from_str_radix(h, 16).unwrap();
                return b; // exact bits of the type
            }
            if let Some(h) = tok.strip_prefix("0x") {
                let b = u64::from_str_radix(h, 16).unwrap();
                f64::from_bits(b)
            } else {
                tok.parse::<f64>().unwrap_or_else(|_| panic!("bad float {}", tok))
            }
        }
    };
    match t {
        Ty::F32 => (v as f32).to_bits() as u128,
        _ => v.to_bits() as u128,
    }
}

pub fn parse_const(m: &mut Module, c: &mut Cur, t: TyId) -> Cst {
    let ch = c.peek();
    match ch {
        b'@' => {
            c.p += 1;
            let n = c.name();
            let g = m.find(&n).unwrap_or_else(|| panic!("unknown global {}", n));
            return Cst::Global(g);
        }
        b'{' | b'[' => {
            c.p += 1;
            return parse_agg(m, c, if ch == b'{' { b'}' } else { b']' });
        }
        b'<' => {
            c.p += 1;
            if c.eat(b'{') {
                let a = parse_agg(m, c, b'}');
                c.expect(b'>');
                return a;
            }
            return parse_agg(m, c, b'>');
        }
        b'c' if c.s.get(c.p + 1) == Some(&b'"') => {
            c.p += 2;
            let mut v = vec![];
            while c.s[c.p] != b'"' {
                if c.s[c.p] == b'\\' && c.s[c.p + 1] == b'\\' {
                    v.push(b'\\');
                    c.p += 2;
                } else if c.s[c.p] == b'\\' {
                    let h = std::str::from_utf8(&c.s[c.p + 1..c.p + 3]).unwrap();
                    v.push(u8::from_str_radix(h, 16).unwrap());
                    c.p += 3;
                } else {
                    v.push(c.s[c.p]);
                    c.p += 1;
                }
            }
            c.p += 1;
            return Cst::Bytes(v);
        }
        _ => {}
    }
    let isf = matches!(m.types.ty(t), Ty::F32 | Ty::F64);
    if isf && (ch.is_ascii_digit() || ch == b'-' || ch == b'+' || c.peek_word().starts_with("f0x")) {
        c.ws();
        let st = c.p;
        while c.p < c.s.len() && (c.s[c.p].is_ascii_alphanumeric() || matches!(c.s[c.p], b'.' | b'+' | b'-')) {
            c.p += 1;
        }
        let tok = std::str::from_utf8(&c.s[st..c.p]).unwrap();
        let ty = m.types.ty(t).clone();
        return Cst::Int(parse_float(tok, &ty));
    }
    if ch.is_ascii_digit() || ch == b'-' {
        if c.s[c.p..].starts_with(b"0x") {
            let w = c.word();
            return Cst::Int(u128::from_str_radix(w.trim_start_matches("0xK").trim_start_matches("0xL").trim_start_matches("0x"), 16).unwrap_or(0));
        }
        let v = c.int();
        let w = match m.types.ty(t) {
            Ty::Int(w) => *w,
            _ => 64,
        };
        return Cst::Int(mask128(v as u128, w));
    }
    let w = c.word();
    match w {
        "null" | "zeroinitializer" | "none" => Cst::Zero,
        "true" => Cst::Int(1),
        "false" => Cst::Int(0),
        "undef" | "poison" => Cst::Undef,
        "splat" => {
            c.expect(b'(');
            let et = m.types.parse(c);
            let v = parse_const(m, c, et);
            c.expect(b')');
            let n = match m.types.ty(t) {
                Ty::Vector(n, _) => *n,
                _ => panic!("splat of non-vector"),
            };
            Cst::Agg((0..n).map(|_| (et, v.clone())).collect())
        }
        "getelementptr" => {
            while !c.eat(b'(') {
                if c.peek_word().is_empty() {
                    panic!("gep constexpr at {}", c.rest());
                }
                let w = c.word();
                if w == "inrange" {
                    c.ws();
                    c.skip_balanced();
                }
            }
            let st = m.types.parse(c);
            c.expect(b',');
            let bt = m.types.parse(c);
            let base = parse_const(m, c, bt);
            let mut ix = vec![];
            while c.eat(b',') {
                let it = m.types.parse(c);
                ix.push((it, parse_const(m, c, it)));
            }
            c.expect(b')');
            Cst::Expr(Box::new(CExpr::Gep(st, base, ix)))
        }
        "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" | "ptrtoaddr" => {
            let op = w.to_string();
            c.expect(b'(');
            let ft = m.types.parse(c);
            let v = parse_const(m, c, ft);
            c.eat_word("to");
            let tt = m.types.parse(c);
            c.expect(b')');
            Cst::Expr(Box::new(CExpr::Cast(op, ft, v, tt)))
        }
        "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" => {
            let op = w.to_string();
            while !c.eat(b'(') {
                c.word();
            }
            let at = m.types.parse(c);
            let a = parse_const(m, c, at);
            c.expect(b',');
            let bt = m.types.parse(c);
            let b = parse_const(m, c, bt);
            c.expect(b')');
            Cst::Expr(Box::new(CExpr::Bin(op, at, a, b)))
        }
        "dso_local_equivalent" | "no_cfi" => parse_const(m, c, t),
        _ => panic!("bad constant '{}' at {}", w, c.rest()),
    }
}

fn parse_agg(m: &mut Module, c: &mut Cur, close: u8) -> Cst {
    let mut v = vec![];
    if c.eat(close) {
        return Cst::Agg(v);
    }
    loop {
        let t = m.types.parse(c);
        let k = parse_const(m, c, t);
        v.push((t, k));
        if c.eat(close) {
            break;
        }
        c.expect(b',');
    }
    Cst::Agg(v)
}

pub fn mask128(v: u128, w: u32) -> u128 {
    if w >= 128 { v } else { v & ((1u128 << w) - 1) }
}

/// Splits the function body into logical lines (instructions).
fn logical_lines(body: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut it = body.lines().peekable();
    while let Some(l) = it.next() {
        let t = l.trim_start();
        if t.is_empty() || t.starts_with(';') || t.starts_with("#dbg") {
            continue;
        }
        let mut s = t.to_string();
        if t.starts_with("switch ") && t.ends_with('[') {
            for l2 in it.by_ref() {
                s.push(' ');
                s.push_str(l2.trim());
                if l2.trim_start().starts_with(']') {
                    break;
                }
            }
        } else if t.contains("invoke ") && (t.starts_with("invoke ") || t.contains("= invoke ")) {
            if let Some(l2) = it.next() {
                s.push(' ');
                s.push_str(l2.trim());
            }
        } else if t.contains("= landingpad ") {
            while let Some(l2) = it.peek() {
                let q = l2.trim_start();
                if q.starts_with("cleanup") || q.starts_with("catch ") || q.starts_with("filter ") {
                    it.next();
                } else {
                    break;
                }
            }
        }
        out.push(s);
    }
    out
}

pub fn parse_func(m: &mut Module, gid: u32) -> Func {
    let (start, end) = match m.syms[gid as usize].1 {
        GKind::Func { start, end } => (start, end),
        _ => panic!("not a function"),
    };
    let name = m.syms[gid as usize].0.clone();
    let text = m.text[start..end].to_string();
    let nl = text.find('\n').unwrap();
    let header = &text[..nl];
    let body = &text[nl + 1..];
    let mut fp = FnParser { m, slots: HashMap::new(), slot_names: vec![], blocks: HashMap::new(), consts: vec![] };
    // parameters
    let mut nparams = 0;
    {
        let at = header.find('@').unwrap();
        let mut c = Cur { s: header.as_bytes(), p: at + 1 };
        c.name();
        c.expect(b'(');
        if !c.eat(b')') {
            loop {
                if c.peek() == b'.' {
                    c.p += 3; // varargs
                    c.expect(b')');
                    break;
                }
                let _t = fp.m.types.parse(&mut c);
                skip_attrs(&mut c);
                if c.peek() == b'%' {
                    c.p += 1;
                    let n = c.name();
                    fp.slot(n);
                } else {
                    fp.slot(format!("{}", nparams));
                }
                nparams += 1;
                if c.eat(b')') {
                    break;
                }
                c.expect(b',');
            }
        }
    }
    let lines = logical_lines(body);
    // block labels in order
    let mut insts: Vec<Inst> = vec![];
    let mut dbg: Vec<u32> = vec![];
    struct B {
        id: u32,
        start: u32,
        phis: Vec<(u32, Vec<(Op, u32)>)>,
    }
    let mut bl: Vec<B> = vec![];
    // unnamed entry block: its implicit number is nparams when parameters are unnamed; any unique name works
    let first_is_label = lines.first().map(|l| is_label(l).is_some()).unwrap_or(false);
    if !first_is_label {
        // find its numeric name: LLVM numbers it after the unnamed params
        let id = fp.block(entry_name(header, nparams));
        bl.push(B { id, start: 0, phis: vec![] });
    }
    for l in &lines {
        if let Some(n) = is_label(l) {
            let id = fp.block(n);
            bl.push(B { id, start: insts.len() as u32, phis: vec![] });
            continue;
        }
        let mut c = Cur::new(l);
        let mut dst_name: Option<String> = None;
        if c.peek() == b'%' {
            c.p += 1;
            let n = c.name();
            c.expect(b'=');
            dst_name = Some(n);
        }
        if c.peek_word() == "phi" {
            c.word();
            while matches!(c.peek_word(), "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") {
                c.word();
            }
            let t = fp.m.types.parse(&mut c);
            let mut inc = vec![];
            loop {
                c.expect(b'[');
                let o = fp.operand(&mut c, t);
                c.expect(b',');
                c.expect(b'%');
                let bn = c.name();
                let b = fp.block(bn);
                c.expect(b']');
                inc.push((o, b));
                if c.peek() == b',' {
                    let q = c.p;
                    c.p += 1;
                    if c.peek() != b'[' {
                        c.p = q;
                        break;
                    }
                } else {
                    break;
                }
            }
            let d = fp.slot(dst_name.unwrap());
            bl.last_mut().unwrap().phis.push((d, inc));
            continue;
        }
        let inst = parse_inst(&mut fp, &mut c, dst_name, l);
        let d = l.rfind("!dbg !").map(|i| {
            let mut c = Cur::new(&l[i + 6..]);
            c.int() as u32
        });
        insts.push(inst);
        dbg.push(d.unwrap_or(u32::MAX));
    }
    let nb = fp.blocks.len();
    let mut blocks: Vec<Block> = (0..nb).map(|_| Block { start: u32::MAX, preds: vec![], phis: vec![] }).collect();
    for b in &bl {
        let blk = &mut blocks[b.id as usize];
        blk.start = b.start;
        if let Some((_, inc)) = b.phis.first() {
            blk.preds = inc.iter().map(|x| x.1).collect();
        }
        for (d, inc) in &b.phis {
            let preds = blk.preds.clone();
            let mut ops = vec![];
            for (k, p) in preds.iter().enumerate() {
                let o = if inc[k].1 == *p { inc[k].0 } else { inc.iter().find(|x| x.1 == *p).unwrap().0 };
                ops.push(o);
            }
            blk.phis.push((*d, ops));
        }
    }
    // make the entry block id 0
    let entry = bl[0].id;
    assert!(blocks[entry as usize].start == 0);
    // block start -> reorder not needed; remember the entry through start==0 and id
    let mut f = Func {
        name,
        gid,
        nparams,
        nslots: fp.slots.len() as u32,
        blocks,
        insts,
        dbg,
        consts: fp.consts,
        slot_names: fp.slot_names,
    };
    f.nslots = f.nslots.max(1);
    f
}

fn entry_name(_h: &str, nparams: u32) -> String {
    format!("{}", nparams)
}

fn is_label(l: &str) -> Option<String> {
    let b = l.as_bytes();
    if b[0] == b'"' {
        let e = l[1..].find('"')? + 1;
        if l[e + 1..].starts_with(':') {
            return Some(l[1..e].to_string());
        }
        return None;
    }
    let mut i = 0;
    while i < b.len() && is_id(b[i]) {
        i += 1;
    }
    if i > 0 && i < b.len() && b[i] == b':' {
        Some(l[..i].to_string())
    } else {
        None
    }
}

fn parse_inst(fp: &mut FnParser, c: &mut Cur, dst_name: Option<String>, line: &str) -> Inst {
    let d = dst_name.map(|n| fp.slot(n));
    let dst = d.unwrap_or(u32::MAX);
    let mut kw = c.word();
    if kw == "tail" || kw == "musttail" || kw == "notail" {
        kw = c.word();
    }
    let bin = |s: &str| -> Option<BinOp> {
        Some(match s {
            "add" => BinOp::Add,
            "sub" => BinOp::Sub,
            "mul" => BinOp::Mul,
            "udiv" => BinOp::UDiv,
            "sdiv" => BinOp::SDiv,
            "urem" => BinOp::URem,
            "srem" => BinOp::SRem,
            "and" => BinOp::And,
            "or" => BinOp::Or,
            "xor" => BinOp::Xor,
            "shl" => BinOp::Shl,
            "lshr" => BinOp::LShr,
            "ashr" => BinOp::AShr,
            _ => return None,
        })
    };
    let skip_flags = |c: &mut Cur| {
        while matches!(
            c.peek_word(),
            "nuw" | "nsw" | "exact" | "disjoint" | "samesign" | "nneg" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc"
        ) {
            c.word();
        }
    };
    if let Some(op) = bin(kw) {
        skip_flags(c);
        let t = fp.m.types.parse(c);
        let a = fp.operand(c, t);
        c.expect(b',');
        let b = fp.operand(c, t);
        return Inst::Bin { op, ty: t, a, b, dst };
    }
    let fbin = match kw {
        "fadd" => Some(FBinOp::Add),
        "fsub" => Some(FBinOp::Sub),
        "fmul" => Some(FBinOp::Mul),
        "fdiv" => Some(FBinOp::Div),
        "frem" => Some(FBinOp::Rem),
        _ => None,
    };
    if let Some(op) = fbin {
        skip_flags(c);
        let t = fp.m.types.parse(c);
        let a = fp.operand(c, t);
        c.expect(b',');
        let b = fp.operand(c, t);
        return Inst::FBin { op, ty: t, a, b, dst };
    }
    match kw {
        "fneg" => {
            skip_flags(c);
            let (t, a) = fp.typed(c);
            Inst::FNeg { ty: t, a, dst }
        }
        "icmp" => {
            skip_flags(c);
            let p = match c.word() {
                "eq" => IPred::Eq,
                "ne" => IPred::Ne,
                "ugt" => IPred::Ugt,
                "uge" => IPred::Uge,
                "ult" => IPred::Ult,
                "ule" => IPred::Ule,
                "sgt" => IPred::Sgt,
                "sge" => IPred::Sge,
                "slt" => IPred::Slt,
                "sle" => IPred::Sle,
                x => panic!("icmp {}", x),
            };
            let t = fp.m.types.parse(c);
            let a = fp.operand(c, t);
            c.expect(b',');
            let b = fp.operand(c, t);
            Inst::ICmp { p, ty: t, a, b, dst }
        }
        "fcmp" => {
            skip_flags(c);
            let p = match c.word() {
                "false" => FPred::False,
                "oeq" => FPred::Oeq,
                "ogt" => FPred::Ogt,
                "oge" => FPred::Oge,
                "olt" => FPred::Olt,
                "ole" => FPred::Ole,
                "one" => FPred::One,
                "ord" => FPred::Ord,
                "ueq" => FPred::Ueq,
                "ugt" => FPred::Ugt,
                "uge" => FPred::Uge,
                "ult" => FPred::Ult,
                "ule" => FPred::Ule,
                "une" => FPred::Une,
                "uno" => FPred::Uno,
                "true" => FPred::True,
                x => panic!("fcmp {}", x),
            };
            let t = fp.m.types.parse(c);
            let a = fp.operand(c, t);
            c.expect(b',');
            let b = fp.operand(c, t);
            Inst::FCmp { p, ty: t, a, b, dst }
        }
        "load" => {
            while matches!(c.peek_word(), "atomic" | "volatile") {
                c.word();
            }
            let t = fp.m.types.parse(c);
            c.expect(b',');
            let (_, p) = fp.typed(c);
            Inst::Load { ty: t, ptr: p, dst }
        }
        "store" => {
            while matches!(c.peek_word(), "atomic" | "volatile") {
                c.word();
            }
            let (t, v) = fp.typed(c);
            c.expect(b',');
            let (_, p) = fp.typed(c);
            Inst::Store { ty: t, val: v, ptr: p }
        }
        "getelementptr" => {
            skip_flags(c);
            while c.peek_word() == "inrange" {
                c.word();
                c.ws();
                c.skip_balanced();
            }
            let st = fp.m.types.parse(c);
            c.expect(b',');
            let (bt, base) = fp.typed(c);
            if !matches!(fp.m.types.ty(bt), Ty::Ptr) {
                return Inst::Unsupported(format!("vector gep: {}", line));
            }
            let mut off: i64 = 0;
            let mut idx = vec![];
            let mut cur = st;
            let mut first = true;
            while c.peek() == b',' {
                let q = c.p;
                c.p += 1;
                if c.peek() == b'!' {
                    c.p = q;
                    break;
                }
                let (it, o) = fp.typed(c);
                let w = fp.m.types.bits(it);
                let scale;
                if first {
                    scale = fp.m.types.layout(cur).size as i64;
                    first = false;
                } else {
                    match fp.m.types.ty(cur).clone() {
                        Ty::Struct(fs, _) => {
                            let k = const_int(fp, o) as usize;
                            off += fp.m.types.layout(cur).offs[k] as i64;
                            cur = fs[k];
                            continue;
                        }
                        Ty::Array(_, e) | Ty::Vector(_, e) => {
                            cur = e;
                            scale = fp.m.types.layout(e).size as i64;
                        }
                        t => panic!("gep into {:?}", t),
                    }
                }
                if let Op::Const(k) = o {
                    if let (_, Cst::Int(v)) = &fp.consts[k as usize] {
                        let sv = sext128(*v, w) as i64;
                        off += sv * scale;
                        continue;
                    }
                    if let (_, Cst::Zero) = &fp.consts[k as usize] {
                        continue;
                    }
                }
                idx.push((o, w, scale));
            }
            Inst::Gep { base, off, idx, dst }
        }
        "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
            skip_flags(c);
            let (ft, a) = fp.typed(c);
            c.eat_word("to");
            let tt = fp.m.types.parse(c);
            let op = match kw {
                "trunc" => CastOp::Trunc,
                "zext" => CastOp::ZExt,
                "sext" => CastOp::SExt,
                "fptrunc" => CastOp::FpTrunc,
                "fpext" => CastOp::FpExt,
                "fptoui" => CastOp::FpToUi,
                "fptosi" => CastOp::FpToSi,
                "uitofp" => CastOp::UiToFp,
                "sitofp" => CastOp::SiToFp,
                "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                    let (a, b) = (fp.m.types.bits(ft), fp.m.types.bits(tt));
                    if a == b {
                        CastOp::Bitcast
                    } else if a < b {
                        CastOp::ZExt
                    } else {
                        CastOp::Trunc
                    }
                }
                _ => CastOp::Bitcast,
            };
            Inst::Cast { op, from: ft, to: tt, a, dst }
        }
        "select" => {
            skip_flags(c);
            let (cty, cc) = fp.typed(c);
            c.expect(b',');
            let (t, a) = fp.typed(c);
            c.expect(b',');
            let (_, b) = fp.typed(c);
            Inst::Select { cty, c: cc, ty: t, a, b, dst }
        }
        "freeze" => {
            let (_, a) = fp.typed(c);
            Inst::Freeze { a, dst }
        }
        "br" => {
            if c.peek_word() == "label" {
                let to = fp.label(c);
                Inst::Br { to }
            } else {
                let (_, cc) = fp.typed(c);
                c.expect(b',');
                let t = fp.label(c);
                c.expect(b',');
                let f = fp.label(c);
                Inst::CondBr { c: cc, t, f }
            }
        }
        "switch" => {
            let (t, v) = fp.typed(c);
            let w = fp.m.types.bits(t);
            c.expect(b',');
            let def = fp.label(c);
            c.expect(b'[');
            let mut cases = vec![];
            while !c.eat(b']') {
                let ct = fp.m.types.parse(c);
                let k = parse_const(fp.m, c, ct);
                let kv = match k {
                    Cst::Int(v) => v as u64,
                    Cst::Zero => 0,
                    _ => panic!("switch case"),
                };
                c.expect(b',');
                let b = fp.label(c);
                cases.push((kv, b));
            }
            Inst::Switch { w, v, def, cases }
        }
        "ret" => {
            let t = fp.m.types.parse(c);
            if matches!(fp.m.types.ty(t), Ty::Void) {
                Inst::Ret { v: None }
            } else {
                let o = fp.operand(c, t);
                Inst::Ret { v: Some(o) }
            }
        }
        "unreachable" => Inst::Unreachable,
        "alloca" => {
            let t = fp.m.types.parse(c);
            let size = fp.m.types.layout(t).size;
            let mut n = None;
            if c.peek() == b',' {
                let q = c.p;
                c.p += 1;
                if Types::is_ty_start(c) {
                    let (_, o) = fp.typed(c);
                    n = Some(o);
                } else {
                    c.p = q;
                }
            }
            Inst::Alloca { size, n, dst }
        }
        "call" | "invoke" => {
            skip_flags(c);
            // calling convention & return attributes
            loop {
                skip_attrs(c);
                match c.peek_word() {
                    "fastcc" | "coldcc" | "ccc" | "tailcc" | "preserve_mostcc" | "preserve_allcc" => {
                        c.word();
                    }
                    "cc" => {
                        c.word();
                        c.int();
                    }
                    "addrspace" => {
                        c.word();
                        c.ws();
                        c.skip_balanced();
                    }
                    _ => break,
                }
            }
            let ret = fp.m.types.parse(c);
            if c.peek() == b'(' {
                c.skip_balanced(); // function type of a vararg call
            }
            let callee;
            match c.peek() {
                b'@' => {
                    c.p += 1;
                    let n = c.name();
                    callee = Callee::Global(fp.m.find(&n).unwrap_or_else(|| panic!("unknown fn {}", n)));
                }
                b'%' => {
                    c.p += 1;
                    let n = c.name();
                    callee = Callee::Ind(Op::Slot(fp.slot(n)));
                }
                _ => {
                    if c.peek_word() == "asm" {
                        callee = Callee::Asm;
                        // skip to the argument list: asm [flags] "..", ".."(args)
                        c.word();
                        while c.peek() != b'"' {
                            c.word();
                        }
                        for _ in 0..2 {
                            c.ws();
                            c.expect(b'"');
                            while c.s[c.p] != b'"' {
                                c.p += 1;
                            }
                            c.p += 1;
                            c.eat(b',');
                        }
                    } else {
                        let pt = fp.m.types.get(Ty::Ptr);
                        let k = parse_const(fp.m, c, pt);
                        let o = fp.cst(pt, k);
                        callee = Callee::Ind(o);
                    }
                }
            }
            c.expect(b'(');
            let mut args = vec![];
            if !c.eat(b')') {
                loop {
                    let t = fp.m.types.parse(c);
                    if matches!(fp.m.types.ty(t), Ty::Metadata) {
                        // skip until , or ) at depth 0
                        let mut dep = 0;
                        loop {
                            let ch = c.peek();
                            if dep == 0 && (ch == b',' || ch == b')') {
                                break;
                            }
                            match ch {
                                b'(' | b'{' | b'[' => dep += 1,
                                b')' | b'}' | b']' => dep -= 1,
                                _ => {}
                            }
                            c.p += 1;
                        }
                        let o = fp.cst(t, Cst::Undef);
                        args.push((t, o));
                    } else {
                        let o = fp.operand(c, t);
                        args.push((t, o));
                    }
                    if c.eat(b')') {
                        break;
                    }
                    c.expect(b',');
                }
            }
            let mut normal = None;
            if kw == "invoke" {
                // attributes and bundles up to "to label"
                let rest = line.rfind(" to label %").unwrap_or_else(|| panic!("invoke without dest: {}", line));
                c.p = rest + 4;
                normal = Some(fp.label(c));
            }
            Inst::Call(Box::new(CallInst { callee, args, ret, dst: d, normal }))
        }
        "extractvalue" => {
            let (_, a) = fp.typed(c);
            let path = ints(c);
            Inst::ExtractValue { a, path, dst }
        }
        "insertvalue" => {
            let (t, a) = fp.typed(c);
            c.expect(b',');
            let (_, v) = fp.typed(c);
            let path = ints(c);
            Inst::InsertValue { ty: t, a, v, path, dst }
        }
        "extractelement" => {
            let (_, a) = fp.typed(c);
            c.expect(b',');
            let (_, i) = fp.typed(c);
            Inst::ExtractElement { a, i, dst }
        }
        "insertelement" => {
            let (t, a) = fp.typed(c);
            c.expect(b',');
            let (_, v) = fp.typed(c);
            c.expect(b',');
            let (_, i) = fp.typed(c);
            Inst::InsertElement { ty: t, a, v, i, dst }
        }
        "shufflevector" => {
            let (t, a) = fp.typed(c);
            c.expect(b',');
            let (_, b) = fp.typed(c);
            c.expect(b',');
            let mt = fp.m.types.parse(c);
            let k = parse_const(fp.m, c, mt);
            let n = match fp.m.types.ty(mt) {
                Ty::Vector(n, _) => *n,
                _ => panic!(),
            };
            let mask = match k {
                Cst::Zero => vec![0; n as usize],
                Cst::Undef => vec![-1; n as usize],
                Cst::Agg(v) => v
                    .iter()
                    .map(|x| match x.1 {
                        Cst::Int(i) => i as i32,
                        Cst::Zero => 0,
                        _ => -1,
                    })
                    .collect(),
                _ => panic!("shuffle mask"),
            };
            Inst::Shuffle { ty: t, a, b, mask, dst }
        }
        "atomicrmw" => {
            c.eat_word("volatile");
            let op = match c.word() {
                "xchg" => RmwOp::Xchg,
                "add" => RmwOp::Add,
                "sub" => RmwOp::Sub,
                "and" => RmwOp::And,
                "nand" => RmwOp::Nand,
                "or" => RmwOp::Or,
                "xor" => RmwOp::Xor,
                "max" => RmwOp::Max,
                "min" => RmwOp::Min,
                "umax" => RmwOp::UMax,
                "umin" => RmwOp::UMin,
                x => return Inst::Unsupported(format!("atomicrmw {}", x)),
            };
            let (_, p) = fp.typed(c);
            c.expect(b',');
            let (t, v) = fp.typed(c);
            Inst::Rmw { op, ty: t, ptr: p, v, dst }
        }
        "cmpxchg" => {
            while matches!(c.peek_word(), "weak" | "volatile") {
                c.word();
            }
            let (_, p) = fp.typed(c);
            c.expect(b',');
            let (t, cmp) = fp.typed(c);
            c.expect(b',');
            let (_, new) = fp.typed(c);
            Inst::CmpXchg { ty: t, ptr: p, cmp, new, dst }
        }
        "fence" => Inst::Nop,
        "landingpad" | "resume" | "indirectbr" | "va_arg" | "catchpad" | "cleanuppad" => Inst::Unsupported(kw.to_string()),
        _ => Inst::Unsupported(line.to_string()),
    }
}

fn ints(c: &mut Cur) -> Vec<u32> {
    let mut v = vec![];
    while c.peek() == b',' {
        let q = c.p;
        c.p += 1;
        if !c.peek().is_ascii_digit() {
            c.p = q;
            break;
        }
        v.push(c.int() as u32);
    }
    v
}

fn const_int(fp: &FnParser, o: Op) -> u64 {
    match o {
        Op::Const(k) => match &fp.consts[k as usize].1 {
            Cst::Int(v) => *v as u64,
            Cst::Zero => 0,
            _ => panic!("const int expected"),
        },
        _ => panic!("const int expected"),
    }
}

pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

pub enum GInit {
    Extern,
    Alias(Cst),
    Init(TyId, Cst),
}

/// Parses the definition of a global variable (the text after its name)
pub fn parse_global(m: &mut Module, gid: u32) -> GInit {
    let (s, e) = match m.syms[gid as usize].1 {
        GKind::Var { start, end } => (start, end),
        _ => panic!("not a variable"),
    };
    let txt = m.text[s..e].to_string();
    let mut c = Cur::new(&txt);
    c.expect(b'=');
    let mut ext = false;
    loop {
        let w = c.peek_word();
        match w {
            "private" | "internal" | "unnamed_addr" | "local_unnamed_addr" | "constant" | "global" | "thread_local" | "appending" | "weak" | "weak_odr"
            | "linkonce" | "linkonce_odr" | "hidden" | "protected" | "default" | "dso_local" | "common" | "available_externally" | "externally_initialized" | "dllimport" => {
                c.word();
                if w == "thread_local" && c.peek() == b'(' {
                    c.skip_balanced();
                }
                if w == "constant" || w == "global" {
                    break;
                }
            }
            "addrspace" => {
                c.word();
                c.ws();
                c.skip_balanced();
            }
            "external" | "extern_weak" => {
                c.word();
                ext = true;
            }
            "alias" | "ifunc" => {
                c.word();
                m.types.parse(&mut c);
                c.expect(b',');
                let t = m.types.parse(&mut c);
                return GInit::Alias(parse_const(m, &mut c, t));
            }
            _ => panic!("global definition at {}", c.rest()),
        }
    }
    let t = m.types.parse(&mut c);
    if ext {
        return GInit::Extern;
    }
    let k = parse_const(m, &mut c, t);
    GInit::Init(t, k)
}
