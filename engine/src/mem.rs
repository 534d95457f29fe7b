//! Values and byte-addressed objects with symbolic cells.
use crate::expr::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    S(E),
    W(Rc<u128>),
    A(Rc<Vec<V>>),
    U,
}

#[derive(Clone, Default)]
pub struct Obj {
    pub data: Vec<u8>,
    /// offset -> (expression, size in bytes, index of the first byte used, total used)
    pub sym: Option<Box<BTreeMap<u32, (E, u8)>>>,
    pub freed: bool,
}

impl Obj {
    pub fn new(n: usize) -> Obj {
        Obj { data: vec![0; n], sym: None, freed: false }
    }
    pub fn has_sym(&self, off: usize, n: usize) -> bool {
        match &self.sym {
            None => false,
            Some(m) => {
                let lo = off.saturating_sub(16) as u32;
                m.range(lo..(off + n) as u32).any(|(o, (_, s))| (*o as usize) + (*s as usize) > off)
            }
        }
    }
    /// removes symbolic bytes in the range, splitting cells that straddle it
    pub fn clear(&mut self, p: &mut Pool, off: usize, n: usize) {
        if self.sym.is_none() || !self.has_sym(off, n) {
            return;
        }
        let m = self.sym.as_mut().unwrap();
        let lo = off.saturating_sub(16) as u32;
        let hit: Vec<(u32, (E, u8))> =
            m.range(lo..(off + n) as u32).filter(|(o, (_, s))| (**o as usize) + (*s as usize) > off).map(|(a, b)| (*a, *b)).collect();
        for (o, (e, s)) in hit {
            m.remove(&o);
            for k in 0..s as usize {
                let a = o as usize + k;
                if a < off || a >= off + n {
                    let b = p.ext(e, 8 * k as u32, 8);
                    if let Some(v) = p.as_c(b) {
                        self.data[a] = v as u8;
                    } else {
                        m.insert(a as u32, (b, 1));
                    }
                }
            }
        }
        if m.is_empty() {
            self.sym = None;
        }
    }
    pub fn put_bytes(&mut self, p: &mut Pool, off: usize, b: &[u8]) {
        if self.sym.is_some() {
            self.clear(p, off, b.len());
        }
        self.data[off..off + b.len()].copy_from_slice(b);
    }
    pub fn put_e(&mut self, p: &mut Pool, off: usize, e: E) {
        let n = (p.width(e) / 8) as usize;
        self.clear(p, off, n);
        self.sym.get_or_insert_with(Default::default).insert(off as u32, (e, n as u8));
    }
    pub fn get_byte(&self, p: &mut Pool, a: usize) -> E {
        if let Some(m) = &self.sym {
            let lo = a.saturating_sub(16) as u32;
            for (o, (e, s)) in m.range(lo..=(a as u32)) {
                if (*o as usize) + (*s as usize) > a {
                    let k = a - *o as usize;
                    return p.ext(*e, 8 * k as u32, 8);
                }
            }
        }
        p.c(self.data[a] as u128, 8)
    }
    /// little-endian expression of n bytes
    pub fn get_e(&self, p: &mut Pool, off: usize, n: usize) -> E {
        if let Some(m) = &self.sym {
            if let Some((e, s)) = m.get(&(off as u32)) {
                if *s as usize == n {
                    return *e;
                }
            }
        }
        let mut r = self.get_byte(p, off);
        for k in 1..n {
            let b = self.get_byte(p, off + k);
            r = p.cat(b, r);
        }
        r
    }
    /// cells of a range, relative to its start (for memcpy)
    pub fn cells(&self, p: &mut Pool, off: usize, n: usize) -> Vec<(u32, E)> {
        if !self.has_sym(off, n) {
            return vec![];
        }
        let m = self.sym.as_ref().unwrap();
        let lo = off.saturating_sub(16) as u32;
        let mut out = vec![];
        for (o, (e, s)) in m.range(lo..(off + n) as u32) {
            let (o, s) = (*o as usize, *s as usize);
            if o + s <= off {
                continue;
            }
            if o >= off && o + s <= off + n {
                out.push(((o - off) as u32, *e));
            } else {
                for k in 0..s {
                    if o + k >= off && o + k < off + n {
                        let b = p.ext(*e, 8 * k as u32, 8);
                        out.push(((o + k - off) as u32, b));
                    }
                }
            }
        }
        out
    }
}
