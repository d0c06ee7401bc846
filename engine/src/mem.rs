//! Copy-on-write byte memory; each byte is concrete or (term, byte index).
use crate::term::*;
use std::rc::Rc;

pub const PG: usize = 4096;
const L1N: usize = 256;

#[derive(Clone)]
pub struct Page {
    pub data: Box<[u8; PG]>,
    /// (term, byte index); term 0 means concrete
    pub sym: Option<Box<[(T, u32)]>>,
}
impl Page {
    fn new() -> Page { Page { data: Box::new([0; PG]), sym: None } }
}
#[derive(Clone)]
struct L1 { p: Vec<Option<Rc<Page>>> }

#[derive(Clone)]
pub struct Mem { root: Vec<Option<Rc<L1>>> }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B { C(u8), S(T, u32) }

impl Mem {
    pub fn new() -> Mem { Mem { root: vec![None; 4096] } }
    #[inline]
    fn page(&self, a: u64) -> Option<&Page> {
        let pn = (a as usize) / PG;
        match self.root.get(pn / L1N) { Some(Some(l)) => l.p[pn % L1N].as_deref(), _ => None }
    }
    #[inline]
    fn page_mut(&mut self, a: u64) -> &mut Page {
        let pn = (a as usize) / PG;
        let l = self.root[pn / L1N].get_or_insert_with(|| Rc::new(L1 { p: vec![None; L1N] }));
        let l = Rc::make_mut(l);
        let p = l.p[pn % L1N].get_or_insert_with(|| Rc::new(Page::new()));
        Rc::make_mut(p)
    }
    pub fn valid(a: u64, n: u64) -> bool { a >= 0x1000 && a.checked_add(n).map_or(false, |e| e <= (4096 * L1N * PG) as u64) }
    pub fn get(&self, a: u64) -> B {
        match self.page(a) {
            None => B::C(0),
            Some(p) => {
                let o = a as usize % PG;
                if let Some(s) = &p.sym { if s[o].0 != 0 { return B::S(s[o].0, s[o].1); } }
                B::C(p.data[o])
            }
        }
    }
    pub fn set(&mut self, a: u64, b: B) {
        let p = self.page_mut(a);
        let o = a as usize % PG;
        match b {
            B::C(c) => { p.data[o] = c; if let Some(s) = &mut p.sym { s[o].0 = 0; } }
            B::S(t, i) => {
                let s = p.sym.get_or_insert_with(|| vec![(0, 0); PG].into_boxed_slice());
                s[o] = (t, i);
            }
        }
    }
    /// concrete little-endian read of up to 16 bytes
    #[inline]
    pub fn read_conc(&self, a: u64, n: usize) -> Option<u128> {
        let o = a as usize % PG;
        if o + n <= PG {
            match self.page(a) {
                None => Some(0),
                Some(p) => {
                    if let Some(s) = &p.sym { for k in o..o + n { if s[k].0 != 0 { return None; } } }
                    let mut b = [0u8; 16];
                    b[..n].copy_from_slice(&p.data[o..o + n]);
                    Some(u128::from_le_bytes(b))
                }
            }
        } else {
            let mut r = 0u128;
            for k in 0..n { match self.get(a + k as u64) { B::C(c) => r |= (c as u128) << (8 * k), _ => return None } }
            Some(r)
        }
    }
    #[inline]
    pub fn write_conc(&mut self, a: u64, n: usize, v: u128) {
        let o = a as usize % PG;
        let b = v.to_le_bytes();
        if o + n <= PG {
            let p = self.page_mut(a);
            p.data[o..o + n].copy_from_slice(&b[..n]);
            if let Some(s) = &mut p.sym { for k in o..o + n { s[k].0 = 0; } }
        } else {
            for k in 0..n { self.set(a + k as u64, B::C(b[k])); }
        }
    }
    pub fn write_term(&mut self, a: u64, t: T) {
        let wd = w(t);
        let (t, n) = if wd % 8 == 0 { (t, wd / 8) } else { let n = (wd + 7) / 8; (zext(t, n * 8), n) };
        if is_konst(t) {
            let mut k = 0;
            while k < n { let m = (n - k).min(16); let v = as_const(ext(t, 8 * k, 8 * m)).unwrap(); self.write_conc(a + k as u64, m as usize, v); k += m; }
            return;
        }
        // keep constant pieces concrete
        if let N::Cat(ps) = node(t) {
            if ps.iter().all(|&p| w(p) % 8 == 0) {
                let mut o = 0u64;
                for p in ps.to_vec() { self.write_term(a + o, p); o += (w(p) / 8) as u64; }
                return;
            }
        }
        for k in 0..n { self.set(a + k as u64, B::S(t, k)); }
    }
    /// n bytes as a term of 8n bits
    pub fn read_term(&self, a: u64, n: usize) -> T {
        let mut out: Vec<T> = Vec::new();
        let mut k = 0;
        while k < n {
            match self.get(a + k as u64) {
                B::C(c) => {
                    let mut v = c as u128;
                    let mut m = 1;
                    while k + m < n && m < 16 {
                        match self.get(a + (k + m) as u64) { B::C(c) => { v |= (c as u128) << (8 * m); m += 1; } _ => break }
                    }
                    out.push(konst(v, 8 * m as u32));
                    k += m;
                }
                B::S(t, i) => {
                    let mut m = 1;
                    while k + m < n && self.get(a + (k + m) as u64) == B::S(t, i + m as u32) { m += 1; }
                    out.push(ext(t, 8 * i, 8 * m as u32));
                    k += m;
                }
            }
        }
        cat(&out)
    }
    pub fn byte_term(&self, a: u64) -> T { match self.get(a) { B::C(c) => konst(c as u128, 8), B::S(t, i) => ext(t, 8 * i, 8) } }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) {
        if n == 0 || dst == src { return; }
        // chunkwise through a buffer (handles overlap)
        let mut bytes = Vec::with_capacity(n as usize);
        let mut syms: Vec<(usize, T, u32)> = Vec::new();
        let mut k = 0u64;
        while k < n {
            let a = src + k;
            let o = a as usize % PG;
            let m = ((PG - o) as u64).min(n - k) as usize;
            match self.page(a) {
                None => bytes.extend(std::iter::repeat(0).take(m)),
                Some(p) => {
                    bytes.extend_from_slice(&p.data[o..o + m]);
                    if let Some(s) = &p.sym { for j in 0..m { if s[o + j].0 != 0 { syms.push((k as usize + j, s[o + j].0, s[o + j].1)); } } }
                }
            }
            k += m as u64;
        }
        self.write_bytes(dst, &bytes);
        for (j, t, i) in syms { self.set(dst + j as u64, B::S(t, i)); }
    }
    pub fn write_bytes(&mut self, dst: u64, b: &[u8]) {
        let mut k = 0;
        while k < b.len() {
            let a = dst + k as u64;
            let o = a as usize % PG;
            let m = (PG - o).min(b.len() - k);
            let p = self.page_mut(a);
            p.data[o..o + m].copy_from_slice(&b[k..k + m]);
            if let Some(s) = &mut p.sym { for x in &mut s[o..o + m] { x.0 = 0; } }
            k += m;
        }
    }
    pub fn fill(&mut self, dst: u64, c: u8, n: u64) {
        let mut k = 0;
        while k < n {
            let a = dst + k;
            let o = a as usize % PG;
            let m = ((PG - o) as u64).min(n - k) as usize;
            if c == 0 && m == PG {
                let pn = a as usize / PG;
                if let Some(l) = &mut self.root[pn / L1N] { if l.p[pn % L1N].is_some() { Rc::make_mut(l).p[pn % L1N] = None; } }
            } else {
                let p = self.page_mut(a);
                p.data[o..o + m].fill(c);
                if let Some(s) = &mut p.sym { for x in &mut s[o..o + m] { x.0 = 0; } }
            }
            k += m as u64;
        }
    }
    /// release whole pages inside [a, a+n)
    pub fn release(&mut self, a: u64, n: u64) {
        let s = (a + PG as u64 - 1) / PG as u64;
        let e = (a + n) / PG as u64;
        for pn in s..e {
            let pn = pn as usize;
            if let Some(l) = &mut self.root[pn / L1N] { if l.p[pn % L1N].is_some() { Rc::make_mut(l).p[pn % L1N] = None; } }
        }
    }
    /// replace terms everywhere
    pub fn replace_terms(&mut self, f: &mut dyn FnMut(T) -> Option<T>) {
        for r in self.root.iter_mut() {
            let Some(l) = r else { continue };
            let mut hits: Vec<(usize, Vec<(usize, T, u32)>)> = vec![];
            for (pi, p) in l.p.iter().enumerate() {
                let Some(p) = p else { continue };
                let Some(s) = &p.sym else { continue };
                let mut h = vec![];
                for (o, &(t, i)) in s.iter().enumerate() {
                    if t != 0 { if let Some(nt) = f(t) { h.push((o, nt, i)); } }
                }
                if !h.is_empty() { hits.push((pi, h)); }
            }
            if hits.is_empty() { continue; }
            let l = Rc::make_mut(l);
            for (pi, h) in hits {
                let p = Rc::make_mut(l.p[pi].as_mut().unwrap());
                for (o, nt, i) in h {
                    let b = ext(nt, 8 * i, 8);
                    match as_const(b) {
                        Some(c) => { p.data[o] = c as u8; p.sym.as_mut().unwrap()[o] = (0, 0); }
                        None => p.sym.as_mut().unwrap()[o] = (nt, i),
                    }
                }
            }
        }
    }
    /// self := ite(c, a, self)   (byte-wise, only pages that differ); None when more than `limit` bytes differ
    pub fn merge(&mut self, c: T, a: &Mem, limit: usize) -> Option<usize> {
        let mut todo: Vec<(u64, B, B)> = vec![];
        for ri in 0..self.root.len() {
            let (x, y) = (&a.root[ri], &self.root[ri]);
            match (x, y) { (None, None) => continue, (Some(p), Some(q)) if Rc::ptr_eq(p, q) => continue, _ => {} }
            for pi in 0..L1N {
                let px = x.as_ref().and_then(|l| l.p[pi].clone());
                let py = y.as_ref().and_then(|l| l.p[pi].clone());
                match (&px, &py) { (None, None) => continue, (Some(p), Some(q)) if Rc::ptr_eq(p, q) => continue, _ => {} }
                let base = ((ri * L1N + pi) * PG) as u64;
                for o in 0..PG as u64 {
                    let (bx, by) = (a.get(base + o), self.get(base + o));
                    if bx != by { todo.push((base + o, bx, by)); if todo.len() > limit { return None; } }
                }
            }
        }
        // group runs so that whole values stay whole: contiguous bytes, same source terms
        let n = todo.len();
        let mut k = 0;
        while k < n {
            let mut m = 1;
            let ext_ok = |p: B, q: B| match (p, q) { (B::C(_), B::C(_)) => true, (B::S(t, i), B::S(u, j)) => t == u && j == i + 1, _ => false };
            while k + m < n && m < 16 && todo[k + m].0 == todo[k].0 + m as u64 && todo[k + m].0 % 16 != 0 && ext_ok(todo[k + m - 1].1, todo[k + m].1) && ext_ok(todo[k + m - 1].2, todo[k + m].2) { m += 1; }
            let addr = todo[k].0;
            let tx = a.read_term(addr, m);
            let ty = self.read_term(addr, m);
            let r = ite(c, tx, ty);
            self.write_term(addr, r);
            k += m;
        }
        Some(n)
    }
}
