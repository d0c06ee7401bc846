//! Normal forms of equations: sums of monomials over Z/2^w (add, sub, mul) and over
//! (Z/2)^w (xor, and, or, not). Used on equations the solver did not settle quickly:
//! an equation whose two sides have one normal form is replaced by `true` before solving.
use crate::term::*;
use std::collections::HashMap;

type Mono = Box<[T]>;
type Poly = HashMap<Mono, u128>;
const CAP: usize = 400_000;

fn is_arith(t: T) -> bool { matches!(node(t), N::Bin(Op::Add | Op::Sub | Op::Mul, _, _) | N::Ite(..)) }
fn is_bool(t: T) -> bool { matches!(node(t), N::Bin(Op::Xor | Op::And | Op::Or, _, _) | N::Not(_)) || (w(t) == 1 && matches!(node(t), N::Ite(..) )) }

struct Norm { gf2: bool, bits: bool, wd: u32, memo: HashMap<T, std::rc::Rc<Poly>>, fail: std::collections::HashSet<T>, work: usize }
impl Norm {
    fn cap(&self) -> usize { if self.bits { 100 * CAP } else if self.gf2 && self.wd > 1 { CAP } else if self.gf2 { 2 * CAP } else { 8 * CAP } }
    fn add(&self, p: &mut Poly, m: Mono, c: u128) {
        let k = mask(self.wd);
        let gf2 = self.gf2;
        use std::collections::hash_map::Entry;
        match p.entry(m) {
            Entry::Occupied(mut e) => {
                let v = if gf2 { *e.get() ^ c } else { e.get().wrapping_add(c) } & k;
                if v == 0 { e.remove(); } else { *e.get_mut() = v; }
            }
            Entry::Vacant(e) => { if c & k != 0 { e.insert(c & k); } }
        }
    }
    fn mul(&mut self, a: &Poly, b: &Poly) -> Option<Poly> {
        self.work += a.len() * b.len();
        if a.len() * b.len() > CAP || self.work > self.cap() { return None; }
        let mut r = Poly::new();
        for (m, c) in a { for (n, d) in b {
            let mut v: Vec<T> = m.iter().chain(n.iter()).copied().collect();
            v.sort_unstable();
            if self.gf2 { v.dedup(); } else if self.wd > 1 { v.dedup_by(|x, y| x == y && w(*x) == 1); } // a bit is its own square
            let c = if self.gf2 { c & d } else { c.wrapping_mul(*d) };
            self.add(&mut r, v.into_boxed_slice(), c);
        } }
        Some(r)
    }
    fn sum(&mut self, a: &Poly, b: &Poly, neg: bool) -> Poly {
        let mut r = a.clone();
        self.work += b.len();
        for (m, c) in b { self.add(&mut r, m.clone(), if neg && !self.gf2 { c.wrapping_neg() } else { *c }); }
        r
    }
    /// a 1-bit term as the integer 0 or 1
    fn bit(&mut self, c: T) -> Option<std::rc::Rc<Poly>> {
        if let Some(p) = self.memo.get(&c) { return Some(p.clone()); }
        let one = || -> Mono { Vec::new().into_boxed_slice() };
        let k = |v: u128| { let mut p = Poly::new(); if v != 0 { p.insert(one(), v); } p };
        let r = match *node(c) {
            N::Const(v) => k(v),
            N::Not(a) => { let a = self.bit(a)?; self.sum(&k(1), &a, true) }
            N::Bin(op @ (Op::And | Op::Or | Op::Xor), a, b) => {
                let (a, b) = (self.bit(a)?, self.bit(b)?);
                let m = self.mul(&a, &b)?;
                if op == Op::And { m } else {
                    let s = self.sum(&a, &b, false);
                    let s = self.sum(&s, &m, true);
                    if op == Op::Or { s } else { self.sum(&s, &m, true) }
                }
            }
            _ => { let mut p = Poly::new(); p.insert(vec![c].into_boxed_slice(), 1); p }
        };
        if r.len() > CAP { return None; }
        let r = std::rc::Rc::new(r);
        self.memo.insert(c, r.clone());
        Some(r)
    }
    fn go(&mut self, t: T) -> Option<std::rc::Rc<Poly>> {
        if let Some(p) = self.memo.get(&t) { return Some(p.clone()); }
        if self.work > self.cap() || self.fail.contains(&t) { return None; }
        let one = || -> Mono { Vec::new().into_boxed_slice() };
        let atom = |t: T| -> Poly { let mut p = Poly::new(); p.insert(vec![t].into_boxed_slice(), if self.gf2 { mask(self.wd) } else { 1 }); p };
        let r = match *node(t) {
            N::Const(c) => { let mut p = Poly::new(); if c != 0 { p.insert(one(), c); } p }
            N::Bin(op @ (Op::Add | Op::Sub), a, b) if !self.gf2 => { let (a, b) = (self.go(a)?, self.go(b)?); self.sum(&a, &b, op == Op::Sub) }
            N::Bin(Op::Mul, a, b) if !self.gf2 => { let (a, b) = (self.go(a)?, self.go(b)?); self.mul(&a, &b)? }
            N::Not(a) if !self.gf2 => { let a = self.go(a)?; let mut p = Poly::new(); for (m, c) in a.iter() { self.add(&mut p, m.clone(), c.wrapping_neg()); } self.add(&mut p, one(), u128::MAX); p }
            N::Bin(Op::Xor, a, b) if self.gf2 => { let (a, b) = (self.go(a)?, self.go(b)?); self.sum(&a, &b, false) }
            N::Bin(Op::And, a, b) if self.gf2 => { let (a, b) = (self.go(a)?, self.go(b)?); self.mul(&a, &b)? }
            N::Bin(Op::Or, a, b) if self.gf2 => { let (a, b) = (self.go(a)?, self.go(b)?); let m = self.mul(&a, &b)?; let s = self.sum(&a, &b, false); self.sum(&s, &m, false) }
            N::Not(a) if self.gf2 => { let a = self.go(a)?; let mut p = (*a).clone(); self.add(&mut p, one(), mask(self.wd)); p }
            N::Ite(c, a, b) if self.gf2 && self.wd == 1 => { let (c, a, b) = (self.go(c)?, self.go(a)?, self.go(b)?); let d = self.sum(&a, &b, false); let m = self.mul(&c, &d)?; self.sum(&b, &m, false) }
            N::Ite(c, a, b) if !self.gf2 && self.wd > 1 => { let (c, a, b) = (self.bit(c)?, self.go(a)?, self.go(b)?); let d = self.sum(&a, &b, true); let m = self.mul(&c, &d)?; self.sum(&b, &m, false) }
            N::Cat(ref ps) if !self.gf2 && self.wd > 1 && ps.iter().all(|&p| w(p) == 1 || is_konst(p)) => {
                let (mut r, mut lo) = (Poly::new(), 0);
                for &p in ps.iter() {
                    let q = match as_const(p) { Some(v) => { let mut q = Poly::new(); if v != 0 { q.insert(one(), v); } q } None => (*self.bit(p)?).clone() };
                    for (m, c) in q { self.add(&mut r, m, c << lo); }
                    lo += w(p);
                }
                r
            }
            // two words side by side
            N::Cat(ref ps) if !self.gf2 && ps.iter().filter(|&&p| !is_konst(p)).count() <= 2 => {
                let (mut r, mut lo) = (Poly::new(), 0);
                for (i, &p) in ps.iter().enumerate() {
                    if let Some(v) = as_const(p) { self.add(&mut r, one(), v << lo); }
                    else if i + 1 == ps.len() && is_arith(p) {
                        let mut n = Norm { gf2: false, bits: false, wd: w(p), memo: HashMap::new(), fail: Default::default(), work: self.work };
                        let q = n.go(p)?;
                        self.work = n.work;
                        for (m, c) in q.iter() { self.add(&mut r, m.clone(), c << lo); }
                    } else { self.add(&mut r, vec![p].into_boxed_slice(), 1 << lo); }
                    lo += w(p);
                }
                r
            }
            // single bits: through every bitwise construct
            N::Ext(b, lo) if self.bits && self.gf2 && matches!(node(b), N::Bin(Op::Xor | Op::And | Op::Or, _, _) | N::Not(_) | N::Ite(..)) => match *node(b) {
                N::Bin(op, x, y) => {
                    let (x, y) = (self.go(ext(x, lo, 1))?, self.go(ext(y, lo, 1))?);
                    match op { Op::And => self.mul(&x, &y)?, Op::Xor => self.sum(&x, &y, false), _ => { let m = self.mul(&x, &y)?; let s = self.sum(&x, &y, false); self.sum(&s, &m, false) } }
                }
                N::Not(x) => { let mut p = (*self.go(ext(x, lo, 1))?).clone(); self.add(&mut p, one(), 1); p }
                N::Ite(c, x, y) => { let (c, x, y) = (self.go(c)?, self.go(ext(x, lo, 1))?, self.go(ext(y, lo, 1))?); let d = self.sum(&x, &y, false); let m = self.mul(&c, &d)?; self.sum(&y, &m, false) }
                _ => atom(t),
            },
            // bits of words: keep xor/and outside the extraction
            N::Ext(b, lo) if self.gf2 && is_bool(b) => match *node(b) {
                N::Bin(op, x, y) => {
                    let (x, y) = (ext(x, lo, self.wd), ext(y, lo, self.wd));
                    let (x, y) = (self.go(x)?, self.go(y)?);
                    match op { Op::And => self.mul(&x, &y)?, Op::Xor => self.sum(&x, &y, false), _ => { let m = self.mul(&x, &y)?; let s = self.sum(&x, &y, false); self.sum(&s, &m, false) } }
                }
                _ => atom(t),
            },
            _ => atom(t),
        };
        if r.len() > CAP { return None; }
        let r = std::rc::Rc::new(r);
        self.memo.insert(t, r.clone());
        Some(r)
    }
}
/// whether `a - b` (or `a ^ b`) normalises to a constant; Some(true) if equal for all values
fn decide(a: T, b: T, gf2: bool) -> Option<bool> {
    let mut n = Norm { gf2, bits: false, wd: w(a), memo: HashMap::new(), fail: Default::default(), work: 0 };
    let (p, q) = (n.go(a)?, n.go(b)?);
    let d = n.sum(&p, &q, true);
    if d.is_empty() { return Some(true); }
    if d.len() == 1 && d.keys().next().unwrap().is_empty() { return Some(false); }
    if std::env::var("POLYDBG").is_ok() { for (m, c) in d.iter().take(6) { eprintln!("   diff {:x} * {:?}", c, m.iter().map(|&x| show(x, 4)).collect::<Vec<_>>()); } }
    None
}
pub fn equal(a: T, b: T) -> Option<bool> {
    let wd = w(a);
    if wd > 128 { return None; }
    if wd > 1 && (is_arith(a) || is_arith(b)) { if let Some(r) = decide(a, b, false) { return Some(r); } }
    if is_bool(a) || is_bool(b) || matches!(node(a), N::Cat(_)) || matches!(node(b), N::Cat(_)) {
        if let Some(r) = decide(a, b, true) { return Some(r); }
        if wd == 1 { return None; }
        // piece by piece, where words are put together from smaller parts
        let mut cuts = std::collections::BTreeSet::new();
        let mut seen = std::collections::HashSet::new();
        segments(a, 0, 0, wd, &mut cuts, &mut seen);
        segments(b, 0, 0, wd, &mut cuts, &mut seen);
        cuts.insert(0);
        cuts.insert(wd);
        let c: Vec<u32> = cuts.into_iter().collect();
        let mut settled = c.len() > 2;
        if settled {
            for k in 0..c.len() - 1 {
                let n = c[k + 1] - c[k];
                let (x, y) = (ext(a, c[k], n), ext(b, c[k], n));
                if x == y { continue; }
                match decide(x, y, true) { Some(true) => {} Some(false) => return Some(false), None => { settled = false; break; } }
            }
        }
        if settled { return Some(true); }
        return by_bits(a, b);
    }
    None
}
/// every bit on its own, through all bitwise constructs
fn by_bits(a: T, b: T) -> Option<bool> {
    let mut n = Norm { gf2: true, bits: true, wd: 1, memo: HashMap::new(), fail: Default::default(), work: 0 };
    for k in 0..w(a) {
        let (x, y) = (ext(a, k, 1), ext(b, k, 1));
        if x == y { continue; }
        let (p, q) = (n.go(x)?, n.go(y)?);
        let d = n.sum(&p, &q, true);
        if d.is_empty() { continue; }
        if d.len() == 1 && d.keys().next().unwrap().is_empty() { return Some(false); }
        return None;
    }
    Some(true)
}
/// bits [lo, lo+n) of `t` sit at `at`: collect the piece boundaries below it
fn segments(t: T, lo: u32, at: u32, n: u32, out: &mut std::collections::BTreeSet<u32>, seen: &mut std::collections::HashSet<(T, u32, u32, u32)>) {
    if n <= 1 || !seen.insert((t, lo, at, n)) { return; }
    match node(t) {
        N::Bin(Op::And | Op::Or | Op::Xor, a, b) => { segments(*a, lo, at, n, out, seen); segments(*b, lo, at, n, out, seen); }
        N::Not(a) => segments(*a, lo, at, n, out, seen),
        N::Ext(a, l) => segments(*a, lo + l, at, n, out, seen),
        N::Cat(ps) => {
            let mut pos = 0;
            for &p in ps.iter() {
                let (s, e) = (pos.max(lo), (pos + w(p)).min(lo + n));
                if s < e { out.insert(at + s - lo); out.insert(at + e - lo); segments(p, s - pos, at + s - lo, e - s, out, seen); }
                pos += w(p);
            }
        }
        _ => {}
    }
}
/// whether a 1-bit term is constant; normal forms are kept from one call to the next
pub fn constant(t: T) -> Option<bool> {
    if !matches!(node(t), N::Bin(Op::Xor, _, _)) { return None; }
    thread_local! { static KEEP: std::cell::RefCell<(HashMap<T, std::rc::Rc<Poly>>, std::collections::HashSet<T>)> = Default::default(); }
    KEEP.with(|k| {
        let mut k = k.borrow_mut();
        if k.0.len() > 3_000_000 { k.0.clear(); }
        let memo = std::mem::take(&mut k.0);
        let fail = std::mem::take(&mut k.1);
        let mut n = Norm { gf2: true, bits: false, wd: 1, memo, fail, work: 0 };
        let p = n.go(t);
        if p.is_none() { n.fail.insert(t); }
        k.0 = n.memo;
        k.1 = n.fail;
        let p = p?;
        if p.is_empty() { return Some(false); }
        if p.len() == 1 && p.keys().next().unwrap().is_empty() { return Some(true); }
        None
    })
}
