//! Hash-consed bit-vector terms with light, local simplification.
//! Everything non-trivial is left to the SMT solver.
use std::collections::HashMap;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr, And, Or, Xor,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    /// wide constant: little-endian 64-bit limbs
    Wide(Box<[u64]>),
    Var(u32),
    Not(T),
    Bin(Op, T, T),
    /// pieces, least significant first
    Cat(Box<[T]>),
    Ext(T, u32), // (base, lo); width is in the table
    Sext(T),
    Ite(T, T, T),
    Eq(T, T),
    Ult(T, T),
    Slt(T, T),
    Bswap(T),
    /// uninterpreted-free float op on IEEE bits: (opcode, a, b)
    Fp(u8, T, T),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum VK {
    Input,
    Prf,
    Seed,
    Hash,
    Cut,
    Def,
    Free,
}

pub struct VarInfo {
    pub name: String,
    pub width: u32,
    pub kind: VK,
    pub def: Option<T>,
    /// for Hash vars: the hashed bytes, as 8-bit terms
    pub input: Option<std::rc::Rc<Vec<T>>>,
    pub term: T,
}

pub struct Ctx {
    pub nodes: Vec<(N, u32)>,
    map: HashMap<(N, u32), T>,
    ext_memo: HashMap<(T, u32, u32), T>,
    pub vars: Vec<VarInfo>,
    pub ub_memo: HashMap<T, u128>,
}

static mut CTX: Option<Ctx> = None;

#[allow(static_mut_refs)]
pub fn ctx() -> &'static mut Ctx {
    unsafe {
        if CTX.is_none() {
            CTX = Some(Ctx { nodes: Vec::new(), map: HashMap::new(), ext_memo: HashMap::new(), vars: Vec::new(), ub_memo: HashMap::new() });
            // index 0 is reserved (memory overlay uses 0 as "concrete")
            ctx().intern(N::Const(0), 1);
        }
        CTX.as_mut().unwrap()
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}

pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

impl Ctx {
    fn intern(&mut self, n: N, w: u32) -> T {
        let key = (n, w);
        if let Some(&t) = self.map.get(&key) {
            return t;
        }
        let t = self.nodes.len() as T;
        self.nodes.push(key.clone());
        self.map.insert(key, t);
        t
    }
}

pub fn w(t: T) -> u32 { ctx().nodes[t as usize].1 }
pub fn node(t: T) -> &'static N { 
    // SAFETY: single-threaded; nodes are never removed. The Vec may move, so callers must not
    // hold this across an intern; they clone what they need.
    unsafe { &*(&ctx().nodes[t as usize].0 as *const N) }
}

pub fn var(name: String, width: u32, kind: VK) -> T {
    let c = ctx();
    let id = c.vars.len() as u32;
    let t = c.intern(N::Var(id), width);
    c.vars.push(VarInfo { name, width, kind, def: None, input: None, term: t });
    t
}

pub fn konst(v: u128, width: u32) -> T {
    if width > 128 {
        let n = ((width + 63) / 64) as usize;
        let mut l = vec![0u64; n];
        l[0] = v as u64;
        l[1] = (v >> 64) as u64;
        return ctx().intern(N::Wide(l.into_boxed_slice()), width);
    }
    ctx().intern(N::Const(v & mask(width)), width)
}

pub fn as_const(t: T) -> Option<u128> {
    match node(t) { N::Const(c) => Some(*c), _ => None }
}
fn is_wide(t: T) -> Option<Box<[u64]>> {
    match node(t) { N::Wide(c) => Some(c.clone()), N::Const(v) => Some(vec![*v as u64, (*v >> 64) as u64].into_boxed_slice()), _ => None }
}
pub fn is_konst(t: T) -> bool { matches!(node(t), N::Const(_) | N::Wide(_)) }

pub fn not(a: T) -> T {
    let wd = w(a);
    match node(a) {
        N::Const(c) => konst(!*c, wd),
        N::Not(x) => *x,
        N::Cat(p) if p.len() <= 130 => {
            let p: Vec<T> = p.to_vec();
            let v: Vec<T> = p.into_iter().map(not).collect();
            cat(&v)
        }
        _ => ctx().intern(N::Not(a), wd),
    }
}

pub fn ext(a: T, lo: u32, width: u32) -> T {
    let wa = w(a);
    debug_assert!(lo + width <= wa, "ext {} {} of {}", lo, width, wa);
    if lo == 0 && width == wa { return a; }
    if let Some(&r) = ctx().ext_memo.get(&(a, lo, width)) { return r; }
    let r = ext_(a, lo, width, wa);
    ctx().ext_memo.insert((a, lo, width), r);
    r
}

fn structural(t: T) -> bool { matches!(node(t), N::Cat(_) | N::Const(_) | N::Wide(_)) }

fn ext_(a: T, lo: u32, width: u32, wa: u32) -> T {
    match node(a).clone() {
        N::Const(c) => return konst(c >> lo, width),
        N::Wide(l) => {
            // bit by bit into u128 (or wide)
            let get = |i: u32| -> u64 { (l[(i / 64) as usize] >> (i % 64)) & 1 };
            if width <= 128 {
                let mut v = 0u128;
                for i in 0..width { v |= (get(lo + i) as u128) << i; }
                return konst(v, width);
            }
            let mut o = vec![0u64; ((width + 63) / 64) as usize];
            for i in 0..width { o[(i / 64) as usize] |= get(lo + i) << (i % 64); }
            return ctx().intern(N::Wide(o.into_boxed_slice()), width);
        }
        N::Ext(b, l2) => return ext(b, l2 + lo, width),
        N::Cat(ps) => {
            let mut out = Vec::new();
            let mut pos = 0u32;
            for p in ps.iter() {
                let pw = w(*p);
                let s = lo.max(pos);
                let e = (lo + width).min(pos + pw);
                if s < e { out.push(ext(*p, s - pos, e - s)); }
                pos += pw;
            }
            return cat(&out);
        }
        N::Not(x) => return not(ext(x, lo, width)),
        N::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => {
            if structural(x) || structural(y) || width == 1 {
                return bin(op, ext(x, lo, width), ext(y, lo, width));
            }
        }
        N::Bin(Op::Mul, x, y) => {
            if let Some(c) = as_const(y) {
                if c.is_power_of_two() {
                    let s = c.trailing_zeros();
                    if lo >= s {
                        return ext(x, lo - s, width);
                    }
                    if lo + width <= s { return konst(0, width); }
                    let zeros = konst(0, s - lo);
                    return cat(&[zeros, ext(x, 0, lo + width - s)]);
                }
            }
        }
        N::Sext(x) => {
            let xw = w(x);
            if lo + width <= xw { return ext(x, lo, width); }
            if lo < xw { return sext(ext(x, lo, xw - lo), width); }
            return sext(ext(x, xw - 1, 1), width);
        }
        N::Ite(c, x, y) => {
            if is_konst(x) || is_konst(y) || (structural(x) && structural(y)) {
                return ite(c, ext(x, lo, width), ext(y, lo, width));
            }
        }
        N::Bswap(x) => {
            if lo % 8 == 0 && width == 8 {
                return ext(x, wa - 8 - lo, 8);
            }
        }
        _ => {}
    }
    ctx().intern(N::Ext(a, lo), width)
}

/// pieces least significant first
pub fn cat(ps: &[T]) -> T {
    let mut out: Vec<T> = Vec::with_capacity(ps.len());
    fn push(out: &mut Vec<T>, p: T) {
        if let N::Cat(q) = node(p).clone() {
            for x in q.iter() { push(out, *x); }
            return;
        }
        if let Some(&l) = out.last() {
            // merge constants
            if let (Some(a), Some(b)) = (as_const(l), as_const(p)) {
                let (wl, wp) = (w(l), w(p));
                if wl + wp <= 128 {
                    *out.last_mut().unwrap() = konst(a | (b << wl), wl + wp);
                    return;
                }
            }
            let mergeable = |x: T| -> (T, u32) { match node(x) { N::Ext(b, lo) => (*b, *lo), _ => (x, 0) } };
            let (b1, l1) = mergeable(l);
            let (b2, l2) = mergeable(p);
            if b1 == b2 && l1 + w(l) == l2 && !is_konst(b1) {
                let m = ctx_ext_raw(b1, l1, w(l) + w(p));
                *out.last_mut().unwrap() = m;
                return;
            }
        }
        out.push(p);
    }
    for &p in ps { push(&mut out, p); }
    if out.len() == 1 { return out[0]; }
    // full reversed bytes of one base => Bswap
    let total: u32 = out.iter().map(|&p| w(p)).sum();
    if out.len() >= 2 && total % 8 == 0 && out.iter().all(|&p| w(p) == 8) {
        if let N::Ext(b, _) = *node(out[0]) {
            if w(b) == total {
                let n = out.len() as u32;
                if out.iter().enumerate().all(|(i, &p)| matches!(node(p), N::Ext(b2, lo) if *b2 == b && *lo == 8 * (n - 1 - i as u32))) {
                    return bswap(b);
                }
            }
        }
    }
    if total > 128 && out.iter().all(|&p| is_konst(p)) {
        let mut o = vec![0u64; ((total + 63) / 64) as usize];
        let mut pos = 0u32;
        for &p in &out {
            let l = is_wide(p).unwrap();
            for i in 0..w(p) {
                let b = (l[(i / 64) as usize] >> (i % 64)) & 1;
                o[(pos / 64) as usize] |= b << (pos % 64);
                pos += 1;
            }
        }
        return ctx().intern(N::Wide(o.into_boxed_slice()), total);
    }
    ctx().intern(N::Cat(out.into_boxed_slice()), total)
}

fn ctx_ext_raw(b: T, lo: u32, width: u32) -> T {
    if lo == 0 && width == w(b) { return b; }
    ctx().intern(N::Ext(b, lo), width)
}

pub fn zext(a: T, width: u32) -> T {
    let wa = w(a);
    if wa == width { return a; }
    assert!(width > wa);
    let d = width - wa;
    if d > 128 {
        let z = konst(0, d);
        return cat(&[a, z]);
    }
    cat(&[a, konst(0, d)])
}
pub fn sext(a: T, width: u32) -> T {
    let wa = w(a);
    if wa == width { return a; }
    match node(a).clone() {
        N::Const(c) if width <= 128 => return konst(sext128(c, wa) as u128, width),
        N::Sext(x) => return sext(x, width),
        N::Cat(ps) => {
            // top piece constant with known sign
            let top = *ps.last().unwrap();
            if let Some(c) = as_const(top) {
                let wt = w(top);
                if (c >> (wt - 1)) & 1 == 0 { return zext(a, width); }
            }
        }
        _ => {}
    }
    ctx().intern(N::Sext(a), width)
}
pub fn trunc(a: T, width: u32) -> T { ext(a, 0, width) }

pub fn bswap(a: T) -> T {
    let wd = w(a);
    if wd == 8 { return a; }
    match node(a).clone() {
        N::Const(c) => {
            let n = wd / 8;
            let mut r = 0u128;
            for i in 0..n { r |= ((c >> (8 * i)) & 0xff) << (8 * (n - 1 - i)); }
            konst(r, wd)
        }
        N::Bswap(x) => x,
        N::Cat(ps) if ps.iter().all(|&p| w(p) % 8 == 0) => {
            let mut v: Vec<T> = ps.iter().map(|&p| bswap(p)).collect();
            v.reverse();
            cat(&v)
        }
        N::Cat(ps) if ps.len() > 0 => {
            let n = wd / 8;
            let v: Vec<T> = (0..n).map(|i| ext(a, 8 * (n - 1 - i), 8)).collect();
            cat(&v)
        }
        _ => ctx().intern(N::Bswap(a), wd),
    }
}

fn pieces(t: T) -> Option<Vec<T>> {
    match node(t) { N::Cat(p) => Some(p.to_vec()), _ => None }
}

fn bounds(t: T, out: &mut Vec<u32>) {
    if let N::Cat(p) = node(t) {
        let mut pos = 0;
        for &x in p.iter() { pos += w(x); out.push(pos); }
    }
}
fn const_runs(c: u128, width: u32, out: &mut Vec<u32>) -> usize {
    let mut n = 1;
    for i in 1..width {
        if (c >> i) & 1 != (c >> (i - 1)) & 1 { out.push(i); n += 1; }
    }
    out.push(width);
    n
}

fn bitwise_split(op: Op, a: T, b: T) -> Option<T> {
    let wd = w(a);
    let mut bs = Vec::new();
    let ca = as_const(a);
    let cb = as_const(b);
    let sa = pieces(a).is_some();
    let sb = pieces(b).is_some();
    if !sa && !sb {
        // const mask on opaque term
        let c = ca.or(cb)?;
        if op == Op::Xor { return None; }
        let n = const_runs(c, wd, &mut bs);
        if n > 5 { return None; }
    } else {
        bounds(a, &mut bs);
        bounds(b, &mut bs);
        if let Some(c) = ca.or(cb) {
            if op != Op::Xor { const_runs(c, wd, &mut bs); }
        }
        bs.push(wd);
    }
    bs.sort_unstable();
    bs.dedup();
    if bs.len() > 256 { return None; }
    let mut out = Vec::with_capacity(bs.len());
    let mut pos = 0;
    for e in bs {
        if e == pos { continue; }
        out.push(bin(op, ext(a, pos, e - pos), ext(b, pos, e - pos)));
        pos = e;
    }
    Some(cat(&out))
}

fn fold(op: Op, a: u128, b: u128, wd: u32) -> Option<u128> {
    let m = mask(wd);
    Some(match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { return None } else { a / b },
        Op::URem => if b == 0 { return None } else { a % b },
        Op::SDiv => if b == 0 { return None } else { (sext128(a, wd).wrapping_div(sext128(b, wd))) as u128 & m },
        Op::SRem => if b == 0 { return None } else { (sext128(a, wd).wrapping_rem(sext128(b, wd))) as u128 & m },
        Op::Shl => if b >= wd as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= wd as u128 { 0 } else { a >> b },
        Op::AShr => { let s = b.min(wd as u128 - 1) as u32; (sext128(a, wd) >> s) as u128 & m }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
    })
}

pub fn bin(op: Op, a: T, b: T) -> T {
    let wd = w(a);
    debug_assert_eq!(wd, w(b));
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        if let Some(r) = fold(op, x, y, wd) { return konst(r, wd); }
    }
    // canonical order for commutative operators
    let (mut a, mut b) = (a, b);
    if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor) {
        let ka = is_konst(a);
        let kb = is_konst(b);
        if (ka && !kb) || (ka == kb && a > b) { std::mem::swap(&mut a, &mut b); }
    }
    let cb = as_const(b);
    match op {
        Op::Add => {
            if cb == Some(0) { return a; }
            if let (Some(c), N::Bin(Op::Add, x, y)) = (cb, node(a).clone()) {
                if let Some(d) = as_const(y) { return bin(Op::Add, x, konst(c.wrapping_add(d), wd)); }
            }
            // (x - b) + b = x
            if let N::Bin(Op::Sub, x, y) = *node(a) { if y == b { return x; } }
            if let N::Bin(Op::Sub, x, y) = *node(b) { if y == a { return x; } }
            if wd == 1 { return bin(Op::Xor, a, b); }
        }
        Op::Sub => {
            if cb == Some(0) { return a; }
            if a == b { return konst(0, wd); }
            if let Some(c) = cb { return bin(Op::Add, a, konst((!c).wrapping_add(1), wd)); }
            if let N::Bin(Op::Add, x, y) = *node(a) {
                if y == b { return x; }
                if x == b { return y; }
            }
            if wd == 1 { return bin(Op::Xor, a, b); }
        }
        Op::Mul => {
            if cb == Some(0) { return b; }
            if cb == Some(1) { return a; }
            if wd == 1 { return bin(Op::And, a, b); }
            if let (Some(c), N::Bin(Op::Mul, x, y)) = (cb, node(a).clone()) {
                if let Some(d) = as_const(y) { return bin(Op::Mul, x, konst(c.wrapping_mul(d), wd)); }
            }
        }
        Op::UDiv => {
            if cb == Some(1) { return a; }
            if let Some(c) = cb { if c.is_power_of_two() { return bin(Op::LShr, a, konst(c.trailing_zeros() as u128, wd)); } }
        }
        Op::URem => {
            if let Some(c) = cb { if c.is_power_of_two() { return bin(Op::And, a, konst(c - 1, wd)); } }
        }
        Op::Shl => {
            if let Some(c) = cb {
                if c == 0 { return a; }
                if c >= wd as u128 { return konst(0, wd); }
                let c = c as u32;
                let arith = matches!(node(a), N::Bin(Op::Add | Op::Sub | Op::Mul, _, _) | N::Var(_) | N::Ext(_, _));
                if arith && wd >= 8 && wd <= 128 { return bin(Op::Mul, a, konst(1u128 << c, wd)); }
                return cat(&[konst(0, c), ext(a, 0, wd - c)]);
            }
            if as_const(a) == Some(0) { return a; }
        }
        Op::LShr => {
            if let Some(c) = cb {
                if c == 0 { return a; }
                if c >= wd as u128 { return konst(0, wd); }
                return zext(ext(a, c as u32, wd - c as u32), wd);
            }
            if as_const(a) == Some(0) { return a; }
        }
        Op::AShr => {
            if let Some(c) = cb {
                if c == 0 { return a; }
                let c = (c.min(wd as u128 - 1)) as u32;
                return sext(ext(a, c, wd - c), wd);
            }
        }
        Op::And => {
            if a == b { return a; }
            if let Some(c) = cb {
                if c == 0 { return b; }
                if c == mask(wd) { return a; }
            }
            if wd == 1 {
                if not(a) == b { return konst(0, 1); }
            }
        }
        Op::Or => {
            if a == b { return a; }
            if let Some(c) = cb {
                if c == 0 { return a; }
                if c == mask(wd) { return b; }
            }
            if wd == 1 {
                if not(a) == b { return konst(1, 1); }
            }
        }
        Op::Xor => {
            if a == b { return konst(0, wd); }
            if let Some(c) = cb {
                if c == 0 { return a; }
                if c == mask(wd) { return not(a); }
            }
            // (x ^ b) ^ b = x
            if let N::Bin(Op::Xor, x, y) = *node(a) {
                if y == b { return x; }
                if x == b { return y; }
                if let (Some(c), Some(d)) = (cb, as_const(y)) { return bin(Op::Xor, x, konst(c ^ d, wd)); }
            }
            if let N::Bin(Op::Xor, x, y) = *node(b) {
                if y == a { return x; }
                if x == a { return y; }
            }
            // normalise negations outwards
            if let N::Not(x) = *node(a) { return not(bin(Op::Xor, x, b)); }
            if let N::Not(x) = *node(b) { return not(bin(Op::Xor, a, x)); }
        }
        _ => {}
    }
    if matches!(op, Op::And | Op::Or | Op::Xor) && wd > 1 {
        if let Some(r) = bitwise_split(op, a, b) { return r; }
    }
    // bit-field additions that cannot carry: treat as or
    if op == Op::Add {
        if let Some(r) = disjoint_add(a, b) { return r; }
    }
    // binary ops over ite with constants
    if let Some(c) = cb {
        if let N::Ite(g, x, y) = *node(a) {
            if let (Some(cx), Some(cy)) = (as_const(x), as_const(y)) {
                if let (Some(rx), Some(ry)) = (fold(op, cx, c, wd), fold(op, cy, c, wd)) {
                    return ite(g, konst(rx, wd), konst(ry, wd));
                }
            }
        }
    }
    if let (Some(c), N::Ite(g, x, y)) = (as_const(a), node(b).clone()) {
        if let (Some(cx), Some(cy)) = (as_const(x), as_const(y)) {
            if let (Some(rx), Some(ry)) = (fold(op, c, cx, wd), fold(op, c, cy, wd)) {
                return ite(g, konst(rx, wd), konst(ry, wd));
            }
        }
    }
    // one form for equal slices of two words
    if wd > 1 && matches!(op, Op::And | Op::Or | Op::Xor) {
        if let (N::Ext(x, l1), N::Ext(y, l2)) = (node(a), node(b)) {
            if l1 == l2 && w(*x) == w(*y) {
                let l = *l1;
                let r = bin(op, *x, *y);
                return ext(r, l, wd);
            }
        }
    }
    if op == Op::Xor && heavy() {
        if let Some(r) = cancel_xor(a, b) { return r; }
    }
    if matches!(op, Op::Add | Op::Sub) && wd >= 8 && wd <= 128 && heavy() {
        if let Some(r) = cancel_sum(op, a, b) { return r; }
    }
    ctx().intern(N::Bin(op, a, b), wd)
}

const FLAT: usize = 24;
static mut HEAVY: bool = false;
/// whether linear cancellation is applied while building terms (otherwise left to the solver)
fn heavy() -> bool { unsafe { HEAVY } }
pub fn set_heavy(b: bool) { unsafe { HEAVY = b } }

fn flat_xor(t: T, out: &mut Vec<T>) -> bool {
    match *node(t) {
        N::Bin(Op::Xor, x, y) => flat_xor(x, out) && flat_xor(y, out),
        _ => { out.push(t); out.len() <= FLAT }
    }
}
/// a ^ b where some leaf occurs on both sides: rebuild without it
fn cancel_xor(a: T, b: T) -> Option<T> {
    if !matches!(node(a), N::Bin(Op::Xor, _, _)) && !matches!(node(b), N::Bin(Op::Xor, _, _)) { return None; }
    let mut l = Vec::new();
    if !flat_xor(a, &mut l) { return None; }
    let k = l.len();
    if !flat_xor(b, &mut l) { return None; }
    if !l[k..].iter().any(|x| l[..k].contains(x)) { return None; }
    l.sort_unstable();
    let mut r: Vec<T> = Vec::new();
    for x in l { if r.last() == Some(&x) { r.pop(); } else { r.push(x); } }
    let mut acc = konst(0, w(a));
    for x in r { acc = bin(Op::Xor, acc, x); }
    Some(acc)
}
fn flat_sum(t: T, c: u128, out: &mut Vec<(T, u128)>) -> bool {
    match *node(t) {
        N::Bin(Op::Add, x, y) => flat_sum(x, c, out) && flat_sum(y, c, out),
        N::Bin(Op::Sub, x, y) => flat_sum(x, c, out) && flat_sum(y, c.wrapping_neg(), out),
        N::Bin(Op::Mul, x, y) if as_const(y).is_some() => flat_sum(x, c.wrapping_mul(as_const(y).unwrap()), out),
        _ => { out.push((t, c)); out.len() <= FLAT }
    }
}
fn is_sum(t: T) -> bool {
    match *node(t) { N::Bin(Op::Add | Op::Sub, _, _) => true, N::Bin(Op::Mul, _, y) => as_const(y).is_some(), _ => false }
}
fn cancel_sum(op: Op, a: T, b: T) -> Option<T> {
    if !is_sum(a) && !is_sum(b) { return None; }
    let wd = w(a);
    let mut l = Vec::new();
    if !flat_sum(a, 1, &mut l) { return None; }
    let k = l.len();
    if !flat_sum(b, if op == Op::Add { 1 } else { u128::MAX }, &mut l) { return None; }
    if !l[k..].iter().any(|x| l[..k].iter().any(|y| y.0 == x.0)) { return None; }
    l.sort_unstable_by_key(|x| x.0);
    let mut r: Vec<(T, u128)> = Vec::new();
    let mut c0 = 0u128;
    for (t, c) in l {
        if let Some(v) = as_const(t) { c0 = c0.wrapping_add(v.wrapping_mul(c)); continue; }
        match r.last_mut() { Some(z) if z.0 == t => z.1 = z.1.wrapping_add(c), _ => r.push((t, c)) }
    }
    let m = mask(wd);
    let mut acc: Option<T> = None;
    for (t, c) in r.iter() {
        let c = c & m;
        if c == 0 || c == m { continue; }
        let x = if c == 1 { *t } else { bin(Op::Mul, *t, konst(c, wd)) };
        acc = Some(match acc { None => x, Some(y) => bin(Op::Add, y, x) });
    }
    let mut acc = acc.unwrap_or(konst(0, wd));
    if c0 & m != 0 { acc = bin(Op::Add, acc, konst(c0 & m, wd)); }
    for (t, c) in r { if c & m == m { acc = bin(Op::Sub, acc, t); } }
    Some(acc)
}

fn disjoint_add(a: T, b: T) -> Option<T> {
    // both Cat (or const), and for every segment one side is const 0
    let wd = w(a);
    let ok = |t: T| matches!(node(t), N::Cat(_) | N::Const(_));
    if !ok(a) || !ok(b) { return None; }
    let mut bs = vec![wd];
    bounds(a, &mut bs);
    bounds(b, &mut bs);
    if let Some(c) = as_const(b) { const_runs(c, wd, &mut bs); }
    bs.sort_unstable();
    bs.dedup();
    if bs.len() > 256 { return None; }
    let mut pos = 0;
    for e in bs {
        if e == pos { continue; }
        let x = ext(a, pos, e - pos);
        let y = ext(b, pos, e - pos);
        if as_const(x) != Some(0) && as_const(y) != Some(0) { return None; }
        pos = e;
    }
    Some(bin(Op::Or, a, b))
}

pub fn ite(c: T, a: T, b: T) -> T {
    if let Some(k) = as_const(c) { return if k == 1 { a } else { b }; }
    if a == b { return a; }
    if let N::Not(x) = *node(c) { return ite(x, b, a); }
    let wd = w(a);
    if wd == 1 {
        match (as_const(a), as_const(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), _) => return bin(Op::Or, c, b),
            (Some(0), _) => return bin(Op::And, not(c), b),
            (_, Some(0)) => return bin(Op::And, c, a),
            (_, Some(1)) => return bin(Op::Or, not(c), a),
            _ => {}
        }
    }
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        // bits that agree are constant; a single differing run of ones is zext/shift of c
        if wd <= 128 && wd > 1 {
            let d = x ^ y;
            if d.count_ones() == 1 {
                let p = d.trailing_zeros();
                let bit = if (x >> p) & 1 == 1 { c } else { not(c) };
                let mut v = Vec::new();
                if p > 0 { v.push(konst(x, p)); }
                v.push(bit);
                if p + 1 < wd { v.push(konst(x >> (p + 1), wd - p - 1)); }
                return cat(&v);
            }
        }
    }
    if let N::Ite(c2, x, _) = *node(a) { if c2 == c { return ite(c, x, b); } }
    if let N::Ite(c2, _, y) = *node(b) { if c2 == c { return ite(c, a, y); } }
    ctx().intern(N::Ite(c, a, b), wd)
}

pub fn and(a: T, b: T) -> T { bin(Op::And, a, b) }
pub fn or(a: T, b: T) -> T { bin(Op::Or, a, b) }

pub fn eq(a: T, b: T) -> T {
    if a == b { return konst(1, 1); }
    let wd = w(a);
    debug_assert_eq!(wd, w(b));
    if is_konst(a) && is_konst(b) {
        if wd <= 128 { return konst((as_const(a) == as_const(b)) as u128, 1); }
        return konst(0, 1); // interned, distinct
    }
    let (a, b) = if is_konst(a) || (!is_konst(b) && a > b) { (b, a) } else { (a, b) };
    if let (Some(c), true) = (as_const(b), wd > 1 && wd <= 128) { if ubound(a) < c { return konst(0, 1); } }
    if wd == 1 {
        match as_const(b) {
            Some(1) => return a,
            Some(0) => return not(a),
            _ => return not(bin(Op::Xor, a, b)),
        }
    }
    if wd <= 128 && !is_konst(b) && heavy() {
        if matches!(node(a), N::Bin(Op::Xor, _, _)) || matches!(node(b), N::Bin(Op::Xor, _, _)) {
            if let Some(c) = cancel_xor(a, b).and_then(as_const) { return konst((c == 0) as u128, 1); }
        } else if is_sum(a) || is_sum(b) {
            if let Some(c) = cancel_sum(Op::Sub, a, b).and_then(as_const) { return konst((c == 0) as u128, 1); }
        }
    }
    // ideal hash: equal digests <=> equal inputs
    if let (N::Var(x), N::Var(y)) = (node(a), node(b)) {
        let (x, y) = (*x as usize, *y as usize);
        if let (Some(ix), Some(iy)) = (ctx().vars[x].input.clone(), ctx().vars[y].input.clone()) {
            if ix.len() != iy.len() { return konst(0, 1); }
            let mut r = konst(1, 1);
            // compare in chunks as large as possible
            let ta = cat(&ix);
            let tb = cat(&iy);
            let total = w(ta);
            let mut pos = 0;
            while pos < total {
                let n = (total - pos).min(128);
                r = and(r, eq(ext(ta, pos, n), ext(tb, pos, n)));
                if as_const(r) == Some(0) { return r; }
                pos += n;
            }
            return r;
        }
    }
    if let Some(c) = as_const(b) {
        match node(a).clone() {
            N::Ite(g, x, y) => {
                if is_konst(x) || is_konst(y) {
                    let kb = konst(c, wd);
                    let ex = eq(x, kb);
                    let ey = eq(y, kb);
                    return ite(g, ex, ey);
                }
            }
            N::Bin(Op::Xor, x, y) => {
                if let Some(d) = as_const(y) { return eq(x, konst(c ^ d, wd)); }
                if c == 0 { return eq(x, y); }
            }
            N::Bin(Op::Add, x, y) => {
                if let Some(d) = as_const(y) { return eq(x, konst(c.wrapping_sub(d), wd)); }
            }
            N::Bin(Op::Sub, x, y) => {
                if c == 0 { return eq(x, y); }
            }
            N::Not(x) => return eq(x, konst(!c, wd)),
            N::Bswap(x) => { let kb = bswap(konst(c, wd)); return eq(x, kb); }
            N::Sext(x) => {
                let xw = w(x);
                let t = c & mask(xw);
                if sext128(t, xw) as u128 & mask(wd) != c { return konst(0, 1); }
                return eq(x, konst(t, xw));
            }
            _ => {}
        }
    }
    if let (N::Bswap(x), N::Bswap(y)) = (node(a), node(b)) { return eq(*x, *y); }
    if matches!(node(a), N::Cat(_)) || matches!(node(b), N::Cat(_)) {
        let mut bs = vec![wd];
        bounds(a, &mut bs);
        bounds(b, &mut bs);
        bs.sort_unstable();
        bs.dedup();
        if bs.len() > 1 && bs.len() <= 600 {
            let mut r = konst(1, 1);
            let mut pos = 0;
            for e in bs {
                if e == pos { continue; }
                r = and(r, eq(ext(a, pos, e - pos), ext(b, pos, e - pos)));
                if as_const(r) == Some(0) { return r; }
                pos = e;
            }
            return r;
        }
    }
    ctx().intern(N::Eq(a, b), 1)
}

/// an upper bound of the unsigned value
pub fn ubound(t: T) -> u128 {
    if w(t) > 128 { return u128::MAX; }
    ub(t, 300)
}
fn ub(t: T, d: u32) -> u128 {
    let wd = w(t);
    let top = mask(wd);
    match node(t) { N::Const(c) => return *c, N::Var(_) | N::Sext(_) | N::Bswap(_) | N::Fp(..) | N::Not(_) | N::Wide(_) => return top, _ => {} }
    if wd == 1 || d == 0 { return top; }
    if let Some(r) = ctx().ub_memo.get(&t) { return *r; }
    let r = match node(t).clone() {
        N::Ite(_, a, b) => ub(a, d - 1).max(ub(b, d - 1)),
        N::Bin(Op::Add, a, b) => match ub(a, d - 1).checked_add(ub(b, d - 1)) { Some(s) if s <= top => s, _ => top },
        N::Bin(Op::Mul, a, b) => match ub(a, d - 1).checked_mul(ub(b, d - 1)) { Some(s) if s <= top => s, _ => top },
        N::Bin(Op::And, a, b) => ub(a, d - 1).min(ub(b, d - 1)),
        N::Bin(Op::Or, a, b) | N::Bin(Op::Xor, a, b) => { let m = ub(a, d - 1) | ub(b, d - 1); if m == 0 { 0 } else { mask(128 - m.leading_zeros()) } }
        N::Bin(Op::LShr, a, b) => match as_const(b) { Some(c) if c < 128 => ub(a, d - 1) >> c, _ => ub(a, d - 1) },
        N::Bin(Op::URem, a, b) => match as_const(b) { Some(c) if c > 0 => (c - 1).min(ub(a, d - 1)), _ => ub(a, d - 1) },
        N::Bin(Op::UDiv, a, b) => match as_const(b) { Some(c) if c > 0 => ub(a, d - 1) / c, _ => top },
        N::Cat(ps) => { let mut pos = 0; let mut r = 0u128; for p in ps.iter() { r |= ub(*p, d - 1) << pos; pos += w(*p); } r.min(top) }
        N::Ext(a, lo) if w(a) <= 128 => { let u = ub(a, d - 1) >> lo; if u <= top { u } else { top } }
        _ => top,
    };
    ctx().ub_memo.insert(t, r);
    r
}
pub fn ult(a: T, b: T) -> T {
    let wd = w(a);
    if a == b { return konst(0, 1); }
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) { return konst((x < y) as u128, 1); }
    if as_const(b) == Some(0) { return konst(0, 1); }
    if as_const(b) == Some(1) { return eq(a, konst(0, wd)); }
    if as_const(a) == Some(0) { return not(eq(b, konst(0, wd))); }
    if wd <= 128 && as_const(a) == Some(mask(wd)) { return konst(0, 1); }
    if wd == 1 { return and(not(a), b); }
    if wd <= 128 {
        if let Some(c) = as_const(b) { if ubound(a) < c { return konst(1, 1); } }
        if let Some(c) = as_const(a) { if ubound(b) <= c { return konst(0, 1); } }
    }
    if wd <= 128 {
        // the usual overflow test: x + y < x
        if let N::Bin(Op::Add, p, q) = node(a) { if (*p == b || *q == b) && ubound(*p).checked_add(ubound(*q)).map_or(false, |s| s <= mask(wd)) { return konst(0, 1); } }
    }
    // strip common zero extension
    let zw = |t: T| -> u32 {
        match node(t) {
            N::Const(c) => 128 - c.leading_zeros(),
            N::Cat(p) => { let top = *p.last().unwrap(); match as_const(top) { Some(0) => w(t) - w(top), _ => w(t) } }
            _ => w(t),
        }
    };
    let (za, zb) = (zw(a), zw(b));
    let zm = za.max(zb).max(1);
    if let Some(c) = as_const(b) {
        // a < c where a <= mask(za)
        if za < 128 && c > mask(za) { return konst(1, 1); }
    }
    if let Some(c) = as_const(a) {
        if zb < 128 && c >= mask(zb) && c > mask(zb) { return konst(0, 1); }
    }
    if zm < wd { return ult(ext(a, 0, zm), ext(b, 0, zm)); }
    if let (N::Ite(g, x, y), Some(_)) = (node(a).clone(), as_const(b)) {
        if is_konst(x) || is_konst(y) {
            let (p, q) = (ult(x, b), ult(y, b));
            return ite(g, p, q);
        }
    }
    if let (N::Ite(g, x, y), Some(_)) = (node(b).clone(), as_const(a)) {
        if is_konst(x) || is_konst(y) {
            let (p, q) = (ult(a, x), ult(a, y));
            return ite(g, p, q);
        }
    }
    ctx().intern(N::Ult(a, b), 1)
}
pub fn slt(a: T, b: T) -> T {
    let wd = w(a);
    if a == b { return konst(0, 1); }
    if wd <= 128 {
        if let (Some(x), Some(y)) = (as_const(a), as_const(b)) { return konst((sext128(x, wd) < sext128(y, wd)) as u128, 1); }
    }
    if as_const(b) == Some(0) { return ext(a, wd - 1, 1); }
    if wd <= 128 && as_const(a) == Some(mask(wd)) { return not(ext(b, wd - 1, 1)); }
    let (ha, hb) = (ext(a, wd - 1, 1), ext(b, wd - 1, 1));
    if as_const(ha) == Some(0) && as_const(hb) == Some(0) { return ult(a, b); }
    if let (N::Ite(g, x, y), Some(_)) = (node(a).clone(), as_const(b)) {
        if is_konst(x) || is_konst(y) {
            let (p, q) = (slt(x, b), slt(y, b));
            return ite(g, p, q);
        }
    }
    ctx().intern(N::Slt(a, b), 1)
}

pub fn popcount(a: T) -> T {
    // sum of bits, in width of a, as a balanced tree
    let wd = w(a);
    let nb = (32 - wd.leading_zeros()).max(1);
    let mut konst_sum = 0u128;
    let mut v: Vec<T> = Vec::new();
    for i in 0..wd {
        let b = ext(a, i, 1);
        match as_const(b) {
            Some(x) => konst_sum += x,
            None => v.push(zext(b, nb)),
        }
    }
    if v.is_empty() { return konst(konst_sum, wd); }
    while v.len() > 1 {
        let mut n = Vec::new();
        for c in v.chunks(2) { n.push(if c.len() == 2 { bin(Op::Add, c[0], c[1]) } else { c[0] }); }
        v = n;
    }
    let s = if konst_sum > 0 { bin(Op::Add, v[0], konst(konst_sum, nb)) } else { v[0] };
    if nb >= wd { ext(s, 0, wd) } else { zext(s, wd) }
}

pub fn fp(op: u8, a: T, b: T, width: u32) -> T { ctx().intern(N::Fp(op, a, b), width) }

pub fn children(t: T, f: &mut dyn FnMut(T)) {
    match node(t) {
        N::Const(_) | N::Wide(_) | N::Var(_) => {}
        N::Not(a) | N::Ext(a, _) | N::Sext(a) | N::Bswap(a) => f(*a),
        N::Bin(_, a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) | N::Fp(_, a, b) => { f(*a); f(*b) }
        N::Cat(p) => for x in p.iter() { f(*x) },
        N::Ite(a, b, c) => { f(*a); f(*b); f(*c) }
    }
}

/// Rebuild a term under a substitution of variables.
pub struct Subst<'a> {
    pub f: Box<dyn Fn(u32) -> Option<T> + 'a>,
    pub memo: HashMap<T, T>,
    /// terms created before this one contain nothing to replace
    pub floor: T,
    /// replacements for slices of a term: base -> (lo, len, new, offset in new)
    pub slices: HashMap<T, Vec<(u32, u32, T, u32)>>,
}
impl<'a> Subst<'a> {
    pub fn new(f: impl Fn(u32) -> Option<T> + 'a) -> Self { Subst { f: Box::new(f), memo: HashMap::new(), floor: 0, slices: HashMap::new() } }
    pub fn run(&mut self, root: T) -> T {
        let mut stack = vec![(root, false)];
        while let Some((t, done)) = stack.pop() {
            if self.memo.contains_key(&t) { continue; }
            if !done {
                if t < self.floor { self.memo.insert(t, t); continue; }
                if let N::Ext(b, lo) = *node(t) {
                    if let Some(v) = self.slices.get(&b) {
                        let wd = w(t);
                        if let Some(&(l, _, n, off)) = v.iter().find(|s| s.0 <= lo && lo + wd <= s.0 + s.1) { let r = ext(n, off + lo - l, wd); self.memo.insert(t, r); continue; }
                    }
                }
                match node(t) {
                    N::Const(_) | N::Wide(_) => { self.memo.insert(t, t); continue; }
                    N::Var(v) => {
                        let r = (self.f)(*v).unwrap_or(t);
                        self.memo.insert(t, r);
                        continue;
                    }
                    _ => {}
                }
                stack.push((t, true));
                children(t, &mut |c| stack.push((c, false)));
            } else {
                let g = |x: &T| self.memo[x];
                let wd = w(t);
                let r = match node(t).clone() {
                    N::Not(a) => not(g(&a)),
                    N::Ext(a, lo) => ext(g(&a), lo, wd),
                    N::Sext(a) => sext(g(&a), wd),
                    N::Bswap(a) => bswap(g(&a)),
                    N::Bin(op, a, b) => bin(op, g(&a), g(&b)),
                    N::Eq(a, b) => eq(g(&a), g(&b)),
                    N::Ult(a, b) => ult(g(&a), g(&b)),
                    N::Slt(a, b) => slt(g(&a), g(&b)),
                    N::Fp(o, a, b) => fp(o, g(&a), g(&b), wd),
                    N::Cat(p) => { let v: Vec<T> = p.iter().map(|x| g(x)).collect(); cat(&v) }
                    N::Ite(a, b, c) => ite(g(&a), g(&b), g(&c)),
                    _ => unreachable!(),
                };
                self.memo.insert(t, r);
            }
        }
        self.memo[&root]
    }
}

pub fn vars_of(roots: &[T]) -> Vec<u32> {
    let mut seen = std::collections::HashSet::new();
    let mut st: Vec<T> = roots.to_vec();
    let mut out = Vec::new();
    while let Some(t) = st.pop() {
        if !seen.insert(t) { continue; }
        if let N::Var(v) = node(t) { out.push(*v); }
        children(t, &mut |c| st.push(c));
    }
    out.sort_unstable();
    out
}

pub fn dag_size(t: T) -> usize {
    let mut seen = std::collections::HashSet::new();
    let mut st = vec![t];
    while let Some(t) = st.pop() {
        if !seen.insert(t) { continue; }
        children(t, &mut |c| st.push(c));
    }
    seen.len()
}
/// short text of a term, for traces
pub fn show(t: T, d: u32) -> String {
    if d == 0 { return format!("#{}:{}", t, w(t)); }
    let s = |x: T| show(x, d - 1);
    match node(t) {
        N::Const(c) => format!("{:x}:{}", c, w(t)),
        N::Wide(_) => "wide".into(),
        N::Var(v) => ctx().vars[*v as usize].name.clone(),
        N::Not(a) => format!("~{}", s(*a)),
        N::Bin(o, a, b) => format!("({:?} {} {})", o, s(*a), s(*b)),
        N::Cat(p) => format!("cat[{}]", p.iter().map(|&x| s(x)).collect::<Vec<_>>().join(", ")),
        N::Ext(a, lo) => format!("{}[{}+{}]", s(*a), lo, w(t)),
        N::Sext(a) => format!("sext({})", s(*a)),
        N::Ite(a, b, c) => format!("({} ? {} : {})", s(*a), s(*b), s(*c)),
        N::Eq(a, b) => format!("({} == {})", s(*a), s(*b)),
        N::Ult(a, b) => format!("({} < {})", s(*a), s(*b)),
        N::Slt(a, b) => format!("({} <s {})", s(*a), s(*b)),
        N::Bswap(a) => format!("bswap({})", s(*a)),
        N::Fp(o, a, b) => format!("fp{}({}, {})", o, s(*a), s(*b)),
    }
}
