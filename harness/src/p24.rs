//! Commitments and jointly tossed coins.
use crate::{base::*, fam::*};
use iris_mpc::{prelude::*, verif::{Commitment, CommitOpening, RingElement, RingImpl}};
use std::rc::Rc;

fn bytes<const N: usize>() -> [u8; N] { let mut b = [0u8; N]; sym_bytes(&mut b); b }
fn comm<T: Int>(n: usize) {
    let v: Vec<T> = (0..n).map(|_| sym()).collect();
    let r = bytes::<32>();
    let list = |v: &[T]| v.iter().map(|x| x.to_sharetype()).collect::<Vec<_>>();
    let c = Commitment::commit_with_rand(list(&v), r);
    let h = c.comm.clone();
    check(h.len() == Commitment::<T::Share>::get_comm_size() && h.len() == 64, 1);
    let o = c.open();
    check(o.values == list(&v) && o.rand == r, 2);
    check(o.clone().verify(h.clone()), 3);
    // any other opening of as many values
    let v2: Vec<T> = (0..n).map(|_| sym()).collect();
    let r2 = bytes::<32>();
    let mut same = r == r2;
    for i in 0..n { same &= v[i] == v2[i]; }
    check(CommitOpening { values: list(&v2), rand: r2 }.verify(h.clone()) == same, 4);
    // one more or one fewer
    let mut v3 = list(&v);
    v3.push(sym::<T>().to_sharetype());
    check(!CommitOpening { values: v3, rand: r2 }.verify(h.clone()), 5);
    if n > 0 { check(!CommitOpening { values: list(&v2[1..]), rand: r2 }.verify(h.clone()), 6); }
    // any other commitment
    let h2 = bytes::<64>();
    check(o.clone().verify(h2.to_vec()) == (h2[..] == h[..]), 7);
    for l in [0, 1, 63] { check(!o.clone().verify(h[..l].to_vec()), 8); }
    let mut h3 = h.clone();
    h3.push(0);
    check(!o.verify(h3), 9);
    // with a generator: the randomness is taken from it
    let c = Commitment::commit(list(&v), &mut SymRng);
    let h = c.comm.clone();
    check(c.open().verify(h), 10);
    reach(1);
}
#[no_mangle] pub extern "C" fn p24_comm_u8() { comm::<u8>(3) }
#[no_mangle] pub extern "C" fn p24_comm_u16() { comm::<u16>(2) }
#[no_mangle] pub extern "C" fn p24_comm_u64() { comm::<u64>(1) }
#[no_mangle] pub extern "C" fn p24_comm_none() { comm::<u32>(0) }

fn fresh<P>(mk: impl Fn(Net) -> P, pre: impl for<'a> Fn(&'a mut P) -> Fut<'a, Res<()>>) -> (Rc<Hub>, [P; 3]) {
    let hub = Hub::new();
    let mut ps = hub.nets().map(mk);
    let [a, b, c] = &mut ps;
    run3(&hub, [pre(a), pre(b), pre(c)]).map(ok);
    (hub, ps)
}
/// replaces the message `k` (counted from now) of `from` to `to`; returns whether it changes
fn alter(hub: &Rc<Hub>, from: usize, to: usize, k: usize, part: std::ops::Range<usize>) -> Rc<std::cell::Cell<bool>> {
    let same = Rc::new(std::cell::Cell::new(true));
    let (s, k) = (same.clone(), k + hub.count[from * 3 + to].get());
    hub.tap(move |f, t, n, m| {
        if (f, t, n) == (from, to, k) {
            let mut e = true;
            for i in part.clone() { if i < m.len() { let x: u8 = sym(); e &= m[i] == x; m[i] = x; } }
            s.set(e);
        }
    });
    same
}
macro_rules! jmp_coin { ($n:ident, $p:ident, $t:ty, $a:ty, $b:ty) => {
    #[no_mangle]
    pub extern "C" fn $n() {
        for from in 0..3 {
            let (hub, mut ps) = fresh($p::new, |p| Box::pin(async move { <_ as MpcTrait<$t, $a, $b>>::preprocess(p).await }));
            let to = (from + 1) % 3;
            // honest: equal, and fresh the next time
            let x = all(&hub, &mut ps, |p, _| Box::pin(async move { ok(p.verif_coin().await) }));
            check(x[0] == x[1] && x[0] == x[2], 1);
            note(&x[0]);
            all(&hub, &mut ps, |p, _| Box::pin(async move { ok(p.verif_jmp_verify().await) }));
            let same = alter(&hub, from, to, 0, 0..32);
            let y = all(&hub, &mut ps, |p, _| Box::pin(async move { ok(p.verif_coin().await) }));
            hub.untap();
            check(y[(to + 1) % 3] == y[from], 2);
            check((y[to] == y[from]) == same.get(), 3);
            let r = all(&hub, &mut ps, |p, _| Box::pin(async move { p.verif_jmp_verify().await.is_ok() }));
            check(r[to] == same.get(), 4);
            check(r[from] && r[(to + 1) % 3], 5);
            // nobody's contribution alone decides: the two coins are independent
            check(hub.drained(), 6);
        }
        reach(1);
    }
} }
jmp_coin!(p24_coin_mal, MalAby3, u16, Aby3Share<u16>, Aby3Share<Bit>);
type SW = SpdzWise<Net, u64>;
fn spdz(n: Net) -> SW { SpdzWise::new(n) }
mod spdz_ { pub struct SpdzWise_; impl SpdzWise_ { pub fn new(n: crate::base::Net) -> super::SW { super::spdz(n) } } }
use spdz_::SpdzWise_;
jmp_coin!(p24_coin_spdz, SpdzWise_, u16, SpdzWiseShare<u64>, Aby3Share<Bit>);

#[derive(Clone)]
struct R32(pub KnownRng);
impl Clone for KnownRng { fn clone(&self) -> Self { KnownRng(self.0) } }
impl rand::RngCore for R32 {
    fn next_u32(&mut self) -> u32 { sym() }
    fn next_u64(&mut self) -> u64 { sym() }
    fn fill_bytes(&mut self, d: &mut [u8]) { sym_bytes(d) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { sym_bytes(d); Ok(()) }
}
impl rand::SeedableRng for R32 { type Seed = [u8; 32]; fn from_seed(_: [u8; 32]) -> Self { R32(KnownRng(0)) } }
fn swift(from: usize, to: usize, k: usize, part: std::ops::Range<usize>) {
    let (hub, mut ps) = fresh(Swift3::<Net, u16>::new, |p| Box::pin(async move { <_ as MpcTrait<u16, Swift3Share<u16>, Swift3Share<Bit>>>::preprocess(p).await }));
    let same = alter(&hub, from, to, k, part);
    let y = all_some(&hub, &mut ps, |p, _| Box::pin(async move { p.verif_coin(&mut R32(KnownRng(0))).await }));
    let o = 3 - from - to;
    let (Some(Ok(a)), Some(Ok(b))) = (&y[from], &y[o]) else { check(false, 1); return };
    check(a == b, 2);
    match &y[to] {
        Some(Ok(c)) => { check(same.get() && c == a, 3); reach(1) }
        Some(Err(_)) => { check(!same.get(), 4); reach(2) }
        None => check(false, 5),
    }
}
macro_rules! sw { ($($n:ident: $f:expr, $t:expr, $k:expr, $r:expr;)*) => { $(#[no_mangle] pub extern "C" fn $n() { swift($f, $t, $k, $r) })* } }
sw! { p24_swift_c01: 0, 1, 0, 0..64; p24_swift_o01: 0, 1, 1, 0..64; p24_swift_c12: 1, 2, 0, 0..64; p24_swift_o12: 1, 2, 1, 0..64; p24_swift_c20: 2, 0, 0, 0..64; p24_swift_o20: 2, 0, 1, 0..64;
      p24_swift_c10: 1, 0, 0, 0..64; p24_swift_o10: 1, 0, 1, 0..64; p24_swift_o21: 2, 1, 1, 0..64; p24_swift_o02: 0, 2, 1, 0..64; }
