//! One interface over the four protocols, so each check is written once.
use crate::base::*;
use iris_mpc::{prelude::*, verif::{RingElement, ShareTrait}};
use num_traits::Zero;
use plain_reference::IrisCodeArray;
use std::{ops::{BitXor, BitXorAssign, Shl, ShlAssign}, rc::Rc};

pub type Res<T> = Result<T, Error>;

/// Integer with the ring operations the oracle uses.
pub trait Int: Sharable + Sym + Copy + Eq {
    const BITS: u32;
    fn a(self, o: Self) -> Self;
    fn s(self, o: Self) -> Self;
    fn m(self, o: Self) -> Self;
    fn top(self) -> bool;
    fn of(x: u64) -> Self;
    fn u(self) -> u128;
    fn raw(s: <Self as Sharable>::Share) -> Self { Self::from_sharetype(s) }
}
macro_rules! ints { ($($t:ty => $u:ty),*) => { $(impl Int for $t {
    const BITS: u32 = <$t>::BITS;
    fn a(self, o: Self) -> Self { self.wrapping_add(o) }
    fn s(self, o: Self) -> Self { self.wrapping_sub(o) }
    fn m(self, o: Self) -> Self { self.wrapping_mul(o) }
    fn top(self) -> bool { (self as $u) >> (<$t>::BITS - 1) == 1 }
    fn of(x: u64) -> Self { x as $t }
    fn u(self) -> u128 { self as $u as u128 }
})* } }
ints!(u8 => u8, u16 => u16, u32 => u32, u64 => u64, u128 => u128, i8 => u8, i16 => u16, i32 => u32, i64 => u64, i128 => u128);


pub trait Fam<T: Int> {
    type A: ShareTrait<VecShare = Self::VA>;
    type VA: VecShareTrait<Share = Self::A>;
    type B: ShareTrait<VecShare = Self::VB> + BitXorAssign + BitXor<Output = Self::B> + ShlAssign<u32> + Shl<u32, Output = Self::B> + Send + Sync + 'static;
    type VB: VecShareTrait<Share = Self::B>;
    type P: MpcTrait<T, Self::A, Self::B>;
    const NAME: &'static str;
    fn mk(n: Net) -> Self::P;
    /// three shares of `x` with fresh symbolic randomness, from the crate's own `share`
    fn share(x: T, mac: T::VerificationShare) -> [Self::A; 3];
    fn share_rng<R: rand::Rng>(x: T, mac: T::VerificationShare, r: &mut R) -> [Self::A; 3];
    fn share_bit(b: bool) -> [Self::B; 3] { Self::share_bit_of(b, &mut sym) }
    /// with the randomness from `r`
    fn share_bit_of(b: bool, r: &mut dyn FnMut() -> bool) -> [Self::B; 3];
    /// reconstructs from all three parties, asserting that replicated parts (and MACs) agree
    fn value(s: [Self::A; 3], mac: T::VerificationShare, id: u32) -> T;
    fn bit(s: [Self::B; 3], id: u32) -> bool;
    fn symmac() -> T::VerificationShare;
    fn known_mac() -> T::VerificationShare { Default::default() }
    fn key<R: rand::Rng>(mac: T::VerificationShare, r: &mut R) -> Option<[Self::A; 3]>;
}
fn arr<T>(v: Vec<T>) -> [T; 3] { match v.try_into() { Ok(a) => a, Err(_) => panic!("three shares") } }
pub struct FAby3;
pub struct FMal;
pub struct FSwift;
pub struct FSpdz;
/// (a1+a2+a3) of an additive ABY3 sharing, with the replication asserted
pub fn aby_value<T: Int>(s: [Aby3Share<T>; 3], id: u32) -> T {
    let [(a0, b0), (a1, b1), (a2, b2)] = s.map(|x| { let (a, b) = x.get_ab(); (T::raw(a), T::raw(b)) });
    check(a0 == b1, id + 1);
    check(a1 == b2, id + 1);
    check(a2 == b0, id + 1);
    a0.a(a1).a(a2)
}
fn aby_bit(s: [Aby3Share<Bit>; 3], id: u32) -> bool {
    let [(a0, b0), (a1, b1), (a2, b2)] = s.map(|x| { let (a, b) = x.get_ab(); (a.0.convert(), b.0.convert()) });
    check(a0 == b1, id + 1);
    check(a1 == b2, id + 1);
    check(a2 == b0, id + 1);
    a0 ^ a1 ^ a2
}
fn rb(b: bool) -> RingElement<Bit> { RingElement(Bit::new(b)) }
fn aby_bits(b: bool, r: &mut dyn FnMut() -> bool) -> [Aby3Share<Bit>; 3] {
    let (x, y): (bool, bool) = (r(), r());
    let z = x ^ y ^ b;
    [Aby3Share::new(rb(x), rb(z)), Aby3Share::new(rb(y), rb(x)), Aby3Share::new(rb(z), rb(y))]
}
macro_rules! aby_like { ($f:ident, $p:ident, $($t:ty),*) => { $(impl Fam<$t> for $f {
    type A = Aby3Share<$t>;
    type VA = Vec<Aby3Share<$t>>;
    type B = Aby3Share<Bit>;
    type VB = Vec<Aby3Share<Bit>>;
    type P = $p<Net>;
    const NAME: &'static str = stringify!($p);
    fn mk(n: Net) -> Self::P { $p::new(n) }
    fn share(x: $t, _mac: <$t as Sharable>::VerificationShare) -> [Self::A; 3] {
        arr(<$p<Net> as MpcTrait<$t, Self::A, Self::B>>::share(x, Default::default(), &mut SymRng))
    }
    fn share_rng<R: rand::Rng>(x: $t, _mac: <$t as Sharable>::VerificationShare, r: &mut R) -> [Self::A; 3] { arr(<$p<Net> as MpcTrait<$t, Self::A, Self::B>>::share(x, Default::default(), r)) }
    fn share_bit_of(b: bool, r: &mut dyn FnMut() -> bool) -> [Self::B; 3] { aby_bits(b, r) }
    fn value(s: [Self::A; 3], _m: <$t as Sharable>::VerificationShare, id: u32) -> $t { aby_value::<$t>(s, id) }
    fn bit(s: [Self::B; 3], id: u32) -> bool { aby_bit(s, id) }
    fn symmac() -> <$t as Sharable>::VerificationShare { Default::default() }
    fn key<R: rand::Rng>(_m: <$t as Sharable>::VerificationShare, _r: &mut R) -> Option<[Self::A; 3]> { None }
})* } }
aby_like!(FAby3, Aby3, u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);
aby_like!(FMal, MalAby3, u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);
macro_rules! swift { ($($t:ty),*) => { $(impl Fam<$t> for FSwift {
    type A = Swift3Share<$t>;
    type VA = Vec<Swift3Share<$t>>;
    type B = Swift3Share<Bit>;
    type VB = Vec<Swift3Share<Bit>>;
    type P = Swift3<Net, $t>;
    const NAME: &'static str = "Swift3";
    fn mk(n: Net) -> Self::P { Swift3::new(n) }
    fn share(x: $t, _mac: <$t as Sharable>::VerificationShare) -> [Self::A; 3] {
        arr(<Swift3<Net, $t> as MpcTrait<$t, Self::A, Self::B>>::share(x, Default::default(), &mut SymRng))
    }
    fn share_rng<R: rand::Rng>(x: $t, _mac: <$t as Sharable>::VerificationShare, r: &mut R) -> [Self::A; 3] { arr(<Swift3<Net, $t> as MpcTrait<$t, Self::A, Self::B>>::share(x, Default::default(), r)) }
    fn share_bit_of(v: bool, r: &mut dyn FnMut() -> bool) -> [Self::B; 3] {
        let (a1, a2, a3): (bool, bool, bool) = (r(), r(), r());
        let b = v ^ a1 ^ a2 ^ a3;
        [Swift3Share::new(rb(a1), rb(a3), rb(b)), Swift3Share::new(rb(a2), rb(a1), rb(b)), Swift3Share::new(rb(a3), rb(a2), rb(b))]
    }
    fn value(s: [Self::A; 3], _m: <$t as Sharable>::VerificationShare, id: u32) -> $t {
        let [(a0, b0, c0), (a1, b1, c1), (a2, b2, c2)] = s.map(|x| { let (a, b, c) = x.get_abc(); (<$t>::raw(a), <$t>::raw(b), <$t>::raw(c)) });
        check(a0 == b1, id + 1);
        check(a1 == b2, id + 1);
        check(a2 == b0, id + 1);
        check(c0 == c1, id + 1);
        check(c0 == c2, id + 1);
        c0.s(a0).s(a1).s(a2)
    }
    fn bit(s: [Self::B; 3], id: u32) -> bool {
        let [(a0, b0, c0), (a1, b1, c1), (a2, b2, c2)] = s.map(|x| { let (a, b, c) = x.get_abc(); (a.0.convert(), b.0.convert(), c.0.convert()) });
        check(a0 == b1, id + 1);
        check(a1 == b2, id + 1);
        check(a2 == b0, id + 1);
        check(c0 == c1, id + 1);
        check(c0 == c2, id + 1);
        c0 ^ a0 ^ a1 ^ a2
    }
    fn symmac() -> <$t as Sharable>::VerificationShare { Default::default() }
    fn key<R: rand::Rng>(_m: <$t as Sharable>::VerificationShare, _r: &mut R) -> Option<[Self::A; 3]> { None }
})* } }
swift!(u8, u16, u32, u64, i8, i16, i32, i64);
macro_rules! spdz { ($($t:ty => $u:ty),*) => { $(impl Fam<$t> for FSpdz {
    type A = SpdzWiseShare<$u>;
    type VA = SpdzWiseVecShare<$u>;
    type B = Aby3Share<Bit>;
    type VB = Vec<Aby3Share<Bit>>;
    type P = SpdzWise<Net, $u>;
    const NAME: &'static str = "SpdzWise";
    fn mk(n: Net) -> Self::P { SpdzWise::new(n) }
    fn share(x: $t, mac: $u) -> [Self::A; 3] {
        arr(<SpdzWise<Net, $u> as MpcTrait<$t, Self::A, Self::B>>::share(x, mac, &mut SymRng))
    }
    fn share_rng<R: rand::Rng>(x: $t, mac: $u, r: &mut R) -> [Self::A; 3] { arr(<SpdzWise<Net, $u> as MpcTrait<$t, Self::A, Self::B>>::share(x, mac, r)) }
    fn share_bit_of(b: bool, r: &mut dyn FnMut() -> bool) -> [Self::B; 3] { aby_bits(b, r) }
    fn value(s: [Self::A; 3], mac: $u, id: u32) -> $t {
        let [(v0, m0), (v1, m1), (v2, m2)] = s.map(|x| x.get());
        let v = aby_value::<$u>([v0, v1, v2], id);
        let m = aby_value::<$u>([m0, m1, m2], id);
        check(m == v.m(mac), id + 2);
        <$t as Sharable>::from_verificationshare(v)
    }
    fn bit(s: [Self::B; 3], id: u32) -> bool { aby_bit(s, id) }
    fn symmac() -> $u { sym() }
    fn known_mac() -> $u { 0x9E37_79B9_7F4A_7C15 }
    fn key<R: rand::Rng>(mac: $u, r: &mut R) -> Option<[Self::A; 3]> { Some(<FSpdz as Fam<$t>>::share_rng(<$t as Int>::of(1), mac, r)) }
})* } }
spdz!(u8 => u64, u16 => u64, u32 => u64, i8 => u64, i16 => u64, i32 => u64);

pub struct Sess<T: Int, F: Fam<T>> { pub hub: Rc<Hub>, pub ps: [F::P; 3], pub mac: T::VerificationShare }
impl<T: Int, F: Fam<T>> Sess<T, F> {
    /// three parties after `preprocess`, with the MAC key installed where there is one
    pub fn new() -> Self { Self::new_with(F::symmac(), &mut SymRng) }
    /// with a known MAC key and a known sharing of it
    pub fn new_known() -> Self { let mut r = KnownRng(99); Self::new_with(F::known_mac(), &mut r) }
    /// before `preprocess`
    pub fn raw() -> Self { let hub = Hub::new(); let ps = hub.nets().map(F::mk); Sess { hub, ps, mac: F::known_mac() } }
    fn new_with<R: rand::Rng>(mac: T::VerificationShare, r: &mut R) -> Self {
        let hub = Hub::new();
        let mut ps = hub.nets().map(F::mk);
        all(&hub, &mut ps, |p, _| Box::pin(async move { p.preprocess().await.expect("preprocess succeeds"); }));
        check(hub.drained(), 9);
        if let Some(k) = F::key(mac, r) { for (p, k) in ps.iter_mut().zip(k) { p.set_mac_key(k); } }
        Sess { hub, ps, mac }
    }
    pub fn share(&self, x: T) -> [F::A; 3] { F::share(x, self.mac) }
    pub fn run<'a, R>(&'a mut self, f: impl Fn(&'a mut F::P, usize) -> Fut<'a, R>) -> [R; 3] { all(&self.hub, &mut self.ps, f) }
    pub fn run_some<'a, R>(&'a mut self, f: impl Fn(&'a mut F::P, usize) -> Fut<'a, R>) -> [Option<R>; 3] { all_some(&self.hub, &mut self.ps, f) }
}
/// transposes per-value share triples into one vector share per party
pub fn cols<A: Clone, V: VecShareTrait<Share = A>>(xs: &[[A; 3]]) -> [V; 3] {
    [0, 1, 2].map(|i| { let mut v = V::with_capacity(xs.len()); for x in xs { v.push(x[i].clone()); } v })
}
pub fn ok<T>(r: Res<T>) -> T { match r { Ok(v) => v, Err(_) => panic!("honest run must not fail") } }
