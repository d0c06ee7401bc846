//! Ring elements and bits: arithmetic modulo 2^k.
use crate::base::*;
use iris_mpc::{prelude::*, verif::*};
use num_traits::{One, WrappingAdd, WrappingMul, WrappingNeg, WrappingShl, WrappingShr, WrappingSub, Zero};

/// the value as an integer, independent of the crate
trait Nat: IntRing2k + Sym { fn n(self) -> u128; fn wide() -> bool { Self::K == 128 } }
impl Nat for Bit { fn n(self) -> u128 { bool::from(self) as u128 } }
macro_rules! nat { ($($t:ty),*) => { $(impl Nat for $t { fn n(self) -> u128 { self as u128 } })* } }
nat!(u8, u16, u32, u64, u128);
fn md<T: Nat>(x: u128) -> u128 { if T::K == 128 { x } else { x & ((1u128 << T::K) - 1) } }

fn ops<T: Nat>() {
    let (x, y): (T, T) = (sym(), sym());
    let (a, b) = (x.n(), y.n());
    let r = |v: T| RingElement(v);
    let is = |v: RingElement<T>, e: u128, id: u32| { note_u(v.0.n()); check(v.0.n() == md::<T>(e), id) };
    check(T::K == <RingElement<T> as RingImpl>::K, 1);
    check(x.upgrade_to_128() == a && r(x).upgrade_to_128().0 == a, 2);
    // sums, differences, products: by value, by reference, in place
    let (s, d, p) = (a.wrapping_add(b), a.wrapping_sub(b), a.wrapping_mul(b));
    is(r(x) + r(y), s, 3); is(r(x) + &r(y), s, 3); is(r(x.wrapping_add(&y)), s, 3);
    is(r(x) - r(y), d, 4); is(r(x) - &r(y), d, 4); is(r(x.wrapping_sub(&y)), d, 4);
    is(r(x) * r(y), p, 5); is(r(x) * &r(y), p, 5); is(r(x) * y, p, 5); is(r(x) * &y, p, 5); is(r(x.wrapping_mul(&y)), p, 5);
    let mut t = r(x); t += r(y); is(t, s, 6);
    let mut t = r(x); t += &r(y); is(t, s, 6);
    let mut t = r(x); t -= r(y); is(t, d, 6);
    let mut t = r(x); t -= &r(y); is(t, d, 6);
    let mut t = r(x); t *= r(y); is(t, p, 6);
    let mut t = r(x); t *= &r(y); is(t, p, 6);
    let mut t = r(x); t *= y; is(t, p, 6);
    let mut t = r(x); t *= &y; is(t, p, 6);
    let mut t = x; t.wrapping_add_assign(&y); is(r(t), s, 7);
    let mut t = x; t.wrapping_sub_assign(&y); is(r(t), d, 7);
    let mut t = x; t.wrapping_mul_assign(&y); is(r(t), p, 7);
    let mut t = x; t.wrapping_neg_inplace(); is(r(t), 0u128.wrapping_sub(a), 7);
    is(-r(x), 0u128.wrapping_sub(a), 8); is(r(x.wrapping_neg()), 0u128.wrapping_sub(a), 8);
    // bitwise
    is(r(x) ^ r(y), a ^ b, 9); is(r(x) ^ &r(y), a ^ b, 9); is(r(x ^ y), a ^ b, 9);
    is(r(x) & r(y), a & b, 9); is(r(x) & &r(y), a & b, 9); is(r(x & y), a & b, 9);
    is(r(x) | r(y), a | b, 9); is(r(x) | &r(y), a | b, 9); is(r(x | y), a | b, 9);
    is(!r(x), !a, 9); is(r(!x), !a, 9);
    let mut t = r(x); t ^= r(y); is(t, a ^ b, 10);
    let mut t = r(x); t ^= &r(y); is(t, a ^ b, 10);
    let mut t = r(x); t &= r(y); is(t, a & b, 10);
    let mut t = r(x); t &= &r(y); is(t, a & b, 10);
    let mut t = r(x); t |= r(y); is(t, a | b, 10);
    let mut t = r(x); t |= &r(y); is(t, a | b, 10);
    let mut t = x; t ^= y; is(r(t), a ^ b, 10);
    let mut t = x; t &= y; is(r(t), a & b, 10);
    let mut t = x; t |= y; is(r(t), a | b, 10);
    // constants and comparison
    check(RingElement::<T>::zero().0.n() == 0 && T::zero().n() == 0 && RingElement::<T>::default().0.n() == 0, 11);
    check(RingElement::<T>::one().0.n() == 1 && T::one().n() == 1, 11);
    check(r(x).is_zero() == (a == 0) && x.is_zero() == (a == 0), 11);
    check(RingElement::<T>::from(true).0.n() == 1 && T::from(false).n() == 0, 11);
    check((r(x) == r(y)) == (a == b) && (x == y) == (a == b), 12);
    check((r(x) < r(y)) == (a < b) && (x < y) == (a < b) && (r(x) <= r(y)) == (a <= b), 12);
    check(r(x).cmp(&r(y)) == a.cmp(&b), 12);
    check(r(x).get_msb().0.n() == a >> (T::K - 1), 13);
    // slices and vectors of elements
    let v = vec![x, y];
    let w = RingElement::convert_vec_rev(v.clone());
    check(w.len() == 2 && w[0].0 == x && w[1].0 == y, 14);
    let w2 = RingElement::convert_slice_rev(&v);
    check(w2.len() == 2 && w2[0].0 == x && w2[1].0 == y, 14);
    let back = RingElement::convert_slice(&w);
    check(back.len() == 2 && back[0] == x && back[1] == y, 14);
    check(RingElement::convert_vec(w) == v && r(x).convert() == x, 14);
    reach(1);
}
/// shifts by any amount below the width
fn shifts<T: Nat>() {
    let x: T = sym();
    let k: u32 = sym();
    assume((k as usize) < T::K);
    let (l, g) = (md::<T>(x.n() << k), x.n() >> k);
    check((RingElement(x) << k).0.n() == l, 1);
    check((RingElement(x) >> k).0.n() == g, 2);
    let mut t = RingElement(x); t <<= k; check(t.0.n() == l, 3);
    let mut t = RingElement(x); t >>= k; check(t.0.n() == g, 4);
    check(x.wrapping_shl(k).n() == l, 5);
    check(x.wrapping_shr(k).n() == g, 6);
    let mut t = x; t.wrapping_shl_assign(k); check(t.n() == l, 7);
    let mut t = x; t.wrapping_shr_assign(k); check(t.n() == g, 8);
    check(RingElement(x).get_bit(k as usize).0.n() == g & 1, 9);
    note_u(l);
    reach(1);
}
/// division by a non-zero element
fn div<T: Nat>() {
    let (x, y): (T, T) = (sym(), sym());
    assume(y.n() != 0);
    let q = RingElement(x).floor_div(&RingElement(y)).0;
    check(q.n() == x.n() / y.n() && x.floor_div(&y) == q, 1);
    note_u(q.n());
    reach(1);
}
/// conversions between the user's type, the share type and the verification type
trait Conv: Sharable + Sym { fn u(self) -> u128; fn sx(self) -> u128; fn of(x: u128) -> Self; const B: u32; }
impl Conv for Bit { fn u(self) -> u128 { bool::from(self) as u128 } fn sx(self) -> u128 { self.u() } fn of(x: u128) -> Self { Bit::new(x & 1 == 1) } const B: u32 = 1; }
macro_rules! conv { ($($t:ty => $u:ty),*) => { $(impl Conv for $t { fn u(self) -> u128 { self as $u as u128 } fn sx(self) -> u128 { self as i128 as u128 } fn of(x: u128) -> Self { x as $t } const B: u32 = <$t>::BITS; })* } }
conv!(u8 => u8, u16 => u16, u32 => u32, u64 => u64, u128 => u128, i8 => u8, i16 => u16, i32 => u32, i64 => u64, i128 => u128);
fn conv<T: Conv, S: Nat, V: Conv, W: Nat>()
where T: Sharable<Share = RingElement<S>, VerificationShare = V>, V: Sharable<Share = RingElement<W>> {
    let x: T = sym();
    let low = |v: u128| if T::B == 128 { v } else { v & ((1u128 << T::B) - 1) };
    let s = x.to_sharetype();
    check(s.0.n() == x.u() && S::K as u32 == T::B, 1);
    note_u(s.0.n());
    check(T::from_sharetype(s.clone()) == x, 2);
    let y: S = sym();
    check(T::from_sharetype(RingElement(y)).u() == y.n(), 2);
    let up = T::to_verificationtype(s.clone());
    check(low(up.0.n()) == x.u(), 3);
    check(T::from_verificationtype(up).0 == s.0, 4);
    let w: W = sym();
    check(T::from_verificationtype(RingElement(w)).0.n() == low(w.n()), 4);
    let v = x.to_verificationshare();
    check(low(v.u()) == x.u(), 5);
    check(T::from_verificationshare(v) == x, 6);
    let w: V = sym();
    check(T::from_verificationshare(w).u() == low(w.u()), 6);
    // whole slices and vectors
    let (a, b): (T, T) = (sym(), sym());
    let t = [a, b];
    let ss = T::slice_to_sharetype(&t);
    check(ss.len() == 2 && ss[0].0.n() == a.u() && ss[1].0.n() == b.u(), 7);
    let vs = T::vec_to_sharetype(t.to_vec());
    check(vs.len() == 2 && vs[0].0.n() == a.u() && vs[1].0.n() == b.u(), 7);
    check(T::slice_from_sharetype(&vs) == &t[..], 8);
    check(T::vec_from_sharetype(vs) == t.to_vec(), 8);
    // arithmetic shift
    if T::B > 1 {
        let k: u32 = sym();
        assume(k < T::B);
        let sign = x < T::default() && x.sx() >> 127 == 1;
        let e = if sign { !((!x.sx()) >> k) } else { x.sx() >> k };
        check(T::arithmetic_shr(s, k).0.n() == low(e), 9);
    }
    reach(1);
}
/// bits
#[no_mangle]
pub extern "C" fn p23b_bit() {
    let (x, y): (bool, bool) = (sym(), sym());
    let (a, b) = (Bit::new(x), Bit::new(y));
    check((a + b).convert() == (x ^ y) && (a + &b).convert() == (x ^ y), 1);
    check((a - b).convert() == (x ^ y) && (a - &b).convert() == (x ^ y), 1);
    check((a * b).convert() == (x & y) && (a * &b).convert() == (x & y), 2);
    check((a ^ b).convert() == (x ^ y) && (a ^ &b).convert() == (x ^ y), 3);
    check((a & b).convert() == (x & y) && (a & &b).convert() == (x & y), 3);
    check((a | b).convert() == (x | y) && (a | &b).convert() == (x | y), 3);
    check((-a).convert() == x && (!a).convert() == !x, 4);
    let mut t = a; t ^= &b; check(t.convert() == (x ^ y), 5);
    let mut t = a; t |= &b; check(t.convert() == (x | y), 5);
    let k: usize = sym();
    assume(k < 64);
    check((a << k).convert() == (k == 0 && x) && (a >> k).convert() == (k == 0 && x), 6);
    check(u8::from(a) == x as u8 && bool::from(a) == x && Bit::from(x).convert() == x, 7);
    let v: u8 = sym();
    check(match Bit::try_from(v) { Ok(q) => v < 2 && q.convert() == (v == 1), Err(_) => v > 1 }, 8);
    let v: usize = sym();
    check(match Bit::try_from(v) { Ok(q) => v < 2 && q.convert() == (v == 1), Err(_) => v > 1 }, 9);
    let bs = vec![x, y];
    let c = Bit::convert_vec_rev(bs.clone());
    check(c.len() == 2 && c[0] == a && c[1] == b && Bit::convert_slice(&c) == &bs[..], 10);
    check(Bit::convert_slice_rev(&bs) == &c[..] && Bit::convert_vec(c) == bs, 10);
    check(match a.inverse() { Ok(i) => x && i == a, Err(_) => !x }, 11);
    note(&[u8::from(a ^ b)]);
    reach(1);
}
/// share type combined with the user's signed or unsigned type
macro_rules! mixed { ($($n:ident = $s:ty, $t:ty;)*) => { $(#[no_mangle] pub extern "C" fn $n() {
    let (x, y, z): ($t, $s, $t) = (sym(), sym(), sym());
    let w = y as $t;
    let r = || RingElement(x);
    check((r() * y).0 == x.wrapping_mul(w) && (r() * &y).0 == x.wrapping_mul(w), 1);
    check((y * r()) as $t == x.wrapping_mul(w) && z * r() == x.wrapping_mul(z), 2);
    check((r() & y).0 == x & w && (r() & &y).0 == x & w, 3);
    check((y & r()) as $t == x & w && z & r() == x & z, 4);
    let mut t = r(); t *= y; check(t.0 == x.wrapping_mul(w), 5);
    let mut t = r(); t *= &y; check(t.0 == x.wrapping_mul(w), 5);
    let mut t = r(); t &= y; check(t.0 == x & w, 6);
    let mut t = r(); t &= &y; check(t.0 == x & w, 6);
    check(x.to_signed() as $t == x, 7);
    note_u((x & w) as u128);
    reach(1);
})* } }
mixed!(p23m_8 = i8, u8; p23m_16 = i16, u16; p23m_32 = i32, u32; p23m_64 = i64, u64; p23m_128 = i128, u128;);
macro_rules! ent { ($f:ident: $($n:ident = $($t:ty),+;)*) => { $(#[no_mangle] pub extern "C" fn $n() { $f::<$($t),+>() })* } }
ent!(ops: p23o_bit = Bit; p23o_u8 = u8; p23o_u16 = u16; p23o_u32 = u32; p23o_u64 = u64; p23o_u128 = u128;);
ent!(shifts: p23s_bit = Bit; p23s_u8 = u8; p23s_u16 = u16; p23s_u32 = u32; p23s_u64 = u64; p23s_u128 = u128;);
ent!(div: p23d_bit = Bit; p23d_u8 = u8; p23d_u16 = u16; p23d_u32 = u32; p23d_u64 = u64;);
ent!(conv: p23c_bit = Bit, Bit, u64, u64; p23c_u8 = u8, u8, u64, u64; p23c_u16 = u16, u16, u64, u64; p23c_u32 = u32, u32, u64, u64; p23c_u64 = u64, u64, u128, u128; p23c_u128 = u128, u128, u128, u128;
    p23c_i8 = i8, u8, u64, u64; p23c_i16 = i16, u16, u64, u64; p23c_i32 = i32, u32, u64, u64; p23c_i64 = i64, u64, u128, u128; p23c_i128 = i128, u128, u128, u128;);
