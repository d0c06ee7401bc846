//! Byte and bit encodings of ring elements.
use crate::base::*;
use bytes::{Buf, BytesMut};
use iris_mpc::{prelude::*, verif::*, verif_x::*};

fn buf(n: usize) -> BytesMut { let mut v = vec![0u8; n]; sym_bytes(&mut v); BytesMut::from(&v[..]) }
fn valid<T: IntRing2k>(b: &[u8]) -> bool { T::K != 1 || b.iter().all(|x| *x <= 1) }
/// one element
fn elem<T: IntRing2k + Sym>() {
    let w = (T::K + 7) / 8;
    let x = RingElement(sym::<T>());
    let b = x.clone().to_bytes();
    check(b.len() == w, 1);
    note(&b);
    check(RingElement::<T>::from_bytes(b.clone()).ok() == Some(x.clone()), 2);
    check(RingElement::<T>::from_bytes_mut(BytesMut::from(&b[..])).ok() == Some(x.clone()), 3);
    // inside a stream
    let y = RingElement(sym::<T>());
    let mut s = buf(1);
    let lead = s[0];
    x.add_to_bytes(&mut s);
    y.add_to_bytes(&mut s);
    check(s.len() == 1 + 2 * w && s[0] == lead, 4);
    s.advance(1);
    check(RingElement::<T>::take_from_bytes_mut(&mut s).ok() == Some(x.clone()), 5);
    check(s.len() == w, 6);
    check(RingElement::<T>::take_from_bytes_mut(&mut s).ok() == Some(y), 7);
    check(s.is_empty() && RingElement::<T>::take_from_bytes_mut(&mut s).is_err(), 8);
    // every byte string
    for n in 0..w + 3 {
        let b = buf(n);
        let good = n == w && valid::<T>(&b);
        let r = RingElement::<T>::from_bytes_mut(b.clone());
        check(r.is_ok() == good, 10);
        if let Ok(r) = r { check(r.to_bytes()[..] == b[..], 11); }
        check(RingElement::<T>::from_bytes(b.clone().freeze()).is_ok() == good, 12);
        let mut t = b.clone();
        let r = RingElement::<T>::take_from_bytes_mut(&mut t);
        check(r.is_ok() == (n >= w && valid::<T>(&b[..w.min(n)])), 13);
        if let Ok(r) = r { check(r.to_bytes()[..] == b[..w] && t[..] == b[w..], 14); }
    }
    reach(1);
}
/// list of bits
fn bits<T: IntRing2k + Sym>() {
    let x = RingElement(sym::<T>());
    let b = x.to_bits();
    check(b.len() == T::K, 1);
    for (i, q) in b.iter().enumerate() {
        check(q.0.convert() == ((x.0.upgrade_to_128() >> i) & 1 == 1), 2);
        check(x.get_bit(i).0.upgrade_to_128() == (x.0.upgrade_to_128() >> i) & 1, 3);
    }
    check(x.get_msb().0.convert() == (x.0.upgrade_to_128() >> (T::K - 1) == 1), 4);
    check(RingElement::<T>::from_bits(&b).ok() == Some(x), 5);
    for n in [0, 1, T::K - 1, T::K, T::K + 1, 2 * T::K] {
        let v: Vec<RingElement<Bit>> = (0..n).map(|_| RingElement(sym())).collect();
        let r = RingElement::<T>::from_bits(&v);
        check(r.is_ok() == (n == T::K), 6);
        if let Ok(r) = r { for (i, q) in v.iter().enumerate() { check(q.0.convert() == ((r.0.upgrade_to_128() >> i) & 1 == 1), 7); } }
    }
    reach(1);
}
/// lists of elements
fn list<T: IntRing2k + Sym>() {
    let w = (T::K + 7) / 8;
    for n in 0..4 {
        let v: Vec<RingElement<T>> = (0..n).map(|_| RingElement(sym())).collect();
        let b = slice_to_bytes(&v);
        check(b.len() == n * w, 1);
        note(&b);
        check(iter_to_bytes(&v)[..] == b[..], 2);
        for (i, x) in v.iter().enumerate() { check(x.clone().to_bytes()[..] == b[i * w..(i + 1) * w], 3); }
        check(vec_from_bytes(BytesMut::from(&b[..]), n).ok() == Some(v.clone()), 4);
        check(iter_from_bytes(BytesMut::from(&b[..]), n).ok() == Some(v.clone()), 5);
        for len in 0..n * w + 3 {
            if len % w > 1 && len % w < w - 1 { continue; }
            let b = buf(len);
            let good = len == n * w && valid::<T>(&b);
            let r = vec_from_bytes::<RingElement<T>>(b.clone(), n);
            check(r.is_ok() == good, 6);
            if let Ok(r) = r { check(slice_to_bytes(&r)[..] == b[..], 7); }
            let r = iter_from_bytes::<RingElement<T>>(b.clone(), n);
            check(r.is_ok() == good, 8);
            if let Ok(r) = r { check(slice_to_bytes(&r)[..] == b[..], 9); }
        }
    }
    reach(1);
}
macro_rules! ent { ($f:ident: $($n:ident = $t:ty;)*) => { $(#[no_mangle] pub extern "C" fn $n() { $f::<$t>() })* } }
ent!(elem: p11e_bit = Bit; p11e_u8 = u8; p11e_u16 = u16; p11e_u32 = u32; p11e_u64 = u64; p11e_u128 = u128;);
ent!(bits: p11b_bit = Bit; p11b_u8 = u8; p11b_u16 = u16; p11b_u32 = u32; p11b_u64 = u64; p11b_u128 = u128;);
ent!(list: p11l_bit = Bit; p11l_u8 = u8; p11l_u16 = u16; p11l_u32 = u32; p11l_u64 = u64; p11l_u128 = u128;);
