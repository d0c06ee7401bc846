include!("mod.rs");
include!("intr.rs");
pub mod verif_x {
    use super::vi::*;
    use crate::dzkp::{gf2p64::GF2p64, irreducible_polys::IrreduciblePolys, polynomial::Poly};
    use crate::types::ring_element::RingImpl;
    use num_traits::{One, Zero};

    fn g(x: u64) -> GF2p64 { GF2p64::new(x) }
    /// carry-less product reduced by x^64 + x^4 + x^3 + x + 1, bit by bit
    fn refmul(a: u64, b: u64) -> u64 {
        let (mut r, mut t) = (0u64, a);
        for i in 0..64 {
            if i > 0 { t = (t << 1) ^ (0x1b & 0u64.wrapping_sub(t >> 63)); }
            r ^= t & 0u64.wrapping_sub((b >> i) & 1);
        }
        r
    }
    /// the field of 2^64 elements
    pub fn field() {
        let (a, b): (u64, u64) = (sym(), sym());
        let (x, y) = (g(a), g(b));
        check((x + y).get() == a ^ b && (x + &y).get() == a ^ b && (x - y).get() == a ^ b && (x - &y).get() == a ^ b, 1);
        let mut t = x; t += y; check(t.get() == a ^ b, 1);
        let mut t = x; t += &y; check(t.get() == a ^ b, 1);
        let mut t = x; t -= y; check(t.get() == a ^ b, 1);
        let mut t = x; t -= &y; check(t.get() == a ^ b, 1);
        check((-x).get() == a && x.get() == a, 2);
        check(GF2p64::zero().get() == 0 && GF2p64::one().get() == 1 && GF2p64::default().get() == 0, 3);
        check(x.is_zero() == (a == 0) && x.is_one() == (a == 1) && (x == y) == (a == b), 4);
        check(GF2p64::lift(true).get() == 1 && GF2p64::lift(false).get() == 0, 5);
        let m: Vec<bool> = GF2p64::MODULUS.to_vec();
        check((0..65).all(|i| m[i] == (i == 64 || (0x1bu64 >> i) & 1 == 1)), 6);
        note_u((x + y).get() as u128);
        reach(1);
    }
    /// products of all pairs
    pub fn field_mul() {
        let (a, b): (u64, u64) = (sym(), sym());
        let (x, y) = (g(a), g(b));
        let e = refmul(a, b);
        note_u((x * y).get() as u128);
        check((x * y).get() == e, 1);
        check((x * &y).get() == e, 1);
        let mut t = x; t *= y; check(t.get() == e, 1);
        let mut t = x; t *= &y; check(t.get() == e, 1);
        reach(1);
    }
    /// inverses of the elements with `bits` free bits placed at `shift`
    pub fn field_inv(bits: u32, shift: u32, base: u64) {
        let v: u64 = sym();
        let a = ((v & ((1 << bits) - 1)) << shift) ^ base;
        assume(a != 0);
        let i = g(a).inverse();
        note_u(i.get() as u128);
        check(refmul(i.get(), a) == 1, 1);
        reach(1);
    }
    fn poly<T: RingImpl + Sym>(n: usize) -> Poly<T> { Poly::from_vec((0..n).map(|_| sym()).collect()) }
    fn at<T: RingImpl>(p: &Poly<T>, i: usize) -> T { p.coeffs.get(i).cloned().unwrap_or_default() }
    fn same<T: RingImpl>(p: &Poly<T>, q: &Poly<T>) -> bool {
        let mut r = true;
        for i in 0..p.coeffs.len().max(q.coeffs.len()) { r &= at(p, i) == at(q, i); }
        r
    }
    fn is<T: RingImpl>(p: Poly<T>, e: &[T], id: u32) { check(same(&p, &Poly::from_vec(e.to_vec())), id) }
    /// sums, differences, products and values of polynomials with `n` and `m` coefficients
    pub fn arith<T: RingImpl + Sym>(n: usize, m: usize) {
        let (p, q): (Poly<T>, Poly<T>) = (poly(n), poly(m));
        let k = n.max(m);
        let s: Vec<T> = (0..k).map(|i| at(&p, i) + at(&q, i)).collect();
        let d: Vec<T> = (0..k).map(|i| at(&p, i) - at(&q, i)).collect();
        is(p.clone() + q.clone(), &s, 1); is(p.clone() + &q, &s, 1);
        let mut t = p.clone(); t += q.clone(); is(t, &s, 1);
        let mut t = p.clone(); t += &q; is(t, &s, 1);
        is(p.clone() - q.clone(), &d, 2); is(p.clone() - &q, &d, 2);
        let mut t = p.clone(); t -= q.clone(); is(t, &d, 2);
        let mut t = p.clone(); t -= &q; is(t, &d, 2);
        is(-p.clone(), &(0..n).map(|i| -at(&p, i)).collect::<Vec<T>>(), 3);
        let mut z = vec![T::zero(); n + m];
        for i in 0..n { for j in 0..m { z[i + j] += at(&p, i) * at(&q, j); } }
        is(p.clone() * q.clone(), &z, 4); is(p.clone() * &q, &z, 4);
        let mut t = p.clone(); t *= q.clone(); is(t, &z, 4);
        let mut t = p.clone(); t *= &q; is(t, &z, 4);
        // with a constant
        let c: T = sym();
        let mut a: Vec<T> = (0..n.max(1)).map(|i| at(&p, i)).collect();
        a[0] += c.clone();
        is(p.clone() + c.clone(), &a, 5); is(p.clone() + &c, &a, 5);
        let mut t = p.clone(); t += c.clone(); is(t, &a, 5);
        let mut t = p.clone(); t += &c; is(t, &a, 5);
        let mut a: Vec<T> = (0..n.max(1)).map(|i| at(&p, i)).collect();
        a[0] -= c.clone();
        is(p.clone() - c.clone(), &a, 5); is(p.clone() - &c, &a, 5);
        let mut t = p.clone(); t -= c.clone(); is(t, &a, 5);
        let mut t = p.clone(); t -= &c; is(t, &a, 5);
        let a: Vec<T> = (0..n).map(|i| at(&p, i) * &c).collect();
        is(p.clone() * c.clone(), &a, 6); is(p.clone() * &c, &a, 6);
        let mut t = p.clone(); t *= c.clone(); is(t, &a, 6);
        let mut t = p.clone(); t *= &c; is(t, &a, 6);
        // value at c
        let mut e = T::zero();
        let mut pw = T::one();
        for i in 0..n { e += at(&p, i) * &pw; pw *= &c; }
        check(p.clone().evaluate(&c) == e, 7);
        is(Poly::lift(c.clone()), &[c], 8);
        // degree, zero, one
        let mut deg = 0;
        let mut all = true;
        for i in 0..n { if !at(&p, i).is_zero() { deg = i; all = false; } }
        check(p.degree() == deg && p.is_zero() == all, 9);
        if n > 0 { check(*p.leading_coeff() == at(&p, deg), 10); }
        check(p.is_one() == (deg == 0 && n > 0 && at(&p, 0).is_one()), 11);
        check(Poly::<T>::one().is_one() && Poly::<T>::zero().is_zero(), 12);
        let mut t = p.clone();
        t.shrink();
        check(same(&t, &p) && t.coeffs.len() == deg + 1, 13);
        reach(1);
    }
    /// quotient and remainder
    pub fn division<T: RingImpl + Sym>(n: usize, lead: Option<u8>, m: usize) {
        let p: Poly<T> = poly(n);
        let mut q: Poly<T> = poly(m);
        let l = match lead { Some(l) => { let mut x = T::zero(); for _ in 0..l { x += T::one(); } x } None => sym() };
        q.coeffs.push(l.clone());
        let odd = l.clone() & T::one() == T::one();
        assume(!l.is_zero());
        match p.long_division(&q) {
            Ok((quo, rem)) => {
                check(odd, 1);
                check(same(&(quo * &q + &rem), &p), 2);
                check(rem.coeffs.len() <= n.min(m).max(1), 3);
                check(same(&(p.clone() % &q), &rem) && same(&(p % q), &rem), 4);
                reach(1);
            }
            Err(_) => { check(!odd, 5); reach(2); }
        }
    }
    /// inverses of elements
    pub fn inverse<T: RingImpl + Sym>() {
        let x: T = sym();
        let odd = x.clone() & T::one() == T::one();
        match x.inverse() {
            Ok(i) => { check(odd, 1); check((i * &x).is_one(), 2); reach(1); }
            Err(_) => { check(!odd, 3); reach(2); }
        }
    }
    /// inverses of the elements with 7 free bits at `shift`, one path each
    pub fn inverse_at<T: RingImpl>(f: fn(u64) -> T, shift: u32, base: u64) {
        let v = (split(sym::<u64>() & 127) << shift) ^ base;
        let x = f(v);
        match x.inverse() {
            Ok(i) => { check(v & 1 == 1, 1); check((i * &x).is_one(), 2); reach(1); }
            Err(_) => { check(v & 1 == 0, 3); reach(2); }
        }
    }
    /// the moduli are irreducible over the field of two elements and of the stated degree
    pub fn moduli() {
        for d in 40..64usize {
            let p: Poly<crate::types::ring_element::RingElement<u8>> = IrreduciblePolys::get(d);
            check(p.coeffs.len() == d + 1 && p.coeffs.iter().all(|c| c.0 <= 1) && p.coeffs[d].0 == 1, 1);
            let mut f = 0u64;
            for i in 0..=d { f |= (p.coeffs[i].0 as u64) << i; }
            // x^(2^d) = x and gcd(x^(2^(d/r)) - x, f) = 1 for every prime r dividing d
            let sq = |v: u64| {
                let mut w = 0u128;
                for i in 0..d { w |= (((v >> i) & 1) as u128) << (2 * i); }
                for i in (d..2 * d).rev() { if (w >> i) & 1 == 1 { w ^= (f as u128) << (i - d); } }
                w as u64
            };
            let mut v = 2u64;
            for k in 1..=d {
                v = sq(v);
                let r = d / k;
                if k < d && d % k == 0 && (2..r).all(|t| r % t != 0) {
                    let (mut a, mut b) = (f, v ^ 2);
                    while b != 0 {
                        while a != 0 && 64 - a.leading_zeros() >= 64 - b.leading_zeros() { a ^= b << (b.leading_zeros() - a.leading_zeros()); }
                        std::mem::swap(&mut a, &mut b);
                    }
                    check(a == 1, 2);
                }
            }
            check(v == 2, 3);
        }
        reach(1);
    }
    /// inverses of differences of small points in the Galois ring; the interpolation points are such differences
    pub fn ring_inverse<T: RingImpl + Sym>(d: usize, bits: usize) {
        let modulus: Poly<T> = IrreduciblePolys::get(d);
        let (x, y) = (split(sym::<u64>() & ((1 << bits) - 1)), split(sym::<u64>() & ((1 << bits) - 1)));
        assume(x != y);
        let f = |v: u64| Poly::<T>::from_vec((0..bits).map(|i| if (v >> i) & 1 == 1 { T::one() } else { T::zero() }).collect());
        let a = f(x) - f(y);
        let i = a.mod_inverse(&modulus);
        let mut o = (i * &a) % &modulus;
        o.shrink();
        is(o, &[T::one()], 1);
        reach(1);
    }
    /// interpolation reproduces the values at the points 0..n
    pub fn interpolation<T: RingImpl + Sym>(d: usize, n: usize, k: usize) {
        let modulus: Poly<T> = IrreduciblePolys::get(d);
        let xs: Vec<Poly<T>> = (0..n).map(|i| Poly::from_vec(crate::aby3::utils::to_bits(i))).collect();
        let l = Poly::<Poly<T>>::lagrange_polys(&xs, &modulus);
        check(l.len() == n, 1);
        let ys: Vec<Poly<T>> = (0..n).map(|j| { let mut p = poly::<T>(k); p.coeffs.push(if j & 1 == 0 { T::one() } else { -T::one() }); p }).collect();
        let f = Poly::interpolate(&ys, &l);
        for (x, y) in xs.iter().zip(ys.iter()) {
            // the value at x, without the shortcuts taken for zero polynomials
            let mut v: Poly<T> = Poly::from_vec(vec![T::zero(); 1]);
            for c in f.coeffs.iter().rev() {
                let mut w = vec![T::zero(); v.coeffs.len() + x.coeffs.len()];
                for (i, a) in v.coeffs.iter().enumerate() { for (j, b) in x.coeffs.iter().enumerate() { w[i + j] += a.clone() * b; } }
                v = (Poly::from_vec(w) + c) % &modulus;
            }
            check(same(&v, y), 2);
        }
        reach(1);
    }
    /// the same over the binary field
    pub fn interpolation_field(n: usize) {
        let xs: Vec<GF2p64> = (0..n).map(|x| g(x as u64)).collect();
        let l = Poly::<GF2p64>::lagrange_polys(&xs);
        check(l.len() == n, 1);
        let ys: Vec<GF2p64> = (0..n).map(|_| g(sym())).collect();
        let f = Poly::interpolate(&ys, &l);
        for (x, y) in xs.iter().zip(ys.iter()) {
            let v = f.clone().evaluate(x);
            note_u(v.get() as u128);
            check(v.get() == y.get(), 2);
        }
        reach(1);
    }
}
