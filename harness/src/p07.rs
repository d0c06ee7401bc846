//! OR of shared bits, OR over a list, opening of bits.
use crate::{base::*, entries, fam::*};
use iris_mpc::{prelude::*, verif::*};

/// one OR, and opening of bits: everything unknown
fn or2<T: Int, F: Fam<T>>() where F::P: BinaryMpcTrait<Bit, F::B> {
    let mut s = Sess::<T, F>::new();
    let (x, y, z): (bool, bool, bool) = (sym(), sym(), sym());
    let [sx, sy, sz] = &[x, y, z].map(F::share_bit);
    if F::NAME == "Swift3" { fixed_seeds(); }
    let r = &s.run(|p, i| Box::pin(async move { ok(<F::P as BinaryMpcTrait<Bit, F::B>>::or(p, sx[i].clone(), sy[i].clone()).await) }));
    check(F::bit(r.clone(), 10) == (x | y), 10);
    let o = s.run(|p, i| Box::pin(async move { bool::from(ok(p.open_bit(r[i].clone()).await)) }));
    check(o == [x | y; 3], 1);
    note(&[o[0] as u8]);
    // a list of bits, and the shorter ones
    let e = [x, y, z, x | y];
    for n in 0..5 {
        let o = s.run(|p, i| Box::pin(async move {
            let mut v = F::VB::with_capacity(n);
            for b in [sx, sy, sz, r].into_iter().take(n) { v.push(b[i].clone()); }
            ok(p.open_bit_many(v).await)
        }));
        for q in o { check(q.len() == n && q.iter().zip(e).all(|(a, b)| bool::from(*a) == b), 2); }
    }
    // lists of ORs
    let r = &s.run(|p, i| Box::pin(async move {
        let (mut a, mut b) = (F::VB::with_capacity(2), F::VB::with_capacity(2));
        a.push(sy[i].clone()); a.push(sz[i].clone());
        b.push(sz[i].clone()); b.push(sx[i].clone());
        ok(<F::P as BinaryMpcTrait<Bit, F::B>>::or_many(p, a, b).await)
    }));
    for q in r { check(q.len() == 2, 3); }
    check(F::bit([0, 1, 2].map(|i| r[i].get_at(0)), 13) == (y | z), 13);
    check(F::bit([0, 1, 2].map(|i| r[i].get_at(1)), 16) == (z | x), 16);
    check(s.hub.drained(), 5);
    reach(1);
}
entries!(or2: p07_or_aby3 = u16, FAby3; p07_or_mal = u16, FMal; p07_or_swift = u16, FSwift; p07_or_spdz = u16, FSpdz; );

/// the OR of `n` bits of which those at `on` are unknown and the others zero
fn reduce<T: Int, F: Fam<T>>(n: usize, on: &[usize], chunk: usize, verify: bool) {
    fixed_seeds();
    let mut s = Sess::<T, F>::new();
    free_seeds();
    let mut want = false;
    let mut k = KnownRng(3);
    let mut known = || rand::RngCore::next_u32(&mut k) & 1 == 1;
    let sh: Vec<[F::B; 3]> = (0..n).map(|k| if on.contains(&k) { let b = sym(); want |= b; F::share_bit(b) } else { F::share_bit_of(false, &mut known) }).collect();
    let sh = &sh;
    fixed_seeds();
    if verify { s.run(|p, _| Box::pin(async move { ok(p.precompute_and_triples(n + 256).await) })); }
    let r = &s.run(|p, i| Box::pin(async move {
        let mut v = F::VB::with_capacity(n);
        for b in sh { v.push(b[i].clone()); }
        ok(p.reduce_binary_or(v, chunk).await)
    }));
    check(F::bit(r.clone(), 10) == want, 10);
    if verify { s.run(|p, _| Box::pin(async move { ok(p.verify().await) })); }
    let o = s.run(|p, i| Box::pin(async move { bool::from(ok(p.open_bit(r[i].clone()).await)) }));
    check(o == [want; 3], 1);
    note(&[o[0] as u8]);
    check(s.hub.drained(), 2);
    reach(1);
}
fn small<T: Int, F: Fam<T>>() { for (n, c) in [(1, 1), (1, 4), (2, 1), (3, 1), (3, 2), (4, 3), (5, 2), (5, 9), (6, 1)] { reduce::<T, F>(n, &[0, 1, 2, 3, 4, 5][..n], c, false); } }
fn words<T: Int, F: Fam<T>>() { for n in [8, 9, 64, 127, 128] { reduce::<T, F>(n, &[0, 7, n / 2 - 1, n / 2, n - 2, n - 1], 3, false); } }
fn w129<T: Int, F: Fam<T>>() { reduce::<T, F>(129, &[0, 63, 64, 127, 128], 1, false) }
fn w300<T: Int, F: Fam<T>>() { reduce::<T, F>(300, &[0, 127, 128, 255, 256, 299], 1, false); }
fn w600<T: Int, F: Fam<T>>() { reduce::<T, F>(640, &[0, 128, 256, 383, 384, 511, 512, 639], 2, false); reduce::<T, F>(600, &[0, 128, 300, 383, 384, 599], 1, false) }
fn ver<T: Int, F: Fam<T>>() { reduce::<T, F>(3, &[0, 2], 2, true) }
entries!(small: p07_small_aby3 = u16, FAby3; p07_small_mal = u16, FMal; p07_small_swift = u16, FSwift; p07_small_spdz = u16, FSpdz; );
entries!(words: p07_words_aby3 = u16, FAby3; p07_words_mal = u16, FMal; p07_words_swift = u16, FSwift; p07_words_spdz = u16, FSpdz; );
entries!(w129: p07_w129_aby3 = u16, FAby3; p07_w129_mal = u16, FMal; p07_w129_swift = u16, FSwift; p07_w129_spdz = u16, FSpdz; );
entries!(w300: p07_w300_aby3 = u16, FAby3; p07_w300_mal = u16, FMal; p07_w300_swift = u16, FSwift; p07_w300_spdz = u16, FSpdz; );
entries!(w600: p07_w600_aby3 = u16, FAby3; p07_w600_mal = u16, FMal; p07_w600_swift = u16, FSwift; p07_w600_spdz = u16, FSpdz; );
entries!(ver: p07_ver_mal = u16, FMal; p07_ver_spdz = u16, FSpdz; );
