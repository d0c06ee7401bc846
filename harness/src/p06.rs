//! Comparison: the most significant bit of a shared value.
use crate::{base::*, entries, fam::*};
use iris_mpc::{prelude::*, verif::*};

/// one value
fn single<T: Int, F: Fam<T>>() {
    fixed_seeds();
    let mut s = Sess::<T, F>::new();
    free_seeds();
    let x: T = sym();
    let sx = &s.share(x);
    if F::NAME == "MalAby3" || F::NAME == "Swift3" { fixed_seeds(); }
    s.hub.cut.set(1);
    s.hub.cut_n.set(T::BITS / 8);
    let r = s.run(|p, i| Box::pin(async move { ok(p.get_msb(sx[i].clone()).await) }));
    let v = F::bit(r, 10);
    note_u(v as u128);
    check(v == x.top(), 10);
    check(s.hub.drained(), 2);
    reach(1);
}
/// a batch of `n`
fn many<T: Int, F: Fam<T>>(n: usize) {
    fixed_seeds();
    let mut s = Sess::<T, F>::new();
    free_seeds();
    let xs: Vec<T> = (0..n).map(|_| sym()).collect();
    let sh: Vec<_> = xs.iter().map(|x| s.share(*x)).collect();
    let v = &[0, 1, 2].map(|i| sh.iter().map(|x| x[i].clone()).collect::<Vec<_>>());
    if F::NAME == "MalAby3" || F::NAME == "Swift3" { fixed_seeds(); }
    s.hub.cut.set(1);
    s.hub.cut_n.set(16);
    let r = s.run(|p, i| Box::pin(async move { ok(p.get_msb_many(v[i].clone()).await) }));
    for q in &r { check(q.len() == n, 1); }
    for (k, x) in xs.iter().enumerate() {
        let v = F::bit([0, 1, 2].map(|i| r[i].get_at(k)), 10);
        note_u(v as u128);
        check(v == x.top(), 10);
    }
    check(s.hub.drained(), 2);
    reach(1);
}
/// a batch that needs more than one machine word per bit position: some values unknown, the rest known
fn wide<T: Int, F: Fam<T>>() {
    const N: usize = 130;
    const ON: [usize; 4] = [0, 127, 128, 129];
    fixed_seeds();
    let mut s = Sess::<T, F>::new();
    free_seeds();
    let mut known = KnownRng(7);
    let xs: Vec<T> = (0..N).map(|k| if ON.contains(&k) { sym() } else { T::of(k as u64 * 0x9E37) }).collect();
    let sh: Vec<_> = xs.iter().enumerate().map(|(k, x)| if ON.contains(&k) { s.share(*x) } else { F::share_rng(*x, s.mac, &mut known) }).collect();
    let v = &[0, 1, 2].map(|i| sh.iter().map(|x| x[i].clone()).collect::<Vec<_>>());
    fixed_seeds();
    let r = s.run(|p, i| Box::pin(async move { ok(p.get_msb_many(v[i].clone()).await) }));
    for q in &r { check(q.len() == N, 1); }
    for (k, x) in xs.iter().enumerate() {
        check(F::bit([0, 1, 2].map(|i| r[i].get_at(k)), 10) == x.top(), 10);
    }
    check(s.hub.drained(), 2);
    reach(1);
}
fn many1<T: Int, F: Fam<T>>() { many::<T, F>(1) }
fn many3<T: Int, F: Fam<T>>() { many::<T, F>(3) }
entries!(single:
    p06_aby3_u8 = u8, FAby3; p06_aby3_u16 = u16, FAby3; p06_aby3_u32 = u32, FAby3; p06_aby3_u64 = u64, FAby3; p06_aby3_u128 = u128, FAby3; p06_aby3_i16 = i16, FAby3;
);
entries!(many3:
    p06m_aby3_u8 = u8, FAby3; p06m_aby3_u16 = u16, FAby3; p06m_aby3_u32 = u32, FAby3; p06m_aby3_u64 = u64, FAby3; p06m_aby3_i16 = i16, FAby3; p06m_aby3_u128 = u128, FAby3;
);
entries!(single:
    p06_mal_u8 = u8, FMal; p06_mal_u16 = u16, FMal;
    p06_swift_u8 = u8, FSwift; p06_swift_u16 = u16, FSwift; p06_swift_u32 = u32, FSwift;
    p06_spdz_u8 = u8, FSpdz; p06_spdz_u16 = u16, FSpdz; p06_spdz_u32 = u32, FSpdz;
);
entries!(many3:
    p06m_mal_u8 = u8, FMal; p06m_mal_u16 = u16, FMal;
    p06m_swift_u8 = u8, FSwift; p06m_swift_u16 = u16, FSwift; p06m_swift_u32 = u32, FSwift;
    p06m_spdz_u8 = u8, FSpdz; p06m_spdz_u16 = u16, FSpdz; p06m_spdz_u32 = u32, FSpdz;
);
entries!(many1: p06o_aby3_u16 = u16, FAby3; p06o_swift_u16 = u16, FSwift; p06o_spdz_u16 = u16, FSpdz; p06o_mal_u8 = u8, FMal; p06o_swift_u32 = u32, FSwift; p06o_mal_u16 = u16, FMal;);
entries!(wide: p06w_aby3_u8 = u8, FAby3; p06w_aby3_u16 = u16, FAby3; p06w_spdz_u8 = u8, FSpdz; p06w_swift_u8 = u8, FSwift; p06w_mal_u8 = u8, FMal; p06w_spdz_u16 = u16, FSpdz; );
