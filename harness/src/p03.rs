//! Multiplication of shares; the closing `verify` accepts an honest run.
use crate::{base::*, entries, fam::*};
use iris_mpc::{prelude::*, verif::*};

/// the product sharing is valid and of the right value
fn mul<T: Int, F: Fam<T>>() {
    fixed_seeds();
    let mut s = Sess::<T, F>::new();
    free_seeds();
    let (x, y): (T, T) = (sym(), sym());
    let (sx, sy) = (s.share(x), s.share(y));
    let r = s.run(|p, i| { let (a, b) = (sx[i].clone(), sy[i].clone()); Box::pin(async move { ok(p.mul(a, b).await) }) });
    let v = F::value(r, s.mac, 10);
    note_u(v.u());
    check(v == x.m(y), 10);
    // squaring: both operands the same sharing
    let r = s.run(|p, i| { let a = sx[i].clone(); Box::pin(async move { ok(p.mul(a.clone(), a).await) }) });
    check(F::value(r, s.mac, 20) == x.m(x), 20);
    reach(1);
}
/// a product of a product, then verify, then open
fn mulver<T: Int, F: Fam<T>>() {
    fixed_seeds();
    let mut s = Sess::<T, F>::new();
    free_seeds();
    let (x, y, z): (T, T, T) = (sym(), sym(), sym());
    let (sx, sy, sz) = (s.share(x), s.share(y), s.share(z));
    let r = s.run(|p, i| { let (a, b, c) = (sx[i].clone(), sy[i].clone(), sz[i].clone()); Box::pin(async move {
        let m = ok(p.mul(a, b).await);
        ok(p.mul(m, c).await)
    }) });
    let v = s.run(|p, i| { Box::pin(async move { p.verify().await.is_ok() }) });
    for v in v { check(v, 1); }
    let o = s.run(|p, i| { let r = r[i].clone(); Box::pin(async move { ok(p.open(r).await) }) });
    for v in o { note_u(v.u()); check(v == x.m(y).m(z), 2); }
    reach(1);
}
entries!(mul:
    p03_aby3_u8 = u8, FAby3; p03_aby3_u16 = u16, FAby3; p03_aby3_u32 = u32, FAby3; p03_aby3_u64 = u64, FAby3; p03_aby3_i16 = i16, FAby3; p03_aby3_i32 = i32, FAby3; p03_aby3_u128 = u128, FAby3;
    p03_mal_u8 = u8, FMal; p03_mal_u16 = u16, FMal; p03_mal_i16 = i16, FMal; p03_mal_u64 = u64, FMal;
    p03_swift_u8 = u8, FSwift; p03_swift_u16 = u16, FSwift; p03_swift_u32 = u32, FSwift; p03_swift_i16 = i16, FSwift;
    p03_spdz_u8 = u8, FSpdz; p03_spdz_u16 = u16, FSpdz; p03_spdz_u32 = u32, FSpdz; p03_spdz_i16 = i16, FSpdz;
);
entries!(mulver:
    p03v_aby3_u16 = u16, FAby3; p03v_mal_u16 = u16, FMal; p03v_mal_u8 = u8, FMal; p03v_spdz_u16 = u16, FSpdz;
);
