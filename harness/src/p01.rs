//! Sharing and opening are inverse, one value and vectors.
use crate::{base::*, entries, fam::*};
use iris_mpc::{prelude::*, verif::*};

fn open<T: Int, F: Fam<T>>() {
    fixed_seeds();
    let mut s = Sess::<T, F>::new();
    free_seeds();
    let x: T = sym();
    let sh = s.share(x);
    check(F::value(sh.clone(), s.mac, 10) == x, 10);
    let r = s.run(|p, i| { let sh = sh[i].clone(); Box::pin(async move { p.open(sh).await }) });
    for v in r { let v = ok(v); note_u(v.u()); check(v == x, 1); }
    check(s.hub.drained(), 2);
    for n in 0..4usize {
        let xs: Vec<T> = (0..n).map(|_| sym()).collect();
        let sh: Vec<[F::A; 3]> = xs.iter().map(|x| s.share(*x)).collect();
        let c = cols::<F::A, F::VA>(&sh);
        let r = s.run(|p, i| { let c = c[i].clone(); Box::pin(async move { p.open_many(c).await }) });
        for v in r {
            let v = ok(v);
            check(v.len() == n, 3);
            for (a, b) in v.iter().zip(&xs) { note_u(a.u()); check(a == b, 4); }
        }
    }
    // a second opening of the same share, and one after it: no state is left behind
    let r = s.run(|p, i| { let sh = sh[i].clone(); Box::pin(async move { p.open(sh).await }) });
    for v in r { check(ok(v) == x, 5); }
    check(s.hub.drained(), 6);
    reach(1);
}
entries!(open:
    p01_aby3_u8 = u8, FAby3; p01_aby3_u16 = u16, FAby3; p01_aby3_u32 = u32, FAby3; p01_aby3_u64 = u64, FAby3; p01_aby3_u128 = u128, FAby3;
    p01_aby3_i8 = i8, FAby3; p01_aby3_i16 = i16, FAby3; p01_aby3_i32 = i32, FAby3; p01_aby3_i64 = i64, FAby3; p01_aby3_i128 = i128, FAby3;
    p01_mal_u8 = u8, FMal; p01_mal_u16 = u16, FMal; p01_mal_u32 = u32, FMal; p01_mal_u64 = u64, FMal; p01_mal_u128 = u128, FMal; p01_mal_i16 = i16, FMal; p01_mal_i64 = i64, FMal;
    p01_swift_u8 = u8, FSwift; p01_swift_u16 = u16, FSwift; p01_swift_u32 = u32, FSwift; p01_swift_u64 = u64, FSwift; p01_swift_i16 = i16, FSwift; p01_swift_i32 = i32, FSwift;
    p01_spdz_u8 = u8, FSpdz; p01_spdz_u16 = u16, FSpdz; p01_spdz_u32 = u32, FSpdz; p01_spdz_i8 = i8, FSpdz; p01_spdz_i16 = i16, FSpdz; p01_spdz_i32 = i32, FSpdz;
);
