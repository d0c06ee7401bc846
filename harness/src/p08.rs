//! `input`: the dealer's value is shared to everyone; bad calls are errors.
use crate::{base::*, entries, fam::*};
use iris_mpc::{prelude::*, verif::*};

fn input<T: Int, F: Fam<T>>() {
    fixed_seeds();
    let mut s = Sess::<T, F>::new();
    free_seeds();
    for dealer in 0..3usize {
        let x: T = sym();
        // parties other than the dealer may pass anything: it is ignored
        let junk: T = sym();
        let r = s.run(|p, i| Box::pin(async move { ok(p.input(if i == dealer { Some(x) } else if i == (dealer + 1) % 3 { Some(junk) } else { None }, dealer).await) }));
        let v = F::value(r.clone(), s.mac, 10);
        note_u(v.u());
        check(v == x, 10);
        let rr = &r;
        let o = s.run(|p, i| Box::pin(async move { ok(p.open(rr[i].clone()).await) }));
        for v in o { check(v == x, 20); }
        check(s.hub.drained(), 21);
    }
    for id in [3usize, 4, 255, usize::MAX] {
        let r = s.run(|p, _| Box::pin(async move { p.input(Some(T::of(1)), id).await.is_err() }));
        for v in r { check(v, 30); }
    }
    // the dealer has no value: an error (the others may go on waiting for it)
    for dealer in 0..3usize {
        fixed_seeds();
        let mut s = Sess::<T, F>::new();
        free_seeds();
        let r = s.run_some(|p, i| Box::pin(async move { p.input(None, dealer).await.is_err() || i != dealer }));
        check(r[dealer] == Some(true), 31);
    }
    reach(1);
}
entries!(input:
    p08_aby3_u8 = u8, FAby3; p08_aby3_u16 = u16, FAby3; p08_aby3_u32 = u32, FAby3; p08_aby3_i16 = i16, FAby3; p08_aby3_u64 = u64, FAby3;
    p08_mal_u8 = u8, FMal; p08_mal_u16 = u16, FMal; p08_mal_u32 = u32, FMal; p08_mal_i16 = i16, FMal; p08_mal_u64 = u64, FMal;
    p08_swift_u8 = u8, FSwift; p08_swift_u16 = u16, FSwift; p08_swift_u32 = u32, FSwift; p08_swift_i16 = i16, FSwift;
    p08_spdz_u8 = u8, FSpdz; p08_spdz_u16 = u16, FSpdz; p08_spdz_u32 = u32, FSpdz; p08_spdz_i16 = i16, FSpdz;
);
