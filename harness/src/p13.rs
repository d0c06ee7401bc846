//! One corrupted party during an opening: it sends arbitrary messages of the honest lengths.
use crate::{base::*, entries, fam::*};
use iris_mpc::{prelude::*, verif::*};

/// honest run with known values first, for the lengths; then party `c` sends anything
fn attack<T: Int, F: Fam<T>, R>(c: usize, prep: impl Fn(&Sess<T, F>) -> [R; 3], op: impl for<'a> Fn(&'a mut F::P, &'a R) -> Fut<'a, Res<Vec<T>>>, want: &[T], macs: bool) {
    fixed_seeds();
    let mut s = Sess::<T, F>::new();
    let lens = s.hub.record();
    let sh = &prep(&s);
    let op = &op;
    s.run(|p, i| Box::pin(async move { ok(op(p, &sh[i]).await); }));
    s.hub.untap();
    if F::NAME != "SpdzWise" { free_seeds(); }
    let mut s = Sess::<T, F>::new_known();
    let sh = &prep(&s);
    // SpdzWise integers: the messages of the opening itself, after the MAC check (that check is P15's)
    let spdz = F::NAME == "SpdzWise" && macs;
    let r = if spdz {
        let mut i = 0;
        let n = lens.borrow().each_ref().map(|l| { i += 1; l.len() + s.hub.count[i - 1].get() });
        s.hub.tap(move |f, t, k, m| if f == c && k + 1 == n[f * 3 + t] { sym_bytes(m) });
        s.run_some(|p, i| op(p, &sh[i]))
    } else {
        s.hub.inject(c, &lens.borrow());
        all_but(&s.hub, &mut s.ps, c, |p, i| op(p, &sh[i]))
    };
    let mut good = true;
    for i in 0..3 {
        if i == c { continue; }
        match &r[i] {
            Some(Ok(v)) => { check(v.len() == want.len(), 1); for (a, b) in v.iter().zip(want) { check(a == b, 2); } }
            Some(Err(_)) => good = false,
            // the other honest party has given up
            None => { good = false; check(matches!(r[3 - c - i], Some(Err(_))), 3) }
        }
    }
    reach(if good { 1 } else { 2 });
}
fn open<T: Int, F: Fam<T>>(c: usize) {
    let x: T = sym();
    attack::<T, F, _>(c, |s| s.share(x), |p, s| Box::pin(async move { Ok(vec![p.open(s.clone()).await?]) }), &[x], true)
}
fn open_many<T: Int, F: Fam<T>>(c: usize) {
    let x: [T; 2] = [sym(), sym()];
    attack::<T, F, _>(c, |s| cols::<F::A, F::VA>(&x.map(|v| s.share(v))), |p, s| Box::pin(async move { p.open_many(s.clone()).await }), &x, true)
}
fn open_bit<T: Int, F: Fam<T>>(c: usize) {
    let x: bool = sym();
    attack::<T, F, _>(c, |_| F::share_bit(x), |p, s| Box::pin(async move { Ok(vec![T::of(bool::from(p.open_bit(s.clone()).await?) as u64)]) }), &[T::of(x as u64)], false)
}
fn open_bit_many<T: Int, F: Fam<T>>(c: usize) {
    let x: [bool; 3] = [sym(), sym(), sym()];
    attack::<T, F, _>(c, |_| cols::<F::B, F::VB>(&x.map(F::share_bit)), |p, s| Box::pin(async move { Ok(p.open_bit_many(s.clone()).await?.into_iter().map(|b| T::of(bool::from(b) as u64)).collect()) }), &x.map(|b| T::of(b as u64)), false)
}
macro_rules! each { ($f:ident: $($a:ident $b:ident $c:ident = $t:ty, $fam:ident;)*) => { $(
    #[no_mangle] pub extern "C" fn $a() { $f::<$t, $fam>(0) }
    #[no_mangle] pub extern "C" fn $b() { $f::<$t, $fam>(1) }
    #[no_mangle] pub extern "C" fn $c() { $f::<$t, $fam>(2) }
)* } }
each!(open: p13_mal_u16_0 p13_mal_u16_1 p13_mal_u16_2 = u16, FMal; p13_swift_u16_0 p13_swift_u16_1 p13_swift_u16_2 = u16, FSwift; p13_spdz_u16_0 p13_spdz_u16_1 p13_spdz_u16_2 = u16, FSpdz;
      p13_mal_u64_0 p13_mal_u64_1 p13_mal_u64_2 = u64, FMal; p13_swift_u64_0 p13_swift_u64_1 p13_swift_u64_2 = u64, FSwift; );
each!(open_many: p13m_mal_0 p13m_mal_1 p13m_mal_2 = u16, FMal; p13m_swift_0 p13m_swift_1 p13m_swift_2 = u16, FSwift; p13m_spdz_0 p13m_spdz_1 p13m_spdz_2 = u16, FSpdz; );
each!(open_bit: p13b_mal_0 p13b_mal_1 p13b_mal_2 = u16, FMal; p13b_swift_0 p13b_swift_1 p13b_swift_2 = u16, FSwift; p13b_spdz_0 p13b_spdz_1 p13b_spdz_2 = u16, FSpdz; );
each!(open_bit_many: p13n_mal_0 p13n_mal_1 p13n_mal_2 = u16, FMal; p13n_swift_0 p13n_swift_1 p13n_swift_2 = u16, FSwift; p13n_spdz_0 p13n_spdz_1 p13n_spdz_2 = u16, FSpdz; );
