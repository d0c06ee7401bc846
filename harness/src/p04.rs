//! Dot products, one and many; unequal lengths are errors.
use crate::{base::*, entries, fam::*};
use iris_mpc::{prelude::*, verif::*};

fn vecs<T: Int>(n: usize) -> Vec<T> { (0..n).map(|_| sym()).collect() }
fn plain<T: Int>(a: &[T], b: &[T]) -> T { a.iter().zip(b).fold(T::of(0), |s, (x, y)| s.a(x.m(*y))) }
fn shares<T: Int, F: Fam<T>>(s: &Sess<T, F>, v: &[T]) -> [F::VA; 3] { let c: Vec<[F::A; 3]> = v.iter().map(|x| s.share(*x)).collect(); cols(&c) }

fn dot<T: Int, F: Fam<T>>() {
    fixed_seeds();
    let mut s = Sess::<T, F>::new();
    free_seeds();
    for n in 0..4usize {
        let (x, y) = (vecs::<T>(n), vecs::<T>(n));
        let (sx, sy) = (shares(&s, &x), shares(&s, &y));
        let r = s.run(|p, i| { let (a, b) = (sx[i].clone(), sy[i].clone()); Box::pin(async move { ok(p.dot(a, b).await) }) });
        let v = F::value(r, s.mac, 10);
        note_u(v.u());
        check(v == plain(&x, &y), 10);
    }
    // several dot products of different lengths in one call
    let lens = [2usize, 0, 1, 3];
    let xs: Vec<Vec<T>> = lens.iter().map(|n| vecs(*n)).collect();
    let ys: Vec<Vec<T>> = lens.iter().map(|n| vecs(*n)).collect();
    let sx: Vec<[F::VA; 3]> = xs.iter().map(|v| shares(&s, v)).collect();
    let sy: Vec<[F::VA; 3]> = ys.iter().map(|v| shares(&s, v)).collect();
    let ab = [0, 1, 2].map(|i| (sx.iter().map(|x| x[i].clone()).collect::<Vec<_>>(), sy.iter().map(|x| x[i].clone()).collect::<Vec<_>>()));
    let abr = &ab;
    let r = s.run(|p, i| { let ab = abr[i].clone(); Box::pin(async move { ok(p.dot_many(&ab.0, &ab.1).await) }) });
    for v in &r { check(v.len() == lens.len(), 20); }
    for k in 0..lens.len() {
        let v = F::value([0, 1, 2].map(|i| r[i][k].clone()), s.mac, 30);
        note_u(v.u());
        check(v == plain(&xs[k], &ys[k]), 30);
    }
    check(s.hub.drained(), 21);
    // an empty batch
    let r = s.run(|p, _| Box::pin(async move { ok(p.dot_many(&[], &[]).await).len() }));
    for v in r { check(v == 0, 22); }
    // unequal lengths are errors, never a wrong value
    let (d2, d3) = (shares(&s, &xs[0]), shares(&s, &xs[3]));
    let (d2, d3) = (&d2, &d3);
    let r = s.run(|p, i| Box::pin(async move { p.dot(d2[i].clone(), d3[i].clone()).await.is_err() }));
    for v in r { check(v, 40); }
    let r = s.run(|p, i| Box::pin(async move { p.dot(d3[i].clone(), d2[i].clone()).await.is_err() }));
    for v in r { check(v, 41); }
    let r = s.run(|p, i| Box::pin(async move { p.dot_many(&[d2[i].clone(), d3[i].clone()], &[d2[i].clone()]).await.is_err() }));
    for v in r { check(v, 42); }
    let r = s.run(|p, i| Box::pin(async move { p.dot_many(&[d2[i].clone(), d3[i].clone()], &[d2[i].clone(), d2[i].clone()]).await.is_err() }));
    for v in r { check(v, 43); }
    let r = s.run(|p, i| Box::pin(async move { p.dot_many(&[d2[i].clone()], &[d2[i].clone(), d2[i].clone()]).await.is_err() }));
    for v in r { check(v, 44); }
    reach(1);
}
/// dot, dot_many, then verify accepts and opens correctly
fn dotver<T: Int, F: Fam<T>>() {
    fixed_seeds();
    let mut s = Sess::<T, F>::new();
    free_seeds();
    let (x, y) = (vecs::<T>(2), vecs::<T>(2));
    let (sx, sy) = (shares(&s, &x), shares(&s, &y));
    let r = s.run(|p, i| { let (a, b) = (sx[i].clone(), sy[i].clone()); Box::pin(async move { ok(p.dot_many(&[a.clone(), b.clone()], &[b, a]).await) }) });
    let v = s.run(|p, _| Box::pin(async move { p.verify().await.is_ok() }));
    for v in v { check(v, 1); }
    let rr = &r;
    let o = s.run(|p, i| Box::pin(async move { ok(p.open(rr[i][0].clone()).await) }));
    for v in o { note_u(v.u()); check(v == plain(&x, &y), 2); }
    reach(1);
}
entries!(dot:
    p04_aby3_u8 = u8, FAby3; p04_aby3_u16 = u16, FAby3; p04_aby3_u32 = u32, FAby3; p04_aby3_i16 = i16, FAby3;
    p04_mal_u8 = u8, FMal; p04_mal_u16 = u16, FMal; p04_mal_i16 = i16, FMal;
    p04_swift_u8 = u8, FSwift; p04_swift_u16 = u16, FSwift; p04_swift_u32 = u32, FSwift; p04_swift_i16 = i16, FSwift;
    p04_spdz_u8 = u8, FSpdz; p04_spdz_u16 = u16, FSpdz; p04_spdz_u32 = u32, FSpdz; p04_spdz_i16 = i16, FSpdz;
);
entries!(dotver:
    p04v_aby3_u16 = u16, FAby3; p04v_mal_u16 = u16, FMal; p04v_spdz_u16 = u16, FSpdz;
);
