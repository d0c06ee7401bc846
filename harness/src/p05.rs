//! Masked dot products over whole iris codes.
use crate::{base::*, entries, fam::*};
use iris_mpc::{prelude::*, verif::*};
use plain_reference::IrisCodeArray;

const N: usize = IrisCodeArray::IRIS_CODE_SIZE;
/// positions whose value and mask bit are unknown (word and array boundaries)
const POS: [usize; 9] = [0, 1, 62, 63, 64, 6399, 6400, 12735, 12799];

/// a code with unknown values at `POS`, known elsewhere; and its shares
fn code<T: Int, F: Fam<T>>(s: &Sess<T, F>, k: u64, n: usize) -> (Vec<T>, [F::VA; 3]) {
    let mut v: Vec<T> = (0..n).map(|i| T::of(((i as u64).wrapping_mul(0x9E37 + 2 * k) >> 3) ^ k)).collect();
    for p in POS { if p < n { v[p] = sym(); } }
    let mut rng = KnownRng(k);
    let mut out = [0, 1, 2].map(|_| F::VA::with_capacity(n));
    fixed_seeds();
    for (i, x) in v.iter().enumerate() {
        let sh = if POS.contains(&i) { s.share(*x) } else { F::share_rng(*x, s.mac, &mut rng) };
        for (o, x) in out.iter_mut().zip(sh) { o.push(x); }
    }
    free_seeds();
    (v, out)
}
fn mask(k: u64) -> IrisCodeArray {
    let mut m = IrisCodeArray::ZERO;
    let mut z = 0x1234_5678_9abc_def1u64 ^ k;
    for w in m.as_raw_mut_slice() { z ^= z << 13; z ^= z >> 7; z ^= z << 17; *w = z as u8; }
    for p in POS { let b: bool = sym(); m.as_raw_mut_slice()[p / 8] = (m.as_raw_slice()[p / 8] & !(1 << (p % 8))) | ((b as u8) << (p % 8)); }
    m
}
/// the oracle reads the mask bytes, not the library's iterator
fn plain<T: Int>(a: &[T], b: &[T], m: &IrisCodeArray) -> T {
    let raw = m.as_raw_slice();
    let mut s = T::of(0);
    for i in 0..N {
        let bit = (raw[i / 8] >> (i % 8)) & 1;
        s = s.a(a[i].m(b[i]).m(T::of(bit as u64)));
    }
    s
}
fn masked<T: Int, F: Fam<T>>() {
    fixed_seeds();
    let mut s = Sess::<T, F>::new();
    free_seeds();
    let (a, sa) = code(&s, 1, N);
    let bs = [code(&s, 2, N), code(&s, 3, N)];
    let ms = vec![mask(1), mask(2)];
    // the 2 * 12800 triple products of the malicious replicated protocol use known randomness
    if F::NAME == "MalAby3" { fixed_seeds(); }
    let (sar, br, mr) = (&sa, &[0, 1, 2].map(|i| vec![bs[0].1[i].clone(), bs[1].1[i].clone()]), &ms);
    let r = s.run(|p, i| Box::pin(async move { ok(p.masked_dot_many(&sar[i], &br[i], mr).await) }));
    for v in &r { check(v.len() == 2, 1); }
    for k in 0..2 {
        let v = F::value([0, 1, 2].map(|i| r[i][k].clone()), s.mac, 10);
        note_u(v.u());
        check(v == plain(&a, &bs[k].0, &ms[k]), 10);
    }
    check(s.hub.drained(), 2);
    reach(1);
}
/// codes of a wrong length, and lists of different lengths, are errors everywhere
fn wrong<T: Int, F: Fam<T>>() {
    fixed_seeds();
    let mut s = Sess::<T, F>::new();
    free_seeds();
    let cut = |v: &[F::VA; 3], n: usize| -> [F::VA; 3] { [0, 1, 2].map(|i| { let mut o = F::VA::with_capacity(n); for k in 0..n { o.push(v[i].get_at(k % N)); } o }) };
    let (_, a) = code(&s, 1, N);
    let b = a.clone();
    let short = cut(&a, N - 1);
    let long = cut(&a, N + 1);
    let none = cut(&a, 0);
    let m = IrisCodeArray::ONES;
    let cases: [(&[F::VA; 3], Vec<&[F::VA; 3]>, usize, u32); 10] = [
        (&short, vec![&b], 1, 20), (&long, vec![&b], 1, 21), (&short, vec![&short], 1, 22), (&long, vec![&long], 1, 23), (&none, vec![&none], 1, 24),
        (&a, vec![&short], 1, 25), (&a, vec![&b, &long], 2, 26), (&a, vec![&none], 1, 27),
        (&a, vec![&b, &b], 1, 28), (&a, vec![&b], 2, 29),
    ];
    for (x, ys, nm, id) in cases.iter() {
        let ms = &vec![m; *nm];
        let yy = &[0, 1, 2].map(|i| ys.iter().map(|y| y[i].clone()).collect::<Vec<_>>());
        let r = s.run(|p, i| Box::pin(async move { p.masked_dot_many(&x[i], &yy[i], ms).await.is_err() }));
        for v in r { check(v, *id); }
        s.hub.clear();
    }
    reach(1);
}
entries!(masked:
    p05_aby3_u16 = u16, FAby3; p05_mal_u16 = u16, FMal; p05_swift_u16 = u16, FSwift; p05_spdz_u16 = u16, FSpdz;
);
entries!(wrong:
    p05w_aby3_u16 = u16, FAby3; p05w_mal_u16 = u16, FMal; p05w_swift_u16 = u16, FSwift; p05w_spdz_u16 = u16, FSpdz;
);
