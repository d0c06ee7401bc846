//! Setup of the correlated randomness.
use crate::{base::*, entries, fam::*};
use iris_mpc::{prelude::*, verif::*, verif_x::Gens};
use std::{cell::Cell, ops::Range, rc::Rc};

fn zeros<G: Gens, T: Int>(ps: &mut [G; 3]) where rand::distributions::Standard: rand::distributions::Distribution<T::Share> {
    let z: Vec<_> = ps.iter_mut().filter_map(|p| p.zero::<T>()).map(|(a, b)| (T::raw(a), T::raw(b))).collect();
    if z.len() == 3 {
        check(z[0].0.a(z[1].0) == T::of(0).s(z[2].0), 20);
        check(z[0].1.u() ^ z[1].1.u() == z[2].1.u(), 21);
    }
}
/// two of a party's pairwise generators, and the common one where there is one
fn consistent(g: &[Vec<u64>; 3], swift: bool) {
    if swift {
        check(g[0][2] == g[1][2] && g[1][2] == g[2][2], 1);
        for (i, j) in [(0, 1), (1, 2), (2, 0)] {
            let (a, b) = (&g[i], &g[j]);
            check(a[0] == b[0] || a[0] == b[1] || a[1] == b[0] || a[1] == b[1], 2);
        }
    } else {
        for i in 0..3 { check(g[i][0] == g[(i + 1) % 3][1], 3); }
    }
}
/// no generator is held by a party that should not hold it; three (four) different ones altogether
fn distinct(g: &[Vec<u64>; 3]) {
    let mut s: Vec<u64> = Vec::new();
    for v in g { check(v[0] != v[1], 4); for x in v { if !s.contains(x) { s.push(*x); } } }
    check(s.len() == g[0].len() + 1, 5);
}
fn draw<G: Gens>(ps: &mut [G; 3]) -> [Vec<u64>; 3] { let [a, b, c] = ps; [a.draw(), b.draw(), c.draw()] }

fn honest<T: Int, F: Fam<T>>() where F::P: Gens {
    // for all seeds
    let mut s = Sess::<T, F>::new();
    for _ in 0..2 { consistent(&draw(&mut s.ps), F::NAME == "Swift3"); }
    zeros::<_, u8>(&mut s.ps);
    zeros::<_, u16>(&mut s.ps);
    zeros::<_, u32>(&mut s.ps);
    zeros::<_, u64>(&mut s.ps);
    zeros::<_, u128>(&mut s.ps);
    zeros::<_, u8>(&mut s.ps);
    for _ in 0..2 { consistent(&draw(&mut s.ps), F::NAME == "Swift3"); }
    // a second setup of the same parties works as the first
    s.run(|p, _| Box::pin(async move { ok(p.preprocess().await) }));
    check(s.hub.drained(), 6);
    consistent(&draw(&mut s.ps), F::NAME == "Swift3");
    // different seeds stay apart
    fixed_seeds();
    let mut s = Sess::<T, F>::new();
    let g = draw(&mut s.ps);
    distinct(&g);
    let h = draw(&mut s.ps);
    distinct(&h);
    for i in 0..3 { for x in &h[i] { check(!g[i].contains(x), 7); } }
    let mut s2 = Sess::<T, F>::new();
    let h = draw(&mut s2.ps);
    for i in 0..3 { for x in &h[i] { check(!g[i].contains(x), 8); } }
    reach(1);
}
entries!(honest: p10_aby3 = u16, FAby3; p10_mal = u16, FMal; p10_swift = u16, FSwift; p10_spdz = u16, FSpdz; );

/// one altered setup message
fn tamper<T: Int, F: Fam<T>>(from: usize, to: usize, k: usize, part: Range<usize>) where F::P: Gens {
    let hub = Hub::new();
    let mut ps = hub.nets().map(F::mk);
    let same = Rc::new(Cell::new(true));
    let seen = Rc::new(Cell::new(false));
    let (s, q) = (same.clone(), seen.clone());
    hub.tap(move |f, t, n, m| {
        if (f, t, n) == (from, to, k) {
            let mut e = true;
            for i in part.clone() { let x: u8 = sym(); e &= m[i] == x; m[i] = x; }
            s.set(e);
            q.set(true);
        }
    });
    let r = all(&hub, &mut ps, |p, _| Box::pin(async move { p.preprocess().await.is_ok() }));
    check(seen.get(), 31);
    check(r[to] == same.get(), 32);
    check(r[from], 33);
    check(r[3 - from - to], 34);
    if r[to] { consistent(&draw(&mut ps), F::NAME == "Swift3"); reach(1); } else { reach(2); }
}
fn links<T: Int, F: Fam<T>>(k: usize, part: Range<usize>) where F::P: Gens {
    let from = split({ let f: u8 = sym(); assume(f < 3); f as u64 }) as usize;
    let up: bool = sym();
    let to = if split(up as u64) == 1 { (from + 1) % 3 } else { (from + 2) % 3 };
    tamper::<T, F>(from, to, k, part)
}
fn com_a<T: Int, F: Fam<T>>() where F::P: Gens { links::<T, F>(0, 0..64) }
fn com_b<T: Int, F: Fam<T>>() where F::P: Gens { links::<T, F>(0, 64..128) }
fn open_a<T: Int, F: Fam<T>>() where F::P: Gens { links::<T, F>(1, 0..64) }
fn open_b<T: Int, F: Fam<T>>() where F::P: Gens { links::<T, F>(1, 64..128) }
entries!(com_a: p10t_mal_com = u16, FMal; p10t_swift_com = u16, FSwift; );
entries!(com_b: p10t_swift_com2 = u16, FSwift; );
entries!(open_a: p10t_mal_open = u16, FMal; p10t_swift_open = u16, FSwift; );
entries!(open_b: p10t_swift_open2 = u16, FSwift; );
