//! Local linear operations: add, sub, add_const, sub_const, mul_const, and the zero share.
use crate::{base::*, entries, fam::*};
use iris_mpc::{prelude::*, verif::*};
use num_traits::Zero;

fn linear<T: Int, F: Fam<T>>() {
    fixed_seeds();
    let s = Sess::<T, F>::new();
    let (x, y, k): (T, T, T) = (sym(), sym(), sym());
    let (sx, sy) = (s.share(x), s.share(y));
    let ids = [0usize, 1, 2];
    let at = |f: &dyn Fn(&F::P, F::A, F::A) -> F::A| ids.map(|i| f(&s.ps[i], sx[i].clone(), sy[i].clone()));
    let val = |sh: [F::A; 3], id: u32, want: T| { let v = F::value(sh, s.mac, id); note_u(v.u()); check(v == want, id) };
    val(at(&|p, a, b| p.add(a, b)), 10, x.a(y));
    val(at(&|p, a, b| p.sub(a, b)), 20, x.s(y));
    val(at(&|p, a, _| p.add_const(a, k)), 30, x.a(k));
    val(at(&|p, a, _| p.sub_const(a, k)), 40, x.s(k));
    val(at(&|p, a, _| p.mul_const(a, k)), 50, x.m(k));
    // composed: (x + y)*k - x + k - y
    val(at(&|p, a, b| p.sub(p.add_const(p.sub(p.mul_const(p.add(a.clone(), b.clone()), k), a), k), b)), 60, x.a(y).m(k).s(x).a(k).s(y));
    val(ids.map(|_| F::A::zero()), 70, T::of(0));
    check(s.hub.drained(), 9);
    for i in ids { check(s.ps[i].get_id() == i, 8); }
    reach(1);
}
entries!(linear:
    p02_aby3_u8 = u8, FAby3; p02_aby3_u16 = u16, FAby3; p02_aby3_u32 = u32, FAby3; p02_aby3_u64 = u64, FAby3; p02_aby3_u128 = u128, FAby3;
    p02_aby3_i8 = i8, FAby3; p02_aby3_i16 = i16, FAby3; p02_aby3_i32 = i32, FAby3; p02_aby3_i64 = i64, FAby3; p02_aby3_i128 = i128, FAby3;
    p02_mal_u8 = u8, FMal; p02_mal_u16 = u16, FMal; p02_mal_u32 = u32, FMal; p02_mal_u64 = u64, FMal; p02_mal_u128 = u128, FMal; p02_mal_i16 = i16, FMal; p02_mal_i64 = i64, FMal;
    p02_swift_u8 = u8, FSwift; p02_swift_u16 = u16, FSwift; p02_swift_u32 = u32, FSwift; p02_swift_u64 = u64, FSwift; p02_swift_i16 = i16, FSwift; p02_swift_i32 = i32, FSwift;
    p02_spdz_u8 = u8, FSpdz; p02_spdz_u16 = u16, FSpdz; p02_spdz_u32 = u32, FSpdz; p02_spdz_i8 = i8, FSpdz; p02_spdz_i16 = i16, FSpdz; p02_spdz_i32 = i32, FSpdz;
);
