//! One message replaced by arbitrary bytes of another length (or of the same one).
use crate::{base::*, entries, fam::*};
use iris_mpc::{prelude::*, verif::*};

/// `op` runs with one message - any of any link - replaced. With a wrong length its receiver must
/// return an error; nobody may panic or wait for ever.
fn bad<T: Int, F: Fam<T>>(same: bool, setup: bool, verify: bool, op: impl for<'a> Fn(&'a mut F::P, usize, &'a [F::A; 3], &'a [F::B; 3]) -> Fut<'a, Res<()>>) {
    fixed_seeds();
    let go = |s: &mut Sess<T, F>, tap: bool, op: &dyn for<'a> Fn(&'a mut F::P, usize, &'a [F::A; 3], &'a [F::B; 3]) -> Fut<'a, Res<()>>| {
        let mut k = KnownRng(5);
        let va: Vec<[F::A; 3]> = (0..3).map(|j| F::share_rng(T::of(3 + j), s.mac, &mut k)).collect();
        let vb: Vec<[F::B; 3]> = (0..3).map(|j| F::share_bit_of(j == 1, &mut || rand::RngCore::next_u32(&mut k) & 1 == 1)).collect();
        let pa = &[0, 1, 2].map(|i| [va[0][i].clone(), va[1][i].clone(), va[2][i].clone()]);
        let pb = &[0, 1, 2].map(|i| [vb[0][i].clone(), vb[1][i].clone(), vb[2][i].clone()]);
        let hub = s.hub.clone();
        let hub = &hub;
        let r = s.run_some(|p, i| Box::pin(async move {
            let r = op(p, i, &pa[i], &pb[i]).await;
            let r = if verify && r.is_ok() { p.verify().await } else { r };
            // a party that gives up closes its connections
            if r.is_err() { hub.down[i].set(true); }
            r.is_ok()
        }));
        let _ = tap;
        r
    };
    let start = |s: &mut Sess<T, F>| if verify { s.run(|p, _| Box::pin(async move { ok(p.precompute_and_triples(8192).await) })); };
    let mut s = if setup { Sess::<T, F>::raw() } else { Sess::<T, F>::new_known() };
    start(&mut s);
    let lens = s.hub.record();
    let r = go(&mut s, false, &op);
    check(r == [Some(true); 3], 1);
    s.hub.untap();
    let lens = lens.borrow().clone();
    let mut s = if setup { Sess::<T, F>::raw() } else { Sess::<T, F>::new_known() };
    start(&mut s);
    let all: Vec<(usize, usize)> = (0..9).flat_map(|l| (0..lens[l].len()).map(move |k| (l, k))).collect();
    let which: u64 = sym();
    assume(which < all.len() as u64);
    let (l, k) = all[split(which) as usize];
    let n = lens[l][k];
    // a proof of the four-value protocol is a list with its length in front: that is kept, or changed as such
    let proof = F::NAME == "Swift3" && verify && n > 64;
    let kind: u64 = sym();
    assume(kind < if proof { 9 } else { 4 });
    let kind = split(kind) as usize;
    let m = if same { assume(kind == 0); n } else { [0, n - 1, n + 1, 2 * n, n, n, n, n, n][kind] };
    assume(same || m != n || kind >= 4);
    let base = s.hub.count[l].get();
    s.hub.tap(move |f, t, j, b| if f * 3 + t == l && j == base + k {
        b.resize(m, 0);
        if !proof { sym_bytes(b); return; }
        if m > n { sym_bytes(&mut b[n..]); }
        if kind >= 4 {
            let w = u64::from_le_bytes(b[..8].try_into().unwrap());
            b[..8].copy_from_slice(&[0, w - 1, w + 1, 1 << 40, u64::MAX][kind - 4].to_le_bytes());
        }
    });
    let r = go(&mut s, true, &op);
    if !same { check(r[l % 3] == Some(false), 2); }
    for x in r { check(x.is_some(), 3); }
    reach(if r[l % 3] == Some(true) { 1 } else { 2 });
}
fn vec<A: Clone, V: VecShareTrait<Share = A>>(x: &[A]) -> V { let mut v = V::with_capacity(x.len()); for a in x { v.push(a.clone()); } v }
macro_rules! ops { ($($f:ident = $setup:expr, $verify:expr, |$p:ident, $i:ident, $a:ident, $b:ident| $body:expr;)*) => { $(
    fn $f<T: Int, F: Fam<T>>(same: bool) where F::P: BinaryMpcTrait<Bit, F::B> { bad::<T, F>(same, $setup, $verify, |$p, $i, $a, $b| Box::pin(async move { let _ = ($i, $a, $b); $body?; Ok(()) })) }
)* } }
ops! {
    setup = true, false, |p, i, a, b| p.preprocess().await;
    open = false, false, |p, i, a, b| p.open(a[0].clone()).await;
    opens = false, false, |p, i, a, b| p.open_many(vec(a)).await;
    bit = false, false, |p, i, a, b| p.open_bit(b[0].clone()).await;
    bits = false, false, |p, i, a, b| p.open_bit_many(vec(b)).await;
    input = false, false, |p, i, a, b| { p.input(if i == 0 { Some(T::of(7)) } else { None }, 0).await?; p.input(if i == 1 { Some(T::of(7)) } else { None }, 1).await?; p.input(if i == 2 { Some(T::of(7)) } else { None }, 2).await };
    mul = false, true, |p, i, a, b| p.mul(a[0].clone(), a[1].clone()).await;
    dot = false, true, |p, i, a, b| p.dot(vec(a), vec(a)).await;
    dots = false, true, |p, i, a, b| p.dot_many(&[vec(a), vec(a)], &[vec(a), vec(a)]).await;
    msb = false, true, |p, i, a, b| p.get_msb(a[0].clone()).await;
    msbs = false, true, |p, i, a, b| p.get_msb_many(a[..2].to_vec()).await;
    or = false, true, |p, i, a, b| p.binary_or(b[0].clone(), b[1].clone()).await;
    ors = false, true, |p, i, a, b| p.reduce_binary_or(vec(b), 2).await;
    pre = false, false, |p, i, a, b| p.precompute_and_triples(64).await;
}
macro_rules! e { ($same:expr, $t:ty, $fam:ident: $($n:ident = $f:ident;)*) => { $(#[no_mangle] pub extern "C" fn $n() { $f::<$t, $fam>($same) })* } }
e!(false, u16, FAby3: p12_setup_aby3 = setup; p12_open_aby3 = open; p12_opens_aby3 = opens; p12_bit_aby3 = bit; p12_bits_aby3 = bits; p12_input_aby3 = input; p12_mul_aby3 = mul; p12_dots_aby3 = dots; p12_msb_aby3 = msb; p12_msbs_aby3 = msbs; p12_or_aby3 = or; p12_ors_aby3 = ors; );
e!(false, u16, FMal: p12_setup_mal = setup; p12_open_mal = open; p12_opens_mal = opens; p12_bit_mal = bit; p12_bits_mal = bits; p12_input_mal = input; p12_mul_mal = mul; p12_dot_mal = dot; p12_dots_mal = dots; p12_msb_mal = msb; p12_msbs_mal = msbs; p12_or_mal = or; p12_ors_mal = ors; );
e!(false, u8, FSwift: p12_mul_swift = mul; p12_dot_swift = dot; p12_dots_swift = dots; p12_msb_swift = msb; p12_msbs_swift = msbs; );
e!(false, u16, FSwift: p12_setup_swift = setup; p12_open_swift = open; p12_opens_swift = opens; p12_bit_swift = bit; p12_bits_swift = bits; p12_input_swift = input;  p12_or_swift = or; p12_ors_swift = ors; );
e!(false, u16, FSpdz: p12_setup_spdz = setup; p12_open_spdz = open; p12_opens_spdz = opens; p12_bit_spdz = bit; p12_bits_spdz = bits; p12_input_spdz = input; p12_mul_spdz = mul; p12_dot_spdz = dot; p12_dots_spdz = dots; p12_msb_spdz = msb; p12_msbs_spdz = msbs; p12_or_spdz = or; p12_ors_spdz = ors; p12_pre_spdz = pre; );
e!(true, u16, FAby3: p12s_setup_aby3 = setup; p12s_opens_aby3 = opens; p12s_bits_aby3 = bits; p12s_input_aby3 = input; p12s_dots_aby3 = dots; p12s_msbs_aby3 = msbs; p12s_ors_aby3 = ors; );
e!(true, u16, FMal: p12s_setup_mal = setup; p12s_bits_mal = bits; p12s_input_mal = input; p12s_mul_mal = mul; );
e!(true, u16, FSwift: p12s_setup_swift = setup; p12s_bits_swift = bits; p12s_input_swift = input; );
e!(true, u16, FSpdz: p12s_setup_spdz = setup; p12s_bits_spdz = bits; p12s_input_spdz = input;);
