//! The plaintext reference: bit arrays and the closeness test.
use crate::base::*;
use plain_reference::*;
const W: usize = IrisCodeArray::IRIS_CODE_SIZE_U64;
const N: usize = IrisCodeArray::IRIS_CODE_SIZE;
fn put(a: &mut IrisCodeArray, w: usize, v: u64) { a.as_raw_mut_slice()[8 * w..8 * w + 8].copy_from_slice(&v.to_le_bytes()) }
fn word(a: &IrisCodeArray, w: usize) -> u64 { let mut b = [0u8; 8]; b.copy_from_slice(&a.as_raw_slice()[8 * w..8 * w + 8]); u64::from_le_bytes(b) }
/// every word unknown
fn full() -> IrisCodeArray {
    let mut a = IrisCodeArray::ZERO;
    for w in 0..W { put(&mut a, w, sym()) }
    a
}
/// the unknown bits of an otherwise known word
const BITS: u64 = 0x8100_0008_1000_0093;
/// every word known, except those bits of the words at `at`
fn part(seed: u64, at: &[usize]) -> IrisCodeArray {
    let mut a = IrisCodeArray::ZERO;
    let mut r = KnownRng(seed);
    for w in 0..W { let k = r.0.rotate_left(17) ^ { use rand::RngCore; r.next_u64() }; put(&mut a, w, if at.contains(&w) { k ^ (sym::<u64>() & BITS) } else { k }) }
    a
}
fn get(a: &IrisCodeArray, i: usize) -> bool { (a.as_raw_slice()[i / 8] >> (i % 8)) & 1 == 1 }
fn ones(x: u64) -> usize { let mut n = 0; for i in 0..64 { n += ((x >> i) & 1) as usize; } n }

/// any position (one path per word)
fn place() -> usize {
    let w: u8 = sym();
    assume((w as usize) < W);
    let w = split(w as u64) as usize;
    64 * w | (sym::<u8>() & 63) as usize
}
/// one write or flip at any position
#[no_mangle]
pub extern "C" fn p22_write() {
    let a = full();
    let i = place();
    let v: bool = sym();
    let mut b = a;
    b.set_bit(i, v);
    for w in 0..W {
        let m = if i / 64 == w { 1u64 << (i % 64) } else { 0 };
        check(word(&b, w) == if v { word(&a, w) | m } else { word(&a, w) & !m }, 2);
    }
    reach(1);
}
#[no_mangle]
pub extern "C" fn p22_flip() {
    let a = full();
    let i = place();
    let mut b = a;
    b.flip_bit(i);
    for w in 0..W { check(word(&b, w) ^ word(&a, w) == if i / 64 == w { 1u64 << (i % 64) } else { 0 }, 4); }
    reach(1);
}
#[no_mangle]
pub extern "C" fn p22_read() {
    let a = full();
    let i: usize = sym::<u32>() as usize;
    assume(i < N);
    let r = a.get_bit(i);
    let mut e = false;
    for w in 0..W { if i / 64 == w { e = (word(&a, w) >> (i % 64)) & 1 == 1; } }
    check(r == e, 1);
    reach(1);
}
/// and, or-by-xor, in place and not, for every content
#[no_mangle]
pub extern "C" fn p22_combine() {
    let (a, b) = (full(), full());
    let (mut c, mut d) = (a, a);
    c &= b;
    d ^= b;
    for w in 0..W {
        let (x, y) = (word(&a, w), word(&b, w));
        check(word(&(a & b), w) == x & y && word(&c, w) == x & y, 1);
        check(word(&(a ^ b), w) == x ^ y && word(&d, w) == x ^ y, 2);
    }
    let q = a == b;
    let mut e = true;
    for w in 0..W { e &= word(&a, w) == word(&b, w); }
    check(q == e, 3);
    check(IrisCodeArray::ZERO == IrisCodeArray::default() && IrisCodeArray::ZERO.count_ones() == 0 && IrisCodeArray::ONES.count_ones() == N, 4);
    check(N == 12800 && IrisCodeArray::IRIS_CODE_SIZE_BYTES == 1600 && W == 200 && MASK_THRESHOLD == 8960 && MATCH_THRESHOLD_RATIO == 0.34, 5);
    check(IrisCode::default().code == IrisCodeArray::ZERO && IrisCode::default().mask == IrisCodeArray::ONES, 6);
    reach(1);
}
const AT: [usize; 3] = [0, 63, 199];
/// counting and iterating
#[no_mangle]
pub extern "C" fn p22_count() {
    let a = part(1, &AT);
    let mut n = 0;
    for w in 0..W { n += if AT.contains(&w) { ones(word(&a, w)) } else { word(&a, w).count_ones() as usize }; }
    check(a.count_ones() == n, 1);
    let mut it = a.bits();
    for i in 0..N {
        check(it.len() == N - i, 2);
        match it.next() { Some(b) => check(b == get(&a, i) && b == a.get_bit(i), 3), None => check(false, 4) }
    }
    check(it.next().is_none() && it.len() == 0, 5);
    reach(1);
}
/// the closeness test with unknown words `wc` in the codes and unknown low bits `mb` of word `wm` of the masks
fn close(known: usize, wc: &[usize], wm: usize, mb: u32, differ: usize) {
    // masks: `known` common ones outside word wm
    let mut m = [IrisCodeArray::ZERO; 2];
    let mut left = known;
    for w in 0..W {
        if w == wm { continue; }
        let k = left.min(64);
        left -= k;
        let v = if k == 64 { u64::MAX } else { (1u64 << k) - 1 };
        // positions outside are masked out by one of the two only
        put(&mut m[0], w, if w % 2 == 0 { u64::MAX } else { v });
        put(&mut m[1], w, if w % 2 == 0 { v } else { u64::MAX });
    }
    let u: [u64; 2] = [sym(), sym()];
    let low = if mb == 64 { u64::MAX } else { (1u64 << mb) - 1 };
    for k in 0..2 { put(&mut m[k], wm, u[k] & low); }
    // codes: `differ` differing common positions outside the unknown words
    let mut c = [part(5, wc), part(5, wc)];
    let mut d = differ;
    for w in 0..W {
        if wc.contains(&w) || w == wm { continue; }
        let both = word(&m[0], w) & word(&m[1], w);
        for i in 0..64 { if d > 0 && (both >> i) & 1 == 1 { c[1].flip_bit(64 * w + i); d -= 1; } }
        // and differences that the masks hide
        for i in 0..64 { if (both >> i) & 1 == 0 && i % 3 == 0 { c[1].flip_bit(64 * w + i); } }
    }
    let (x, y) = (IrisCode { code: c[0], mask: m[0] }, IrisCode { code: c[1], mask: m[1] });
    let mut len = known;
    len += ones(u[0] & u[1] & low);
    let len = split(len as u64) as usize;
    let mut dist = differ;
    for w in wc.iter().chain(if wc.contains(&wm) { None } else { Some(&wm) }) { dist += ones((word(&c[0], *w) ^ word(&c[1], *w)) & word(&m[0], *w) & word(&m[1], *w)); }
    if len < 8960 {
        allow_panic();
        x.is_close(&y);
        check(false, 1);
    } else {
        let e = dist < len * 34 / 100;
        let r = x.is_close(&y);
        note_u(r as u128);
        check(r == e, 2);
        check(y.is_close(&x) == e, 3);
        reach(1);
    }
}
// unknown: 8 bits in each of some code words, the low bits of a mask word; on either side of the thresholds
#[no_mangle] pub extern "C" fn p22_close_edge() { close(8960 - 4, &[1, 139], 199, 8, 8960 * 34 / 100 - 8) }
#[no_mangle] pub extern "C" fn p22_close_many() { close(12700, &[0, 150], 198, 8, 12700 * 34 / 100 - 7) }
#[no_mangle] pub extern "C" fn p22_close_both() { close(10000, &[130, 156], 157, 6, 10000 * 34 / 100 - 8) }
#[no_mangle] pub extern "C" fn p22_close_same() { close(12800 - 64, &[20, 199], 199, 8, (12800 - 64) * 34 / 100 - 5) }
#[no_mangle] pub extern "C" fn p22_too_few() { close(8960 - 12, &[1], 199, 12, 3000) }
