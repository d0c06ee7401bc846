//! The typed length-delimited codec.
use crate::base::*;
use bytes::{BufMut, BytesMut};
use mpc_net::codecs::BincodeCodec;
use serde::{de::DeserializeOwned, Serialize};
use std::fmt::Debug;
use tokio_util::codec::{Decoder, Encoder};

fn choose(n: u8) -> usize { let k: u8 = sym(); assume(k < n); split(k as u64) as usize }
/// messages in, stream cut at two chosen places, messages out
fn round<M: Serialize + DeserializeOwned + Clone + PartialEq + Debug>(ms: &[M]) {
    let mut enc = BincodeCodec::<M>::new();
    let mut s = BytesMut::new();
    let mut ends = vec![];
    for m in ms {
        check(enc.encode(m.clone(), &mut s).is_ok(), 1);
        ends.push(s.len());
    }
    note(&s);
    let n = s.len();
    check(n < 120, 9);
    let i = choose(n as u8 + 1);
    for j in i..=n {
        let mut dec = enc.clone();
        let mut buf = BytesMut::new();
        let mut got = 0;
        for (from, to) in [(0, i), (i, j), (j, n)] {
            buf.extend_from_slice(&s[from..to]);
            loop {
                match dec.decode(&mut buf) {
                    Ok(Some(m)) => {
                        // never before its last byte, and exactly what was sent
                        check(got < ms.len() && ends[got] <= to, 2);
                        check(m == ms[got], 3);
                        got += 1;
                    }
                    Ok(None) => break,
                    Err(_) => { check(false, 4); break; }
                }
            }
            check(got == ends.iter().filter(|e| **e <= to).count(), 5);
        }
        check(got == ms.len() && buf.is_empty(), 6);
    }
    reach(1);
}
fn bytes(n: usize) -> Vec<u8> { (0..n).map(|_| sym()).collect() }
#[no_mangle] pub extern "C" fn p25_u32() { round::<u32>(&[sym(), sym(), sym()]) }
#[no_mangle] pub extern "C" fn p25_vec() { round::<Vec<u8>>(&[bytes(2), bytes(0), bytes(1)]) }
#[no_mangle] pub extern "C" fn p25_pair() { round::<(u8, Option<u16>)>(&[(sym(), Some(sym())), (sym(), None)]) }
#[no_mangle] pub extern "C" fn p25_unit() { round::<()>(&[(), ()]) }
#[no_mangle] pub extern "C" fn p25_nested() { round::<Vec<(u16, bool)>>(&[vec![(sym(), sym()), (sym(), sym())], vec![(sym(), sym())]]) }

/// one frame whose content is any `l` bytes
fn frame(l: usize) -> (BytesMut, Vec<u8>) {
    let b = bytes(l);
    let mut s = BytesMut::new();
    s.put_u32(l as u32);
    s.extend_from_slice(&b);
    (s, b)
}
/// content of every length up to past the message's: too short is an error, exact decodes to the little-endian value
#[no_mangle]
pub extern "C" fn p25_short() {
    let l = choose(9);
    let (mut s, b) = frame(l);
    match BincodeCodec::<u64>::new().decode(&mut s) {
        Ok(Some(v)) => { check(l == 8 && v.to_le_bytes()[..] == b[..], 1); reach(2) }
        Ok(None) => check(false, 2),
        Err(_) => { check(l < 8, 3); reach(1) }
    }
    check(s.is_empty(), 4);
}
/// invalid tags
#[no_mangle]
pub extern "C" fn p25_tag() {
    let (mut s, b) = frame(1);
    match BincodeCodec::<bool>::new().decode(&mut s) {
        Ok(Some(v)) => check(b[0] < 2 && v == (b[0] == 1), 1),
        Ok(None) => check(false, 2),
        Err(_) => { check(b[0] > 1, 3); reach(1) }
    }
    let (mut s, b) = frame(3);
    match BincodeCodec::<Option<u16>>::new().decode(&mut s) {
        Ok(Some(Some(v))) => check(b[0] == 1 && v == u16::from_le_bytes([b[1], b[2]]), 4),
        Ok(Some(None)) => check(b[0] == 0, 5),
        Ok(None) => check(false, 6),
        Err(_) => { check(b[0] > 1, 7); reach(2) }
    }
}
/// a list whose announced length does not fit its frame
#[no_mangle]
pub extern "C" fn p25_list() {
    let lens = [0u64, 1, 2, 3, 4, 255, 1 << 20, 1 << 32, 1 << 63, u64::MAX];
    let k = choose(10);
    let l = choose(4);
    let c = bytes(l);
    let mut s = BytesMut::new();
    s.put_u32(8 + l as u32);
    s.put_u64_le(lens[k]);
    s.extend_from_slice(&c);
    match BincodeCodec::<Vec<u8>>::new().decode(&mut s) {
        Ok(Some(v)) => { check(lens[k] <= l as u64 && v[..] == c[..lens[k] as usize], 1); reach(1) }
        Ok(None) => check(false, 2),
        Err(_) => { check(lens[k] > l as u64, 3); reach(2) }
    }
}
/// frame headers: an incomplete frame is no message, an oversized one is an error
#[no_mangle]
pub extern "C" fn p25_header() {
    const MAX: u32 = 8 * 1024 * 1024;
    let heads = [0u32, 1, 2, 3, 4, 5, MAX, MAX + 1, 1 << 31, u32::MAX];
    let h = heads[choose(10)];
    let l = choose(8);
    let c = bytes(l);
    let mut s = BytesMut::new();
    let hb = h.to_be_bytes();
    let cut = choose(5);
    s.extend_from_slice(&hb[..cut]);
    if cut == 4 { s.extend_from_slice(&c); }
    match BincodeCodec::<(u8, u16)>::new().decode(&mut s) {
        Ok(Some(v)) => { check(cut == 4 && h >= 3 && h as usize <= l && v == (c[0], u16::from_le_bytes([c[1], c[2]])), 1); check(s[..] == c[h as usize..], 4); reach(1) }
        Ok(None) => { check(cut < 4 || (h <= MAX && h as usize > l), 2); reach(2) }
        Err(_) => { check(cut == 4 && (h > MAX || (h < 3 && h as usize <= l)), 3); reach(3) }
    }
}
