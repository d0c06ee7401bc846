//! Engine intrinsics, symbolic values, the in-memory network and the three-party runner.
use bytes::{Bytes, BytesMut};
use iris_mpc::prelude::*;
use rand::{CryptoRng, RngCore};
use std::{
    cell::{Cell, RefCell},
    collections::VecDeque,
    future::Future,
    io::{Error as IoErr, ErrorKind},
    pin::Pin,
    rc::Rc,
    task::{Context, Poll, Waker},
};

extern "C" {
    pub fn verif_sym(p: *mut u8, n: usize, name: *const u8);
    pub fn verif_assume(c: bool);
    pub fn verif_assert(c: bool, id: u32);
    pub fn verif_reach(id: u32);
    pub fn verif_note(p: *const u8, n: usize);
    pub fn verif_cut(kind: u32, n: u32, a: *mut u8, b: *mut u8, c: *mut u8);
    pub fn verif_split(v: u64) -> u64;
    pub fn verif_party(id: u32);
    pub fn verif_mode(k: u32);
    pub fn verif_masked(rcv: u32, kind: u32, p: *const u8, n: u32) -> u32;
    pub fn verif_symbolic() -> bool;
    fn verif_allow_panic();
}
pub fn assume(c: bool) { unsafe { verif_assume(c) } }
/// from here on a panic is an accepted outcome
pub fn allow_panic() { unsafe { verif_allow_panic() } }
/// one path per value
pub fn split(v: u64) -> u64 { unsafe { verif_split(v) } }
pub fn check(c: bool, id: u32) { unsafe { verif_assert(c, id) } }
pub fn reach(id: u32) { unsafe { verif_reach(id) } }
pub fn note(b: &[u8]) { unsafe { verif_note(b.as_ptr(), b.len()) } }
pub fn note_u(v: u128) { note(&v.to_le_bytes()) }
/// concrete randomness for everything seeded from entropy (set-up keys, coins)
pub fn fixed_seeds() { unsafe { verif_mode(1) } }
pub fn free_seeds() { unsafe { verif_mode(0) } }
pub fn sym_bytes(b: &mut [u8]) { unsafe { verif_sym(b.as_mut_ptr(), b.len(), std::ptr::null()) } }

/// Values that can be made symbolic.
pub trait Sym: Copy { fn sym() -> Self; }
macro_rules! sym_int { ($($t:ty),*) => { $(impl Sym for $t { fn sym() -> Self { let mut b = [0u8; std::mem::size_of::<$t>()]; sym_bytes(&mut b); <$t>::from_le_bytes(b) } })* } }
sym_int!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, usize);
impl Sym for bool { fn sym() -> Self { u8::sym() & 1 == 1 } }
impl Sym for Bit { fn sym() -> Self { Bit::new(bool::sym()) } }
pub fn sym<T: Sym>() -> T { T::sym() }

/// A generator whose every word is a fresh symbolic value.
pub struct SymRng;
impl RngCore for SymRng {
    fn next_u32(&mut self) -> u32 { sym() }
    fn next_u64(&mut self) -> u64 { sym() }
    fn fill_bytes(&mut self, d: &mut [u8]) { sym_bytes(d) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { sym_bytes(d); Ok(()) }
}
impl CryptoRng for SymRng {}

pub type Tap = Box<dyn FnMut(usize, usize, usize, &mut Vec<u8>)>;

/// The network: FIFO channels between three parties, delivered round by round.
pub struct Hub {
    staged: RefCell<Vec<VecDeque<Vec<u8>>>>,
    q: RefCell<Vec<VecDeque<Vec<u8>>>>,
    pub count: [Cell<usize>; 9],
    pub down: [Cell<bool>; 3],
    pub moved: Cell<bool>,
    pub tap: RefCell<Option<Tap>>,
    /// 0: off; 1: xor sharings of bytes/words of `cut_n` bytes; 2: additive
    pub cut: Cell<u32>,
    pub cut_n: Cell<u32>,
}
impl Hub {
    pub fn new() -> Rc<Hub> {
        Rc::new(Hub {
            staged: RefCell::new(vec![VecDeque::new(); 9]),
            q: RefCell::new(vec![VecDeque::new(); 9]),
            count: Default::default(),
            down: Default::default(),
            moved: Cell::new(false),
            tap: RefCell::new(None),
            cut: Cell::new(0),
            cut_n: Cell::new(1),
        })
    }
    pub fn nets(self: &Rc<Hub>) -> [Net; 3] { [0, 1, 2].map(|id| Net { id, hub: self.clone() }) }
    pub fn tap(&self, f: impl FnMut(usize, usize, usize, &mut Vec<u8>) + 'static) { *self.tap.borrow_mut() = Some(Box::new(f)); }
    pub fn untap(&self) { *self.tap.borrow_mut() = None; }
    fn put(&self, from: usize, to: usize, d: Bytes) {
        let mut v = d.to_vec();
        let k = self.count[from * 3 + to].get();
        self.count[from * 3 + to].set(k + 1);
        if let Some(t) = self.tap.borrow_mut().as_mut() { t(from, to, k, &mut v); }
        self.staged.borrow_mut()[from * 3 + to].push_back(v);
    }
    /// end of a round: make the staged messages available
    fn deliver(&self) -> bool {
        let mut s = self.staged.borrow_mut();
        let mut q = self.q.borrow_mut();
        if self.cut.get() != 0 {
            for dir in 0..2 {
                // resharing rounds: each party has sent exactly one message the same way round
                let ix = if dir == 0 { [1, 5, 6] } else { [2, 3, 7] };
                let other = if dir == 0 { [2, 3, 7] } else { [1, 5, 6] };
                if ix.iter().all(|&i| s[i].len() == 1) && other.iter().all(|&i| s[i].is_empty()) {
                    let n = s[ix[0]][0].len();
                    if n > 0 && ix.iter().all(|&i| s[i][0].len() == n) {
                        let p = ix.map(|i| s[i][0].as_mut_ptr());
                        let w = self.cut_n.get() as usize;
                        if n % w == 0 {
                            for k in 0..n / w { unsafe { verif_cut(self.cut.get() - 1, w as u32, p[0].add(k * w), p[1].add(k * w), p[2].add(k * w)) } }
                        }
                    }
                }
            }
        }
        let mut any = false;
        for i in 0..9 { while let Some(m) = s[i].pop_front() { any = true; q[i].push_back(m); } }
        any
    }
    pub fn drained(&self) -> bool { self.q.borrow().iter().all(|x| x.is_empty()) && self.staged.borrow().iter().all(|x| x.is_empty()) }
    /// forget undelivered messages (between two protocol phases)
    pub fn clear(&self) { self.q.borrow_mut().iter_mut().for_each(|x| x.clear()); self.staged.borrow_mut().iter_mut().for_each(|x| x.clear()); }
}

/// The lengths of the messages of each link (from * 3 + to), in order.
pub type Lens = [Vec<usize>; 9];
impl Hub {
    /// records the lengths of all messages until `untap`
    pub fn record(&self) -> Rc<RefCell<Lens>> {
        let l: Rc<RefCell<Lens>> = Default::default();
        let m = l.clone();
        self.tap(move |f, t, _, b| m.borrow_mut()[f * 3 + t].push(b.len()));
        l
    }
    /// party `c` sends arbitrary bytes from here on: as many messages of the same lengths as recorded
    pub fn inject(&self, c: usize, lens: &Lens) {
        for t in 0..3 { for &n in &lens[c * 3 + t] { let mut v = vec![0u8; n]; sym_bytes(&mut v); self.q.borrow_mut()[c * 3 + t].push_back(v); } }
    }
}

pub struct Net { pub id: usize, pub hub: Rc<Hub> }
impl Net {
    async fn get(&self, from: usize) -> Result<BytesMut, IoErr> {
        let hub = self.hub.clone();
        let ix = from * 3 + self.id;
        std::future::poll_fn(move |_| {
            if let Some(d) = hub.q.borrow_mut()[ix].pop_front() { hub.moved.set(true); return Poll::Ready(Ok(BytesMut::from(&d[..]))); }
            if hub.down[from].get() && hub.staged.borrow()[ix].is_empty() { return Poll::Ready(Err(IoErr::from(ErrorKind::UnexpectedEof))); }
            Poll::Pending
        })
        .await
    }
}
impl NetworkTrait for Net {
    fn get_id(&self) -> usize { self.id }
    fn get_num_parties(&self) -> usize { 3 }
    fn print_connection_stats(&self, _o: &mut impl std::io::Write) -> Result<(), IoErr> { Ok(()) }
    async fn shutdown(self) -> Result<(), IoErr> { Ok(()) }
    async fn send(&mut self, id: usize, d: Bytes) -> Result<(), IoErr> { self.hub.put(self.id, id, d); Ok(()) }
    async fn send_next_id(&mut self, d: Bytes) -> Result<(), IoErr> { self.hub.put(self.id, (self.id + 1) % 3, d); Ok(()) }
    async fn send_prev_id(&mut self, d: Bytes) -> Result<(), IoErr> { self.hub.put(self.id, (self.id + 2) % 3, d); Ok(()) }
    async fn receive(&mut self, id: usize) -> Result<BytesMut, IoErr> { self.get(id).await }
    async fn receive_prev_id(&mut self) -> Result<BytesMut, IoErr> { self.get((self.id + 2) % 3).await }
    async fn receive_next_id(&mut self) -> Result<BytesMut, IoErr> { self.get((self.id + 1) % 3).await }
    async fn broadcast(&mut self, d: Bytes) -> Result<Vec<BytesMut>, IoErr> {
        for id in 0..3 { if id != self.id { self.hub.put(self.id, id, d.clone()); } }
        let mut r = Vec::new();
        for id in 0..3 { r.push(if id == self.id { BytesMut::from(&d[..]) } else { self.get(id).await? }); }
        Ok(r)
    }
}

pub type Fut<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;

/// Runs the parties until all are done or nobody can move; `None` = still waiting.
pub fn run_some<'a, T>(hub: &Rc<Hub>, f: [Fut<'a, T>; 3]) -> [Option<T>; 3] {
    let mut f = f.map(Some);
    let mut out: [Option<T>; 3] = [None, None, None];
    let mut cx = Context::from_waker(Waker::noop());
    loop {
        hub.moved.set(false);
        let mut done = false;
        for i in 0..3 {
            if let Some(x) = f[i].as_mut() {
                unsafe { verif_party(i as u32) }
                if let Poll::Ready(v) = x.as_mut().poll(&mut cx) { out[i] = Some(v); f[i] = None; done = true; }
            }
        }
        unsafe { verif_party(9) }
        if f.iter().all(|x| x.is_none()) { hub.deliver(); break; }
        let any = hub.deliver();
        if !any && !done && !hub.moved.get() { break; }
    }
    out
}
/// As `run_some`, when every party must finish.
pub fn run3<'a, T>(hub: &Rc<Hub>, f: [Fut<'a, T>; 3]) -> [T; 3] {
    run_some(hub, f).map(|x| x.expect("every party terminates"))
}
/// `run3!(hub, ps, |p, i| async body)` over the three protocol instances `ps`
#[macro_export]
macro_rules! all3 {
    ($hub:expr, $ps:expr, |$p:ident, $i:ident| $body:expr) => {{
        let [p0, p1, p2] = $ps.each_mut();
        let mk0 = { let $p = p0; let $i = 0usize; Box::pin(async move { let $p = $p; $body }) as $crate::base::Fut<_> };
        let mk1 = { let $p = p1; let $i = 1usize; Box::pin(async move { let $p = $p; $body }) as $crate::base::Fut<_> };
        let mk2 = { let $p = p2; let $i = 2usize; Box::pin(async move { let $p = $p; $body }) as $crate::base::Fut<_> };
        $crate::base::run3($hub, [mk0, mk1, mk2])
    }};
}
/// Runs `f` as all three parties and returns their results.
pub fn all<'a, P, T, F>(hub: &Rc<Hub>, ps: &'a mut [P; 3], f: F) -> [T; 3]
where
    F: Fn(&'a mut P, usize) -> Fut<'a, T>,
{
    let [a, b, c] = ps;
    run3(hub, [f(a, 0), f(b, 1), f(c, 2)])
}
pub fn all_some<'a, P, T, F>(hub: &Rc<Hub>, ps: &'a mut [P; 3], f: F) -> [Option<T>; 3]
where
    F: Fn(&'a mut P, usize) -> Fut<'a, T>,
{
    let [a, b, c] = ps;
    run_some(hub, [f(a, 0), f(b, 1), f(c, 2)])
}
/// Runs `f` as the two parties other than `c`, whose messages have been injected.
pub fn all_but<'a, P, T: 'a, F>(hub: &Rc<Hub>, ps: &'a mut [P; 3], c: usize, f: F) -> [Option<T>; 3]
where
    F: Fn(&'a mut P, usize) -> Fut<'a, T>,
{
    let mut i = 0;
    run_some(hub, ps.each_mut().map(|p| { i += 1; if i - 1 == c { Box::pin(std::future::pending()) as Fut<'a, T> } else { f(p, i - 1) } }))
}
pub fn one<T>(f: impl Future<Output = T>) -> T {
    let mut f = Box::pin(f);
    let mut cx = Context::from_waker(Waker::noop());
    match f.as_mut().poll(&mut cx) { Poll::Ready(v) => v, Poll::Pending => panic!("future must be ready") }
}
/// one exported entry per (type, protocol family) instance of a generic check
#[macro_export]
macro_rules! entries {
    ($f:ident: $($n:ident = $t:ty, $fam:ident;)*) => { $(#[no_mangle] pub extern "C" fn $n() { $f::<$t, $fam>() })* };
}
/// A generator of known values.
pub struct KnownRng(pub u64);
impl RngCore for KnownRng {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = self.next_u64() as u8; } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
impl CryptoRng for KnownRng {}
