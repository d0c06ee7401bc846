/// The engine's intrinsics, for checks that need to name crate-private types.
pub mod vi {
    use crate::types::bit::Bit;
    use crate::types::ring_element::RingElement;
    extern "C" {
        fn verif_sym(p: *mut u8, n: usize, name: *const u8);
        fn verif_assume(c: bool);
        fn verif_assert(c: bool, id: u32);
        fn verif_reach(id: u32);
        fn verif_split(v: u64) -> u64;
        fn verif_note(p: *const u8, n: usize);
    }
    pub fn assume(c: bool) { unsafe { verif_assume(c) } }
    /// one path per value
    pub fn split(v: u64) -> u64 { unsafe { verif_split(v) } }
    pub fn check(c: bool, id: u32) { unsafe { verif_assert(c, id) } }
    pub fn reach(id: u32) { unsafe { verif_reach(id) } }
    pub fn note(b: &[u8]) { unsafe { verif_note(b.as_ptr(), b.len()) } }
    pub fn note_u(v: u128) { note(&v.to_le_bytes()) }
    pub trait Sym { fn sym() -> Self; }
    macro_rules! s { ($($t:ty),*) => { $(impl Sym for $t { fn sym() -> $t { let mut b = [0u8; std::mem::size_of::<$t>()]; unsafe { verif_sym(b.as_mut_ptr(), b.len(), std::ptr::null()) } <$t>::from_le_bytes(b) } })* } }
    s!(u8, u16, u32, u64, u128, usize);
    impl Sym for bool { fn sym() -> bool { u8::sym() & 1 == 1 } }
    impl Sym for Bit { fn sym() -> Bit { Bit::new(bool::sym()) } }
    macro_rules! r { ($($t:ty),*) => { $(impl Sym for RingElement<$t> { fn sym() -> Self { RingElement(<$t>::sym()) } })* } }
    r!(u8, u16, u32, u64, u128, Bit);
    pub fn sym<T: Sym>() -> T { T::sym() }
}
