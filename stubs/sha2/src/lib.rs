//! Stand-in for sha2: digests are ideal (equal exactly when the hashed inputs are equal).
pub use digest::{self, Digest};
use digest::{consts::{U28, U32, U48, U64}, FixedOutput, FixedOutputReset, HashMarker, Output, OutputSizeUser, Reset, Update};
extern "C" {
    fn verif_hash(p: *const u8, n: usize, out: *mut u8);
}
macro_rules! hash {
    ($n:ident, $sz:ty, $dom:expr) => {
        #[derive(Clone, Default)]
        pub struct $n(Vec<u8>);
        impl HashMarker for $n {}
        impl OutputSizeUser for $n { type OutputSize = $sz; }
        impl Update for $n { fn update(&mut self, data: &[u8]) { self.0.extend_from_slice(data) } }
        impl $n {
            fn fin(&self, out: &mut [u8]) {
                let mut d = [0u8; 64];
                let mut v = self.0.clone();
                if $dom != 0 { v.push($dom); v.push(0xfe); }
                unsafe { verif_hash(v.as_ptr(), v.len(), d.as_mut_ptr()) };
                let n = out.len();
                out.copy_from_slice(&d[..n]);
            }
        }
        impl FixedOutput for $n { fn finalize_into(self, out: &mut Output<Self>) { self.fin(out) } }
        impl Reset for $n { fn reset(&mut self) { self.0.clear() } }
        impl FixedOutputReset for $n { fn finalize_into_reset(&mut self, out: &mut Output<Self>) { self.fin(out); self.0.clear() } }
    };
}
hash!(Sha512, U64, 0u8);
hash!(Sha384, U48, 1u8);
hash!(Sha256, U32, 2u8);
hash!(Sha224, U28, 3u8);
