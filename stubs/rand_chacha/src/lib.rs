//! Stand-in for rand_chacha: a generator is an ideal function of (seed, word position).
//! The words are supplied by the symbolic engine (or, natively, by the replay driver).
pub use rand_core;
use rand_core::block::BlockRngCore;
use rand_core::{CryptoRng, Error, RngCore, SeedableRng};
extern "C" {
    fn verif_prf(seed: *const u8, pos: u64, nwords: u64, out: *mut u32);
    fn verif_seed(out: *mut u8);
}
macro_rules! gen {
    ($r:ident, $c:ident, $dom:expr) => {
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct $r { seed: [u8; 32], pos: u64 }
        impl $r {
            fn words(&mut self, out: &mut [u32]) {
                unsafe { verif_prf(self.seed.as_ptr(), self.pos + $dom, out.len() as u64, out.as_mut_ptr()) };
                self.pos += out.len() as u64;
            }
            pub fn get_seed(&self) -> [u8; 32] { self.seed }
            pub fn get_word_pos(&self) -> u128 { self.pos as u128 }
            pub fn set_word_pos(&mut self, p: u128) { self.pos = p as u64 & 0xff_ffff_ffff; }
            pub fn get_stream(&self) -> u64 { 0 }
        }
        impl RngCore for $r {
            fn next_u32(&mut self) -> u32 { let mut w = [0u32; 1]; self.words(&mut w); w[0] }
            fn next_u64(&mut self) -> u64 { let mut w = [0u32; 2]; self.words(&mut w); w[0] as u64 | (w[1] as u64) << 32 }
            fn fill_bytes(&mut self, dest: &mut [u8]) {
                for ch in dest.chunks_mut(4) {
                    let b = self.next_u32().to_le_bytes();
                    ch.copy_from_slice(&b[..ch.len()]);
                }
            }
            fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> { self.fill_bytes(dest); Ok(()) }
        }
        impl CryptoRng for $r {}
        impl SeedableRng for $r {
            type Seed = [u8; 32];
            fn from_seed(seed: [u8; 32]) -> Self { $r { seed, pos: 0 } }
            fn from_entropy() -> Self {
                let mut seed = [0u8; 32];
                unsafe { verif_seed(seed.as_mut_ptr()) };
                Self::from_seed(seed)
            }
        }
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct $c { rng: $r }
        #[derive(Clone)]
        pub struct Arr([u32; 64]);
        impl Default for Arr { fn default() -> Self { Arr([0; 64]) } }
        impl AsRef<[u32]> for Arr { fn as_ref(&self) -> &[u32] { &self.0 } }
        impl AsMut<[u32]> for Arr { fn as_mut(&mut self) -> &mut [u32] { &mut self.0 } }
        impl BlockRngCore for $c {
            type Item = u32;
            type Results = Arr;
            fn generate(&mut self, r: &mut Arr) { self.rng.words(&mut r.0) }
        }
        impl SeedableRng for $c {
            type Seed = [u8; 32];
            fn from_seed(seed: [u8; 32]) -> Self { $c { rng: $r::from_seed(seed) } }
            fn from_rng<R: RngCore>(_rng: R) -> Result<Self, Error> { Ok($c { rng: $r::from_entropy() }) }
        }
        impl CryptoRng for $c {}
    };
}
mod c8 { use super::*; gen!(ChaCha8Rng, ChaCha8Core, 0x1000_0000_0000); }
mod c12 { use super::*; gen!(ChaCha12Rng, ChaCha12Core, 0); }
mod c20 { use super::*; gen!(ChaCha20Rng, ChaCha20Core, 0x2000_0000_0000); }
pub use c12::{ChaCha12Core, ChaCha12Rng};
pub use c20::{ChaCha20Core, ChaCha20Rng};
pub use c20::ChaCha20Rng as ChaChaRng;
pub use c8::{ChaCha8Core, ChaCha8Rng};
