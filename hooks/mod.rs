/// Re-exports and thin wrappers of crate internals for the verification harness.
pub mod verif {
    pub use crate::aby3::id::PartyID;
    pub use crate::commitment::{CommitOpening, Commitment};
    pub use crate::traits::binary_trait::BinaryMpcTrait;
    pub use crate::traits::share_trait::{ShareTrait, VecShareTrait};
    pub use crate::types::int_ring::IntRing2k;
    pub use crate::types::ring_element::{RingElement, RingImpl};
    pub use crate::types::sharable::Sharable;
}
