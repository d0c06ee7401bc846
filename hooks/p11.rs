include!("mod.rs");
pub mod verif_x {
    use crate::{aby3::utils, error::Error, types::ring_element::RingImpl};
    use bytes::{Bytes, BytesMut};
    pub fn vec_from_bytes<T: RingImpl>(b: BytesMut, n: usize) -> Result<Vec<T>, Error> { utils::ring_vec_from_bytes(b, n) }
    pub fn iter_from_bytes<T: RingImpl>(b: BytesMut, n: usize) -> Result<Vec<T>, Error> { Ok(utils::ring_iter_from_bytes(b, n)?.collect()) }
    pub fn slice_to_bytes<T: RingImpl>(v: &[T]) -> Bytes { utils::ring_slice_to_bytes(v) }
    pub fn iter_to_bytes<T: RingImpl>(v: &[T]) -> Bytes { utils::ring_iter_to_bytes(v.iter()) }
}
