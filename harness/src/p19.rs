//! The proof system's algebra. The bodies live in hooks/p19.rs, inside the crate, where the private types can be named.
use crate::base::*;
use iris_mpc::{verif::*, verif_x::*};
type R8 = RingElement<u8>;
type R16 = RingElement<u16>;
macro_rules! ent { ($($n:ident = $f:expr;)*) => { $(#[no_mangle] pub extern "C" fn $n() { $f })* } }
ent!(p19_field = field(); p19_field_mul = field_mul();
    p19_field_inv_low = field_inv(4, 0, 0); p19_field_inv_high = field_inv(3, 61, 1); p19_field_inv_mid = field_inv(3, 30, 1 << 50);
    p19_arith_22 = arith::<R8>(2, 2); p19_arith_03 = arith::<R8>(0, 3); p19_arith_31 = arith::<R16>(3, 1); p19_arith_13 = arith::<R16>(1, 3); p19_arith_33 = arith::<R8>(3, 3);
    p19_div_42 = division::<R8>(4, Some(1), 2); p19_div_33 = division::<R16>(3, Some(3), 2); p19_div_13 = division::<R8>(1, Some(255), 2); p19_div_52 = division::<R16>(5, Some(7), 1); p19_div_even = division::<R8>(3, Some(6), 2); p19_div_const = division::<R8>(3, Some(5), 0);
    p19_inv_8 = inverse::<R8>(); p19_inv_bit = inverse::<RingElement<Bit>>();
    p19_inv_16a = inverse_at(|v| RingElement(v as u16), 0, 0xff80); p19_inv_16b = inverse_at(|v| RingElement(v as u16), 9, 1); p19_inv_32a = inverse_at(|v| RingElement(v as u32), 0, 0xffff_ff80);
    p19_inv_32b = inverse_at(|v| RingElement(v as u32), 25, 0xabcd); p19_inv_64a = inverse_at(|v| RingElement(v), 0, !127); p19_inv_64b = inverse_at(|v| RingElement(v), 57, 0x1235);
    p19_moduli = moduli();
    p19_ginv_8 = ring_inverse::<R8>(41, 2); p19_ginv_16 = ring_inverse::<R16>(40, 2); p19_ginv_63 = ring_inverse::<R8>(63, 2);
    p19_lag_8 = interpolation::<R8>(41, 3, 2); p19_lag_8d = interpolation::<R8>(41, 2, 40); p19_lag_16 = interpolation::<R16>(42, 2, 41); p19_lag_1 = interpolation::<R16>(40, 1, 3);
    p19_lagf_4 = interpolation_field(4); p19_lagf_2 = interpolation_field(2);
);
use iris_mpc::prelude::Bit;
