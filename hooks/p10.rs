include!("mod.rs");
pub mod verif_x {
    use crate::prelude::{Aby3, Aby3Share, MalAby3, NetworkTrait, Sharable, SpdzWise, Swift3};
    use rand::distributions::{Distribution, Standard};
    use std::ops::Mul;
    /// The generators a party ended up with.
    pub trait Gens {
        fn draw(&mut self) -> Vec<u64>;
        /// an additive and an XOR share of zero
        fn zero<T: Sharable>(&mut self) -> Option<(T::Share, T::Share)> where Standard: Distribution<T::Share>;
    }
    impl<N: NetworkTrait> Gens for Aby3<N> {
        fn draw(&mut self) -> Vec<u64> { let (a, b) = self.prf.gen_rands::<u64>(); vec![a, b] }
        fn zero<T: Sharable>(&mut self) -> Option<(T::Share, T::Share)> where Standard: Distribution<T::Share> { Some((self.prf.gen_zero_share::<T>(), self.prf.gen_binary_zero_share::<T>())) }
    }
    impl<N: NetworkTrait> Gens for MalAby3<N> {
        fn draw(&mut self) -> Vec<u64> { let (a, b) = self.verif_prf().gen_rands::<u64>(); vec![a, b] }
        fn zero<T: Sharable>(&mut self) -> Option<(T::Share, T::Share)> where Standard: Distribution<T::Share> { Some((self.verif_prf().gen_zero_share::<T>(), self.verif_prf().gen_binary_zero_share::<T>())) }
    }
    impl<N: NetworkTrait, U: Sharable> Gens for SpdzWise<N, U> where Standard: Distribution<U::Share>, Aby3Share<U>: Mul<U::Share, Output = Aby3Share<U>> {
        fn draw(&mut self) -> Vec<u64> { self.verif_aby3().draw() }
        fn zero<T: Sharable>(&mut self) -> Option<(T::Share, T::Share)> where Standard: Distribution<T::Share> { self.verif_aby3().zero::<T>() }
    }
    impl<N: NetworkTrait, U: Sharable> Gens for Swift3<N, U> where Standard: Distribution<U::Share> {
        fn draw(&mut self) -> Vec<u64> { let p = self.verif_prf(); vec![p.gen_1::<u64>(), p.gen_2::<u64>(), p.gen_p::<u64>()] }
        fn zero<T: Sharable>(&mut self) -> Option<(T::Share, T::Share)> where Standard: Distribution<T::Share> { None }
    }
}
