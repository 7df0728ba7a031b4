// ROOTS: dwt
// The contract of the crate dwt, assumed here and proved from the crate's source in C15.
pub mod dwt {
    use vstd::prelude::*;
    use crate::vx_core::*;
    use super::*;
    pub enum Operation { Forward, Inverse }
    pub mod wavelet {
        use vstd::prelude::*;
        #[verifier::external_body]
        #[verifier::reject_recursive_types(T)]
        pub struct Wavelet<T> { p: core::marker::PhantomData<T> }
        pub uninterp spec fn is_haar(w: Wavelet<f64>) -> bool;
        pub struct Haar;
        impl Haar { #[verifier::external_body] pub fn new() -> (r: Wavelet<f64>) ensures is_haar(r) { unimplemented!() } }
    }
    #[verifier::external_body]
    pub fn transform(data: &mut Vec<f64>, operation: Operation, wavelet: &wavelet::Wavelet<f64>, level: usize)
        requires level == 1, wavelet::is_haar(*wavelet), old(data)@.len() % 2 == 0, old(data)@.len() <= 0x10_0000_0000_0000,
        ensures final(data)@ == dwt1(old(data)@, operation is Inverse) { unimplemented!() }
}
