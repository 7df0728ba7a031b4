use crate::dwt::wavelet::*;
use crate::dwt::Operation;
// the contract the other units assume of the crate: one level of the Haar transform
pub fn thm_crate(data: &mut Vec<f64>, back: bool) -> (r: bool)
    requires old(data)@.len() % 2 == 0, old(data)@.len() <= 0x10_0000_0000_0000
    ensures final(data)@ == dwt1(old(data)@, back)
{
    let w = Haar::new();
    if back { crate::dwt::transform(data, Operation::Inverse, &w, 1); } else { crate::dwt::transform(data, Operation::Forward, &w, 1); }
    true
}
