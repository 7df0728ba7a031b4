// What the crate dwt does with raw memory (trusted): a work space with any contents; all bytes zero is 0.0; copying n numbers.
#[verifier::external_body] pub fn vx_unset(n: usize) -> (r: Vec<f64>) ensures r@.len() == n { unimplemented!() }
#[verifier::external_body] pub fn vx_zero(v: &mut Vec<f64>) ensures final(v)@ == Seq::new(old(v)@.len(), |i: int| 0.0f64) { unimplemented!() }
#[verifier::external_body] pub fn vx_copy(s: &Vec<f64>, d: &mut Vec<f64>, n: usize)
    requires n <= s@.len(), n <= old(d)@.len()
    ensures final(d)@ == s@.take(n as int) + old(d)@.skip(n as int) { unimplemented!() }
pub broadcast group group_rawmem { crate::vx_dwt::ax_fadd_is, crate::vx_dwt::ax_fmul_is }
