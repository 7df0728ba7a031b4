use crate::vx_ldpc::labrador_ldpc::*;
// C06: a code exists exactly from 16 bytes up, fits, and grows with the capacity
pub fn thm_selection(a: usize, b: usize) -> (r: (Option<LDPCCode>, Option<LDPCCode>))
    ensures
        (r.0 is Some) == (a >= 16),
        r.0 is Some ==> r.0->Some_0.nb() <= a,
        a <= b && r.0 is Some ==> r.1 is Some && r.0->Some_0.nb() <= r.1->Some_0.nb(),
{
    (encoding::get_code_by_codeword_length(a), encoding::get_code_by_codeword_length(b))
}
