use crate::labrador_ldpc::codes::LDPCCode;
// what the other unit assumes of the crate: the decoder leaves an undamaged codeword alone
pub fn thm_undamaged(c: LDPCCode, d: Vec<u8>) -> (r: Vec<u8>)
    requires used(c), d@.len() == kk(c) / 8
    ensures r@.take(kk(c) / 8) == d@
{
    let mut w = vec![0u8; c.n() / 8];
    c.copy_encode(d.as_slice(), &mut w);
    let mut out = vec![0u8; c.output_len()];
    let mut work = vec![0u8; c.decode_bf_working_len()];
    proof { lemma_good(c, d@); }
    c.decode_bf(w.as_slice(), &mut out, &mut work, 20);
    proof { assert(out@.take(kk(c) / 8) =~= out@.take(nn(c) / 8).take(kk(c) / 8)); assert(w@.take(kk(c) / 8) =~= d@); }
    out
}
