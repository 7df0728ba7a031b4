use crate::vx_ldpc::labrador_ldpc::*;
// C05: decoding an encoding followed by anything returns the input
pub fn thm_round_trip(input: Vec<u8>, trailing: &Vec<u8>, capacity: usize) -> (r: Vec<u8>)
    requires input@.len() <= 65535, capacity >= 16,
    ensures r@ == input@,
{
    let ghost p = input@;
    let ghost code = code_for(capacity as int)->Some_0;
    let mut encoded = encoding::encode(input, capacity);
    encoded.vx_extend_from_slice(trailing.vx_as_slice());
    proof {
        lemma_undamaged_correctable(code, headed(p), trailing@);
        lemma_decode_inverts(code, p, encoded@);
    }
    encoding::decode(encoded, capacity)
}
// C05: damage the code corrects in every codeword does not change the result
pub fn thm_corrects(input: Vec<u8>, damaged: Vec<u8>, capacity: usize) -> (r: Vec<u8>)
    requires input@.len() <= 65535, capacity >= 16, correctable(code_for(capacity as int)->Some_0, headed(input@), damaged@),
    ensures r@ == input@,
{
    proof { lemma_decode_inverts(code_for(capacity as int)->Some_0, input@, damaged@); }
    encoding::decode(damaged, capacity)
}
/*IF:refuse*/
pub fn thm_encode_refuses(input: Vec<u8>, capacity: usize) -> (r: Vec<u8>)
    requires input@.len() > 65535,
    ensures false,
{
    encoding::encode(input, capacity)
}
/*END*/
