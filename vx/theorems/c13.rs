// C13: decoding the hex text of bytes returns the bytes
pub fn thm_hex_round_trip(bytes: &Vec<u8>) -> (r: Result<Vec<u8>, ParseIntError>)
    requires 2 * bytes@.len() <= usize::MAX,
    ensures r is Ok, r->Ok_0@ == bytes@,
{
    let s = utils::format::encode_hex(bytes.vx_as_slice());
    proof { lemma_hex_round_trip(bytes@); }
    utils::format::decode_hex(s.as_str())
}
// C13: a text that is not an even number of hex digits is an error
pub fn thm_malformed_is_error(s: &str) -> (r: Result<Vec<u8>, ParseIntError>)
    requires !all_hex(utf8(s@)),
    ensures r is Err,
{
    utils::format::decode_hex(s)
}
