// C14: what a valid pair signs, its public key accepts
pub fn thm_sign_verify(data: &Vec<u8>, private_key: &str, public_key: &str) -> (r: bool)
    requires all_hex(utf8(private_key@)), all_hex(utf8(public_key@)), ed_pair(key_of(private_key@), key_of(public_key@)),
    ensures r,
{
    proof { ax_pair(key_of(private_key@), key_of(public_key@), data@); }
    let s = signature::sign(data, private_key, public_key);
    signature::verify(data, &s, public_key)
}
// C14: verification decides exactly what Ed25519 decides about the whole message
pub fn thm_verify_binds(data: &Vec<u8>, s: &Vec<u8>, public_key: &str) -> (r: bool)
    requires key_text(public_key@), sig_ok(s@), !ed_verify(key_of(public_key@), data@, s@),
    ensures !r,
{
    signature::verify(data, s, public_key)
}
// C14: a generated pair is two texts of 64 hex digits, and what it signs it verifies
pub fn thm_generated(data: &Vec<u8>) -> (r: bool)
    ensures r,
{
    let (private_key, public_key) = signature::keypair::generate();
    proof { ax_pair(key_of(private_key@), key_of(public_key@), data@); }
    let s = signature::sign(data, private_key.as_str(), public_key.as_str());
    signature::verify(data, &s, public_key.as_str())
}
/*IF:refuse*/
// C14: malformed keys sign nothing
pub fn thm_sign_refuses(data: &Vec<u8>, private_key: &str, public_key: &str) -> (r: Vec<u8>)
    requires !pair_text(private_key@, public_key@),
    ensures false,
{
    signature::sign(data, private_key, public_key)
}
// C14: a malformed key or signature is never accepted
pub fn thm_verify_refuses(data: &Vec<u8>, s: &Vec<u8>, public_key: &str) -> (r: bool)
    requires !key_text(public_key@) || !sig_ok(s@),
    ensures !r,
{
    signature::verify(data, s, public_key)
}
/*END*/
