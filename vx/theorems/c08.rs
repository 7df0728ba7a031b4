// C08: unframing a framed payload followed by anything returns the payload
pub fn thm_frame_round_trip(payload: Vec<u8>, trailing: &Vec<u8>) -> (r: Vec<u8>)
    requires 1 <= payload@.len() <= 65535,
    ensures r@ == payload@,
{
    let ghost p = payload@;
    let data = embedding::io::data::Data { bytes: payload };
    let mut bytes = data.serialize();
    assert(bytes@.len() == p.len() + 2);
    bytes.vx_extend_from_slice(trailing.vx_as_slice());
    proof { lemma_frame_inverse(p, trailing@); }
    let d = embedding::io::data::deserialize(&bytes);
    d.bytes
}
/*IF:refuse*/
pub fn thm_frame_refuses(payload: Vec<u8>) -> (r: Vec<u8>)
    requires payload@.len() > 65535,
    ensures false,
{
    let data = embedding::io::data::Data { bytes: payload };
    data.serialize()
}
/*END*/
