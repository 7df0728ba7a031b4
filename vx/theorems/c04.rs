use crate::ndarray::*;
use crate::vx_ldpc::labrador_ldpc::*;
/*IF:accept*/
// C04: a payload that fits is embedded: no panic is reached
pub fn thm_accepts(image: Array2<u8>, payload: Vec<u8>, depth: f64, levels: usize) -> (r: Array2<u8>)
    requires shape_ok(image@, levels as int), scale_ok(depth, levels as int), fits(image@, levels as int, payload@.len() as int),
    ensures r@.wf(), r@.same_dim(image@),
{
    embedding::embed(image, payload, depth, levels)
}
// C04: what is returned carries the whole payload, unshifted
pub fn thm_whole(image: Array2<u8>, payload: Vec<u8>, depth: f64, levels: usize) -> (r: Array2<u8>)
    requires shape_ok(image@, levels as int), scale_ok(depth, levels as int), deep(depth, levels as int), headroom(image@, depth, levels as int), fits(image@, levels as int, payload@.len() as int),
    ensures carries(image@, r@, coded(image@, levels as int, payload@), depth, levels as int),
{
    embedding::embed(image, payload, depth, levels)
}
/*END*/
/*IF:refuse*/
// C04: a payload that does not fit never yields an image
pub fn thm_refuses(image: Array2<u8>, payload: Vec<u8>, depth: f64, levels: usize) -> (r: Array2<u8>)
    requires shape_ok(image@, levels as int), scale_ok(depth, levels as int), !fits(image@, levels as int, payload@.len() as int),
    ensures false,
{
    embedding::embed(image, payload, depth, levels)
}
// C04: in particular a payload longer than the format records, and a sub-band below 16 bytes
pub fn thm_refuses_long(image: Array2<u8>, payload: Vec<u8>, depth: f64, levels: usize) -> (r: Array2<u8>)
    requires shape_ok(image@, levels as int), scale_ok(depth, levels as int), payload@.len() > 65535 || cap(image@, levels as int) < 16,
    ensures false,
{
    embedding::embed(image, payload, depth, levels)
}
/*END*/
