use crate::ndarray::*;
use crate::image::*;
use crate::vx_ldpc::labrador_ldpc::*;
use watermarking::process::*;
// C18: extraction from a watermarked channel gives the record of that channel
pub fn thm_payload(channel: &GrayImage, depth: f64, step: f64, n: usize, levels: usize) -> (r: Vec<u8>)
    requires channel_ok(channel@, n as int, step, levels as int), scale_ok(depth, levels as int), carriable(channel@, n as int, levels as int),
        deep(depth, levels as int), headroom(chan_mat(channel@), depth, levels as int),
    ensures
        is_record(r@, all_bits(own_features(channel@, n as int), step, n as int),
            ed_sign(key_of(secret_key()) + key_of(public_key()), bytes64(all_q(own_features(channel@, n as int), step))), utf8("Hello world!"@)),
        r@.len() == rec_len(r@),
{
    let out = watermark_channel(channel, depth, step, n, levels);
    let (w, h) = out.dimensions();
    let m = Array2::from_shape_vec([w as usize, h as usize], out.into_raw()).vx_unwrap();
    proof {
        let g = channel@;
        let l = levels as int;
        let b = choose|b: Seq<u8>| #[trigger] own_record(g, step, n as int, b) && carries(chan_mat(g), m@, coded(chan_mat(g), l, b), depth, l);
        lemma_own_len(g, step, n as int, b);
        lemma_dom(m@, depth, l);
        lemma_extracts(chan_mat(g), m@, b, depth, l);
    }
    embedding::extract(m, depth, levels)
}
// C18: a record whose signature does not belong to the restored features is not accepted
pub fn thm_judge(channel: &GrayImage, depth: f64, step: f64, n: usize, levels: usize) -> (r: bool)
    requires channel_ok(channel@, n as int, step, levels as int), scale_ok(depth, levels as int), judgeable(channel@, depth, n as int, levels as int),
    ensures r == judged(channel@, depth, step, n as int, levels as int, key_of(public_key())),
{
    authenticate_channel(channel, depth, step, n, levels)
}
