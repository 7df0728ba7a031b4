use crate::ndarray::*;
use crate::vx_ldpc::labrador_ldpc::*;
// C01: an embedded image keeps its dimensions, no pixel moves further than the amplitude, and extraction gives the payload
pub fn thm_round_trip(image: Array2<u8>, payload: Vec<u8>, depth: f64, levels: usize) -> (r: Vec<u8>)
    requires shape_ok(image@, levels as int), scale_ok(depth, levels as int), deep(depth, levels as int), headroom(image@, depth, levels as int),
        1 <= payload@.len(), fits(image@, levels as int, payload@.len() as int),
    ensures r@ == payload@,
{
    let ghost m = image@;
    let ghost p = payload@;
    let ghost l = levels as int;
    let embedded = embedding::embed(image, payload, depth, levels);
    proof {
        lemma_dom(embedded@, depth, l);
        lemma_extracts(m, embedded@, p, depth, l);
    }
    embedding::extract(embedded, depth, levels)
}
pub fn thm_pixels(image: Array2<u8>, payload: Vec<u8>, depth: f64, levels: usize) -> (r: Array2<u8>)
    requires shape_ok(image@, levels as int), scale_ok(depth, levels as int), deep(depth, levels as int), headroom(image@, depth, levels as int),
        fits(image@, levels as int, payload@.len() as int),
    ensures r@.wf(), r@.same_dim(image@),
        forall|a: int, b: int| 0 <= a < image@.h() && 0 <= b < image@.w ==> rabs((#[trigger] r@.at(a, b)) as real - image@.at(a, b) as real) <= 0.75real * val(depth) / (pow2(levels as int) as real) + 501real / 1000real,
{
    let ghost m = image@;
    let ghost l = levels as int;
    let ghost p = payload@;
    let r = embedding::embed(image, payload, depth, levels);
    proof {
        assert(carries(m, r@, coded(m, l, p), depth, l));
        assert forall|a: int, b: int| 0 <= a < m.h() && 0 <= b < m.w implies rabs((#[trigger] r@.at(a, b)) as real - m.at(a, b) as real) <= 0.75real * val(depth) / (pow2(l) as real) + 501real / 1000real by { assert(moved_ok(m, r@, depth, l, a, b)); }
    }
    r
}
