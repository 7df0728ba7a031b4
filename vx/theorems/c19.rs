use crate::ndarray::*;
use crate::image::*;
use crate::vx_ldpc::labrador_ldpc::*;
use watermarking::process::*;
pub open spec fn near(f: Seq<f64>, g: Seq<f64>, s: f64) -> bool { f.len() == g.len() && forall|i: int| 0 <= i < f.len() ==> rabs(val(#[trigger] g[i]) - val(f[i])) <= val(s) * (999real / 1000real) }
// C19: what watermark_channel made of a channel is authentic, if that left its features within 0.999 steps
pub fn thm_authentic(channel: Ghost<Img>, out: &GrayImage, depth: f64, step: f64, n: usize, levels: usize) -> (r: bool)
    requires
        channel_ok(channel@, n as int, step, levels as int), scale_ok(depth, levels as int), carriable(channel@, n as int, levels as int),
        deep(depth, levels as int), headroom(chan_mat(channel@), depth, levels as int),
        is_watermarked(channel@, out@, depth, step, n as int, levels as int), out@.w == channel@.w, out@.h == channel@.h, tight(out@),
        features_ok(own_features(out@, n as int), step), near(own_features(channel@, n as int), own_features(out@, n as int), step),
    ensures r,
{
    proof {
        let g = channel@;
        let l = levels as int;
        let k = n as int;
        let f = own_features(g, k);
        let y = own_features(out@, k);
        ax_features_len(chan_mat(eq_img(g)), k);
        ax_features_len(chan_mat(eq_img(out@)), k);
        let m = chan_mat(out@);
        let b = choose|b: Seq<u8>| #[trigger] own_record(g, step, k, b) && carries(chan_mat(g), m, coded(chan_mat(g), l, b), depth, l);
        lemma_own_len(g, step, k, b);
        lemma_dom(m, depth, l);
        lemma_extracts(chan_mat(g), m, b, depth, l);
        lemma_text();
        lemma_keys();
        ax_pair(key_of(secret_key()), key_of(public_key()), bytes64(all_q(f, step)));
        lemma_all_bits(f, step, k);
        let bits = all_bits(f, step, k);
        assert forall|i: int| 0 <= i < k implies all_restored(y, bits, step)[i] == all_q(f, step)[i] by {
            lemma_three_bits(f, step, i);
            lemma_restore_one(f[i], y[i], step);
        }
        assert(all_restored(y, bits, step) =~= all_q(f, step));
    }
    authenticate_channel(out, depth, step, n, levels)
}
// C19: with other features restored, it is authentic only if Ed25519 accepts the original's signature for a different message
pub fn thm_tampered(channel: Ghost<Img>, other: &GrayImage, depth: f64, step: f64, n: usize, levels: usize) -> (r: bool)
    requires
        channel_ok(channel@, n as int, step, levels as int), channel_ok(other@, n as int, step, levels as int), scale_ok(depth, levels as int),
        judgeable(other@, depth, n as int, levels as int), own_record(channel@, step, n as int, found_record(other@, depth, levels as int)),
        restored_features(other@, depth, step, n as int, levels as int) != all_q(own_features(channel@, n as int), step),
    ensures r ==> exists|msg: Seq<u8>, sig: Seq<u8>| msg != bytes64(all_q(own_features(channel@, n as int), step))
        && sig == ed_sign(key_of(secret_key()) + key_of(public_key()), bytes64(all_q(own_features(channel@, n as int), step))) && #[trigger] ed_verify(key_of(public_key()), msg, sig),
{
    proof {
        let a = restored_features(other@, depth, step, n as int, levels as int);
        let b = all_q(own_features(channel@, n as int), step);
        if bytes64(a) == bytes64(b) { lemma_bytes64_inj(a, b); }
    }
    authenticate_channel(other, depth, step, n, levels)
}
