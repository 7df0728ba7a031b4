use crate::bitvec::prelude::*;
use watermarking::watermark::*;
// C07: a serialized record followed by anything deserializes to the record
pub fn thm_record_round_trip(p: BitVec<u8>, s: Vec<u8>, t: String, trailing: &Vec<u8>) -> (r: Watermark)
    requires p@.len() <= 255, s@.len() <= 255, utf8(t@).len() <= 255,
    ensures r.perturbation_vector@ == p@, r.signature@ == s@, r.text@ == t@,
{
    let ghost (gp, gs, gt) = (p@, s@, t@);
    let w = Watermark::new(p, s, t);
    let mut b = w.serialize();
    proof { lemma_record_prefix(b@, gp, gs, utf8(gt), trailing@); }
    b.vx_extend_from_slice(trailing.vx_as_slice());
    let r = watermarking::watermark::deserialize(&b);
    proof {
        ax_utf8_inj(r.text@, gt);
        assert(r.perturbation_vector@ =~= gp);
    }
    r
}
/*IF:refuse*/
pub fn thm_record_refuses(w: Watermark) -> (r: Vec<u8>)
    requires w.perturbation_vector@.len() > 255 || w.signature@.len() > 255 || utf8(w.text@).len() > 255,
    ensures false,
{
    w.serialize()
}
/*END*/
