use crate::bitvec::prelude::*;
// C09: features disturbed by up to 0.999 steps are restored to the original intervals
pub fn thm_restores(features: &Vec<f64>, noised: &Vec<f64>, step: f64) -> (r: (Vec<i64>, Vec<i64>))
    requires
        features_ok(features@, step), features_ok(noised@, step), features@.len() == noised@.len(),
        forall|i: int| 0 <= i < features@.len() ==> rabs(val(#[trigger] noised@[i]) - val(features@[i])) <= val(step) * (999real / 1000real),
    ensures r.0@ == r.1@, r.1@.len() == features@.len(),
{
    let (q, bits) = three_bit_quantization::three_bit_quantization(features, step);
    proof { lemma_all_bits(features@, step, features@.len() as int); }
    let back = three_bit_quantization::three_bit_dequantization(noised, &bits, step);
    proof {
        assert forall|i: int| 0 <= i < features@.len() implies back@[i] == q@[i] by {
            lemma_three_bits(features@, step, i);
            lemma_restore_one(features@[i], noised@[i], step);
        }
        assert(back@ =~= q@);
    }
    (q, back)
}
