use crate::bitvec::prelude::*;
// C10: one floor and three bits per feature, in order
pub fn thm_quantization(features: &Vec<f64>, step: f64, i: usize) -> (r: (Vec<i64>, BitVec<u8, Lsb0>))
    requires features_ok(features@, step), i < features@.len(),
    ensures
        r.0@.len() == features@.len(), r.1@.len() == 3 * features@.len(),
        r.0@[i as int] as int == rfl(rn(val(features@[i as int]) / val(step))),
        r.1@[3 * i + 2] == (val(features@[i as int]) >= rn(val(step) * (r.0@[i as int] as real + 0.5real))),
        forall|j: int| 0 <= j < features@.len() ==> (#[trigger] (r.0@[j] - r.0@[i as int]) % 4 == 0) == (r.1@[3 * j] == r.1@[3 * i] && r.1@[3 * j + 1] == r.1@[3 * i + 1]),
{
    let r = three_bit_quantization::three_bit_quantization(features, step);
    proof {
        let f = features@;
        lemma_all_bits(f, step, f.len() as int);
        let a = feature_bits(f[i as int], step);
        lemma_quot(f[i as int], step);
        assert(r.1@[3 * i + 0] == a[0] && r.1@[3 * i + 1] == a[1] && r.1@[3 * i + 2] == a[2]);
        assert forall|j: int| 0 <= j < features@.len() implies (#[trigger] (r.0@[j] - r.0@[i as int]) % 4 == 0) == (r.1@[3 * j] == r.1@[3 * i] && r.1@[3 * j + 1] == r.1@[3 * i + 1]) by {
            let b = feature_bits(f[j], step);
            lemma_quot(f[j], step);
            assert(r.1@[3 * j + 0] == b[0] && r.1@[3 * j + 1] == b[1]);
        }
    }
    r
}
