use crate::bitvec::prelude::*;
// C11: unpacking packed bits, with anything following them, returns the bits
pub fn thm_pack_round_trip(bits: &BitVec<u8, Lsb0>, trailing: &Vec<u8>) -> (r: (usize, BitVec<u8, Lsb0>))
    requires bits@.len() <= 0x4_0000_0000_0000, trailing@.len() <= 0x0200_0000_0000_0000,
    ensures r.1@ == bits@, r.0 as int == ceil8(bits@.len() as int),
{
    let mut bytes = three_bit_quantization::perturbation_vector_as_bytes(bits);
    let n = bytes.len();
    let ghost packed = bytes@;
    bytes.vx_extend_from_slice(trailing.vx_as_slice());
    proof {
        assert(bits_of(bytes@).take(bits@.len() as int) =~= bits_of(packed).take(bits@.len() as int)) by {
            assert forall|j: int| 0 <= j < bits@.len() implies bits_of(bytes@)[j] == bits_of(packed)[j] by {}
        }
    }
    (n, three_bit_quantization::perturbation_vector_from_bytes(&bytes, bits.len()))
}
