use crate::ndarray::*;
// C02: writing moves every used coefficient by at most 0.75 of the depth (and rounding), and no other
pub fn thm_writes(domain: &mut Array2<f64>, bytes: Vec<u8>, depth: f64)
    requires depth_ok(depth), domain_mil(old(domain)@, depth), 8 * bytes@.len() <= cells(old(domain)@),
    ensures
        is_written(old(domain)@, final(domain)@, bits_of(bytes@), 8 * (bytes@.len() as int), depth),
        forall|i: int| 0 <= i < cells(old(domain)@) ==> rabs(val(#[trigger] nth(final(domain)@, i)) - val(nth(old(domain)@, i))) <= val(depth) * (75real / 100real + 3real / 1000000real),
{
    let ghost m = domain@;
    let ghost b = bits_of(bytes@);
    let mut v = domain.view_mut();
    embedding::io::write(&mut v, bytes, depth);
    proof {
        assert forall|i: int| 0 <= i < cells(m) implies rabs(val(#[trigger] nth(domain@, i)) - val(nth(m, i))) <= val(depth) * (75real / 100real + 3real / 1000000real) by {
            assert(million_ok(nth(m, i), depth));
            if i < b.len() { lemma_write_moves(nth(m, i), b[i], depth); } else { assert(nth(domain@, i) == nth(m, i)); lemma_nonneg(val(depth)); }
        }
    }
}
// C02: reading a written domain after any disturbance up to 0.24 of the depth returns the written bytes, in order
pub fn thm_reads(Ghost(m): Ghost<Mat<f64>>, Ghost(w): Ghost<Mat<f64>>, x: &mut Array2<f64>, Ghost(bytes): Ghost<Seq<u8>>, depth: f64) -> (r: Vec<u8>)
    requires depth_ok(depth), domain_mil(m, depth), 8 * bytes.len() <= cells(m),
        is_written(m, w, bits_of(bytes), 8 * (bytes.len() as int), depth), disturbed(w, old(x)@, depth),
    ensures bytes.len() <= r@.len(), r@.take(bytes.len() as int) == bytes, r@.len() == cells(m) / 8,
{
    proof { lemma_disturbed_ok(m, w, x@, bits_of(bytes), 8 * (bytes.len() as int), depth); }
    let ghost x0 = x@;
    let v = x.view_mut();
    let r = embedding::io::read(&v, depth);
    proof {
        let t = r@.take(bytes.len() as int);
        assert forall|i: int| 0 <= i < 8 * bytes.len() implies bits_of(t)[i] == bits_of(bytes)[i] by {
            assert(bits_of(r@)[i] == rbit(nth(x0, i), depth));
            assert(bits_of(r@)[i] == bit(r@[i / 8], i % 8));
            assert(t[i / 8] == r@[i / 8]);
        }
        assert(bits_of(t) =~= bits_of(bytes));
        lemma_bits_inj(t, bytes);
    }
    r
}
pub proof fn lemma_nonneg(v: real) requires v > 0real ensures v * (75real / 100real + 3real / 1000000real) >= 0real { assert(v * (75real / 100real + 3real / 1000000real) >= 0real) by (nonlinear_arith) requires v > 0real; }
