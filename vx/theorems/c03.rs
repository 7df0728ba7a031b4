use crate::ndarray::*;
// C03: writing k bytes changes exactly the first 8k cells in row order; every other cell is untouched
pub fn thm_cells(domain: &mut Array2<f64>, bytes: Vec<u8>, depth: f64)
    requires depth_ok(depth), domain_mil(old(domain)@, depth), 8 * bytes@.len() <= cells(old(domain)@),
    ensures
        final(domain)@.same_dim(old(domain)@),
        forall|i: int| 8 * bytes@.len() <= i < cells(old(domain)@) ==> #[trigger] nth(final(domain)@, i) == nth(old(domain)@, i),
        forall|i: int| 0 <= i < 8 * bytes@.len() ==> val(#[trigger] nth(final(domain)@, i)) == wcoef(nth(old(domain)@, i), bits_of(bytes@)[i], depth),
{
    let mut v = domain.view_mut();
    embedding::io::write(&mut v, bytes, depth);
}
// cells of different bits are different, and every bit up to the capacity has one inside the domain
pub proof fn thm_distinct(m: Mat<f64>, i: int, j: int)
    requires size_ok(m), 0 <= i < j < 8 * (cells(m) / 8),
    ensures 0 <= i / m.w < m.h(), 0 <= i % m.w < m.w, i / m.w != j / m.w || i % m.w != j % m.w,
{
    lemma_cell(m, i);
    lemma_cell(m, j);
    if i / m.w == j / m.w && i % m.w == j % m.w { lemma_cell_inj(m.w, i, j); }
}
pub fn thm_capacity(width: usize, height: usize) -> (r: usize)
    requires width * height <= 0x10_0000_0000_0000,
    ensures r as int == (width * height) / 8,
{
    embedding::io::steganography::get_capacity(width, height)
}
/*IF:refuse*/
pub fn thm_refuses(domain: &mut Array2<f64>, bytes: Vec<u8>, depth: f64)
    requires depth_ok(depth), domain_mil(old(domain)@, depth), bytes@.len() > cells(old(domain)@) / 8,
    ensures false,
{
    let mut v = domain.view_mut();
    embedding::io::write(&mut v, bytes, depth);
}
/*END*/
