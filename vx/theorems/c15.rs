use crate::ndarray::*;
// C15: the forward transform keeps the shape; its coarsest sub-band holds, for every 2^levels by 2^levels block, the sum of the block over 2^levels
pub fn thm_forward(x: Array2<f64>, Ghost(bd): Ghost<real>, level: usize) -> (r: Array2<f64>)
    requires 1 <= level <= 30, dims_ok(x@, level as int), lim(bd), bounded(x@, bd)
    ensures r@.wf(), r@.same_dim(x@),
        forall|i: int, j: int| 0 <= i < x@.h() / pow2(level as int) && 0 <= j < x@.w / pow2(level as int) ==>
            sum_ok(x@, #[trigger] r@.at(i, j), level as int, i, j, level as real * eta() * (pow2(level as int) as real) * bd),
{
    let ghost m = x@;
    let r = embedding::haar::dwt_2d(x, level, false);
    proof {
        let l = level as int;
        lemma_fwd(m, bd, l, l);
        lemma_mx(bd, l);
        lemma_pow_i32(l);
        assert forall|i: int, j: int| 0 <= i < m.h() / pow2(l) && 0 <= j < m.w / pow2(l) implies sum_ok(m, #[trigger] r@.at(i, j), l, i, j, level as real * eta() * (pow2(l) as real) * bd) by {
            assert(inblock(m, l, i, j));
            assert(fwd_ok(m, bd, l, i, j));
            lemma_ll_sum(m, l, i, j);
            let q = pow2(l) as real;
            let v = ll(m, l, i, j);
            let s = bsum(m, i * pow2(l), j * pow2(l), pow2(l), pow2(l));
            assert(v == s / q) by (nonlinear_arith) requires v * q == s, q >= 1real;
            assert((l as real * eta()) * (q * bd) == ((l as real * eta()) * q) * bd) by (nonlinear_arith);
        }
    }
    r
}
pub open spec fn sum_ok(m: Mat<f64>, x: f64, l: int, i: int, j: int, e: real) -> bool { near(x, bsum(m, i * pow2(l), j * pow2(l), pow2(l), pow2(l)) / (pow2(l) as real), e) }
// C15: the inverse of a forward transform is the matrix, up to rounding
pub fn thm_round_trip(x: Array2<f64>, Ghost(bd): Ghost<real>, level: usize) -> (r: Array2<f64>)
    requires 1 <= level <= 30, dims_ok(x@, level as int), lim(bd), bounded(x@, bd)
    ensures r@.wf(), r@.same_dim(x@),
        forall|i: int, j: int| 0 <= i < x@.h() && 0 <= j < x@.w ==> near(#[trigger] r@.at(i, j), val(x@.at(i, j)), level as real * 2real * eta() * bd),
{
    let ghost m = x@;
    let y = embedding::haar::dwt_2d(x, level, false);
    proof { lemma_fwd(m, bd, level as int, level as int); }
    let ghost n = y@;
    let r = embedding::haar::dwt_2d(y, level, true);
    proof {
        let l = level as int;
        lemma_in_fin(m, bd, l);
        lemma_inverse(m, n, bd, 0real, l);
        lemma_pow_i32(l);
        assert(eb(bd, 0real, l, 0) == l as real * 2real * eta() * bd) by (nonlinear_arith) requires eb(bd, 0real, l, 0) == (l - 0) as real * 2real * eta() * mx(bd, 0) + 2real * eta() * 0real, mx(bd, 0) == bd;
        assert forall|i: int, j: int| 0 <= i < m.h() && 0 <= j < m.w implies near(#[trigger] r@.at(i, j), val(m.at(i, j)), l as real * 2real * eta() * bd) by {
            assert(incell(m, i, j));
            lemma_chg_zero(n, l, i, j);
        }
    }
    r
}
// C15: changed coefficients of the coarsest sub-band change the inverse of their block by the change over 2^levels, and nothing else
pub fn thm_changed(x: Array2<f64>, Ghost(m): Ghost<Mat<f64>>, Ghost(bd): Ghost<real>, Ghost(dd): Ghost<real>, level: usize) -> (r: Array2<f64>)
    requires 1 <= level <= 30, dims_ok(m, level as int), lim(bd), bounded(m, bd), 0real <= dd <= 100000000000real, changed_ll(m, x@, level as int, dd)
    ensures r@.wf(), r@.same_dim(m),
        forall|i: int, j: int| 0 <= i < m.h() && 0 <= j < m.w ==> chg_ok(m, x@, #[trigger] r@.at(i, j), level as int, i, j, level as real * 2real * eta() * bd + 2real * eta() * dd),
{
    let ghost n = x@;
    let r = embedding::haar::dwt_2d(x, level, true);
    proof {
        let l = level as int;
        lemma_inverse(m, n, bd, dd, l);
        lemma_pow_i32(l);
        assert(eb(bd, dd, l, 0) == l as real * 2real * eta() * bd + 2real * eta() * dd);
        assert forall|i: int, j: int| 0 <= i < m.h() && 0 <= j < m.w implies chg_ok(m, n, #[trigger] r@.at(i, j), l, i, j, l as real * 2real * eta() * bd + 2real * eta() * dd) by {
            assert(incell(m, i, j));
            lemma_chg_flat(n, fwd(m, l), l, i, j);
            let q = pow2(l) as real;
            let e = chg(n, fwd(m, l), l, i, j);
            let s = val(n.at(i / pow2(l), j / pow2(l))) - val(fwd(m, l).at(i / pow2(l), j / pow2(l)));
            assert(e == s / q) by (nonlinear_arith) requires e * q == s, q >= 1real;
        }
    }
    r
}
pub open spec fn chg_ok(m: Mat<f64>, n: Mat<f64>, x: f64, l: int, i: int, j: int, e: real) -> bool {
    near(x, val(m.at(i, j)) + (val(n.at(i / pow2(l), j / pow2(l))) - val(fwd(m, l).at(i / pow2(l), j / pow2(l)))) / (pow2(l) as real), e)
}
pub proof fn lemma_in_fin(m: Mat<f64>, bd: real, l: int)
    requires dims_ok(m, l), 0 <= l <= 30, lim(bd), bounded(m, bd)
    ensures changed_ll(m, fwd(m, l), l, 0real)
{
    lemma_fwd(m, bd, l, l);
    assert forall|r: int, c: int| #[trigger] inblock(m, l, r, c) implies fin(fwd(m, l).at(r, c)) by { assert(fwd_ok(m, bd, l, r, c)); }
}
pub proof fn lemma_chg_zero(n: Mat<f64>, j: int, r: int, c: int)
    requires 0 <= j
    ensures chg(n, n, j, r, c) == 0real
    decreases j
{
    if j > 0 { lemma_chg_zero(n, j - 1, r / 2, c / 2); }
}
