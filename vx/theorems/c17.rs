use crate::ndarray::*;
use crate::image_features::feature_types::FeaturesType;
// exactly n finite, non-negative features
/*IF:accept*/
pub fn thm_features(image: &Array2<u8>, n: usize) -> (r: Vec<f64>)
    requires pictured(image@), 1 <= n <= 20
    ensures r@.len() == n, forall|k: int| 0 <= k < n ==> fin(#[trigger] r@[k]) && val(r@[k]) >= 0real
{
    crate::image_features::calculate_features(image, FeaturesType::MomentsZernike, n)
}
/*END*/
// the Zernike moment of a square image, written as a double sum over its pixels (x the row, y the column, both from 1)
/*IF:ideal*/
pub open spec fn vre(o: int, m: int, x: int, y: int, d: int) -> real { rpoly(o, m, rho(x, y, d)) * rcos((m as real) * phi(x, y, d)) }
pub open spec fn vim(o: int, m: int, x: int, y: int, d: int) -> real { -(rpoly(o, m, rho(x, y, d)) * rsin((m as real) * phi(x, y, d))) }
pub open spec fn row_re(p: Mat<u8>, o: int, m: int, r: int, n: int) -> real decreases n { if n <= 0 { 0real } else { row_re(p, o, m, r, n - 1) + (p.at(r, n - 1) as real) * vre(o, m, r + 1, n, p.w) } }
pub open spec fn row_im(p: Mat<u8>, o: int, m: int, r: int, n: int) -> real decreases n { if n <= 0 { 0real } else { row_im(p, o, m, r, n - 1) + (p.at(r, n - 1) as real) * vim(o, m, r + 1, n, p.w) } }
pub open spec fn img_re(p: Mat<u8>, o: int, m: int, n: int) -> real decreases n { if n <= 0 { 0real } else { img_re(p, o, m, n - 1) + row_re(p, o, m, n - 1, p.w) } }
pub open spec fn img_im(p: Mat<u8>, o: int, m: int, n: int) -> real decreases n { if n <= 0 { 0real } else { img_im(p, o, m, n - 1) + row_im(p, o, m, n - 1, p.w) } }
pub open spec fn zernike_re(p: Mat<u8>, o: int, m: int) -> real { ((o + 1) as real) / rpi() * img_re(p, o, m, p.h()) / ((p.w * p.h()) as real) }
pub open spec fn zernike_im(p: Mat<u8>, o: int, m: int) -> real { ((o + 1) as real) / rpi() * img_im(p, o, m, p.h()) / ((p.w * p.h()) as real) }
pub proof fn lemma_row_sum(p: Mat<u8>, o: int, m: int, r: int, n: int)
    requires p.wf(), p.h() == p.w, 0 <= r < p.h(), 0 <= n <= p.w
    ensures sre(p, o, m, r * p.w + n) == sre(p, o, m, r * p.w) + row_re(p, o, m, r, n), sim(p, o, m, r * p.w + n) == sim(p, o, m, r * p.w) + row_im(p, o, m, r, n)
    decreases n
{
    let w = p.w;
    if n > 0 {
        lemma_row_sum(p, o, m, r, n - 1);
        let i = r * w + n - 1;
        assert(i >= 0 && r * w + w <= p.h() * w) by (nonlinear_arith) requires i == r * w + n - 1, 0 <= r < p.h(), n >= 1, w >= 1;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i, w, r, n - 1);
        assert(cells_of(p)[i] == p.at(r, n - 1));
        let c = rcos((m as real) * phi(r + 1, n, w)); let s = rsin((m as real) * phi(r + 1, n, w)); let q = rpoly(o, m, rho(r + 1, n, w)); let x = p.at(r, n - 1) as real;
        assert((c * q) * x == x * (q * c)) by (nonlinear_arith);
        assert((-(s * q)) * x == x * (-(q * s))) by (nonlinear_arith);
        assert(sre(p, o, m, i + 1) == sre(p, o, m, i) + zre(o, m, i, w) * (cells_of(p)[i] as real));
        assert(sim(p, o, m, i + 1) == sim(p, o, m, i) + zim(o, m, i, w) * (cells_of(p)[i] as real));
    }
}
pub proof fn lemma_img_sum(p: Mat<u8>, o: int, m: int, n: int)
    requires p.wf(), p.h() == p.w, 0 <= n <= p.h()
    ensures sre(p, o, m, n * p.w) == img_re(p, o, m, n), sim(p, o, m, n * p.w) == img_im(p, o, m, n)
    decreases n
{
    if n > 0 {
        lemma_img_sum(p, o, m, n - 1);
        lemma_row_sum(p, o, m, n - 1, p.w);
        assert((n - 1) * p.w + p.w == n * p.w) by (nonlinear_arith);
    } else { assert(n * p.w == 0) by (nonlinear_arith) requires n == 0; }
}
pub proof fn lemma_moment(p: Mat<u8>, o: int, m: int)
    requires p.wf(), p.h() == p.w
    ensures mre(p, o, m) == zernike_re(p, o, m), mim(p, o, m) == zernike_im(p, o, m)
{
    lemma_img_sum(p, o, m, p.h());
    let k = ((o + 1) as real) / rpi();
    assert(p.w * p.h() == p.h() * p.w) by (nonlinear_arith);
    let a = img_re(p, o, m, p.h()); let b = img_im(p, o, m, p.h());
    assert(a * k == k * a && b * k == k * b) by (nonlinear_arith);
}
// the k-th feature of a square image is the magnitude of its Zernike moment of order 2n - 1 and repetition 2k - 1
pub fn thm_moments(image: &Array2<u8>, n: usize) -> (r: Vec<f64>)
    requires pictured(image@), image@.h() == image@.w, 1 <= n <= 20
    ensures r@.len() == n, forall|k: int| 1 <= k <= n ==> val(#[trigger] r@[k - 1]) == rsqrt(zernike_re(image@, 2 * n - 1, 2 * k - 1) * zernike_re(image@, 2 * n - 1, 2 * k - 1) + zernike_im(image@, 2 * n - 1, 2 * k - 1) * zernike_im(image@, 2 * n - 1, 2 * k - 1))
{
    proof { assert forall|o: int, m: int| #[trigger] mre(image@, o, m) == zernike_re(image@, o, m) && mim(image@, o, m) == zernike_im(image@, o, m) by { lemma_moment(image@, o, m); } }
    crate::image_features::calculate_features(image, FeaturesType::MomentsZernike, n)
}
/*END*/
