// ---- the coarsest sub-band as plain sums over blocks
pub open spec fn rsum(m: Mat<f64>, r: int, c: int, n: int) -> real decreases n { if n <= 0 { 0real } else { rsum(m, r, c, n - 1) + val(m.at(r, c + n - 1)) } }
pub open spec fn bsum(m: Mat<f64>, r: int, c: int, h: int, w: int) -> real decreases h { if h <= 0 { 0real } else { bsum(m, r, c, h - 1, w) + rsum(m, r + h - 1, c, w) } }
pub proof fn lemma_rsum_split(m: Mat<f64>, r: int, c: int, a: int, b: int)
    requires 0 <= a, 0 <= b
    ensures rsum(m, r, c, a + b) == rsum(m, r, c, a) + rsum(m, r, c + a, b)
    decreases b
{
    if b > 0 { lemma_rsum_split(m, r, c, a, b - 1); }
}
pub proof fn lemma_bsum_down(m: Mat<f64>, r: int, c: int, a: int, b: int, w: int)
    requires 0 <= a, 0 <= b
    ensures bsum(m, r, c, a + b, w) == bsum(m, r, c, a, w) + bsum(m, r + a, c, b, w)
    decreases b
{
    if b > 0 { lemma_bsum_down(m, r, c, a, b - 1, w); assert(r + (a + b) - 1 == (r + a) + b - 1); }
}
pub proof fn lemma_bsum_right(m: Mat<f64>, r: int, c: int, h: int, a: int, b: int)
    requires 0 <= a, 0 <= b
    ensures bsum(m, r, c, h, a + b) == bsum(m, r, c, h, a) + bsum(m, r, c + a, h, b)
    decreases h
{
    if h > 0 { lemma_bsum_right(m, r, c, h - 1, a, b); lemma_rsum_split(m, r + h - 1, c, a, b); }
}
// ll is the sum of the block, divided by 2^k
pub proof fn lemma_ll_sum(m: Mat<f64>, k: int, r: int, c: int)
    requires 0 <= k <= 30
    ensures ll(m, k, r, c) * (pow2(k) as real) == bsum(m, r * pow2(k), c * pow2(k), pow2(k), pow2(k))
    decreases k
{
    lemma_pow2(k);
    lemma_pow2(0);
    if k == 0 {
        assert(r * pow2(0) == r && c * pow2(0) == c) by (nonlinear_arith) requires pow2(0) == 1;
        assert(bsum(m, r, c, 1, 1) == bsum(m, r, c, 0, 1) + rsum(m, r, c, 1));
        assert(rsum(m, r, c, 1) == rsum(m, r, c, 0) + val(m.at(r, c)));
        assert(pow2(0) as real == 1real);
        assert(ll(m, 0, r, c) * 1real == ll(m, 0, r, c)) by (nonlinear_arith);
    } else {
        lemma_pow2(k - 1);
        let p = pow2(k - 1);
        lemma_ll_sum(m, k - 1, 2 * r, 2 * c);
        lemma_ll_sum(m, k - 1, 2 * r, 2 * c + 1);
        lemma_ll_sum(m, k - 1, 2 * r + 1, 2 * c);
        lemma_ll_sum(m, k - 1, 2 * r + 1, 2 * c + 1);
        let r0 = r * pow2(k); let c0 = c * pow2(k);
        assert(r0 == 2 * r * p && c0 == 2 * c * p && (2 * r + 1) * p == r0 + p && (2 * c + 1) * p == c0 + p) by (nonlinear_arith) requires r0 == r * (2 * p), c0 == c * (2 * p);
        lemma_bsum_down(m, r0, c0, p, p, 2 * p);
        lemma_bsum_right(m, r0, c0, p, p, p);
        lemma_bsum_right(m, r0 + p, c0, p, p, p);
        let q = p as real;
        assert(pow2(k) as real == 2real * q);
        let l0 = ll(m, k - 1, 2 * r, 2 * c); let l1 = ll(m, k - 1, 2 * r, 2 * c + 1); let l2 = ll(m, k - 1, 2 * r + 1, 2 * c); let l3 = ll(m, k - 1, 2 * r + 1, 2 * c + 1);
        assert(((l0 + l1 + l2 + l3) / 2real) * (2real * q) == l0 * q + l1 * q + l2 * q + l3 * q) by (nonlinear_arith);
    }
}
// the change that a finer cell inherits: the change of its block, divided by 2^j
pub proof fn lemma_chg_flat(n: Mat<f64>, f: Mat<f64>, j: int, r: int, c: int)
    requires 0 <= j <= 30, 0 <= r, 0 <= c
    ensures chg(n, f, j, r, c) * (pow2(j) as real) == val(n.at(r / pow2(j), c / pow2(j))) - val(f.at(r / pow2(j), c / pow2(j)))
    decreases j
{
    lemma_pow2(j);
    lemma_pow2(0);
    if j == 0 {
        assert(pow2(0) as real == 1real);
        assert(r / pow2(0) == r && c / pow2(0) == c);
        assert(chg(n, f, 0, r, c) * 1real == chg(n, f, 0, r, c)) by (nonlinear_arith);
    } else {
        lemma_pow2(j - 1);
        let p = pow2(j - 1);
        lemma_chg_flat(n, f, j - 1, r / 2, c / 2);
        assert(pow2(j) == 2 * p);
        vstd::arithmetic::div_mod::lemma_div_denominator(r, 2, p);
        vstd::arithmetic::div_mod::lemma_div_denominator(c, 2, p);
        let q = p as real;
        let e = chg(n, f, j - 1, r / 2, c / 2);
        assert(pow2(j) as real == 2real * q);
        assert((e / 2real) * (2real * q) == e * q) by (nonlinear_arith);
    }
}
// x is a cell of the block (r, c) of level k
pub open spec fn of_block(k: int, r: int, c: int, x: int, y: int) -> bool { r * pow2(k) <= x < (r + 1) * pow2(k) && c * pow2(k) <= y < (c + 1) * pow2(k) }
pub open spec fn off(m: Mat<f64>, n: Mat<f64>, t: real, rho: real, x: int, y: int) -> bool { rabs(val(n.at(x, y)) - val(m.at(x, y)) - t) <= rho }
// a block whose cells all move by about t: its sum moves by about t
pub proof fn lemma_ll_off(m: Mat<f64>, n: Mat<f64>, k: int, r: int, c: int, t: real, rho: real)
    requires 0 <= k <= 30, forall|x: int, y: int| #[trigger] of_block(k, r, c, x, y) ==> off(m, n, t, rho, x, y)
    ensures rabs(ll(n, k, r, c) - ll(m, k, r, c) - t * (pow2(k) as real)) <= rho * (pow2(k) as real)
    decreases k
{
    lemma_pow2(k);
    lemma_pow2(0);
    if k == 0 {
        assert(r * pow2(0) == r && (r + 1) * pow2(0) == r + 1 && c * pow2(0) == c && (c + 1) * pow2(0) == c + 1) by (nonlinear_arith) requires pow2(0) == 1;
        assert(of_block(0, r, c, r, c));
        assert(pow2(0) as real == 1real);
        assert(t * 1real == t && rho * 1real == rho) by (nonlinear_arith);
    } else {
        lemma_pow2(k - 1);
        let p = pow2(k - 1);
        assert forall|i: int, j: int, x: int, y: int| (i == 2 * r || i == 2 * r + 1) && (j == 2 * c || j == 2 * c + 1) && #[trigger] of_block(k - 1, i, j, x, y) implies off(m, n, t, rho, x, y) by {
            assert(r * pow2(k) <= i * p && (i + 1) * p <= (r + 1) * pow2(k)) by (nonlinear_arith) requires pow2(k) == 2 * p, p >= 1, 2 * r <= i <= 2 * r + 1;
            assert(c * pow2(k) <= j * p && (j + 1) * p <= (c + 1) * pow2(k)) by (nonlinear_arith) requires pow2(k) == 2 * p, p >= 1, 2 * c <= j <= 2 * c + 1;
            assert(of_block(k, r, c, x, y));
        }
        lemma_ll_off(m, n, k - 1, 2 * r, 2 * c, t, rho);
        lemma_ll_off(m, n, k - 1, 2 * r, 2 * c + 1, t, rho);
        lemma_ll_off(m, n, k - 1, 2 * r + 1, 2 * c, t, rho);
        lemma_ll_off(m, n, k - 1, 2 * r + 1, 2 * c + 1, t, rho);
        let q = p as real;
        assert(pow2(k) as real == 2real * q);
        assert(t * (2real * q) == 2real * (t * q) && rho * (2real * q) == 2real * (rho * q)) by (nonlinear_arith);
    }
}
