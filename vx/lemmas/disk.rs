use vstd::std_specs::ops::*;
use crate::vx_complex::num::*;
// ---- pixel (x, y) of a D x D image, mapped into the unit disk
pub open spec fn unit(x: int, d: int) -> real { rhalfroot() * ((1 + d - 2 * x) as real) / ((1 - d) as real) }
pub open spec fn centred(x: int, y: int, d: int) -> bool { unit(x, d) == 0real && unit(y, d) == 0real }
pub open spec fn rho(x: int, y: int, d: int) -> real { if centred(x, y, d) { 0real } else { rsqrt(rpow(unit(x, d), 2) + rpow(unit(y, d), 2)) } }
pub open spec fn phi(x: int, y: int, d: int) -> real { if centred(x, y, d) { 0real } else { ratan2(unit(y, d), unit(x, d)) } }
/*IF:accept*/
pub open spec fn polar_is(x: int, y: int, d: int, r: f64, t: f64) -> bool { in_disk(r) && mag(t, 1) }
pub open spec fn v_is(o: int, m: int, r: f64, t: f64, c: Complex<f64>) -> bool { cmag(c, 64) }
pub open spec fn zcell(o: int, m: int, i: int, d: int, c: Complex<f64>) -> bool { cmag(c, 64) }
pub open spec fn csum_is(p: Mat<u8>, o: int, m: int, n: int, c: Complex<f64>) -> bool { true }
pub open spec fn moment_is(p: Mat<u8>, o: int, m: int, c: Complex<f64>) -> bool { cmag(c, 86) }
pub open spec fn feature_is(p: Mat<u8>, o: int, m: int, r: f64) -> bool { fin(r) && val(r) >= 0real }
/*END*/
/*IF:ideal*/
pub open spec fn polar_is(x: int, y: int, d: int, r: f64, t: f64) -> bool { in_disk(r) && mag(t, 1) && val(r) == rho(x, y, d) && val(t) == phi(x, y, d) }
pub open spec fn v_is(o: int, m: int, r: f64, t: f64, c: Complex<f64>) -> bool {
    cmag(c, 64) && val(c.re) == rcos((m as real) * val(t)) * rpoly(o, m, val(r)) && val(c.im) == rsin((m as real) * val(t)) * rpoly(o, m, val(r)) }
pub open spec fn zcell(o: int, m: int, i: int, d: int, c: Complex<f64>) -> bool { cmag(c, 64) && val(c.re) == zre(o, m, i, d) && val(c.im) == zim(o, m, i, d) }
pub open spec fn csum_is(p: Mat<u8>, o: int, m: int, n: int, c: Complex<f64>) -> bool { val(c.re) == sre(p, o, m, n) && val(c.im) == sim(p, o, m, n) }
pub open spec fn moment_is(p: Mat<u8>, o: int, m: int, c: Complex<f64>) -> bool { cmag(c, 86) && val(c.re) == mre(p, o, m) && val(c.im) == mim(p, o, m) }
pub open spec fn feature_is(p: Mat<u8>, o: int, m: int, r: f64) -> bool { fin(r) && val(r) >= 0real && val(r) == rsqrt(mre(p, o, m) * mre(p, o, m) + mim(p, o, m) * mim(p, o, m)) }
/*END*/
// the conjugate of the Zernike polynomial of order o and repetition m at the i-th point of the D x D grid, row by row
pub open spec fn zre(o: int, m: int, i: int, d: int) -> real { rcos((m as real) * phi(i / d + 1, i % d + 1, d)) * rpoly(o, m, rho(i / d + 1, i % d + 1, d)) }
pub open spec fn zim(o: int, m: int, i: int, d: int) -> real { -(rsin((m as real) * phi(i / d + 1, i % d + 1, d)) * rpoly(o, m, rho(i / d + 1, i % d + 1, d))) }
pub open spec fn longer(p: Mat<u8>) -> int { if p.h() >= p.w { p.h() } else { p.w } }
pub open spec fn sre(p: Mat<u8>, o: int, m: int, n: int) -> real decreases n { if n <= 0 { 0real } else { sre(p, o, m, n - 1) + zre(o, m, n - 1, longer(p)) * (cells_of(p)[n - 1] as real) } }
pub open spec fn sim(p: Mat<u8>, o: int, m: int, n: int) -> real decreases n { if n <= 0 { 0real } else { sim(p, o, m, n - 1) + zim(o, m, n - 1, longer(p)) * (cells_of(p)[n - 1] as real) } }
// the Zernike moment of the image
pub open spec fn mre(p: Mat<u8>, o: int, m: int) -> real { sre(p, o, m, p.h() * p.w) * (((o + 1) as real) / rpi()) / ((p.h() * p.w) as real) }
pub open spec fn mim(p: Mat<u8>, o: int, m: int) -> real { sim(p, o, m, p.h() * p.w) * (((o + 1) as real) / rpi()) / ((p.h() * p.w) as real) }
pub open spec fn pictured(p: Mat<u8>) -> bool { 2 <= p.h() <= 1048576 && 2 <= p.w <= 1048576 }
pub open spec fn zmatrix(o: int, m: int, d: int, s: Seq<Complex<f64>>) -> bool { s.len() == d * d && forall|j: int| 0 <= j < d * d ==> zcell(o, m, j, d, #[trigger] s[j]) }
// ---- the bounds
pub proof fn lemma_close(r: f64, x: real) requires near(r, x), rabs(x) <= 100real ensures rabs(val(r) - x) <= 1real / 1000real
{ /*IF:accept*/ let a = rabs(x); assert(4real * eps() * a <= 1real / 10000real) by (nonlinear_arith) requires eps() == 1real / 9007199254740992real, 0real <= a <= 100real; /*END*/ }
pub proof fn lemma_rn_close(x: real) requires rabs(x) <= 100real ensures rabs(rn(x) - x) <= 1real / 1000real
{ ax_rn_err(x); let a = rabs(x); assert(eps() * a <= 1real / 10000real) by (nonlinear_arith) requires eps() == 1real / 9007199254740992real, 0real <= a <= 100real; }
pub proof fn lemma_consts() ensures fin(PI), fin(FRAC_1_SQRT_2), 3real <= val(PI) <= 4real, 69real / 100real <= val(FRAC_1_SQRT_2) <= 711real / 1000real, one(PI)
    /*IF:ideal*/, val(PI) == rpi(), val(FRAC_1_SQRT_2) == rhalfroot() /*END*/
{ ax_consts(); lemma_close(PI, rpi()); lemma_close(FRAC_1_SQRT_2, rhalfroot()); }
pub broadcast proof fn bl_scale(a: f64, b: f64, r: f64, m: int)
    requires #[trigger] mul_ensures::<f64>(a, b, r), #[trigger] whole(b, m), fin(a), rabs(val(a)) <= 711real / 1000real, -4000000 <= m <= 4000000
    ensures fin(r), rabs(val(r)) <= 72real / 100real * rabs(m as real), val(r) == rn(val(a) * (m as real))
{
    let x = val(a) * (m as real);
    lemma_abs_mul(val(a), m as real, 711real / 1000real, rabs(m as real));
    let y = rabs(m as real);
    assert(rabs(x) <= 711real / 1000real * y);
    lemma_big();
    ax_rn_err(x);
    assert(eps() * rabs(x) <= 1real / 1000real * y) by (nonlinear_arith) requires 0real <= rabs(x) <= y, eps() == 1real / 9007199254740992real;
    if m == 0 { assert(x == 0real) by (nonlinear_arith) requires x == val(a) * (m as real), m == 0; ax_rn_int(0); }
}
pub broadcast proof fn bl_unit(a: f64, b: f64, r: f64, n: int)
    requires #[trigger] div_ensures::<f64>(a, b, r), #[trigger] whole(b, n), n <= -1, fin(a), rabs(val(a)) <= 72real / 100real * (-n as real)
    ensures fin(r), rabs(val(r)) <= 73real / 100real, val(r) == rn(val(a) / (n as real))
{
    let q = val(a) / (n as real);
    let y = -n as real;
    assert(q * y == -val(a)) by (nonlinear_arith) requires q == val(a) / (n as real), y == -(n as real), n <= -1;
    assert(rabs(q) <= 72real / 100real) by (nonlinear_arith) requires q * y == -val(a), rabs(val(a)) <= 72real / 100real * y, y >= 1real;
    lemma_big();
    lemma_rn_close(q);
}
pub broadcast proof fn bl_square(x: real, e: int)
    requires rabs(x) <= 74real / 100real, e == 2
    ensures #[trigger] rpow(x, e) == x * x, 0real <= rpow(x, e) <= 55real / 100real
{
    assert(rpow(x, 2) == (1real * x) * x) by { reveal_with_fuel(rpow, 3); }
    assert(0real <= x * x <= 55real / 100real) by (nonlinear_arith) requires rabs(x) <= 74real / 100real;
}
pub broadcast proof fn bl_near_square(r: f64, x: real, e: int)
    requires #[trigger] near(r, rpow(x, e)), e == 2, rabs(x) <= 74real / 100real
    ensures 0real <= val(r) <= 56real / 100real
{ bl_square(x, e); lemma_close(r, rpow(x, e)); }
pub broadcast proof fn bl_square2(a: f64, r: f64)
    requires #[trigger] mul_ensures::<f64>(a, a, r), fin(a), rabs(val(a)) <= 74real / 100real
    ensures fin(r), 0real <= val(r) <= 56real / 100real, val(r) == rn(rpow(val(a), 2))
{ bl_square(val(a), 2); lemma_big(); ax_rn_err(val(a) * val(a)); ax_rn_mono(0real, val(a) * val(a)); ax_rn_int(0); }
pub broadcast proof fn bl_sum_disk(a: f64, b: f64, r: f64)
    requires #[trigger] add_ensures::<f64>(a, b, r), fin(a), fin(b), 0real <= val(a) <= 56real / 100real, 0real <= val(b) <= 56real / 100real
    ensures fin(r), 0real <= val(r) <= 113real / 100real, val(r) == rn(val(a) + val(b))
{ lemma_big(); lemma_rn_close(val(a) + val(b)); ax_rn_mono(0real, val(a) + val(b)); ax_rn_int(0); }
pub broadcast proof fn bl_near_sqrt(r: f64, x: real)
    requires #[trigger] near(r, rsqrt(x)), fin(r), 0real <= x <= 113real / 100real
    ensures in_disk(r)
{
    ax_sqrt(x);
    let s = rsqrt(x);
    assert(s <= 107real / 100real) by (nonlinear_arith) requires s * s <= 113real / 100real, s >= 0real;
    /*IF:accept*/ assert(4real * eps() * s <= 1real / 100real) by (nonlinear_arith) requires 0real <= s <= 2real, eps() == 1real / 9007199254740992real; /*END*/
}
pub broadcast proof fn bl_row(a: f64, b: f64, r: f64, i: int, d: int)
    requires #[trigger] div_ensures::<f64>(a, b, r), #[trigger] whole(a, i), #[trigger] whole(b, d), 0 <= i <= lim(), 0 < d <= lim()
    ensures fin(r), rfl(val(r)) == i / d, forall|f: f64| fin(f) && #[trigger] val(f) == (i / d) as real ==> whole(f, i / d) && int_of(f) == i / d
{ lemma_row(i, d); }
pub broadcast proof fn bl_inc_floor(a: f64, b: f64, r: f64)
    requires #[trigger] add_ensures::<f64>(a, b, r), whole(a, int_of(a)), fin(b), val(b) == 1real, -lim() <= int_of(a) <= lim()
    ensures whole(r, int_of(a) + 1)
{ bl_inc_whole(a, b, r, int_of(a)); }
pub proof fn lemma_few(x: f64, i: int, k: int) requires acc_in(x, i, k), 0 <= i <= 45, 0 <= k <= 70 ensures mag(x, k + 2)
{ lemma_pr_mul(k, 2); assert(p10(2) == 100) by (compute); let p = pr(k); assert((2 * i) as real * p <= p * 100real) by (nonlinear_arith) requires (2 * i) as real <= 90real, p >= 1real; }
pub proof fn lemma_square(d: int) requires 0 <= d <= 1048576 ensures 0 <= d * d <= 1099511627776 { assert(0 <= d * d <= 1099511627776) by (nonlinear_arith) requires 0 <= d <= 1048576; }
pub proof fn lemma_cell(i: int, d: int) requires 0 <= i < d * d, 0 < d ensures 0 <= i / d < d, 0 <= i % d < d {
    assert(0 <= i / d < d) by (nonlinear_arith) requires 0 <= i < d * d, 0 < d;
    assert(0 <= i % d < d) by (nonlinear_arith) requires 0 < d;
}
pub proof fn lemma_area(w: int, h: int, d: int) requires 0 <= w <= d, 0 <= h <= d, d <= 1048576 ensures 0 <= w * h <= d * d, h * w == w * h, d * d <= 1099511627776, w >= 1 && h >= 1 ==> w * h >= 1
{
    assert(0 <= w * h <= d * d) by (nonlinear_arith) requires 0 <= w <= d, 0 <= h <= d;
    assert(h * w == w * h) by (nonlinear_arith);
    lemma_square(d);
    if w >= 1 && h >= 1 { assert(w * h >= 1) by (nonlinear_arith) requires w >= 1, h >= 1; }
}
// the cells of a matrix cut from a sequence are that sequence
pub proof fn lemma_flat_square<T>(v: Seq<T>, d: int, n: int)
    requires 0 <= n <= d, v.len() >= n * d, 0 <= d
    ensures flat_rows(rows_of(v, n, d).d) == v.take(n * d)
    decreases n
{
    let m = rows_of(v, n, d);
    if n == 0 { assert(0 * d == 0) by (nonlinear_arith); assert(flat_rows(m.d) =~= v.take(n * d)); }
    else {
        assert((n - 1) * d + d == n * d && 0 <= (n - 1) * d) by (nonlinear_arith) requires n >= 1, d >= 0;
        lemma_flat_square(v, d, n - 1);
        assert(m.d.drop_last() =~= rows_of(v, n - 1, d).d);
        assert(m.d.last() == v.subrange((n - 1) * d, (n - 1 + 1) * d));
        assert((n - 1 + 1) * d == n * d);
        assert(v.take((n - 1) * d) + v.subrange((n - 1) * d, n * d) =~= v.take(n * d));
    }
}
pub proof fn lemma_flat_of<T>(d: int)
    requires 0 <= d <= 1048576
    ensures forall|v: Seq<T>| v.len() == d * d ==> flat_rows((#[trigger] rows_of(v, d, d)).d) == v
{
    assert forall|v: Seq<T>| v.len() == d * d implies flat_rows((#[trigger] rows_of(v, d, d)).d) == v by { lemma_flat_square(v, d, d); assert(v.take(d * d) =~= v); }
}
pub broadcast group group_row { bl_row, bl_inc_floor }
pub broadcast group group_disk { bl_scale, bl_unit, bl_square, bl_near_square, bl_square2, bl_sum_disk, bl_near_sqrt, bl_row, bl_inc_floor }
pub open spec fn features_are(p: Mat<u8>, n: int, s: Seq<f64>) -> bool { s.len() == n && forall|j: int| 0 <= j < n ==> feature_is(p, 2 * n - 1, 2 * j + 1, #[trigger] s[j]) }
pub broadcast proof fn bl_moment(p: Mat<u8>, o: int, m: int, c: Complex<f64>) requires #[trigger] moment_is(p, o, m, c) ensures cwithin(c, big()) { lemma_p10_big(86); }
pub broadcast group group_moment { bl_moment }
