use vstd::std_specs::ops::*;
use crate::vx_complex::num::*;
// ---- magnitudes: a double of at most 10^k
pub open spec fn p10(k: int) -> int decreases k { if k <= 0 { 1 } else { 10 * p10(k - 1) } }
pub open spec fn pr(k: int) -> real { p10(k) as real }
pub open spec fn mag(x: f64, k: int) -> bool { fin(x) && rabs(val(x)) <= pr(k) }
pub open spec fn one(x: f64) -> bool { fin(x) && val(x) >= 1real }
pub open spec fn cmag(c: Complex<f64>, k: int) -> bool { mag(c.re, k) && mag(c.im, k) }
pub proof fn lemma_p10(k: int) ensures p10(k) >= 1, k > 0 ==> p10(k) == 10 * p10(k - 1) decreases k { if k > 0 { lemma_p10(k - 1); } }
pub proof fn lemma_p10_add(k: int, l: int)
    requires k >= 0, l >= 0
    ensures p10(k + l) == p10(k) * p10(l)
    decreases l
{
    if l > 0 {
        lemma_p10_add(k, l - 1);
        lemma_p10(k); lemma_p10(l); lemma_p10(k + l);
        assert(10 * (p10(k) * p10(l - 1)) == p10(k) * (10 * p10(l - 1))) by (nonlinear_arith);
    } else { assert(p10(k) * 1 == p10(k)) by (nonlinear_arith); }
}
pub proof fn lemma_p10_mono(k: int, l: int) requires k <= l ensures p10(k) <= p10(l) decreases l - k { lemma_p10(l); if k < l { lemma_p10_mono(k, l - 1); } }
pub proof fn lemma_p10_big(k: int) requires k <= 90 ensures pr(k) <= big()
{
    lemma_p10_mono(k, 90);
    lemma_p10_add(30, 30); lemma_p10_add(60, 30);
    assert(p10(30) == 1000000000000000000000000000000) by (compute);
    let t = 1000000000000000000000000000000int;
    assert((t * t * t) as real == (t as real) * (t as real) * (t as real)) by (nonlinear_arith);
    assert(p10(90) == t * t * t);
}
// rounding adds less than a decimal place
pub proof fn lemma_rn_mag(x: real, k: int)
    requires rabs(x) <= 2real * pr(k), 0 <= k <= 88
    ensures rabs(rn(x)) <= pr(k + 1), rabs(x) <= big()
{
    lemma_p10(k); lemma_p10(k + 1);
    lemma_p10_big(k + 1);
    ax_rn_err(x);
    let a = rabs(x);
    assert(eps() * a <= a) by (nonlinear_arith) requires eps() == 1real / 9007199254740992real, a >= 0real;
    assert(rabs(rn(x)) <= 4real * pr(k) + tiny());
    assert(pr(k + 1) == 10real * pr(k)) by { assert((10 * p10(k)) as real == 10real * (p10(k) as real)); }
}
pub proof fn lemma_abs_mul(a: real, b: real, m: real, n: real)
    requires rabs(a) <= m, rabs(b) <= n
    ensures rabs(a * b) <= m * n
{
    let x = rabs(a); let y = rabs(b);
    assert(x * y <= m * n) by (nonlinear_arith) requires 0real <= x <= m, 0real <= y <= n;
    assert(rabs(a * b) == x * y) by (nonlinear_arith) requires x == rabs(a), y == rabs(b);
}
pub proof fn lemma_pr_mul(k: int, l: int) requires k >= 0, l >= 0 ensures pr(k) * pr(l) == pr(k + l), pr(k) >= 1real
{
    lemma_p10_add(k, l); lemma_p10(k);
    let a = p10(k); let b = p10(l);
    assert((a * b) as real == (a as real) * (b as real)) by (nonlinear_arith);
}
pub broadcast proof fn bl_mul(a: f64, b: f64, r: f64, k: int, l: int)
    requires #[trigger] mul_ensures::<f64>(a, b, r), #[trigger] mag(a, k), #[trigger] mag(b, l), k >= 0, l >= 0, k + l <= 88
    ensures rabs(val(a) * val(b)) <= big(), mag(r, k + l + 1), val(r) == rn(val(a) * val(b))
{
    lemma_pr_mul(k, l);
    lemma_abs_mul(val(a), val(b), pr(k), pr(l));
    lemma_rn_mag(val(a) * val(b), k + l);
}
pub broadcast proof fn bl_mul_small(a: f64, b: f64, r: f64, k: int)
    requires #[trigger] mul_ensures::<f64>(a, b, r), #[trigger] mag(a, k), fin(b), rabs(val(b)) <= 10000real, 0 <= k <= 84
    ensures rabs(val(a) * val(b)) <= big(), mag(r, k + 5), val(r) == rn(val(a) * val(b))
{ assert(p10(4) == 10000) by (compute); bl_mul(a, b, r, k, 4); }
pub broadcast proof fn bl_mul_small2(a: f64, b: f64, r: f64, k: int)
    requires #[trigger] mul_ensures::<f64>(b, a, r), #[trigger] mag(a, k), fin(b), rabs(val(b)) <= 10000real, 0 <= k <= 84
    ensures rabs(val(b) * val(a)) <= big(), mag(r, k + 5), val(r) == rn(val(b) * val(a))
{ assert(p10(4) == 10000) by (compute); bl_mul(b, a, r, 4, k); }
pub broadcast proof fn bl_mul_one(a: f64, b: f64, r: f64)
    requires #[trigger] mul_ensures::<f64>(a, b, r), #[trigger] one(a), #[trigger] one(b), rabs(val(a) * val(b)) <= big()
    ensures one(r)
{
    let x = val(a); let y = val(b);
    assert(x * y >= 1real) by (nonlinear_arith) requires x >= 1real, y >= 1real;
    ax_rn_mono(1real, x * y);
    ax_rn_int(1);
}
pub broadcast proof fn bl_div(a: f64, b: f64, r: f64, k: int)
    requires #[trigger] div_ensures::<f64>(a, b, r), #[trigger] mag(a, k), #[trigger] one(b), 0 <= k <= 88
    ensures rabs(val(a) / val(b)) <= big(), mag(r, k + 1), val(r) == rn(val(a) / val(b))
{
    let x = val(a); let y = val(b); let q = x / y;
    assert(q * y == x) by (nonlinear_arith) requires q == x / y, y >= 1real;
    assert(rabs(q) <= rabs(x)) by (nonlinear_arith) requires q * y == x, y >= 1real;
    lemma_p10(k);
    lemma_rn_mag(q, k);
}
pub broadcast proof fn bl_zero_mag(x: f64, k: int) requires fin(x), val(x) == 0real, k >= 0 ensures #[trigger] mag(x, k) { lemma_p10(k); }
pub broadcast proof fn bl_cmag(c: Complex<f64>, k: int) requires #[trigger] mag(c.re, k), #[trigger] mag(c.im, k) ensures cmag(c, k) {}
pub broadcast proof fn bl_scaled(c: Complex<f64>, o: f64, r: Complex<f64>, k: int, l: int)
    requires #[trigger] scaled(c, o, r), #[trigger] cmag(c, k), #[trigger] mag(o, l), k >= 0, l >= 0, k + l <= 88
    ensures cmag(r, k + l + 1), val(r.re) == rn(val(c.re) * val(o)), val(r.im) == rn(val(c.im) * val(o)),
        val(c.re) == 0real ==> val(r.re) == 0real, val(c.im) == 1real ==> val(r.im) == val(o)
{
    lemma_pr_mul(k, l);
    lemma_abs_mul(val(c.re), val(o), pr(k), pr(l));
    lemma_abs_mul(val(c.im), val(o), pr(k), pr(l));
    lemma_rn_mag(val(c.re) * val(o), k + l);
    lemma_rn_mag(val(c.im) * val(o), k + l);
    let x = val(c.re); let y = val(c.im); let z = val(o);
    if x == 0real { assert(x * z == 0real) by (nonlinear_arith) requires x == 0real; }
    if y == 1real { assert(y * z == z) by (nonlinear_arith) requires y == 1real; }
}
pub broadcast proof fn bl_divided(c: Complex<f64>, o: f64, r: Complex<f64>, k: int)
    requires #[trigger] divided(c, o, r), #[trigger] cmag(c, k), #[trigger] one(o), 0 <= k <= 88
    ensures cmag(r, k + 1), val(r.re) == rn(val(c.re) / val(o)), val(r.im) == rn(val(c.im) / val(o))
{
    let y = val(o);
    lemma_p10(k);
    let p = val(c.re) / y; let q = val(c.im) / y;
    assert(p * y == val(c.re)) by (nonlinear_arith) requires p == val(c.re) / y, y >= 1real;
    assert(q * y == val(c.im)) by (nonlinear_arith) requires q == val(c.im) / y, y >= 1real;
    assert(rabs(p) <= rabs(val(c.re))) by (nonlinear_arith) requires p * y == val(c.re), y >= 1real;
    assert(rabs(q) <= rabs(val(c.im))) by (nonlinear_arith) requires q * y == val(c.im), y >= 1real;
    lemma_rn_mag(p, k); lemma_rn_mag(q, k);
}
// ---- sums of i terms of at most 10^k
pub open spec fn acc_in(x: f64, i: int, k: int) -> bool { fin(x) && rabs(val(x)) <= (2 * i) as real * pr(k) }
pub open spec fn cacc_in(c: Complex<f64>, i: int, k: int) -> bool { acc_in(c.re, i, k) && acc_in(c.im, i, k) }
pub open spec fn most() -> int { 2000000000000 }
pub proof fn lemma_acc_bound(i: int, k: int) requires 0 <= i <= most(), 0 <= k <= 70 ensures (2 * i) as real * pr(k) <= pr(k + 13) {
    lemma_pr_mul(k, 13);
    assert(p10(13) == 10000000000000) by (compute);
    let p = pr(k);
    assert((2 * i) as real * p <= 10000000000000real * p) by (nonlinear_arith) requires (2 * i) as real <= 10000000000000real, p >= 1real;
    assert(p * 10000000000000real == 10000000000000real * p) by (nonlinear_arith);
}
pub proof fn lemma_acc(x: real, t: real, i: int, k: int)
    requires rabs(x) <= (2 * i) as real * pr(k), rabs(t) <= pr(k), 0 <= i < most(), 0 <= k <= 70
    ensures rabs(x + t) <= big(), rabs(rn(x + t)) <= (2 * (i + 1)) as real * pr(k)
{
    let p = pr(k);
    lemma_p10(k);
    lemma_acc_bound(i + 1, k);
    lemma_p10_big(k + 13);
    let n = (2 * i) as real;
    assert(n * p + 2real * p == (2 * (i + 1)) as real * p) by (nonlinear_arith) requires (2 * (i + 1)) as real == n + 2real;
    ax_rn_err(x + t);
    let s = rabs(x + t);
    assert(s <= n * p + p);
    assert(eps() * s <= eps() * (n * p + p)) by (nonlinear_arith) requires s <= n * p + p, eps() == 1real / 9007199254740992real;
    assert(eps() * (n * p + p) <= 1real / 10real * p) by (nonlinear_arith) requires 0real <= n <= 4000000000000real, p >= 1real, eps() == 1real / 9007199254740992real;
    assert(tiny() <= 1real / 10real * p);
}
pub broadcast proof fn bl_acc(x: f64, t: f64, r: f64, i: int, k: int)
    requires #[trigger] add_ensures::<f64>(x, t, r), #[trigger] acc_in(x, i, k), #[trigger] mag(t, k), 0 <= i < most(), 0 <= k <= 70
    ensures acc_in(r, i + 1, k), val(r) == rn(val(x) + val(t))
{ lemma_acc(val(x), val(t), i, k); }
pub broadcast proof fn bl_cacc(x: Complex<f64>, t: Complex<f64>, r: Complex<f64>, i: int, k: int)
    requires #[trigger] added(x, t, r), #[trigger] cacc_in(x, i, k), #[trigger] cmag(t, k), 0 <= i < most(), 0 <= k <= 70
    ensures cacc_in(r, i + 1, k), val(r.re) == rn(val(x.re) + val(t.re)), val(r.im) == rn(val(x.im) + val(t.im))
{ lemma_acc(val(x.re), val(t.re), i, k); lemma_acc(val(x.im), val(t.im), i, k); }
pub broadcast proof fn bl_acc0(x: f64, i: int, k: int) requires i == 0, fin(x), val(x) == 0real, k >= 0 ensures #[trigger] acc_in(x, i, k)
{ let p = pr(k); lemma_p10(k); assert((2 * i) as real * p == 0real) by (nonlinear_arith) requires i == 0; }
pub proof fn lemma_acc_mag(x: f64, i: int, k: int) requires acc_in(x, i, k), 0 <= i <= most(), 0 <= k <= 70 ensures mag(x, k + 13) { lemma_acc_bound(i, k); }
// ---- powers
pub broadcast proof fn bl_rpow(x: real, e: int)
    requires rabs(x) <= 6real / 5real, 0 <= e <= 40
    ensures rabs(#[trigger] rpow(x, e)) <= 2000real, x >= 0real ==> rpow(x, e) >= 0real, rabs(rpow(x, e)) <= big()
{
    lemma_rpow(x, e);
    lemma_p10_big(4);
    assert(p10(4) == 10000) by (compute);
    assert(grow(40) <= 2000real) by (compute);
    lemma_grow(e, 40);
}
pub open spec fn grow(e: int) -> real decreases e { if e <= 0 { 1real } else { grow(e - 1) * (6real / 5real) } }
pub proof fn lemma_grow(d: int, e: int) requires 0 <= d <= e ensures 1real <= grow(d) <= grow(e) decreases e { if e > 0 { if d < e { lemma_grow(d, e - 1); } else { lemma_grow(d - 1, e - 1); } } }
pub proof fn lemma_rpow(x: real, e: int)
    requires rabs(x) <= 6real / 5real, 0 <= e
    ensures rabs(rpow(x, e)) <= grow(e), x >= 0real ==> rpow(x, e) >= 0real
    decreases e
{
    if e > 0 {
        lemma_rpow(x, e - 1);
        lemma_abs_mul(rpow(x, e - 1), x, grow(e - 1), 6real / 5real);
        let p = rpow(x, e - 1);
        if x >= 0real { assert(p * x >= 0real) by (nonlinear_arith) requires p >= 0real, x >= 0real; }
    }
}
pub broadcast proof fn bl_near_pow(r: f64, x: real, e: int)
    requires fin(r), #[trigger] near(r, rpow(x, e)), rabs(x) <= 6real / 5real, 0 <= e <= 40
    ensures mag(r, 4), rabs(val(r)) <= 10000real
{
    bl_rpow(x, e);
    assert(p10(4) == 10000) by (compute);
    /*IF:accept*/ lemma_near(r, rpow(x, e), 2000real); /*END*/
}
/*IF:accept*/
pub proof fn lemma_near(r: f64, x: real, b: real) requires near(r, x), rabs(x) <= b ensures rabs(val(r)) <= 2real * b + 1real
{ let a = rabs(x); assert(4real * eps() * a <= a) by (nonlinear_arith) requires eps() == 1real / 9007199254740992real, a >= 0real; }
/*END*/
pub broadcast proof fn bl_near_cos(r: f64, x: real)
    requires fin(r), #[trigger] near(r, rcos(x))
    ensures mag(r, 1)
{ ax_circle(x); /*IF:accept*/ lemma_near(r, rcos(x), 1real); /*END*/ assert(p10(1) == 10) by (compute); }
pub broadcast proof fn bl_near_sin(r: f64, x: real)
    requires fin(r), #[trigger] near(r, rsin(x))
    ensures mag(r, 1)
{ ax_circle(x); /*IF:accept*/ lemma_near(r, rsin(x), 1real); /*END*/ assert(p10(1) == 10) by (compute); }
pub broadcast proof fn bl_near_atan2(r: f64, y: real, x: real)
    requires fin(r), #[trigger] near(r, ratan2(y, x))
    ensures mag(r, 1)
{ ax_atan2(y, x); /*IF:accept*/ lemma_near(r, ratan2(y, x), 4real); /*END*/ assert(p10(1) == 10) by (compute); }
// ---- factorials
pub open spec fn facti(m: int) -> int decreases m { if m <= 0 { 1 } else { m * facti(m - 1) } }
pub open spec fn fdig(m: int) -> int { if m <= 20 { 19 } else { 49 } }
/*IF:accept*/
pub open spec fn fact_is(m: int, r: f64) -> bool { fin(r) && val(r) >= 1real && val(r) <= (facti(m) as real) * (1real + (m as real) / 1000real) }
/*END*/
/*IF:ideal*/
pub open spec fn fact_is(m: int, r: f64) -> bool { fin(r) && val(r) == facti(m) as real && val(r) >= 1real && val(r) <= (facti(m) as real) * (1real + (m as real) / 1000real) }
/*END*/
pub proof fn lemma_facti(a: int, b: int) requires 0 <= a <= b ensures 1 <= facti(a) <= facti(b) decreases b {
    if b > 0 {
        if a < b { lemma_facti(a, b - 1); assert(b * facti(b - 1) >= facti(b - 1)) by (nonlinear_arith) requires b >= 1, facti(b - 1) >= 1; }
        else { lemma_facti(a - 1, b - 1); assert(b * facti(b - 1) >= 1) by (nonlinear_arith) requires b >= 1, facti(b - 1) >= 1; }
    }
}
pub proof fn lemma_fact_mag(m: int, r: f64) requires fact_is(m, r), 0 <= m <= 40 ensures mag(r, fdig(m)), one(r)
{
    let t = if m <= 20 { 20int } else { 40int };
    lemma_facti(m, t);
    assert(facti(20) == 2432902008176640000) by (compute);
    assert(facti(40) <= 1000000000000000000000000000000000000000000000000) by (compute);
    assert(p10(19) == 10000000000000000000) by (compute);
    assert(p10(49) == 10000000000000000000000000000000000000000000000000) by (compute);
    let f = facti(m) as real; let d = (m as real) / 1000real;
    assert(f * (1real + d) <= 2real * f) by (nonlinear_arith) requires f >= 1real, 0real <= d <= 1real;
}
pub broadcast proof fn bl_fact_mag(m: int, r: f64) requires #[trigger] fact_is(m, r), 0 <= m <= 40 ensures mag(r, 49), m <= 20 ==> mag(r, 19), one(r) { lemma_fact_mag(m, r); lemma_p10_mono(fdig(m), 49); }
pub broadcast proof fn bl_fact_step(m: int, a: f64, x: f64, r: f64)
    requires #[trigger] fact_is(m, a), #[trigger] mul_ensures::<f64>(a, x, r), whole(x, m + 1), 0 <= m < 40
    ensures fact_is(m + 1, r)
{ lemma_fact_step(m, a, x, r); }
pub broadcast proof fn bl_fact_step2(m: int, a: f64, x: f64, r: f64)
    requires #[trigger] fact_is(m, a), #[trigger] mul_ensures::<f64>(x, a, r), whole(x, m + 1), 0 <= m < 40
    ensures fact_is(m + 1, r)
{ lemma_comm(a, x); lemma_fact_mag(m, a); lemma_fact_step(m, a, x, r); }
pub broadcast proof fn bl_fact_base(m: int, r: f64) requires 0 <= m <= 1, fin(r), val(r) == 1real ensures #[trigger] fact_is(m, r)
{
    assert(facti(0) == 1 && facti(1) == 1) by (compute);
    let d = (m as real) / 1000real;
    assert(1real <= (facti(m) as real) * (1real + d)) by (nonlinear_arith) requires facti(m) == 1, d >= 0real;
}
pub proof fn lemma_fact_step(m: int, a: f64, x: f64, r: f64)
    requires fact_is(m, a), mul_ensures::<f64>(a, x, r) || mul_ensures::<f64>(x, a, r), whole(x, m + 1), 0 <= m < 40
    ensures fact_is(m + 1, r)
{
    lemma_fact_mag(m, a);
    lemma_comm(a, x);
    let v = val(a); let n = (m + 1) as real; let f = facti(m) as real; let g = facti(m + 1) as real;
    let d = (m as real) / 1000real; let d2 = n / 1000real;
    lemma_p10_mono(fdig(m), 49);
    assert(p10(2) == 100) by (compute);
    lemma_pr_mul(49, 2);
    lemma_abs_mul(v, n, pr(49), pr(2));
    lemma_p10_big(51);
    assert(val(r) == rn(v * n));
    lemma_facti(m, m + 1);
    assert(g == n * f) by { assert(((m + 1) * facti(m)) as real == ((m + 1) as real) * (facti(m) as real)) by (nonlinear_arith); }
    assert(v * n >= 1real) by (nonlinear_arith) requires v >= 1real, n >= 1real;
    ax_rn_mono(1real, v * n); ax_rn_int(1);
    ax_rn_err(v * n);
    assert(v * n <= g * (1real + d)) by (nonlinear_arith) requires v <= f * (1real + d), n >= 1real, g == n * f;
    let b = g * (1real + d);
    assert(eps() * (v * n) <= eps() * b) by (nonlinear_arith) requires v * n <= b, eps() == 1real / 9007199254740992real;
    assert(g >= 1real);
    assert(b * eps() + tiny() <= g * (1real / 1000real)) by (nonlinear_arith) requires b == g * (1real + d), 0real <= d <= 1real, g >= 1real, eps() == 1real / 9007199254740992real, tiny() <= 1real / 10000real;
    assert(b + g * (1real / 1000real) == g * (1real + d2)) by (nonlinear_arith) requires b == g * (1real + d), d2 == d + 1real / 1000real;
    assert(eps() * b == b * eps()) by (nonlinear_arith);
    /*IF:ideal*/ assert(v * n == g) by (nonlinear_arith) requires v == f, g == n * f; /*END*/
}
// ---- the radial polynomial of order o and repetition m
pub open spec fn fits(o: int, m: int) -> bool { 0 <= m <= o <= 40 && (o - m) % 2 == 0 }
pub open spec fn coef(o: int, m: int, s: int) -> real {
    (facti(o - s) as real) / ((facti(s) as real) * (facti((o + m) / 2 - s) as real) * (facti((o - m) / 2 - s) as real))
}
pub open spec fn fterm(o: int, m: int, s: int, p: real) -> real { coef(o, m, s) * rpow(p, o - 2 * s) }
// (-1)^e x
pub open spec fn signed(e: int, x: real) -> real { if e % 2 == 0 { x } else { -x } }
pub proof fn lemma_minus_one(e: int) requires 0 <= e ensures rpow(-1real, e) == signed(e, 1real) decreases e
{ if e > 0 { lemma_minus_one(e - 1); assert(rpow(-1real, e) == rpow(-1real, e - 1) * (-1real)); } }
pub broadcast proof fn bl_signed(a: f64, b: f64, r: f64, e: int)
    requires #[trigger] mul_ensures::<f64>(a, b, r), #[trigger] near(a, rpow(-1real, e)), 0 <= e, fin(a), fin(b)
    ensures /*IF:ideal*/ val(a) * val(b) == signed(e, val(b)) /*END*/ /*IF:accept*/ true /*END*/
{
    lemma_minus_one(e);
    let x = val(b);
    /*IF:ideal*/ assert(val(a) * x == signed(e, x)) by (nonlinear_arith) requires val(a) == signed(e, 1real); /*END*/
}
pub broadcast proof fn bl_unit_sign(a: f64, b: f64, r: f64)
    requires #[trigger] mul_ensures::<f64>(a, b, r), fin(a), fin(b), val(a) == 1real || val(a) == -1real
    ensures val(a) * val(b) == (if val(a) == 1real { val(b) } else { -val(b) })
{ let y = val(a); let x = val(b); assert(y * x == (if y == 1real { x } else { -x })) by (nonlinear_arith) requires y == 1real || y == -1real; }
pub open spec fn rsum(o: int, m: int, p: real, n: int) -> real decreases n { if n <= 0 { 0real } else { rsum(o, m, p, n - 1) + signed(n - 1, fterm(o, m, n - 1, p)) } }
pub open spec fn rpoly(o: int, m: int, p: real) -> real { rsum(o, m, p, (o - m) / 2 + 1) }
pub open spec fn in_disk(r: f64) -> bool { fin(r) && 0real <= val(r) <= 6real / 5real }
/*IF:accept*/
pub open spec fn term_is(o: int, m: int, s: int, p: f64, r: f64) -> bool { mag(r, 55) }
pub open spec fn radial_is(o: int, m: int, p: f64, r: f64) -> bool { mag(r, 62) }
pub open spec fn sum_is(o: int, m: int, p: f64, n: int, r: f64) -> bool { true }
/*END*/
/*IF:ideal*/
pub open spec fn term_is(o: int, m: int, s: int, p: f64, r: f64) -> bool { mag(r, 55) && val(r) == fterm(o, m, s, val(p)) }
pub open spec fn radial_is(o: int, m: int, p: f64, r: f64) -> bool { mag(r, 62) && val(r) == rpoly(o, m, val(p)) }
pub open spec fn sum_is(o: int, m: int, p: f64, n: int, r: f64) -> bool { val(r) == rsum(o, m, val(p), n) }
/*END*/
pub broadcast group group_zern { bl_mul, bl_mul_small, bl_mul_small2, bl_mul_one, bl_div, bl_zero_mag, bl_cmag, bl_scaled, bl_divided, bl_acc, bl_acc0, bl_cacc, bl_rpow, bl_near_pow, bl_near_cos, bl_near_sin, bl_near_atan2, bl_fact_mag, bl_fact_base, bl_fact_step, bl_fact_step2, bl_signed, bl_unit_sign }
