use vstd::std_specs::ops::*;
// ---- whole numbers held in doubles
pub open spec fn lim() -> int { 1000000000000000 }
pub proof fn lemma_lim(x: real) requires rabs(x) <= 1000000000000000000000000000000real * 1000000000000000000000000000000real ensures rabs(x) <= big() { lemma_big(); }
pub broadcast proof fn bl_whole(n: int, r: f64) requires #[trigger] int_as_f64(n, r), fin(r), -lim() <= n <= lim() ensures whole(r, n) { ax_rn_int(n); }
pub broadcast proof fn bl_sub_whole(a: f64, b: f64, r: f64, m: int, n: int)
    requires #[trigger] sub_ensures::<f64>(a, b, r), #[trigger] whole(a, m), #[trigger] whole(b, n), -lim() <= m <= lim(), -lim() <= n <= lim()
    ensures whole(r, m - n)
{ lemma_big(); ax_rn_int(m - n); assert((m - n) as real == m as real - n as real); }
pub broadcast proof fn bl_add_whole(a: f64, b: f64, r: f64, m: int, n: int)
    requires #[trigger] add_ensures::<f64>(a, b, r), #[trigger] whole(a, m), #[trigger] whole(b, n), -lim() <= m <= lim(), -lim() <= n <= lim()
    ensures whole(r, m + n)
{ lemma_big(); ax_rn_int(m + n); assert((m + n) as real == m as real + n as real); }
pub broadcast proof fn bl_inc_whole(a: f64, b: f64, r: f64, m: int)
    requires #[trigger] add_ensures::<f64>(a, b, r), #[trigger] whole(a, m), -lim() <= m <= lim(), fin(b), val(b) == 1real
    ensures whole(r, m + 1)
{ assert(whole(b, 1)); bl_add_whole(a, b, r, m, 1); }
pub broadcast proof fn bl_inc_whole2(a: f64, b: f64, r: f64, m: int)
    requires #[trigger] add_ensures::<f64>(a, b, r), #[trigger] whole(b, m), -lim() <= m <= lim(), fin(a), val(a) == 1real
    ensures whole(r, m + 1)
{ assert(whole(a, 1)); bl_add_whole(a, b, r, 1, m); }
pub broadcast proof fn bl_dec_whole(a: f64, b: f64, r: f64, m: int)
    requires #[trigger] sub_ensures::<f64>(a, b, r), #[trigger] whole(a, m), -lim() <= m <= lim(), fin(b), val(b) == 1real
    ensures whole(r, m - 1)
{ assert(whole(b, 1)); bl_sub_whole(a, b, r, m, 1); }
pub broadcast proof fn bl_one_minus(a: f64, b: f64, r: f64, m: int)
    requires #[trigger] sub_ensures::<f64>(a, b, r), #[trigger] whole(b, m), -lim() <= m <= lim(), fin(a), val(a) == 1real
    ensures whole(r, 1 - m)
{ assert(whole(a, 1)); bl_sub_whole(a, b, r, 1, m); }
pub broadcast proof fn bl_double_whole(a: f64, b: f64, r: f64, m: int)
    requires #[trigger] mul_ensures::<f64>(a, b, r), #[trigger] whole(b, m), -lim() <= m <= lim(), fin(a), val(a) == 2real
    ensures whole(r, 2 * m)
{ lemma_big(); ax_rn_int(2 * m); assert(val(a) * val(b) == (2 * m) as real) by (nonlinear_arith) requires val(a) == 2real, val(b) == m as real; }
pub broadcast proof fn bl_double_whole2(a: f64, b: f64, r: f64, m: int)
    requires #[trigger] mul_ensures::<f64>(a, b, r), #[trigger] whole(a, m), -lim() <= m <= lim(), fin(b), val(b) == 2real
    ensures whole(r, 2 * m)
{ lemma_big(); ax_rn_int(2 * m); assert(val(a) * val(b) == (2 * m) as real) by (nonlinear_arith) requires val(b) == 2real, val(a) == m as real; }
pub broadcast proof fn bl_half_whole(a: f64, b: f64, r: f64, m: int)
    requires #[trigger] div_ensures::<f64>(a, b, r), #[trigger] whole(a, m), -lim() <= m <= lim(), fin(b), val(b) == 2real, m % 2 == 0
    ensures whole(r, m / 2)
{
    lemma_big(); ax_rn_int(m / 2);
    let x = val(a) / val(b); let h = (m / 2) as real;
    assert(m == 2 * (m / 2));
    assert(x == h) by (nonlinear_arith) requires x == val(a) / val(b), val(b) == 2real, val(a) == 2real * h;
}
pub broadcast proof fn bl_round_whole(a: f64, m: int)
    requires #[trigger] whole(a, m)
    ensures rfl(val(a)) == m, rce(val(a)) == m, rro(val(a)) == m, trunc_real(val(a)) == m, int_of(a) == m, m >= 0 ==> val(a) >= 0real, m >= 1 ==> one(a)
{}
pub broadcast proof fn bl_whole_mag(a: f64, m: int)
    requires #[trigger] whole(a, m)
    ensures -10 <= m <= 10 ==> mag(a, 1), -100 <= m <= 100 ==> mag(a, 2), -1000 <= m <= 1000 ==> mag(a, 3)
{ assert(p10(1) == 10 && p10(2) == 100 && p10(3) == 1000) by (compute); }
pub broadcast group group_whole { bl_whole, bl_sub_whole, bl_add_whole, bl_inc_whole, bl_inc_whole2, bl_dec_whole, bl_one_minus, bl_double_whole, bl_double_whole2, bl_half_whole, bl_round_whole, bl_whole_mag }
