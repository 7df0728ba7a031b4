// Assumed contracts on double-precision arithmetic (IEEE 754, round to nearest): trusted.
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
// finite, and the real number it stands for
pub uninterp spec fn fin(x: f64) -> bool;
pub uninterp spec fn val(x: f64) -> real;
// rounding of a real to the nearest double
pub uninterp spec fn rn(x: real) -> real;
pub open spec fn rabs(x: real) -> real { if x >= 0real { x } else { -x } }
pub open spec fn eps() -> real { 1real / 9007199254740992real }
pub open spec fn tiny() -> real { 1real / 1000000000000000000000000000000real }
pub open spec fn big() -> real { 1000000000000000000000000000000real * 1000000000000000000000000000000real * 1000000000000000000000000000000real }
pub broadcast axiom fn ax_rn_err(e: real) ensures rabs(#[trigger] rn(e) - e) <= eps() * rabs(e) + tiny();
pub broadcast axiom fn ax_rn_zero() ensures #[trigger] rn(0real) == 0real;
pub axiom fn ax_rn_mono(a: real, b: real) requires a <= b ensures rn(a) <= rn(b);
pub broadcast axiom fn ax_rn_val(x: f64) requires fin(x) ensures #[trigger] rn(val(x)) == val(x);
// multiples of 1/k for the powers of two up to 2^16 are represented exactly
pub open spec fn pow2k(k: int) -> bool { k == 1 || k == 2 || k == 4 || k == 8 || k == 16 || k == 32 || k == 64 || k == 128 || k == 256 || k == 512 || k == 1024 || k == 2048 || k == 4096 || k == 8192 || k == 16384 || k == 32768 || k == 65536 }
pub axiom fn ax_rn_dyadic(n: int, k: int) requires -9007199254740992 <= n <= 9007199254740992, pow2k(k) ensures rn(n as real / k as real) == n as real / k as real;
pub broadcast axiom fn ax_rn_int(n: int) requires -9007199254740992 <= n <= 9007199254740992 ensures #[trigger] rn(n as real) == n as real;
pub open spec fn rfl(x: real) -> int { x.floor() }
pub open spec fn rce(x: real) -> int { -((-x).floor()) }
// half away from zero
pub open spec fn rro(x: real) -> int { if x >= 0real { (x + 0.5real).floor() } else { -((-x + 0.5real).floor()) } }
pub open spec fn trunc_real(x: real) -> int { if x >= 0real { x.floor() } else { -((-x).floor()) } }
pub open spec fn clamp_int(x: int, lo: int, hi: int) -> int { if x < lo { lo } else if x > hi { hi } else { x } }
// the double an integer converts to
pub uninterp spec fn of_int(n: int) -> f64;
pub open spec fn int_as_f64(n: int, r: f64) -> bool { val(r) == rn(n as real) && r == of_int(n) }
pub axiom fn ax_of_int(n: int) ensures fin(of_int(n)), val(of_int(n)) == rn(n as real);
/*GEN:float_casts*/
pub broadcast axiom fn ax_div(a: f64, b: f64, r: f64) requires #[trigger] div_ensures::<f64>(a, b, r), fin(a), fin(b), val(b) != 0real, rabs(val(a) / val(b)) <= big() ensures fin(r), val(r) == rn(val(a) / val(b));
pub broadcast axiom fn ax_mul(a: f64, b: f64, r: f64) requires #[trigger] mul_ensures::<f64>(a, b, r), fin(a), fin(b), rabs(val(a) * val(b)) <= big() ensures fin(r), val(r) == rn(val(a) * val(b));
pub broadcast axiom fn ax_add(a: f64, b: f64, r: f64) requires #[trigger] add_ensures::<f64>(a, b, r), fin(a), fin(b), rabs(val(a) + val(b)) <= big() ensures fin(r), val(r) == rn(val(a) + val(b));
pub broadcast axiom fn ax_sub(a: f64, b: f64, r: f64) requires #[trigger] sub_ensures::<f64>(a, b, r), fin(a), fin(b), rabs(val(a) - val(b)) <= big() ensures fin(r), val(r) == rn(val(a) - val(b));
pub broadcast axiom fn ax_div_req(a: f64, b: f64) ensures #[trigger] DivSpec::div_req(a, b);
pub broadcast axiom fn ax_mul_req(a: f64, b: f64) ensures #[trigger] MulSpec::mul_req(a, b);
pub broadcast axiom fn ax_add_req(a: f64, b: f64) ensures #[trigger] AddSpec::add_req(a, b);
pub broadcast axiom fn ax_sub_req(a: f64, b: f64) ensures #[trigger] SubSpec::sub_req(a, b);
pub broadcast axiom fn ax_ge(a: f64, b: f64, r: bool) requires #[trigger] ge_ensures::<f64>(a, b, r), fin(a), fin(b) ensures r == (val(a) >= val(b));
pub broadcast axiom fn ax_le(a: f64, b: f64, r: bool) requires #[trigger] le_ensures::<f64>(a, b, r), fin(a), fin(b) ensures r == (val(a) <= val(b));
pub broadcast axiom fn ax_gt(a: f64, b: f64, r: bool) requires #[trigger] gt_ensures::<f64>(a, b, r), fin(a), fin(b) ensures r == (val(a) > val(b));
pub broadcast axiom fn ax_lt(a: f64, b: f64, r: bool) requires #[trigger] lt_ensures::<f64>(a, b, r), fin(a), fin(b) ensures r == (val(a) < val(b));
pub trait VxFl: Sized {
    fn vx_floor(self) -> Self;
    fn vx_ceil(self) -> Self;
    fn vx_round(self) -> Self;
    fn vx_abs(self) -> Self;
    fn vx_trunc(self) -> Self;
}
impl VxFl for f32 {
    #[verifier::external_body] fn vx_floor(self) -> (r: f32) { self.floor() }
    #[verifier::external_body] fn vx_ceil(self) -> (r: f32) { self.ceil() }
    #[verifier::external_body] fn vx_round(self) -> (r: f32) { self.round() }
    #[verifier::external_body] fn vx_abs(self) -> (r: f32) { self.abs() }
    #[verifier::external_body] fn vx_trunc(self) -> (r: f32) { self.trunc() }
}
impl VxFl for f64 {
    #[verifier::external_body] fn vx_floor(self) -> (r: f64) ensures fin(self) ==> fin(r) && val(r) == rfl(val(self)) as real { self.floor() }
    #[verifier::external_body] fn vx_ceil(self) -> (r: f64) ensures fin(self) ==> fin(r) && val(r) == rce(val(self)) as real { self.ceil() }
    #[verifier::external_body] fn vx_round(self) -> (r: f64) ensures fin(self) ==> fin(r) && val(r) == rro(val(self)) as real { self.round() }
    #[verifier::external_body] fn vx_abs(self) -> (r: f64) ensures fin(self) ==> fin(r) && val(r) == rabs(val(self)) { self.abs() }
    #[verifier::external_body] fn vx_trunc(self) -> (r: f64) ensures fin(self) ==> fin(r) && val(r) == trunc_real(val(self)) as real { self.trunc() }
}
impl VxMinMax for f64 {
    #[verifier::external_body] fn vx_max(self, o: f64) -> (r: f64) ensures fin(self) && fin(o) ==> fin(r) && val(r) == (if val(self) >= val(o) { val(self) } else { val(o) }) { self.max(o) }
    #[verifier::external_body] fn vx_min(self, o: f64) -> (r: f64) ensures fin(self) && fin(o) ==> fin(r) && val(r) == (if val(self) <= val(o) { val(self) } else { val(o) }) { self.min(o) }
}
pub uninterp spec fn fneg(x: f64) -> f64;
pub axiom fn ax_fneg(x: f64) requires fin(x) ensures fin(fneg(x)), val(fneg(x)) == -val(x);
impl VxNeg for f64 {
    open spec fn neg_ens(self, r: f64) -> bool { r == fneg(self) && (fin(self) ==> fin(r) && val(r) == -val(self)) }
    #[verifier::external_body] fn vx_neg(self) -> (r: f64) { -self }
}
impl VxNeg for i32 {
    open spec fn neg_ens(self, r: i32) -> bool { self > i32::MIN ==> r == -self }
    #[verifier::external_body] fn vx_neg(self) -> (r: i32) { -self }
}
pub proof fn lemma_floor_frac(n: int, k: int)
    requires k > 0
    ensures rfl(n as real / k as real) == n / k, rce(n as real / k as real) == (n + k - 1) / k
{
    let q = n / k;
    let x = n as real / k as real;
    assert(x * (k as real) == n as real) by (nonlinear_arith) requires x == n as real / k as real, k > 0;
    assert(q * k <= n < q * k + k) by (nonlinear_arith) requires q == n / k, k > 0;
    assert((q * k) as real == q as real * k as real) by (nonlinear_arith);
    assert(q as real <= x) by (nonlinear_arith) requires x * (k as real) == n as real, (q as real) * (k as real) <= n as real, k > 0;
    assert(x < (q as real) + 1real) by (nonlinear_arith) requires x * (k as real) == n as real, (n as real) < (q as real) * (k as real) + k as real, k > 0;
    let p = (n + k - 1) / k;
    assert(p * k < n + k && n <= p * k) by (nonlinear_arith) requires p == (n + k - 1) / k, k > 0;
    assert((p * k) as real == p as real * k as real) by (nonlinear_arith);
    assert(x <= p as real) by (nonlinear_arith) requires x * (k as real) == n as real, n as real <= (p as real) * (k as real), k > 0;
    assert(p as real - 1real < x) by (nonlinear_arith) requires x * (k as real) == n as real, (p as real) * (k as real) < n as real + k as real, k > 0;
}
pub proof fn lemma_big() ensures big() >= 1000000000000000000000000000000real * 1000000000000000000000000000000real {
    assert(1000000000000000000000000000000real * 1000000000000000000000000000000real * 1000000000000000000000000000000real >= 1000000000000000000000000000000real * 1000000000000000000000000000000real) by (compute);
}
// the rounding of a product of the depth with a number below two million
pub proof fn lemma_row(o: int, h: int)
    requires 0 <= o <= 0x10_0000_0000_0000, 0 < h <= 0x10_0000_0000_0000
    ensures rfl(rn(o as real / h as real)) == o / h, rabs(o as real / h as real) <= big(), rn(o as real) == o as real, rn(h as real) == h as real,
{
    lemma_big();
    ax_rn_int(o);
    ax_rn_int(h);
    let x = o as real / h as real;
    let q = o / h;
    let hr = h as real;
    assert(x * hr == o as real) by (nonlinear_arith) requires x == o as real / hr, hr > 0real;
    assert(q * h <= o && o + 1 <= q * h + h) by (nonlinear_arith) requires q == o / h, h > 0;
    assert((q * h) as real == q as real * hr) by (nonlinear_arith) requires hr == h as real;
    let qr = q as real;
    assert(0 <= q <= o) by (nonlinear_arith) requires q * h <= o, o + 1 <= q * h + h, h > 0, o >= 0;
    assert(qr <= x) by (nonlinear_arith) requires x * hr == o as real, qr * hr <= o as real, hr > 0real;
    ax_rn_int(q);
    ax_rn_mono(qr, x);
    ax_rn_err(x);
    assert(x >= 0real);
    let z = rn(x);
    assert(z * hr <= x * hr + (eps() * x + tiny()) * hr) by (nonlinear_arith) requires z <= x + (eps() * x + tiny()), hr > 0real;
    assert((eps() * x + tiny()) * hr == eps() * (o as real) + tiny() * hr) by (nonlinear_arith) requires x * hr == o as real;
    let or = o as real;
    assert(0real <= or <= 4503599627370496real);
    assert(eps() * or <= 0.5real) by (nonlinear_arith) requires 0real <= or <= 4503599627370496real, eps() == 1real / 9007199254740992real;
    assert(eps() * (o as real) <= 0.5real);
    assert(tiny() * hr <= 0.25real);
    assert(z * hr < qr * hr + hr);
    assert(z < qr + 1real) by (nonlinear_arith) requires z * hr < qr * hr + hr, hr > 0real;
}
pub broadcast group group_floats { ax_rn_err, ax_rn_zero, ax_rn_val, ax_rn_int, ax_div, ax_mul, ax_add, ax_sub, ax_div_req, ax_mul_req, ax_add_req, ax_sub_req, ax_ge, ax_le, ax_gt, ax_lt }
