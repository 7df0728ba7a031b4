// One level of the Haar transform in double precision, as the crate dwt computes it.
// An operation of the machine is a function of its operands (trusted; so are the values, as in the contracts on doubles).
use vstd::std_specs::ops::*;
pub uninterp spec fn fadd(a: f64, b: f64) -> f64;
pub uninterp spec fn fmul(a: f64, b: f64) -> f64;
pub broadcast axiom fn ax_fadd_is(a: f64, b: f64, r: f64) requires #[trigger] add_ensures::<f64>(a, b, r) ensures r == fadd(a, b);
pub broadcast axiom fn ax_fmul_is(a: f64, b: f64, r: f64) requires #[trigger] mul_ensures::<f64>(a, b, r) ensures r == fmul(a, b);
pub axiom fn ax_fadd(a: f64, b: f64) requires fin(a), fin(b), rabs(val(a) + val(b)) <= big() ensures fin(fadd(a, b)), val(fadd(a, b)) == rn(val(a) + val(b));
pub axiom fn ax_fmul(a: f64, b: f64) requires fin(a), fin(b), rabs(val(a) * val(b)) <= big() ensures fin(fmul(a, b)), val(fmul(a, b)) == rn(val(a) * val(b));
// core::f64::consts::FRAC_1_SQRT_2
pub const VX_S: f64 = 0.707106781186547524400844362104849039;
pub axiom fn ax_s() ensures fin(VX_S), val(VX_S) == 6369051672525773real / 9007199254740992real;
pub axiom fn ax_fzero() ensures fin(0.0f64), val(0.0f64) == 0real;
// what the crate computes from two numbers, forward and backward
pub open spec fn comb(s: f64, a: f64, t: f64, b: f64, back: bool) -> f64 {
    if back { fadd(fadd(0.0f64, fmul(s, a)), fmul(t, b)) } else { fadd(0.0f64, fadd(fadd(0.0f64, fmul(s, a)), fmul(t, b))) }
}
pub open spec fn lo(a: f64, b: f64, back: bool) -> f64 { comb(VX_S, a, VX_S, b, back) }
pub open spec fn hi(a: f64, b: f64, back: bool) -> f64 { comb(VX_S, a, fneg(VX_S), b, back) }
// the square root of one half
pub uninterp spec fn rt() -> real;
pub axiom fn ax_rt() ensures rt() * rt() == 0.5real, 0.7real <= rt() <= 0.71real;
pub open spec fn hz() -> real { 1real / 1000000000000000real }
pub open spec fn huge() -> real { 1000000000000000000000000000000real }
pub open spec fn dwt1(s: Seq<f64>, back: bool) -> Seq<f64> {
    let n2 = s.len() as int / 2;
    if back { Seq::new(s.len(), |i: int| if i % 2 == 0 { lo(s[i / 2], s[i / 2 + n2], true) } else { hi(s[i / 2], s[i / 2 + n2], true) }) }
    else { Seq::new(s.len(), |i: int| if i < n2 { lo(s[2 * i], s[2 * i + 1], false) } else { hi(s[2 * (i - n2)], s[2 * (i - n2) + 1], false) }) }
}
