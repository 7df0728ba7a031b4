// ROOTS: num
// Assumed contracts on the elementary functions of std and on the crate num (trusted).
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
/*IF:accept*/
// within a few units in the last place
pub open spec fn near(r: f64, x: real) -> bool { rabs(val(r) - x) <= 4real * eps() * rabs(x) + tiny() && (x >= 0real ==> val(r) >= 0real) && (x <= 0real ==> val(r) <= 0real) }
/*END*/
/*IF:ideal*/
// machine arithmetic treated as mathematical
pub open spec fn near(r: f64, x: real) -> bool { val(r) == x }
pub broadcast axiom fn ax_ideal(x: real) ensures #[trigger] rn(x) == x;
/*END*/
pub open spec fn rpow(x: real, k: int) -> real decreases k { if k <= 0 { 1real } else { rpow(x, k - 1) * x } }
pub uninterp spec fn rsqrt(x: real) -> real;
pub uninterp spec fn ratan2(y: real, x: real) -> real;
pub uninterp spec fn rcos(x: real) -> real;
pub uninterp spec fn rsin(x: real) -> real;
pub uninterp spec fn rpi() -> real;
pub uninterp spec fn rhalfroot() -> real;
pub axiom fn ax_sqrt(x: real) requires x >= 0real ensures rsqrt(x) >= 0real, rsqrt(x) * rsqrt(x) == x;
pub axiom fn ax_atan2(y: real, x: real) ensures rabs(ratan2(y, x)) <= 4real;
pub axiom fn ax_circle(x: real) ensures rabs(rcos(x)) <= 1real, rabs(rsin(x)) <= 1real;
pub broadcast axiom fn ax_eq(a: f64, b: f64, r: bool) requires #[trigger] eq_ensures::<f64>(a, b, r), fin(a), fin(b) ensures r == (val(a) == val(b));
pub broadcast axiom fn ax_ne(a: f64, b: f64, r: bool) requires #[trigger] ne_ensures::<f64>(a, b, r), fin(a), fin(b) ensures r == (val(a) != val(b));
pub const PI: f64 = 3.14159265358979323846264338327950288;
pub const FRAC_1_SQRT_2: f64 = 0.707106781186547524400844362104849039;
pub axiom fn ax_consts() ensures fin(PI), fin(FRAC_1_SQRT_2), near(PI, rpi()), near(FRAC_1_SQRT_2, rhalfroot()), 31real / 10real <= rpi() <= 32real / 10real, 7real / 10real <= rhalfroot() <= 71real / 100real,
    rhalfroot() * rhalfroot() == 1real / 2real;
// a whole number, as a double
pub open spec fn whole(x: f64, n: int) -> bool { fin(x) && val(x) == n as real }
pub open spec fn int_of(x: f64) -> int { val(x).floor() }
pub trait VxFx: Sized {
    fn vx_powf(self, e: Self) -> Self;
    fn vx_powi(self, e: i32) -> Self;
    fn vx_sqrt(self) -> Self;
    fn vx_atan2(self, o: Self) -> Self;
    fn vx_fract(self) -> Self;
    fn vx_cos(self) -> Self;
    fn vx_sin(self) -> Self;
}
impl VxFx for f64 {
    #[verifier::external_body] fn vx_powf(self, e: f64) -> (r: f64)
        ensures fin(self) && whole(e, int_of(e)) && 0 <= int_of(e) <= 1000 && rabs(rpow(val(self), int_of(e))) <= big() ==> fin(r) && near(r, rpow(val(self), int_of(e))) { self.powf(e) }
    #[verifier::external_body] fn vx_powi(self, e: i32) -> (r: f64)
        ensures fin(self) && 0 <= e <= 1000 && rabs(rpow(val(self), e as int)) <= big() ==> fin(r) && near(r, rpow(val(self), e as int)) { self.powi(e) }
    #[verifier::external_body] fn vx_sqrt(self) -> (r: f64) ensures fin(self) && val(self) >= 0real ==> fin(r) && near(r, rsqrt(val(self))) { self.sqrt() }
    #[verifier::external_body] fn vx_atan2(self, o: f64) -> (r: f64) ensures fin(self) && fin(o) ==> fin(r) && near(r, ratan2(val(self), val(o))) { self.atan2(o) }
    #[verifier::external_body] fn vx_fract(self) -> (r: f64) ensures fin(self) ==> fin(r) && val(r) == val(self) - trunc_real(val(self)) as real { self.fract() }
    #[verifier::external_body] fn vx_cos(self) -> (r: f64) ensures fin(self) ==> fin(r) && near(r, rcos(val(self))) { self.cos() }
    #[verifier::external_body] fn vx_sin(self) -> (r: f64) ensures fin(self) ==> fin(r) && near(r, rsin(val(self))) { self.sin() }
}
pub trait VxIAbs: Sized { spec fn ab(self) -> int; spec fn vi(r: Self) -> int; spec fn ab_ok(self) -> bool; fn vx_abs(self) -> (r: Self) requires self.ab_ok() ensures Self::vi(r) == self.ab(); }
impl VxIAbs for isize { open spec fn ab(self) -> int { if self >= 0 { self as int } else { -(self as int) } } open spec fn vi(r: isize) -> int { r as int } open spec fn ab_ok(self) -> bool { self > isize::MIN }
    fn vx_abs(self) -> (r: isize) { if self >= 0 { self } else { -self } } }
#[verifier::external_body] pub fn gamma(x: f64) -> f64 { unimplemented!() }
// ---- numbers that are finite and bounded
pub open spec fn within(x: f64, b: real) -> bool { fin(x) && rabs(val(x)) <= b }
pub mod num {
    use vstd::prelude::*;
    use vstd::std_specs::ops::*;
    use crate::vx_core::*;
    use crate::vx_floats::*;
    use super::*;
    broadcast use {crate::vx_floats::group_floats, super::group_complex};
    #[derive(Clone, Copy)]
    pub struct Complex<T> { pub re: T, pub im: T }
    pub open spec fn cfin(c: Complex<f64>) -> bool { fin(c.re) && fin(c.im) }
    pub open spec fn cwithin(c: Complex<f64>, b: real) -> bool { within(c.re, b) && within(c.im, b) }
    pub open spec fn scaled(c: Complex<f64>, o: f64, r: Complex<f64>) -> bool {
        &&& fin(c.re) && fin(o) && rabs(val(c.re) * val(o)) <= big() ==> fin(r.re) && val(r.re) == rn(val(c.re) * val(o))
        &&& fin(c.im) && fin(o) && rabs(val(c.im) * val(o)) <= big() ==> fin(r.im) && val(r.im) == rn(val(c.im) * val(o))
    }
    pub open spec fn divided(c: Complex<f64>, o: f64, r: Complex<f64>) -> bool {
        &&& fin(c.re) && fin(o) && val(o) != 0real && rabs(val(c.re) / val(o)) <= big() ==> fin(r.re) && val(r.re) == rn(val(c.re) / val(o))
        &&& fin(c.im) && fin(o) && val(o) != 0real && rabs(val(c.im) / val(o)) <= big() ==> fin(r.im) && val(r.im) == rn(val(c.im) / val(o))
    }
    pub open spec fn added(a: Complex<f64>, b: Complex<f64>, r: Complex<f64>) -> bool {
        &&& fin(a.re) && fin(b.re) && rabs(val(a.re) + val(b.re)) <= big() ==> fin(r.re) && val(r.re) == rn(val(a.re) + val(b.re))
        &&& fin(a.im) && fin(b.im) && rabs(val(a.im) + val(b.im)) <= big() ==> fin(r.im) && val(r.im) == rn(val(a.im) + val(b.im))
    }
    impl Complex<f64> {
        pub const fn new(re: f64, im: f64) -> (r: Complex<f64>) ensures r.re == re, r.im == im { Complex { re, im } }
        pub fn conj(&self) -> (r: Complex<f64>) ensures r.re == self.re, fin(self.im) ==> fin(r.im) && val(r.im) == -val(self.im) { Complex { re: self.re, im: VxNeg::vx_neg(self.im) } }
        // used with a real part of zero only
        #[verifier::external_body] pub fn exp(self) -> (r: Complex<f64>)
            ensures cfin(self) && val(self.re) == 0real ==> cfin(r) && near(r.re, rcos(val(self.im))) && near(r.im, rsin(val(self.im))) { unimplemented!() }
        // |z|, through hypot
        #[verifier::external_body] pub fn vx_abs(self) -> (r: f64)
            ensures cwithin(self, big()) ==> fin(r) && val(r) >= 0real && near(r, rsqrt(val(self.re) * val(self.re) + val(self.im) * val(self.im))) { unimplemented!() }
        #[verifier::external_body] pub fn norm(self) -> (r: f64)
            ensures cwithin(self, big()) ==> fin(r) && val(r) >= 0real && near(r, rsqrt(val(self.re) * val(self.re) + val(self.im) * val(self.im))) { unimplemented!() }
    }
    impl core::ops::Mul<f64> for Complex<f64> { type Output = Complex<f64>; fn mul(self, o: f64) -> (r: Complex<f64>) ensures scaled(self, o, r) { Complex { re: self.re * o, im: self.im * o } } }
    impl<'a> core::ops::Mul<f64> for &'a Complex<f64> { type Output = Complex<f64>; fn mul(self, o: f64) -> (r: Complex<f64>) ensures scaled(*self, o, r) { Complex { re: self.re * o, im: self.im * o } } }
    impl core::ops::Mul<Complex<f64>> for f64 { type Output = Complex<f64>; fn mul(self, o: Complex<f64>) -> (r: Complex<f64>) ensures scaled(o, self, r) { proof { lemma_comm(self, o.re); lemma_comm(self, o.im); } Complex { re: self * o.re, im: self * o.im } } }
    impl core::ops::Div<f64> for Complex<f64> { type Output = Complex<f64>; fn div(self, o: f64) -> (r: Complex<f64>) ensures divided(self, o, r) { Complex { re: self.re / o, im: self.im / o } } }
    impl core::ops::Add<Complex<f64>> for Complex<f64> { type Output = Complex<f64>; fn add(self, o: Complex<f64>) -> (r: Complex<f64>) ensures added(self, o, r) { Complex { re: self.re + o.re, im: self.im + o.im } } }
    impl MulSpecImpl<f64> for Complex<f64> { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, rhs: f64) -> bool { true } open spec fn mul_spec(self, rhs: f64) -> Complex<f64> { arbitrary() } }
    impl<'a> MulSpecImpl<f64> for &'a Complex<f64> { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, rhs: f64) -> bool { true } open spec fn mul_spec(self, rhs: f64) -> Complex<f64> { arbitrary() } }
    impl MulSpecImpl<Complex<f64>> for f64 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, rhs: Complex<f64>) -> bool { true } open spec fn mul_spec(self, rhs: Complex<f64>) -> Complex<f64> { arbitrary() } }
    impl DivSpecImpl<f64> for Complex<f64> { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, rhs: f64) -> bool { true } open spec fn div_spec(self, rhs: f64) -> Complex<f64> { arbitrary() } }
    impl AddSpecImpl<Complex<f64>> for Complex<f64> { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, rhs: Complex<f64>) -> bool { true } open spec fn add_spec(self, rhs: Complex<f64>) -> Complex<f64> { arbitrary() } }
    pub proof fn lemma_comm(a: f64, b: f64) ensures val(a) * val(b) == val(b) * val(a) { assert(val(a) * val(b) == val(b) * val(a)) by (nonlinear_arith); }
    pub trait VxComplexFloat {}
    pub mod complex { pub use super::Complex; pub use super::VxComplexFloat as ComplexFloat; }
}
pub broadcast group group_complex { ax_eq, ax_ne/*IF:ideal*/, ax_ideal/*END*/ }
