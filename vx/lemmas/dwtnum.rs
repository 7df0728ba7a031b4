// The numbers of one level of the transform: the root, two products and a sum, with their rounding errors.
pub proof fn lemma_s()
    ensures fin(VX_S), fin(fneg(VX_S)), val(fneg(VX_S)) == -val(VX_S), 0.7real <= val(VX_S) <= 0.71real, rabs(val(VX_S) - rt()) <= eps()
{
    ax_s(); ax_rt(); ax_fneg(VX_S);
    let s = val(VX_S);
    let r = rt();
    let e = eps();
    assert(-e <= s * s - 0.5real <= e) by (nonlinear_arith) requires s == 6369051672525773real / 9007199254740992real, e == 1real / 9007199254740992real;
    assert((s - r) * (s + r) == s * s - r * r) by (nonlinear_arith);
    assert(s - r <= e) by (nonlinear_arith) requires (s - r) * (s + r) <= e, s + r >= 1.4real, e >= 0real;
    assert(r - s <= e) by (nonlinear_arith) requires (s - r) * (s + r) >= -e, s + r >= 1.4real, e >= 0real;
}
// rounding of a number that is not huge
pub proof fn lemma_rnd(x: real, m: real)
    requires rabs(x) <= m, m <= 4real * huge()
    ensures rabs(rn(x) - x) <= eps() * m + tiny(), rabs(rn(x)) <= 2real * m + tiny(), rabs(x) <= big()
{
    ax_rn_err(x);
    let e = eps();
    let a = rabs(x);
    assert(e * a <= e * m) by (nonlinear_arith) requires 0real <= a <= m, e >= 0real;
    assert(e * m <= m) by (nonlinear_arith) requires e <= 1real, m >= 0real, e >= 0real;
    lemma_big();
    assert(4real * huge() <= 1000000000000000000000000000000real * 1000000000000000000000000000000real) by (compute);
}
// a product with a number below one, and the sum of two such products
pub proof fn lemma_prod(s: f64, a: f64)
    requires fin(s), fin(a), rabs(val(a)) <= huge(), rabs(val(s)) <= 0.71real
    ensures fin(fmul(s, a)), rabs(val(fmul(s, a)) - val(s) * val(a)) <= eps() * rabs(val(a)) + tiny(), rabs(val(fmul(s, a))) <= 1.001real * rabs(val(a)) + tiny(), rabs(val(fmul(s, a))) <= big(),
        fin(fadd(0.0f64, fmul(s, a))), val(fadd(0.0f64, fmul(s, a))) == val(fmul(s, a))
{
    let ra = rabs(val(a));
    let x = val(s) * val(a);
    assert(rabs(x) <= ra) by (nonlinear_arith) requires x == val(s) * val(a), rabs(val(s)) <= 0.71real, ra == rabs(val(a));
    lemma_rnd(x, ra);
    ax_fmul(s, a);
    ax_fzero();
    let fp = fmul(s, a);
    ax_rn_val(fp);
    let e = eps();
    assert(e * ra <= 0.001real * ra) by (nonlinear_arith) requires ra >= 0real, e == 1real / 9007199254740992real;
    lemma_big();
    assert(tiny() <= 1real && 2real <= huge()) by (compute);
    assert(4real * huge() <= 1000000000000000000000000000000real * 1000000000000000000000000000000real) by (compute);
    assert(0real + val(fp) == val(fp));
    ax_fadd(0.0f64, fp);
}
pub proof fn lemma_plus(f: f64, g: f64, m: real)
    requires fin(f), fin(g), rabs(val(f)) + rabs(val(g)) <= m, m <= 4real * huge()
    ensures fin(fadd(f, g)), rabs(val(fadd(f, g)) - (val(f) + val(g))) <= eps() * m + tiny(),
        fin(fadd(0.0f64, fadd(f, g))), val(fadd(0.0f64, fadd(f, g))) == val(fadd(f, g))
{
    lemma_rnd(val(f) + val(g), m);
    ax_fadd(f, g);
    ax_fzero();
    let h = fadd(f, g);
    ax_rn_val(h);
    lemma_big();
    assert(tiny() <= 1real) by (compute);
    assert(10real * huge() <= 1000000000000000000000000000000real * 1000000000000000000000000000000real) by (compute);
    assert(1real <= huge()) by (compute);
    assert(0real + val(h) == val(h));
    assert(rabs(val(h)) <= big());
    ax_fadd(0.0f64, h);
}
pub proof fn lemma_comb(s: f64, a: f64, t: f64, b: f64, back: bool)
    requires fin(s), fin(t), fin(a), fin(b), rabs(val(a)) <= huge(), rabs(val(b)) <= huge(), rabs(val(s)) <= 0.71real, rabs(val(t)) <= 0.71real
    ensures fin(comb(s, a, t, b, back)),
        rabs(val(comb(s, a, t, b, back)) - (val(s) * val(a) + val(t) * val(b))) <= 4real * eps() * (rabs(val(a)) + rabs(val(b))) + 8real * tiny()
{
    let (ra, rb) = (rabs(val(a)), rabs(val(b)));
    lemma_prod(s, a);
    lemma_prod(t, b);
    assert(tiny() <= 1real && 2real <= huge()) by (compute);
    let m = 1.001real * (ra + rb) + 2real * tiny();
    lemma_plus(fadd(0.0f64, fmul(s, a)), fmul(t, b), m);
    let e = eps();
    let er = e * (ra + rb);
    assert(e * m <= 1.001real * er + tiny()) by (nonlinear_arith) requires m == 1.001real * (ra + rb) + 2real * tiny(), e <= 0.5real, e >= 0real, tiny() >= 0real, er == e * (ra + rb);
    assert(e * ra + e * rb == er) by (nonlinear_arith) requires er == e * (ra + rb);
    assert(0real <= er) by (nonlinear_arith) requires e >= 0real, ra >= 0real, rb >= 0real, er == e * (ra + rb);
    assert(4real * e * (ra + rb) == 4real * er) by (nonlinear_arith) requires er == e * (ra + rb);
}
pub proof fn lemma_haar_pair(a: f64, b: f64, back: bool)
    requires fin(a), fin(b), rabs(val(a)) <= huge(), rabs(val(b)) <= huge()
    ensures fin(lo(a, b, back)), rabs(val(lo(a, b, back)) - rt() * (val(a) + val(b))) <= hz() * (rabs(val(a)) + rabs(val(b)) + 1real),
        fin(hi(a, b, back)), rabs(val(hi(a, b, back)) - rt() * (val(a) - val(b))) <= hz() * (rabs(val(a)) + rabs(val(b)) + 1real)
{
    lemma_s();
    lemma_comb(VX_S, a, VX_S, b, back);
    lemma_comb(VX_S, a, fneg(VX_S), b, back);
    let (s, r, e, u, v) = (val(VX_S), rt(), eps(), val(a), val(b));
    let n = rabs(u) + rabs(v);
    let d = s - r;
    assert(s * u + s * v - r * (u + v) == d * u + d * v) by (nonlinear_arith) requires d == s - r;
    assert(s * u + (-s) * v - r * (u - v) == d * u - d * v) by (nonlinear_arith) requires d == s - r;
    assert(rabs(d * u) <= e * rabs(u)) by (nonlinear_arith) requires -e <= d <= e;
    assert(rabs(d * v) <= e * rabs(v)) by (nonlinear_arith) requires -e <= d <= e;
    assert(e * rabs(u) + e * rabs(v) == e * n) by (nonlinear_arith) requires n == rabs(u) + rabs(v);
    assert(4real * e * n + e * n == 5real * (e * n)) by (nonlinear_arith);
    assert(5real * (e * n) <= hz() * n) by (nonlinear_arith) requires e == 1real / 9007199254740992real, hz() == 1real / 1000000000000000real, n >= 0real;
    assert(8real * tiny() <= hz()) by (compute);
    assert(hz() * (n + 1real) == hz() * n + hz()) by (nonlinear_arith);
}
