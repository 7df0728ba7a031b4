// One step of the transform, tap by tap.
pub open spec fn haar_taps(l: Seq<f64>, h: Seq<f64>) -> bool { l.len() == 2 && h.len() == 2 && l[0] == VX_S && l[1] == VX_S && h[0] == VX_S && h[1] == fneg(VX_S) }
// the sum of the first j products
pub open spec fn taps(s: f64, a: f64, t: f64, b: f64, j: int) -> f64 { if j <= 0 { 0.0f64 } else if j == 1 { fadd(0.0f64, fmul(s, a)) } else { fadd(fadd(0.0f64, fmul(s, a)), fmul(t, b)) } }
// the work space after i steps forward, after i steps backward
pub open spec fn half_fwd(w: Seq<f64>, d: Seq<f64>, i: int) -> bool {
    let h = d.len() as int / 2;
    w.len() == d.len() && forall|k: int| 0 <= k < d.len() ==> #[trigger] w[k] == (if k < i || h <= k < h + i { dwt1(d, false)[k] } else { 0.0f64 })
}
pub open spec fn half_back(w: Seq<f64>, d: Seq<f64>, i: int) -> bool {
    w.len() == d.len() && forall|k: int| 0 <= k < d.len() ==> #[trigger] w[k] == (if k < 2 * i { dwt1(d, true)[k] } else { 0.0f64 })
}
pub proof fn lemma_wrap(i: int, n: int, j: int)
    requires 0 <= i, 2 * i + 1 < n, 0 <= j < 2
    ensures (2 * i + 2 * n + j) % n == 2 * i + j
{
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(2, 2 * i + j, n);
    vstd::arithmetic::div_mod::lemma_small_mod((2 * i + j) as nat, n as nat);
    assert(2 * n + (2 * i + j) == 2 * i + 2 * n + j);
}
pub proof fn lemma_half(n: usize)
    ensures n >> 1usize == n / 2, n >> 0usize == n
{
    assert(n >> 1usize == n / 2) by (bit_vector);
    assert(n >> 0usize == n) by (bit_vector);
}
