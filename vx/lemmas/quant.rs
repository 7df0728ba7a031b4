// interval of a feature, in double precision
pub open spec fn quot(f: f64, s: f64) -> real { val(f) / val(s) }
pub open spec fn qz(f: f64, s: f64) -> int { rfl(rn(quot(f, s))) }
pub open spec fn mid(q: int, s: f64) -> real { rn(val(s) * (q as real + 0.5real)) }
pub open spec fn third(f: f64, s: f64) -> bool { val(f) >= mid(qz(f, s), s) }
pub open spec fn two(q: int) -> int { (q - 1) % 4 }
// features of magnitude up to 2^30 steps, steps in [1e-3, 1e6]
pub open spec fn step_ok(s: f64) -> bool { fin(s) && 1real / 1000real <= val(s) <= 1000000real }
pub open spec fn feature_ok(f: f64, s: f64) -> bool { fin(f) && -1073741824real * val(s) <= val(f) <= 1073741824real * val(s) }
pub open spec fn features_ok(f: Seq<f64>, s: f64) -> bool { step_ok(s) && forall|i: int| 0 <= i < f.len() ==> feature_ok(#[trigger] f[i], s) }
pub open spec fn bits3(q: int, t: bool) -> Seq<bool> { seq![two(q) / 2 == 1, two(q) % 2 == 1, t] }
pub open spec fn feature_bits(f: f64, s: f64) -> Seq<bool> { bits3(qz(f, s), third(f, s)) }
pub open spec fn all_bits(f: Seq<f64>, s: f64, n: int) -> Seq<bool> decreases n { if n <= 0 { seq![] } else { all_bits(f, s, n - 1) + feature_bits(f[n - 1], s) } }
pub open spec fn all_q(f: Seq<f64>, s: f64) -> Seq<i64> { Seq::new(f.len(), |i: int| qz(f[i], s) as i64) }
pub proof fn lemma_all_bits(f: Seq<f64>, s: f64, n: int)
    requires 0 <= n <= f.len()
    ensures all_bits(f, s, n).len() == 3 * n, forall|i: int, k: int| 0 <= i < n && 0 <= k < 3 ==> all_bits(f, s, n)[3 * i + k] == #[trigger] feature_bits(f[i], s)[k]
    decreases n
{
    if n > 0 { lemma_all_bits(f, s, n - 1); }
}
// the quotient stays in range and is off by at most one millionth
pub proof fn lemma_quot(f: f64, s: f64)
    requires step_ok(s), feature_ok(f, s)
    ensures
        val(s) != 0real, val(f) == quot(f, s) * val(s),
        -1073741824real <= quot(f, s) <= 1073741824real,
        rabs(quot(f, s)) <= big(),
        rabs(rn(quot(f, s)) - quot(f, s)) <= 1real / 1000000real,
        -1073741825 <= qz(f, s) <= 1073741824,
        qz(f, s) as real <= rn(quot(f, s)) < qz(f, s) as real + 1real,
{
    let x = quot(f, s);
    let v = val(s);
    let a = val(f);
    assert(a == x * v) by (nonlinear_arith) requires x == a / v, v > 0real;
    assert(x <= 1073741824real) by (nonlinear_arith) requires a == x * v, a <= 1073741824real * v, v > 0real;
    assert(x >= -1073741824real) by (nonlinear_arith) requires a == x * v, a >= -1073741824real * v, v > 0real;
    ax_rn_err(x);
    lemma_big();
    let m = rabs(x);
    assert(0real <= m <= 1073741824real);
    assert(eps() * m <= eps() * 1073741824real) by (nonlinear_arith) requires 0real <= m <= 1073741824real, eps() == 1real / 9007199254740992real;
    assert(eps() * 1073741824real + tiny() <= 1real / 1000000real) by (nonlinear_arith) requires eps() == 1real / 9007199254740992real, tiny() <= 1real / 1000000000real;
    lemma_floor_rng(rn(x));
}
pub proof fn lemma_big() ensures big() >= 1000000000000000000000000000000real * 1000000000000000000000000000000real {
    assert(1000000000000000000000000000000real * 1000000000000000000000000000000real * 1000000000000000000000000000000real >= 1000000000000000000000000000000real * 1000000000000000000000000000000real) by (compute);
}
pub proof fn lemma_floor_rng(x: real) ensures rfl(x) as real <= x < rfl(x) as real + 1real {}
// the middle of an interval, in double precision
pub proof fn lemma_mid(q: int, s: f64)
    requires step_ok(s), -1073741825 <= q <= 1073741824
    ensures rabs(mid(q, s) - val(s) * (q as real + 0.5real)) <= val(s) / 1000000real,
        rabs(val(s) * (q as real + 0.5real)) <= big(),
        rn(q as real + 0.5real) == q as real + 0.5real,
{
    let v = val(s);
    let m = q as real + 0.5real;
    let e = v * m;
    assert(m == (2 * q + 1) as real / 2 as real);
    ax_rn_dyadic(2 * q + 1, 2);
    ax_rn_err(e);
    lemma_big();
    assert(rabs(e) <= v * 1073741825real) by (nonlinear_arith) requires e == v * m, -1073741825real <= m <= 1073741825real, v > 0real;
    assert(eps() * rabs(e) + tiny() <= v / 1000000real) by (nonlinear_arith)
        requires 0real <= rabs(e) <= v * 1073741825real, v >= 1real / 1000real, eps() == 1real / 9007199254740992real, tiny() <= 1real / 1000000000000real;
}
pub proof fn lemma_two(q: int)
    ensures 0 <= two(q) < 4, bit(two(q) as u8, 1) == (two(q) / 2 == 1), bit(two(q) as u8, 0) == (two(q) % 2 == 1)
{
    let x = two(q) as u8;
    assert(x < 4);
    assert((((x >> 1u8) & 1u8) == 1u8) == (x / 2 == 1)) by (bit_vector) requires x < 4;
    assert((((x >> 0u8) & 1u8) == 1u8) == (x % 2 == 1)) by (bit_vector) requires x < 4;
}
// ---- restoring
// a: what the two leading bits say about the neighbouring interval (0: the interval is one up, 1: one down, 2: the same or unknown)
pub open spec fn shift(c: int, g: int) -> int { if c == (g - 1) % 4 { 0 } else if c == (g + 1) % 4 { 1 } else { 2 } }
pub open spec fn restored(q: int, t: bool, g: int, gt: bool) -> int {
    let a = shift(two(q), g);
    if a == 0 && (!gt || t) { q + 1 } else if a == 1 && (gt || !t) { q - 1 } else { q }
}
pub open spec fn two_of(b: Seq<bool>, i: int) -> int { (if b[3 * i] { 2int } else { 0int }) + (if b[3 * i + 1] { 1int } else { 0int }) }
pub open spec fn restored_at(g: Seq<f64>, b: Seq<bool>, s: f64, i: int) -> int { restored(qz(g[i], s), third(g[i], s), two_of(b, i), b[3 * i + 2]) }
pub open spec fn all_restored(g: Seq<f64>, b: Seq<bool>, s: f64) -> Seq<i64> { Seq::new(g.len(), |i: int| restored_at(g, b, s, i) as i64) }
pub proof fn lemma_three_chunk(b: Seq<bool>, i: int)
    requires 0 <= i, 3 * i + 3 <= b.len()
    ensures chunk_at(b, 3, i).len() == 3, chunk_at(b, 3, i)[0] == b[3 * i], chunk_at(b, 3, i)[1] == b[3 * i + 1], chunk_at(b, 3, i)[2] == b[3 * i + 2]
{}
pub proof fn lemma_three_bits(f: Seq<f64>, s: f64, i: int)
    requires 0 <= i < f.len()
    ensures two_of(all_bits(f, s, f.len() as int), i) == two(qz(f[i], s)), all_bits(f, s, f.len() as int)[3 * i + 2] == third(f[i], s), all_bits(f, s, f.len() as int).len() == 3 * f.len(),
        all_bits(f, s, f.len() as int)[3 * i] == (two(qz(f[i], s)) / 2 == 1), all_bits(f, s, f.len() as int)[3 * i + 1] == (two(qz(f[i], s)) % 2 == 1)
{
    lemma_all_bits(f, s, f.len() as int);
    let a = feature_bits(f[i], s);
    let b = all_bits(f, s, f.len() as int);
    assert(b[3 * i + 0] == a[0] && b[3 * i + 1] == a[1] && b[3 * i + 2] == a[2]);
}
// one feature, disturbed by less than a step, is restored
pub proof fn lemma_restore_one(f: f64, g: f64, s: f64)
    requires step_ok(s), feature_ok(f, s), feature_ok(g, s), rabs(val(g) - val(f)) <= val(s) * (999real / 1000real)
    ensures restored(qz(g, s), third(g, s), two(qz(f, s)), third(f, s)) == qz(f, s)
{
    lemma_quot(f, s);
    lemma_quot(g, s);
    let v = val(s);
    let x = quot(f, s);
    let y = quot(g, s);
    let p = qz(f, s);
    let q = qz(g, s);
    lemma_mid(p, s);
    lemma_mid(q, s);
    assert(-999real / 1000real <= y - x <= 999real / 1000real) by (nonlinear_arith)
        requires val(f) == x * v, val(g) == y * v, v > 0real, val(g) - val(f) <= v * (999real / 1000real), val(f) - val(g) <= v * (999real / 1000real), val(f) == val(f), val(g) == val(g);
    assert(q - 1 <= p <= q + 1);
    let d = 1real / 1000000real;
    let mp = mid(p, s);
    let mq = mid(q, s);
    // third bits in terms of the quotients
    assert(third(f, s) ==> x >= p as real + 0.5real - d) by (nonlinear_arith)
        requires third(f, s) == (val(f) >= mp), val(f) == x * v, v > 0real, mp >= v * (p as real + 0.5real) - v / 1000000real, d == 1real / 1000000real;
    assert(!third(f, s) ==> x <= p as real + 0.5real + d) by (nonlinear_arith)
        requires third(f, s) == (val(f) >= mp), val(f) == x * v, v > 0real, mp <= v * (p as real + 0.5real) + v / 1000000real, d == 1real / 1000000real;
    assert(third(g, s) ==> y >= q as real + 0.5real - d) by (nonlinear_arith)
        requires third(g, s) == (val(g) >= mq), val(g) == y * v, v > 0real, mq >= v * (q as real + 0.5real) - v / 1000000real, d == 1real / 1000000real;
    assert(!third(g, s) ==> y <= q as real + 0.5real + d) by (nonlinear_arith)
        requires third(g, s) == (val(g) >= mq), val(g) == y * v, v > 0real, mq <= v * (q as real + 0.5real) + v / 1000000real, d == 1real / 1000000real;
}
pub proof fn lemma_all_bits_len(f: Seq<f64>, s: f64, n: int)
    requires 0 <= n <= f.len()
    ensures all_bits(f, s, n).len() == 3 * n
{ lemma_all_bits(f, s, n); }
