// ---- one coefficient
pub open spec fn depth_ok(d: f64) -> bool { fin(d) && 1real / 1000real <= val(d) <= 1000000real }
// coefficients up to two million times the depth
pub open spec fn coef_ok(c: f64, d: f64) -> bool { fin(c) && -2000000real * val(d) <= val(c) <= 2000000real * val(d) }
// coefficients up to a million times the depth
pub open spec fn million_ok(c: f64, d: f64) -> bool { fin(c) && -1000000real * val(d) <= val(c) <= 1000000real * val(d) }
pub open spec fn quarter(b: bool) -> real { if b { 0.25real } else { -0.25real } }
pub open spec fn level(c: f64, d: f64) -> int { rro(rn(val(c) / val(d))) }
pub open spec fn wcoef(c: f64, b: bool, d: f64) -> real { rn(val(d) * (level(c, d) as real + quarter(b))) }
pub open spec fn rbit(c: f64, d: f64) -> bool { rn(val(c) - rn(val(d) * (level(c, d) as real))) >= 0real }
pub proof fn lemma_level(c: f64, d: f64)
    requires depth_ok(d), coef_ok(c, d)
    ensures val(d) != 0real, rabs(val(c) / val(d)) <= big(), val(c) == (val(c) / val(d)) * val(d),
        rabs(rn(val(c) / val(d)) - val(c) / val(d)) <= 1real / 1000000real,
        -2000001 <= level(c, d) <= 2000001,
        rabs(level(c, d) as real - rn(val(c) / val(d))) <= 0.5real,
        rn(level(c, d) as real) == level(c, d) as real,
        rn(level(c, d) as real + 0.25real) == level(c, d) as real + 0.25real,
        rn(level(c, d) as real + (-0.25real)) == level(c, d) as real - 0.25real,
{
    let v = val(d);
    let x = val(c) / v;
    assert(val(c) == x * v) by (nonlinear_arith) requires x == val(c) / v, v > 0real;
    assert(x <= 2000000real) by (nonlinear_arith) requires val(c) == x * v, val(c) <= 2000000real * v, v > 0real;
    assert(x >= -2000000real) by (nonlinear_arith) requires val(c) == x * v, val(c) >= -2000000real * v, v > 0real;
    lemma_big();
    ax_rn_err(x);
    let m = rabs(x);
    assert(eps() * m <= eps() * 2000000real) by (nonlinear_arith) requires 0real <= m <= 2000000real, eps() == 1real / 9007199254740992real;
    assert(eps() * 2000000real + tiny() <= 1real / 1000000real) by (nonlinear_arith) requires eps() == 1real / 9007199254740992real, tiny() <= 1real / 1000000000real;
    let k = level(c, d);
    lemma_round(rn(x));
    ax_rn_int(k);
    ax_rn_dyadic(4 * k + 1, 4);
    ax_rn_dyadic(4 * k - 1, 4);
    assert((4 * k + 1) as real / 4 as real == k as real + 0.25real);
    assert((4 * k - 1) as real / 4 as real == k as real - 0.25real);
}
pub proof fn lemma_round(x: real)
    ensures rabs(rro(x) as real - x) <= 0.5real
{}
pub proof fn lemma_round_is(x: real, k: int)
    requires -0.5real < x - k as real, x - (k as real) < 0.5real
    ensures rro(x) == k
{}
pub proof fn lemma_prod(d: f64, m: real)
    requires depth_ok(d), -3000000real <= m <= 3000000real
    ensures rabs(rn(val(d) * m) - val(d) * m) <= val(d) / 1000000real, rabs(val(d) * m) <= big(), rabs(rn(val(d) * m)) <= val(d) * 3000001real, 
{
    let v = val(d);
    let e = v * m;
    lemma_big();
    ax_rn_err(e);
    assert(rabs(e) <= v * 3000000real) by (nonlinear_arith) requires e == v * m, -3000000real <= m <= 3000000real, v > 0real;
    assert(eps() * rabs(e) + tiny() <= v / 1000000real) by (nonlinear_arith)
        requires 0real <= rabs(e) <= v * 3000000real, v >= 1real / 1000real, eps() == 1real / 9007199254740992real, tiny() <= 1real / 1000000000000real;
}
// what writing does to a coefficient: at most 0.75 of the depth (and one millionth)
pub proof fn lemma_write_moves(c: f64, b: bool, d: f64)
    requires depth_ok(d), coef_ok(c, d)
    ensures rabs(wcoef(c, b, d) - val(c)) <= val(d) * (0.75real + 3real / 1000000real),
        rabs(wcoef(c, b, d) - val(d) * (level(c, d) as real + quarter(b))) <= val(d) / 1000000real,
        rabs(val(d) * (level(c, d) as real + quarter(b))) <= big(),
{
    lemma_level(c, d);
    let v = val(d);
    let k = level(c, d) as real;
    let q = quarter(b);
    let x = val(c) / v;
    lemma_prod(d, k + q);
    let w = wcoef(c, b, d);
    assert(rabs(k - x) <= 0.5real + 1real / 1000000real);
    assert(w - val(c) <= v * (0.75real + 3real / 1000000real)) by (nonlinear_arith)
        requires w <= v * (k + q) + v / 1000000real, val(c) == x * v, k - x <= 0.5real + 1real / 1000000real, q <= 0.25real, v > 0real;
    assert(val(c) - w <= v * (0.75real + 3real / 1000000real)) by (nonlinear_arith)
        requires w >= v * (k + q) - v / 1000000real, val(c) == x * v, x - k <= 0.5real + 1real / 1000000real, q >= -0.25real, v > 0real;
}
// reading a coefficient that lies within 0.245 of a depth from where a bit was put gives the bit
pub proof fn lemma_reads(c: f64, d: f64, k: int, b: bool)
    requires depth_ok(d), coef_ok(c, d), -2000001 <= k <= 2000001, rabs(val(c) - val(d) * (k as real + quarter(b))) <= val(d) * (245real / 1000real)
    ensures rbit(c, d) == b
{
    lemma_level(c, d);
    let v = val(d);
    let x = val(c) / v;
    let q = quarter(b);
    let kr = k as real;
    assert(x - (kr + q) <= 245real / 1000real) by (nonlinear_arith)
        requires val(c) == x * v, val(c) - v * (kr + q) <= v * (245real / 1000real), v > 0real;
    assert(x - (kr + q) >= -245real / 1000real) by (nonlinear_arith)
        requires val(c) == x * v, val(c) - v * (kr + q) >= -(v * (245real / 1000real)), v > 0real;
    lemma_round_is(rn(x), k);
    lemma_prod(d, kr);
    let p = rn(v * kr);
    let e = val(c) - p;
    ax_rn_err(e);
    if b {
        assert(e >= 0real) by (nonlinear_arith) requires e == val(c) - p, val(c) - v * (kr + 0.25real) >= -(v * (245real / 1000real)), p <= v * kr + v / 1000000real, v > 0real;
        ax_rn_mono(0real, e);
    } else {
        assert(e <= -(v / 1000real)) by (nonlinear_arith) requires e == val(c) - p, val(c) - v * (kr + (-0.25real)) <= v * (245real / 1000real), p >= v * kr - v / 1000000real, v > 0real;
        assert(rn(e) < 0real) by (nonlinear_arith) requires rn(e) - e <= eps() * (-e) + tiny(), e <= -(v / 1000real), v >= 1real / 1000real, eps() == 1real / 9007199254740992real, tiny() <= 1real / 1000000000000real;
    }
}

// ---- cells of a matrix in row order
pub open spec fn cells<T>(m: Mat<T>) -> int { m.h() * m.w }
pub open spec fn nth<T>(m: Mat<T>, i: int) -> T { m.at(i / m.w, i % m.w) }
pub open spec fn put<T>(m: Mat<T>, i: int, x: T) -> Mat<T> { m.set(i / m.w, i % m.w, x) }
pub open spec fn domain_ok(m: Mat<f64>, d: f64) -> bool {
    size_ok(m) && forall|i: int| 0 <= i < cells(m) ==> coef_ok(#[trigger] nth(m, i), d)
}
pub open spec fn size_ok<T>(m: Mat<T>) -> bool { m.wf() && cells(m) <= 0x10_0000_0000_0000 && m.w <= 0x10_0000_0000_0000 }
// cell i of w2 carries the bit, every other cell is what it was in w
pub open spec fn put_bit(w: Mat<f64>, w2: Mat<f64>, i: int, b: bool, d: f64) -> bool {
    w2 == put(w, i, nth(w2, i)) && fin(nth(w2, i)) && val(nth(w2, i)) == wcoef(nth(w, i), b, d)
}
// the first n cells carry the bits, the others are what they were
pub open spec fn is_written(m: Mat<f64>, w: Mat<f64>, b: Seq<bool>, n: int, d: f64) -> bool {
    &&& w.wf() && w.same_dim(m)
    &&& forall|i: int| 0 <= i < n ==> fin(#[trigger] nth(w, i)) && val(nth(w, i)) == wcoef(nth(m, i), b[i], d)
    &&& forall|i: int| n <= i < cells(m) ==> #[trigger] nth(w, i) == nth(m, i)
}
pub open spec fn all_read(m: Mat<f64>, d: f64, n: int) -> Seq<bool> { Seq::new(n as nat, |i: int| rbit(nth(m, i), d)) }
pub proof fn lemma_cell<T>(m: Mat<T>, i: int)
    requires 0 <= i < cells(m), m.w >= 0
    ensures 0 < m.w <= cells(m), 0 <= i / m.w < m.h(), 0 <= i % m.w < m.w, i == (i / m.w) * m.w + i % m.w
{
    let h = m.h();
    let w = m.w;
    assert(w > 0) by (nonlinear_arith) requires 0 <= i < h * w, w >= 0, h >= 0;
    assert(h > 0) by (nonlinear_arith) requires 0 <= i < h * w, w >= 0, h >= 0;
    assert(w <= h * w) by (nonlinear_arith) requires h >= 1, w > 0;
    assert(0 <= i / w < h) by (nonlinear_arith) requires 0 <= i < h * w, w > 0;
    assert(i == (i / w) * w + i % w) by (nonlinear_arith) requires w > 0;
}
pub proof fn lemma_cell_inj(w: int, i: int, j: int)
    requires w > 0, i / w == j / w, i % w == j % w
    ensures i == j
{
    assert(i == (i / w) * w + i % w) by (nonlinear_arith) requires w > 0;
    assert(j == (j / w) * w + j % w) by (nonlinear_arith) requires w > 0;
}
pub proof fn lemma_put<T>(m: Mat<T>, i: int, x: T)
    requires m.wf(), 0 <= i < cells(m)
    ensures put(m, i, x).wf(), put(m, i, x).same_dim(m), nth(put(m, i, x), i) == x, forall|j: int| 0 <= j < cells(m) && j != i ==> #[trigger] nth(put(m, i, x), j) == nth(m, j)
{
    lemma_cell(m, i);
    assert forall|j: int| 0 <= j < cells(m) && j != i implies #[trigger] nth(put(m, i, x), j) == nth(m, j) by {
        lemma_cell(m, j);
        if i / m.w == j / m.w && i % m.w == j % m.w { lemma_cell_inj(m.w, i, j); }
    }
}
pub proof fn lemma_written_none(m: Mat<f64>, b: Seq<bool>, d: f64)
    requires m.wf()
    ensures is_written(m, m, b, 0, d)
{}
pub proof fn lemma_written_step(m: Mat<f64>, w: Mat<f64>, w2: Mat<f64>, b: Seq<bool>, i: int, d: f64)
    requires m.wf(), 0 <= i < cells(m), is_written(m, w, b, i, d), i < b.len(), put_bit(w, w2, i, b[i], d)
    ensures is_written(m, w2, b, i + 1, d)
{
    lemma_put(w, i, nth(w2, i));
    assert forall|j: int| 0 <= j < i + 1 implies fin(#[trigger] nth(w2, j)) && val(nth(w2, j)) == wcoef(nth(m, j), b[j], d) by {
        if j < i { assert(nth(w2, j) == nth(w, j)); }
    }
}

pub proof fn lemma_read_bounds(c: f64, d: f64)
    requires depth_ok(d), coef_ok(c, d)
    ensures rabs(val(d) * (level(c, d) as real)) <= big(), rabs(val(c) - rn(val(d) * (level(c, d) as real))) <= big()
{
    lemma_level(c, d);
    lemma_prod(d, level(c, d) as real);
    lemma_big();
}
pub proof fn lemma_read_grow(e: Seq<u8>, m: Mat<f64>, d: f64)
    requires e.len() > 0, bits_of(e.drop_last()) == all_read(m, d, 8 * (e.len() - 1)),
        forall|k: int| 0 <= k < 8 ==> #[trigger] bit(e.last(), k) == rbit(nth(m, 8 * (e.len() - 1) + k), d)
    ensures bits_of(e) == all_read(m, d, 8 * (e.len() as int))
{
    assert forall|i: int| 0 <= i < 8 * e.len() implies bits_of(e)[i] == rbit(nth(m, i), d) by {
        if i < 8 * (e.len() - 1) {
            assert(bits_of(e.drop_last())[i] == all_read(m, d, 8 * (e.len() - 1))[i]);
            assert(bits_of(e.drop_last())[i] == bit(e.drop_last()[i / 8], i % 8));
            assert(e.drop_last()[i / 8] == e[i / 8]);
            assert(bits_of(e)[i] == bit(e[i / 8], i % 8));
        } else {
            let k = i - 8 * (e.len() - 1);
            assert(i / 8 == e.len() - 1 && i % 8 == k);
            assert(bit(e.last(), k) == rbit(nth(m, 8 * (e.len() - 1) + k), d));
            assert(bits_of(e)[i] == bit(e[i / 8], i % 8));
        }
    }
    assert(bits_of(e) =~= all_read(m, d, 8 * (e.len() as int)));
}

// a domain within reach of the theorems
pub open spec fn domain_mil(m: Mat<f64>, d: f64) -> bool { size_ok(m) && forall|i: int| 0 <= i < cells(m) ==> million_ok(#[trigger] nth(m, i), d) }
pub open spec fn disturbed(w: Mat<f64>, x: Mat<f64>, d: f64) -> bool {
    x.wf() && x.same_dim(w) && forall|i: int| 0 <= i < cells(w) ==> fin(#[trigger] nth(x, i)) && rabs(val(nth(x, i)) - val(nth(w, i))) <= val(d) * (24real / 100real)
}
pub proof fn lemma_disturbed_ok(m: Mat<f64>, w: Mat<f64>, x: Mat<f64>, b: Seq<bool>, n: int, d: f64)
    requires depth_ok(d), domain_mil(m, d), 0 <= n <= cells(m), n <= b.len(), is_written(m, w, b, n, d), disturbed(w, x, d)
    ensures domain_ok(x, d), forall|i: int| 0 <= i < n ==> rbit(#[trigger] nth(x, i), d) == b[i]
{
    let v = val(d);
    assert forall|i: int| 0 <= i < cells(x) implies coef_ok(#[trigger] nth(x, i), d) by {
        let c = nth(m, i);
        let y = nth(x, i);
        assert(million_ok(c, d));
        if i < n {
            lemma_write_moves(c, b[i], d);
            let z = nth(w, i);
            assert(val(z) == wcoef(c, b[i], d));
            assert(rabs(val(y)) <= v * 2000000real) by (nonlinear_arith) requires rabs(val(y) - val(z)) <= v * (24real / 100real), rabs(val(z) - val(c)) <= v * (0.75real + 3real / 1000000real), -1000000real * v <= val(c) <= 1000000real * v, v > 0real;
        } else {
            assert(nth(w, i) == c);
            assert(rabs(val(y)) <= v * 2000000real) by (nonlinear_arith) requires rabs(val(y) - val(c)) <= v * (24real / 100real), -1000000real * v <= val(c) <= 1000000real * v, v > 0real;
        }
    }
    assert forall|i: int| 0 <= i < n implies rbit(#[trigger] nth(x, i), d) == b[i] by {
        let c = nth(m, i);
        let y = nth(x, i);
        let z = nth(w, i);
        assert(million_ok(c, d));
        assert(coef_ok(y, d));
        assert(rabs(val(y) - val(z)) <= v * (24real / 100real));
        lemma_level(c, d);
        lemma_write_moves(c, b[i], d);
        let e = v * (level(c, d) as real + quarter(b[i]));
        assert(rabs(val(y) - e) <= v * (245real / 1000real)) by (nonlinear_arith)
            requires rabs(val(y) - val(z)) <= v * (24real / 100real), rabs(val(z) - e) <= v / 1000000real, v > 0real;
        lemma_reads(y, d, level(c, d), b[i]);
    }
}
