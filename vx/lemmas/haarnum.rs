// ---- the numbers of one level
pub open spec fn eta() -> real { 1real / 1000000000000real }
pub open spec fn within(x: f64, b: real) -> bool { fin(x) && rabs(val(x)) <= b }
pub open spec fn near(x: f64, y: real, e: real) -> bool { fin(x) && rabs(val(x) - y) <= e }
pub open spec fn q00(a: f64, b: f64, c: f64, d: f64, k: bool) -> f64 { lo(lo(a, b, k), lo(c, d, k), k) }
pub open spec fn q01(a: f64, b: f64, c: f64, d: f64, k: bool) -> f64 { lo(hi(a, b, k), hi(c, d, k), k) }
pub open spec fn q10(a: f64, b: f64, c: f64, d: f64, k: bool) -> f64 { hi(lo(a, b, k), lo(c, d, k), k) }
pub open spec fn q11(a: f64, b: f64, c: f64, d: f64, k: bool) -> f64 { hi(hi(a, b, k), hi(c, d, k), k) }
pub proof fn lemma_pair(a: f64, b: f64, m: real, k: bool)
    requires 1real <= m <= huge(), within(a, m), within(b, m)
    ensures near(lo(a, b, k), rt() * (val(a) + val(b)), 3real * hz() * m), near(hi(a, b, k), rt() * (val(a) - val(b)), 3real * hz() * m),
        within(lo(a, b, k), 1.5real * m), within(hi(a, b, k), 1.5real * m)
{
    lemma_haar_pair(a, b, k);
    ax_rt();
    let s = rt();
    let x = val(a) + val(b);
    let y = val(a) - val(b);
    let e = rabs(val(a)) + rabs(val(b)) + 1real;
    assert(hz() * e <= 3real * hz() * m) by (nonlinear_arith) requires e <= 3real * m, hz() == 1real / 1000000000000000real;
    assert(rabs(s * x) <= 1.42real * m) by (nonlinear_arith) requires 0.7real <= s <= 0.71real, -2real * m <= x <= 2real * m, m >= 1real;
    assert(rabs(s * y) <= 1.42real * m) by (nonlinear_arith) requires 0.7real <= s <= 0.71real, -2real * m <= y <= 2real * m, m >= 1real;
    assert(3real * hz() * m <= 0.08real * m) by (nonlinear_arith) requires hz() == 1real / 1000000000000000real, m >= 1real;
}
// two pairs combined: rt * (p + q) where p = rt * x, q = rt * y
pub proof fn lemma_pair2(p: f64, q: f64, x: real, y: real, m: real, k: bool)
    requires 1real <= m, 3real * m <= huge(), near(p, rt() * x, 3real * hz() * m), near(q, rt() * y, 3real * hz() * m), within(p, 1.5real * m), within(q, 1.5real * m)
    ensures near(lo(p, q, k), (x + y) / 2real, 20real * hz() * m), near(hi(p, q, k), (x - y) / 2real, 20real * hz() * m)
{
    lemma_pair(p, q, 1.5real * m, k);
    ax_rt();
    let s = rt();
    let u = s * (val(p) + val(q));
    let v = s * (val(p) - val(q));
    let t = 3real * hz() * m;
    assert(s * (s * x + s * y) == (x + y) / 2real) by (nonlinear_arith) requires s * s == 0.5real;
    assert(s * (s * x - s * y) == (x - y) / 2real) by (nonlinear_arith) requires s * s == 0.5real;
    let du = val(p) + val(q) - (s * x + s * y);
    let dv = val(p) - val(q) - (s * x - s * y);
    assert(u - (x + y) / 2real == s * du) by (nonlinear_arith) requires u == s * (val(p) + val(q)), s * (s * x + s * y) == (x + y) / 2real, du == val(p) + val(q) - (s * x + s * y);
    assert(v - (x - y) / 2real == s * dv) by (nonlinear_arith) requires v == s * (val(p) - val(q)), s * (s * x - s * y) == (x - y) / 2real, dv == val(p) - val(q) - (s * x - s * y);
    assert(t >= 0real) by (nonlinear_arith) requires t == 3real * hz() * m, m >= 1real, hz() == 1real / 1000000000000000real;
    assert(rabs(s * du) <= 2real * t) by (nonlinear_arith) requires 0.7real <= s <= 0.71real, -2real * t <= du <= 2real * t, t >= 0real;
    assert(rabs(s * dv) <= 2real * t) by (nonlinear_arith) requires 0.7real <= s <= 0.71real, -2real * t <= dv <= 2real * t, t >= 0real;
    assert(3real * hz() * (1.5real * m) == 1.5real * t) by (nonlinear_arith) requires t == 3real * hz() * m;
    assert(20real * hz() * m == (20real / 3real) * t) by (nonlinear_arith) requires t == 3real * hz() * m;
}
pub proof fn lemma_quad(a: f64, b: f64, c: f64, d: f64, m: real, k: bool)
    requires 1real <= m, 3real * m <= huge(), within(a, m), within(b, m), within(c, m), within(d, m)
    ensures
        near(q00(a, b, c, d, k), (val(a) + val(b) + val(c) + val(d)) / 2real, 20real * hz() * m),
        near(q01(a, b, c, d, k), (val(a) - val(b) + val(c) - val(d)) / 2real, 20real * hz() * m),
        near(q10(a, b, c, d, k), (val(a) + val(b) - val(c) - val(d)) / 2real, 20real * hz() * m),
        near(q11(a, b, c, d, k), (val(a) - val(b) - val(c) + val(d)) / 2real, 20real * hz() * m),
{
    lemma_pair(a, b, m, k);
    lemma_pair(c, d, m, k);
    lemma_pair2(lo(a, b, k), lo(c, d, k), val(a) + val(b), val(c) + val(d), m, k);
    lemma_pair2(hi(a, b, k), hi(c, d, k), val(a) - val(b), val(c) - val(d), m, k);
}
pub proof fn lemma_quad_real(a: real, b: real, c: real, d: real, x: real, y01: real, y10: real, y11: real, e: real, g: real, h: real)
    requires -g <= x - (a + b + c + d) / 2real - e <= g, -h <= y01 - (a - b + c - d) / 2real <= h, -h <= y10 - (a + b - c - d) / 2real <= h, -h <= y11 - (a - b - c + d) / 2real <= h
    ensures -(g + 3real * h) <= 2real * ((x + y01 + y10 + y11) / 2real - a - e / 2real) <= g + 3real * h,
        -(g + 3real * h) <= 2real * ((x - y01 + y10 - y11) / 2real - b - e / 2real) <= g + 3real * h,
        -(g + 3real * h) <= 2real * ((x + y01 - y10 - y11) / 2real - c - e / 2real) <= g + 3real * h,
        -(g + 3real * h) <= 2real * ((x - y01 - y10 + y11) / 2real - d - e / 2real) <= g + 3real * h,
{}
// the inverse of a quad whose first coefficient was moved by e (and e1): every number moves by half of it
pub proof fn lemma_quad_back(a: f64, b: f64, c: f64, d: f64, x: f64, e: real, e1: real, m: real, dd: real)
    requires 1real <= m, 0real <= dd, 30real * m + 30real * dd <= huge(), within(a, m), within(b, m), within(c, m), within(d, m),
        near(x, val(q00(a, b, c, d, false)) + e, e1), rabs(e) <= dd, 0real <= e1 <= m
    ensures ({ let y01 = q01(a, b, c, d, false); let y10 = q10(a, b, c, d, false); let y11 = q11(a, b, c, d, false); let t = e1 / 2real + eta() * (m + dd);
        near(q00(x, y01, y10, y11, true), val(a) + e / 2real, t) && near(q01(x, y01, y10, y11, true), val(b) + e / 2real, t)
        && near(q10(x, y01, y10, y11, true), val(c) + e / 2real, t) && near(q11(x, y01, y10, y11, true), val(d) + e / 2real, t) })
{
    let y01 = q01(a, b, c, d, false); let y10 = q10(a, b, c, d, false); let y11 = q11(a, b, c, d, false);
    let h = 20real * hz() * m;
    let m2 = 4real * m + dd;
    let h2 = 20real * hz() * m2;
    let t = e1 / 2real + eta() * (m + dd);
    assert(0real <= h <= m / 1000real) by (nonlinear_arith) requires h == 20real * hz() * m, m >= 1real, hz() == 1real / 1000000000000000real;
    assert(h2 + 2real * h <= eta() * (m + dd)) by (nonlinear_arith)
        requires h == 20real * hz() * m, h2 == 20real * hz() * m2, m2 == 4real * m + dd, m >= 1real, dd >= 0real, hz() == 1real / 1000000000000000real, eta() == 1real / 1000000000000real;
    lemma_quad_bounds(a, b, c, d, x, e, e1, m, dd, h, m2);
    lemma_quad(x, y01, y10, y11, m2, true);
    lemma_quad_real(val(a), val(b), val(c), val(d), val(x), val(y01), val(y10), val(y11), e, e1 + h, h);
    lemma_near(q00(x, y01, y10, y11, true), (val(x) + val(y01) + val(y10) + val(y11)) / 2real, h2, val(a) + e / 2real, e1, h, t);
    lemma_near(q01(x, y01, y10, y11, true), (val(x) - val(y01) + val(y10) - val(y11)) / 2real, h2, val(b) + e / 2real, e1, h, t);
    lemma_near(q10(x, y01, y10, y11, true), (val(x) + val(y01) - val(y10) - val(y11)) / 2real, h2, val(c) + e / 2real, e1, h, t);
    lemma_near(q11(x, y01, y10, y11, true), (val(x) - val(y01) - val(y10) + val(y11)) / 2real, h2, val(d) + e / 2real, e1, h, t);
}
pub proof fn lemma_near(z: f64, p: real, h2: real, y: real, e1: real, h: real, t: real)
    requires near(z, p, h2), -(e1 + 4real * h) <= 2real * (p - y) <= e1 + 4real * h, e1 / 2real + 2real * h + h2 <= t
    ensures near(z, y, t)
{}
pub proof fn lemma_quad_bounds(a: f64, b: f64, c: f64, d: f64, x: f64, e: real, e1: real, m: real, dd: real, h: real, m2: real)
    requires 1real <= m, 0real <= dd, 30real * m + 30real * dd <= huge(), within(a, m), within(b, m), within(c, m), within(d, m),
        near(x, val(q00(a, b, c, d, false)) + e, e1), rabs(e) <= dd, 0real <= e1 <= m, h == 20real * hz() * m, 0real <= h <= m / 1000real, m2 == 4real * m + dd
    ensures ({ let y01 = q01(a, b, c, d, false); let y10 = q10(a, b, c, d, false); let y11 = q11(a, b, c, d, false);
        within(x, m2) && within(y01, m2) && within(y10, m2) && within(y11, m2) && 1real <= m2 && 3real * m2 <= huge()
        && -(e1 + h) <= val(x) - (val(a) + val(b) + val(c) + val(d)) / 2real - e <= e1 + h
        && -h <= val(y01) - (val(a) - val(b) + val(c) - val(d)) / 2real <= h && -h <= val(y10) - (val(a) + val(b) - val(c) - val(d)) / 2real <= h && -h <= val(y11) - (val(a) - val(b) - val(c) + val(d)) / 2real <= h })
{
    lemma_quad(a, b, c, d, m, false);
}
// ---- cells of one level
pub open spec fn level_of(b: Mat<f64>, back: bool) -> Mat<f64> { step_cols(step_rows(b, back), back) }
pub proof fn lemma_cells_fwd(b: Mat<f64>, r: int, c: int)
    requires b.wf(), b.h() % 2 == 0, b.w % 2 == 0, 0 <= r < b.h() / 2, 0 <= c < b.w / 2
    ensures ({ let y = level_of(b, false); let h2 = b.h() / 2; let w2 = b.w / 2; let p = b.at(2 * r, 2 * c); let q = b.at(2 * r, 2 * c + 1); let s = b.at(2 * r + 1, 2 * c); let t = b.at(2 * r + 1, 2 * c + 1);
        y.wf() && y.same_dim(b) && y.at(r, c) == q00(p, q, s, t, false) && y.at(r, c + w2) == q01(p, q, s, t, false) && y.at(r + h2, c) == q10(p, q, s, t, false) && y.at(r + h2, c + w2) == q11(p, q, s, t, false) })
{
    let h2 = b.h() / 2;
    let w2 = b.w / 2;
    let x = step_rows(b, false);
    lemma_rows_ends(b, false);
    lemma_rows_ends(x, false);
    let y = level_of(b, false);
    lemma_row_pair(b.d[2 * r], c);
    lemma_row_pair(b.d[2 * r + 1], c);
    assert(x.d[2 * r] == dwt1(b.d[2 * r], false));
    assert(x.d[2 * r + 1] == dwt1(b.d[2 * r + 1], false));
    lemma_row_pair(x.col(c), r);
    lemma_row_pair(x.col(c + w2), r);
    assert(y.at(r, c) == dwt1(x.col(c), false)[r]);
    assert(y.at(r, c + w2) == dwt1(x.col(c + w2), false)[r]);
    assert(y.at(r + h2, c) == dwt1(x.col(c), false)[r + h2]);
    assert(y.at(r + h2, c + w2) == dwt1(x.col(c + w2), false)[r + h2]);
}
pub proof fn lemma_row_pair(s: Seq<f64>, c: int)
    requires 0 <= c < s.len() as int / 2
    ensures dwt1(s, false)[c] == lo(s[2 * c], s[2 * c + 1], false), dwt1(s, false)[c + s.len() as int / 2] == hi(s[2 * c], s[2 * c + 1], false), dwt1(s, false).len() == s.len()
{}
pub proof fn lemma_row_back(s: Seq<f64>, c: int)
    requires s.len() % 2 == 0, 0 <= c < s.len() as int / 2
    ensures dwt1(s, true)[2 * c] == lo(s[c], s[c + s.len() as int / 2], true), dwt1(s, true)[2 * c + 1] == hi(s[c], s[c + s.len() as int / 2], true), dwt1(s, true).len() == s.len()
{}
pub proof fn lemma_cells_back(b: Mat<f64>, r: int, c: int)
    requires b.wf(), b.h() % 2 == 0, b.w % 2 == 0, 0 <= r < b.h() / 2, 0 <= c < b.w / 2
    ensures ({ let z = level_of(b, true); let h2 = b.h() / 2; let w2 = b.w / 2; let p = b.at(r, c); let q = b.at(r, c + w2); let s = b.at(r + h2, c); let t = b.at(r + h2, c + w2);
        z.wf() && z.same_dim(b) && z.at(2 * r, 2 * c) == q00(p, q, s, t, true) && z.at(2 * r, 2 * c + 1) == q01(p, q, s, t, true) && z.at(2 * r + 1, 2 * c) == q10(p, q, s, t, true) && z.at(2 * r + 1, 2 * c + 1) == q11(p, q, s, t, true) })
{
    let h2 = b.h() / 2;
    let w2 = b.w / 2;
    let x = step_rows(b, true);
    lemma_rows_ends(b, true);
    lemma_rows_ends(x, true);
    let z = level_of(b, true);
    lemma_row_back(b.d[r], c);
    lemma_row_back(b.d[r + h2], c);
    assert(x.d[r] == dwt1(b.d[r], true));
    assert(x.d[r + h2] == dwt1(b.d[r + h2], true));
    lemma_row_back(x.col(2 * c), r);
    lemma_row_back(x.col(2 * c + 1), r);
    assert(z.at(2 * r, 2 * c) == dwt1(x.col(2 * c), true)[2 * r]);
    assert(z.at(2 * r, 2 * c + 1) == dwt1(x.col(2 * c + 1), true)[2 * r]);
    assert(z.at(2 * r + 1, 2 * c) == dwt1(x.col(2 * c), true)[2 * r + 1]);
    assert(z.at(2 * r + 1, 2 * c + 1) == dwt1(x.col(2 * c + 1), true)[2 * r + 1]);
}
