// ---- all levels
pub open spec fn mx(m: real, k: int) -> real decreases k { if k <= 0 { m } else { 2real * mx(m, k - 1) } }
pub proof fn lemma_mx(m: real, k: int)
    requires 1real <= m, 0 <= k <= 30
    ensures mx(m, k) >= m, mx(m, k) <= 1073741824real * m, mx(m, k) == (pow2(k) as real) * m
    decreases k
{
    lemma_pow_i32(k);
    lemma_pow2(0);
    if k > 0 {
        lemma_mx(m, k - 1);
        lemma_pow2(k - 1);
        let a = pow2(k - 1) as real;
        assert(2real * (a * m) == (2real * a) * m) by (nonlinear_arith);
        let p = pow2(k) as real;
        assert(p == 2real * a);
        assert(mx(m, k) == 2real * mx(m, k - 1));
        assert(p * m <= 1073741824real * m) by (nonlinear_arith) requires p <= 1073741824real, m >= 1real;
        assert(p * m == (2real * a) * m);
    } else {
        assert(pow2(k) as real == 1real);
        assert(1real * m == m) by (nonlinear_arith);
    }
}
// what the coarsest sub-band of level k holds: the sum of the block over 2^k, in quarters
pub open spec fn ll(m: Mat<f64>, k: int, r: int, c: int) -> real decreases k {
    if k <= 0 { val(m.at(r, c)) } else { (ll(m, k - 1, 2 * r, 2 * c) + ll(m, k - 1, 2 * r, 2 * c + 1) + ll(m, k - 1, 2 * r + 1, 2 * c) + ll(m, k - 1, 2 * r + 1, 2 * c + 1)) / 2real }
}
pub open spec fn bounded(m: Mat<f64>, bd: real) -> bool { forall|r: int, c: int| 0 <= r < m.h() && 0 <= c < m.w ==> within(#[trigger] m.at(r, c), bd) }
pub open spec fn er(bd: real, k: int) -> real { k as real * eta() * mx(bd, k) }
pub open spec fn fwd_ok(m: Mat<f64>, bd: real, k: int, r: int, c: int) -> bool {
    near(fwd(m, k).at(r, c), ll(m, k, r, c), er(bd, k)) && rabs(ll(m, k, r, c)) <= mx(bd, k) && within(fwd(m, k).at(r, c), 2real * mx(bd, k))
}
pub open spec fn inblock<T>(m: Mat<T>, k: int, r: int, c: int) -> bool { 0 <= r < m.h() / pow2(k) && 0 <= c < m.w / pow2(k) }
pub open spec fn lim(bd: real) -> bool { 1real <= bd <= 1000000000000real }
pub proof fn lemma_put_at(m: Mat<f64>, b: Mat<f64>, r: int, c: int)
    requires m.wf(), b.wf(), b.h() <= m.h(), b.w <= m.w, 0 <= r < m.h(), 0 <= c < m.w
    ensures m.put_block(b).at(r, c) == (if r < b.h() && c < b.w { b.at(r, c) } else { m.at(r, c) })
{}
pub proof fn lemma_fwd_step(m: Mat<f64>, bd: real, l: int, k: int)
    requires dims_ok(m, l), 0 <= k < l <= 30, lim(bd), fwd(m, k).wf(), fwd(m, k).same_dim(m), forall|r: int, c: int| #[trigger] inblock(m, k, r, c) ==> fwd_ok(m, bd, k, r, c)
    ensures fwd(m, k + 1).wf(), fwd(m, k + 1).same_dim(m), forall|r: int, c: int| #[trigger] inblock(m, k + 1, r, c) ==> fwd_ok(m, bd, k + 1, r, c)
{
    let f = fwd(m, k);
    lemma_dims(m.h(), l, k);
    lemma_dims(m.w, l, k);
    lemma_one_dim(f, k, false);
    lemma_mx(bd, k);
    lemma_mx(bd, k + 1);
    lemma_split(f, f.h() / pow2(k), f.w / pow2(k));
    let b = f.block(f.h() / pow2(k), f.w / pow2(k));
    let y = level_of(b, false);
    assert(fwd(m, k + 1) == f.put_block(y));
    assert forall|r: int, c: int| #[trigger] inblock(m, k + 1, r, c) implies fwd_ok(m, bd, k + 1, r, c) by {
        assert(inblock(m, k, 2 * r, 2 * c));
        assert(inblock(m, k, 2 * r, 2 * c + 1));
        assert(inblock(m, k, 2 * r + 1, 2 * c));
        assert(inblock(m, k, 2 * r + 1, 2 * c + 1));
        lemma_cells_fwd(b, r, c);
        lemma_put_at(f, y, r, c);
        let mk = mx(bd, k);
        lemma_quad(b.at(2 * r, 2 * c), b.at(2 * r, 2 * c + 1), b.at(2 * r + 1, 2 * c), b.at(2 * r + 1, 2 * c + 1), 2real * mk, false);
        lemma_er_step(bd, k);
        lemma_sum4(fwd(m, k + 1).at(r, c), f.at(2 * r, 2 * c), f.at(2 * r, 2 * c + 1), f.at(2 * r + 1, 2 * c), f.at(2 * r + 1, 2 * c + 1),
            ll(m, k, 2 * r, 2 * c), ll(m, k, 2 * r, 2 * c + 1), ll(m, k, 2 * r + 1, 2 * c), ll(m, k, 2 * r + 1, 2 * c + 1), 40real * hz() * mk, er(bd, k), er(bd, k + 1), mk);
    }
}
pub proof fn lemma_er_step(bd: real, k: int)
    requires 0 <= k < 30, lim(bd)
    ensures 2real * er(bd, k) + 40real * hz() * mx(bd, k) <= er(bd, k + 1), 0real <= er(bd, k) <= mx(bd, k), 20real * hz() * (2real * mx(bd, k)) == 40real * hz() * mx(bd, k), er(bd, k + 1) <= mx(bd, k + 1)
{
    lemma_mx(bd, k);
    lemma_mx(bd, k + 1);
    let m = mx(bd, k);
    let t = k as real;
    let a = eta() * m;
    assert(a > 0real && a <= m / 100real) by (nonlinear_arith) requires a == eta() * m, m >= 1real, eta() == 1real / 1000000000000real;
    assert(er(bd, k) == t * a) by (nonlinear_arith) requires er(bd, k) == t * eta() * m, a == eta() * m;
    assert(er(bd, k + 1) == 2real * (t * a) + 2real * a) by (nonlinear_arith) requires er(bd, k + 1) == (t + 1real) * eta() * (2real * m), a == eta() * m;
    assert(0real <= t * a <= m / 3real) by (nonlinear_arith) requires 0real <= t <= 30real, 0real < a <= m / 100real;
    assert(mx(bd, k + 1) == 2real * m);
    assert(20real * hz() * (2real * m) == 40real * hz() * m) by (nonlinear_arith);
    assert(40real * hz() * m <= 2real * a) by (nonlinear_arith) requires a == eta() * m, m >= 1real, eta() == 1real / 1000000000000real, hz() == 1real / 1000000000000000real;
}
pub proof fn lemma_sum4(z: f64, x0: f64, x1: f64, x2: f64, x3: f64, l0: real, l1: real, l2: real, l3: real, h: real, e: real, e2: real, m: real)
    requires near(z, (val(x0) + val(x1) + val(x2) + val(x3)) / 2real, h), near(x0, l0, e), near(x1, l1, e), near(x2, l2, e), near(x3, l3, e),
        rabs(l0) <= m, rabs(l1) <= m, rabs(l2) <= m, rabs(l3) <= m, 2real * e + h <= e2, e2 <= 2real * m,
    ensures near(z, (l0 + l1 + l2 + l3) / 2real, e2), rabs((l0 + l1 + l2 + l3) / 2real) <= 2real * m, within(z, 4real * m)
{}
pub proof fn lemma_fwd(m: Mat<f64>, bd: real, l: int, k: int)
    requires dims_ok(m, l), 0 <= k <= l <= 30, lim(bd), bounded(m, bd)
    ensures fwd(m, k).wf(), fwd(m, k).same_dim(m), forall|r: int, c: int| #[trigger] inblock(m, k, r, c) ==> fwd_ok(m, bd, k, r, c)
    decreases k
{
    if k == 0 {
        lemma_pow2(0);
        assert(fwd(m, 0) == m);
        assert(er(bd, 0) == 0real) by (nonlinear_arith) requires er(bd, 0) == 0real * eta() * mx(bd, 0);
        assert forall|r: int, c: int| #[trigger] inblock(m, 0, r, c) implies fwd_ok(m, bd, 0, r, c) by {
            assert(within(m.at(r, c), bd));
        }
    } else {
        lemma_fwd(m, bd, l, k - 1);
        lemma_fwd_step(m, bd, l, k - 1);
    }
}
// the change of the coarsest sub-band that a cell of a finer level inherits
pub open spec fn chg(n: Mat<f64>, f: Mat<f64>, j: int, r: int, c: int) -> real decreases j {
    if j <= 0 { val(n.at(r, c)) - val(f.at(r, c)) } else { chg(n, f, j - 1, r / 2, c / 2) / 2real }
}
pub open spec fn eb(bd: real, dd: real, l: int, k: int) -> real { (l - k) as real * 2real * eta() * mx(bd, k) + 2real * eta() * dd }
pub open spec fn back_ok(m: Mat<f64>, n: Mat<f64>, nl: Mat<f64>, bd: real, dd: real, l: int, k: int, r: int, c: int) -> bool {
    let e = chg(nl, fwd(m, l), l - k, r, c);
    near(n.at(r, c), val(fwd(m, k).at(r, c)) + e, eb(bd, dd, l, k)) && rabs(e) <= dd
}
pub open spec fn same_rest(m: Mat<f64>, n: Mat<f64>, k: int, r: int, c: int) -> bool { n.at(r, c) == fwd(m, k).at(r, c) }
pub open spec fn incell<T>(m: Mat<T>, r: int, c: int) -> bool { 0 <= r < m.h() && 0 <= c < m.w }
pub open spec fn related(m: Mat<f64>, n: Mat<f64>, nl: Mat<f64>, bd: real, dd: real, l: int, k: int) -> bool {
    &&& n.wf() && n.same_dim(m)
    &&& forall|r: int, c: int| #[trigger] inblock(m, k, r, c) ==> back_ok(m, n, nl, bd, dd, l, k, r, c)
    &&& forall|r: int, c: int| #[trigger] incell(m, r, c) && !inblock(m, k, r, c) ==> same_rest(m, n, k, r, c)
}
pub proof fn lemma_eb_step(bd: real, dd: real, l: int, k: int)
    requires 0 <= k < l <= 30, lim(bd), 0real <= dd <= 100000000000real
    ensures eb(bd, dd, l, k + 1) / 2real + eta() * (2real * mx(bd, k) + dd) <= eb(bd, dd, l, k), 0real <= eb(bd, dd, l, k + 1) <= 2real * mx(bd, k),
{
    lemma_mx(bd, k);
    lemma_mx(bd, k + 1);
    let m = mx(bd, k);
    let t = (l - k - 1) as real;
    let a = eta() * m;
    let b = eta() * dd;
    assert(0real <= a <= m / 1000real) by (nonlinear_arith) requires a == eta() * m, m >= 1real, eta() == 1real / 1000000000000real;
    assert(0real <= b <= 1real / 10real) by (nonlinear_arith) requires b == eta() * dd, 0real <= dd <= 100000000000real, eta() == 1real / 1000000000000real;
    assert(eb(bd, dd, l, k + 1) == 4real * (t * a) + 2real * b) by (nonlinear_arith) requires eb(bd, dd, l, k + 1) == t * 2real * eta() * (2real * m) + 2real * eta() * dd, a == eta() * m, b == eta() * dd;
    assert(eb(bd, dd, l, k) == 2real * (t * a) + 2real * a + 2real * b) by (nonlinear_arith) requires eb(bd, dd, l, k) == (t + 1real) * 2real * eta() * m + 2real * eta() * dd, a == eta() * m, b == eta() * dd;
    assert(eta() * (2real * m + dd) == 2real * a + b) by (nonlinear_arith) requires a == eta() * m, b == eta() * dd;
    assert(0real <= t * a <= 30real * a) by (nonlinear_arith) requires 0real <= t <= 30real, a >= 0real;
}
pub proof fn lemma_one_at(m: Mat<f64>, l: int, k: int, r: int, c: int, back: bool)
    requires dims_ok(m, l), 0 <= k < l <= 30, 0 <= r < m.h(), 0 <= c < m.w
    ensures ({ let hk = m.h() / pow2(k); let wk = m.w / pow2(k); let z = level_of(m.block(hk, wk), back);
        one(m, k, back).at(r, c) == (if r < hk && c < wk { z.at(r, c) } else { m.at(r, c) }) })
{
    lemma_dims(m.h(), l, k);
    lemma_dims(m.w, l, k);
    lemma_one_dim(m, k, back);
    let hk = m.h() / pow2(k);
    let wk = m.w / pow2(k);
    lemma_split(m, hk, wk);
    let b = m.block(hk, wk);
    lemma_rows_ends(b, back);
    lemma_rows_ends(step_rows(b, back), back);
    lemma_put_at(m, level_of(b, back), r, c);
}
// the four sub-bands of one level
pub proof fn lemma_bands(f: Mat<f64>, l: int, k: int, r: int, c: int)
    requires dims_ok(f, l), 0 <= k < l <= 30, 0 <= r < f.h() / pow2(k + 1), 0 <= c < f.w / pow2(k + 1)
    ensures ({ let h2 = f.h() / pow2(k + 1); let w2 = f.w / pow2(k + 1); let y = one(f, k, false);
        let a0 = f.at(2 * r, 2 * c); let a1 = f.at(2 * r, 2 * c + 1); let a2 = f.at(2 * r + 1, 2 * c); let a3 = f.at(2 * r + 1, 2 * c + 1);
        y.at(r, c) == q00(a0, a1, a2, a3, false) && y.at(r, c + w2) == q01(a0, a1, a2, a3, false) && y.at(r + h2, c) == q10(a0, a1, a2, a3, false) && y.at(r + h2, c + w2) == q11(a0, a1, a2, a3, false) })
{
    lemma_dims(f.h(), l, k);
    lemma_dims(f.w, l, k);
    let h2 = f.h() / pow2(k + 1); let w2 = f.w / pow2(k + 1);
    let b = f.block(f.h() / pow2(k), f.w / pow2(k));
    lemma_split(f, f.h() / pow2(k), f.w / pow2(k));
    lemma_cells_fwd(b, r, c);
    lemma_one_at(f, l, k, r, c, false);
    lemma_one_at(f, l, k, r, c + w2, false);
    lemma_one_at(f, l, k, r + h2, c, false);
    lemma_one_at(f, l, k, r + h2, c + w2, false);
}
pub proof fn lemma_merge(n: Mat<f64>, l: int, k: int, r: int, c: int)
    requires dims_ok(n, l), 0 <= k < l <= 30, 0 <= r < n.h() / pow2(k + 1), 0 <= c < n.w / pow2(k + 1)
    ensures ({ let h2 = n.h() / pow2(k + 1); let w2 = n.w / pow2(k + 1); let z = one(n, k, true);
        let a0 = n.at(r, c); let a1 = n.at(r, c + w2); let a2 = n.at(r + h2, c); let a3 = n.at(r + h2, c + w2);
        z.at(2 * r, 2 * c) == q00(a0, a1, a2, a3, true) && z.at(2 * r, 2 * c + 1) == q01(a0, a1, a2, a3, true) && z.at(2 * r + 1, 2 * c) == q10(a0, a1, a2, a3, true) && z.at(2 * r + 1, 2 * c + 1) == q11(a0, a1, a2, a3, true) })
{
    lemma_dims(n.h(), l, k);
    lemma_dims(n.w, l, k);
    let b = n.block(n.h() / pow2(k), n.w / pow2(k));
    lemma_split(n, n.h() / pow2(k), n.w / pow2(k));
    lemma_cells_back(b, r, c);
    lemma_one_at(n, l, k, 2 * r, 2 * c, true);
    lemma_one_at(n, l, k, 2 * r, 2 * c + 1, true);
    lemma_one_at(n, l, k, 2 * r + 1, 2 * c, true);
    lemma_one_at(n, l, k, 2 * r + 1, 2 * c + 1, true);
}
pub open spec fn back_quad(m: Mat<f64>, n: Mat<f64>, nl: Mat<f64>, bd: real, dd: real, l: int, k: int, r: int, c: int) -> bool {
    back_ok(m, n, nl, bd, dd, l, k, 2 * r, 2 * c) && back_ok(m, n, nl, bd, dd, l, k, 2 * r, 2 * c + 1) && back_ok(m, n, nl, bd, dd, l, k, 2 * r + 1, 2 * c) && back_ok(m, n, nl, bd, dd, l, k, 2 * r + 1, 2 * c + 1)
}
pub proof fn lemma_back_quad(m: Mat<f64>, n: Mat<f64>, nl: Mat<f64>, bd: real, dd: real, l: int, k: int, r: int, c: int)
    requires dims_ok(m, l), 0 <= k < l <= 30, lim(bd), bounded(m, bd), 0real <= dd <= 100000000000real, related(m, n, nl, bd, dd, l, k + 1), inblock(m, k + 1, r, c)
    ensures back_quad(m, one(n, k, true), nl, bd, dd, l, k, r, c)
{
    lemma_fwd(m, bd, l, k);
    let f = fwd(m, k);
    lemma_dims(m.h(), l, k);
    lemma_dims(m.w, l, k);
    lemma_mx(bd, k);
    lemma_eb_step(bd, dd, l, k);
    let h2 = m.h() / pow2(k + 1);
    let w2 = m.w / pow2(k + 1);
    let f1 = fwd(m, k + 1);
    assert(f1 == one(f, k, false));
    lemma_bands(f, l, k, r, c);
    lemma_merge(n, l, k, r, c);
    assert(back_ok(m, n, nl, bd, dd, l, k + 1, r, c));
    assert(incell(m, r, c + w2) && !inblock(m, k + 1, r, c + w2));
    assert(incell(m, r + h2, c) && !inblock(m, k + 1, r + h2, c));
    assert(incell(m, r + h2, c + w2) && !inblock(m, k + 1, r + h2, c + w2));
    assert(same_rest(m, n, k + 1, r, c + w2));
    assert(same_rest(m, n, k + 1, r + h2, c));
    assert(same_rest(m, n, k + 1, r + h2, c + w2));
    assert(inblock(m, k, 2 * r, 2 * c) && inblock(m, k, 2 * r, 2 * c + 1) && inblock(m, k, 2 * r + 1, 2 * c) && inblock(m, k, 2 * r + 1, 2 * c + 1));
    let e = chg(nl, fwd(m, l), l - k - 1, r, c);
    lemma_chg(nl, fwd(m, l), l - k, r, c);
    lemma_quad_back(f.at(2 * r, 2 * c), f.at(2 * r, 2 * c + 1), f.at(2 * r + 1, 2 * c), f.at(2 * r + 1, 2 * c + 1), n.at(r, c), e, eb(bd, dd, l, k + 1), 2real * mx(bd, k), dd);
}
pub proof fn lemma_chg(n: Mat<f64>, f: Mat<f64>, j: int, r: int, c: int)
    requires j > 0, 0 <= r, 0 <= c
    ensures ({ let e = chg(n, f, j - 1, r, c) / 2real; chg(n, f, j, 2 * r, 2 * c) == e && chg(n, f, j, 2 * r, 2 * c + 1) == e && chg(n, f, j, 2 * r + 1, 2 * c) == e && chg(n, f, j, 2 * r + 1, 2 * c + 1) == e })
{
    assert((2 * r) / 2 == r && (2 * r + 1) / 2 == r && (2 * c) / 2 == c && (2 * c + 1) / 2 == c);
}
pub proof fn lemma_back_step(m: Mat<f64>, n: Mat<f64>, nl: Mat<f64>, bd: real, dd: real, l: int, k: int)
    requires dims_ok(m, l), 0 <= k < l <= 30, lim(bd), bounded(m, bd), 0real <= dd <= 100000000000real, related(m, n, nl, bd, dd, l, k + 1)
    ensures related(m, one(n, k, true), nl, bd, dd, l, k)
{
    lemma_fwd(m, bd, l, k);
    let f = fwd(m, k);
    lemma_dims(m.h(), l, k);
    lemma_dims(m.w, l, k);
    lemma_one_dim(n, k, true);
    let n1 = one(n, k, true);
    assert forall|r: int, c: int| #[trigger] inblock(m, k, r, c) implies back_ok(m, n1, nl, bd, dd, l, k, r, c) by {
        let r2 = r / 2;
        let c2 = c / 2;
        assert(inblock(m, k + 1, r2, c2));
        lemma_back_quad(m, n, nl, bd, dd, l, k, r2, c2);
        assert(r == 2 * r2 || r == 2 * r2 + 1);
        assert(c == 2 * c2 || c == 2 * c2 + 1);
    }
    assert(fwd(m, k + 1) == one(f, k, false));
    assert forall|r: int, c: int| #[trigger] incell(m, r, c) && !inblock(m, k, r, c) implies same_rest(m, n1, k, r, c) by {
        assert(!inblock(m, k + 1, r, c));
        assert(same_rest(m, n, k + 1, r, c));
        lemma_one_at(n, l, k, r, c, true);
        lemma_one_at(f, l, k, r, c, false);
    }
}
pub proof fn lemma_back(m: Mat<f64>, n: Mat<f64>, nl: Mat<f64>, bd: real, dd: real, l: int, k: int)
    requires dims_ok(m, l), 0 <= k <= l <= 30, lim(bd), bounded(m, bd), 0real <= dd <= 100000000000real, related(m, n, nl, bd, dd, l, k)
    ensures related(m, inv(n, k), nl, bd, dd, l, 0)
    decreases k
{
    if k > 0 {
        lemma_back_step(m, n, nl, bd, dd, l, k - 1);
        lemma_back(m, one(n, k - 1, true), nl, bd, dd, l, k - 1);
    }
}
// n differs from the forward transform only in the coarsest sub-band, by at most dd
pub open spec fn changed_ll(m: Mat<f64>, n: Mat<f64>, l: int, dd: real) -> bool {
    let f = fwd(m, l);
    &&& n.wf() && n.same_dim(m)
    &&& forall|r: int, c: int| #[trigger] inblock(m, l, r, c) ==> fin(n.at(r, c)) && rabs(val(n.at(r, c)) - val(f.at(r, c))) <= dd
    &&& forall|r: int, c: int| #[trigger] incell(m, r, c) && !inblock(m, l, r, c) ==> n.at(r, c) == f.at(r, c)
}
// the inverse of a forward transform with a changed coarsest sub-band
pub proof fn lemma_inverse(m: Mat<f64>, n: Mat<f64>, bd: real, dd: real, l: int)
    requires dims_ok(m, l), 0 <= l <= 30, lim(bd), bounded(m, bd), 0real <= dd <= 100000000000real, changed_ll(m, n, l, dd)
    ensures inv(n, l).wf(), inv(n, l).same_dim(m),
        forall|r: int, c: int| #[trigger] incell(m, r, c) ==> near(inv(n, l).at(r, c), val(m.at(r, c)) + chg(n, fwd(m, l), l, r, c), eb(bd, dd, l, 0))
{
    assert(eb(bd, dd, l, l) >= 0real) by (nonlinear_arith) requires eb(bd, dd, l, l) == 0real * 2real * eta() * mx(bd, l) + 2real * eta() * dd, dd >= 0real, eta() == 1real / 1000000000000real;
    assert forall|r: int, c: int| #[trigger] inblock(m, l, r, c) implies back_ok(m, n, n, bd, dd, l, l, r, c) by {}
    assert forall|r: int, c: int| #[trigger] incell(m, r, c) && !inblock(m, l, r, c) implies same_rest(m, n, l, r, c) by {}
    lemma_back(m, n, n, bd, dd, l, l);
    lemma_pow2(0);
    assert(fwd(m, 0) == m);
    assert forall|r: int, c: int| #[trigger] incell(m, r, c) implies near(inv(n, l).at(r, c), val(m.at(r, c)) + chg(n, fwd(m, l), l, r, c), eb(bd, dd, l, 0)) by {
        assert(inblock(m, 0, r, c));
        assert(back_ok(m, inv(n, l), n, bd, dd, l, 0, r, c));
    }
}
