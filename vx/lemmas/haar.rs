pub open spec fn pow2(k: int) -> int { vstd::arithmetic::power::pow(2, k as nat) }
pub open spec fn dims_ok<T>(m: Mat<T>, l: int) -> bool {
    m.wf() && 0 < m.h() <= i32::MAX && 0 < m.w <= i32::MAX && m.h() % pow2(l) == 0 && m.w % pow2(l) == 0
}
pub open spec fn step_rows(b: Mat<f64>, back: bool) -> Mat<f64> { Mat { w: b.w, d: Seq::new(b.d.len(), |r: int| dwt1(b.d[r], back)) } }
pub open spec fn step_cols(b: Mat<f64>, back: bool) -> Mat<f64> { Mat { w: b.w, d: Seq::new(b.d.len(), |r: int| Seq::new(b.w as nat, |c: int| dwt1(b.col(c), back)[r])) } }
pub open spec fn rows_upto(b: Mat<f64>, n: int, back: bool) -> Mat<f64> { Mat { w: b.w, d: Seq::new(b.d.len(), |r: int| if r < n { dwt1(b.d[r], back) } else { b.d[r] }) } }
pub open spec fn cols_upto(b: Mat<f64>, n: int, back: bool) -> Mat<f64> { Mat { w: b.w, d: Seq::new(b.d.len(), |r: int| Seq::new(b.w as nat, |c: int| if c < n { dwt1(b.col(c), back)[r] } else { b.d[r][c] })) } }
// one level on the leading block of 1/2^k of the rows and columns
pub open spec fn one(m: Mat<f64>, k: int, back: bool) -> Mat<f64> { m.put_block(step_cols(step_rows(m.block(m.h() / pow2(k), m.w / pow2(k)), back), back)) }
pub open spec fn fwd(m: Mat<f64>, k: int) -> Mat<f64> decreases k { if k <= 0 { m } else { one(fwd(m, k - 1), k - 1, false) } }
pub open spec fn inv(m: Mat<f64>, k: int) -> Mat<f64> decreases k { if k <= 0 { m } else { inv(one(m, k - 1, true), k - 1) } }
pub proof fn lemma_pow2(k: int)
    requires 0 <= k
    ensures pow2(k) >= 1, pow2(k + 1) == 2 * pow2(k), pow2(0) == 1
    decreases k
{
    vstd::arithmetic::power::lemma_pow0(2);
    if k > 0 { lemma_pow2(k - 1); }
    assert(vstd::arithmetic::power::pow(2, (k + 1) as nat) == 2 * vstd::arithmetic::power::pow(2, k as nat)) by { reveal(vstd::arithmetic::power::pow); };
}
pub proof fn lemma_pow2_grow(k: int, l: int)
    requires 0 <= k <= l
    ensures pow2(k) <= pow2(l), pow2(l) == pow2(k) * pow2(l - k), pow2(k) >= 1, pow2(l - k) >= 1
    decreases l - k
{
    lemma_pow2(k);
    lemma_pow2(l);
    lemma_pow2(l - k);
    if k < l {
        lemma_pow2_grow(k, l - 1);
        lemma_pow2(l - 1);
        lemma_pow2(l - 1 - k);
        assert(2 * (pow2(k) * pow2(l - 1 - k)) == pow2(k) * (2 * pow2(l - 1 - k))) by (nonlinear_arith);
    } else {
        assert(pow2(k) * 1 == pow2(k)) by (nonlinear_arith);
    }
}
pub proof fn lemma_pow_i32(k: int)
    requires 0 <= k <= 30
    ensures 1 <= pow2(k) <= 1073741824
{
    lemma_pow2_grow(k, 30);
    assert(pow2(30) == 1073741824) by (compute);
}
// the block of level k is twice the block of level k + 1
pub proof fn lemma_dims(h: int, l: int, k: int)
    requires 0 <= k < l, 0 < h, h % pow2(l) == 0
    ensures h / pow2(k) == 2 * (h / pow2(k + 1)), 0 < h / pow2(k + 1), h / pow2(k) <= h, h % pow2(k) == 0, h % pow2(k + 1) == 0, h / pow2(k) * pow2(k) == h
{
    lemma_pow2_grow(k, l);
    lemma_pow2_grow(k + 1, l);
    lemma_pow2(k);
    let p = pow2(k);
    let q = pow2(l - k - 1);
    let n = h / pow2(l);
    assert(n >= 1) by (nonlinear_arith) requires n == h / pow2(l), h % pow2(l) == 0, h > 0, pow2(l) >= 1;
    assert(h == n * pow2(l)) by (nonlinear_arith) requires n == h / pow2(l), h % pow2(l) == 0, pow2(l) >= 1;
    let e = n * q;
    assert(e >= 1) by (nonlinear_arith) requires n >= 1, q >= 1, e == n * q;
    assert(h == e * (2 * p)) by (nonlinear_arith) requires h == n * ((2 * p) * q), e == n * q;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(h, 2 * p, e, 0);
    assert(h == (2 * e) * p) by (nonlinear_arith) requires h == e * (2 * p);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(h, p, 2 * e, 0);
    assert(2 * e <= h) by (nonlinear_arith) requires h == (2 * e) * p, p >= 1, e >= 1;
}
pub proof fn lemma_one_dim(m: Mat<f64>, k: int, back: bool)
    requires m.wf(), 0 <= k, 0 < m.h(), 0 < m.w
    ensures one(m, k, back).wf(), one(m, k, back).same_dim(m), m.h() / pow2(k) <= m.h(), m.w / pow2(k) <= m.w, 0 <= m.h() / pow2(k), 0 <= m.w / pow2(k)
{
    lemma_pow2(k);
    let p = pow2(k);
    assert(m.h() / p <= m.h() && 0 <= m.h() / p) by (nonlinear_arith) requires p >= 1, m.h() > 0;
    assert(m.w / p <= m.w && 0 <= m.w / p) by (nonlinear_arith) requires p >= 1, m.w > 0;
}
pub proof fn lemma_col_step(b: Mat<f64>, n: int, back: bool)
    requires b.wf(), 0 <= n < b.w
    ensures cols_upto(b, n, back).wf(), cols_upto(b, n, back).col(n) == b.col(n), cols_upto(b, n, back).with_col(n, dwt1(b.col(n), back)) == cols_upto(b, n + 1, back)
{
    let x = cols_upto(b, n, back);
    assert(x.col(n) =~= b.col(n));
    let y = x.with_col(n, dwt1(b.col(n), back));
    assert forall|r: int| 0 <= r < b.d.len() implies y.d[r] == cols_upto(b, n + 1, back).d[r] by {
        assert(y.d[r] =~= cols_upto(b, n + 1, back).d[r]);
    }
    assert(y.d =~= cols_upto(b, n + 1, back).d);
}

// splitting first by rows and then by columns takes the leading block
pub proof fn lemma_split(m: Mat<f64>, h2: int, w2: int)
    requires m.wf(), 0 <= h2 <= m.h(), 0 <= w2 <= m.w
    ensures m.block(h2, m.w).block(h2, w2) == m.block(h2, w2), m.block(h2, w2).wf(), m.block(h2, w2).h() == h2, m.block(h2, m.w).h() == h2,
        forall|b: Mat<f64>| b.wf() && b.w == w2 && b.h() == h2 ==> #[trigger] m.put_block(m.block(h2, m.w).put_block(b)) == m.put_block(b)
{
    let x = m.block(h2, m.w);
    assert forall|r: int| 0 <= r < h2 implies x.block(h2, w2).d[r] == m.block(h2, w2).d[r] by {
        assert(x.block(h2, w2).d[r] =~= m.block(h2, w2).d[r]);
    }
    assert(x.block(h2, w2).d =~= m.block(h2, w2).d);
    assert forall|b: Mat<f64>| b.wf() && b.w == w2 && b.h() == h2 implies #[trigger] m.put_block(x.put_block(b)) == m.put_block(b) by {
        let p = m.put_block(x.put_block(b));
        let q = m.put_block(b);
        assert forall|r: int| 0 <= r < m.d.len() implies p.d[r] == q.d[r] by {
            assert(p.d[r] =~= q.d[r]);
        }
        assert(p.d =~= q.d);
    }
}
pub proof fn lemma_cols_ends(b: Mat<f64>, back: bool)
    requires b.wf()
    ensures cols_upto(b, 0, back) == b, cols_upto(b, b.w, back) == step_cols(b, back)
{
    assert forall|r: int| 0 <= r < b.d.len() implies cols_upto(b, 0, back).d[r] == b.d[r] by { assert(cols_upto(b, 0, back).d[r] =~= b.d[r]); }
    assert(cols_upto(b, 0, back).d =~= b.d);
    assert forall|r: int| 0 <= r < b.d.len() implies cols_upto(b, b.w, back).d[r] == step_cols(b, back).d[r] by { assert(cols_upto(b, b.w, back).d[r] =~= step_cols(b, back).d[r]); }
    assert(cols_upto(b, b.w, back).d =~= step_cols(b, back).d);
}
pub proof fn lemma_rows_ends(b: Mat<f64>, back: bool)
    requires b.wf()
    ensures rows_upto(b, 0, back) == b, rows_upto(b, b.h(), back) == step_rows(b, back), step_rows(b, back).wf(), step_cols(b, back).wf(), step_cols(b, back).same_dim(b), step_rows(b, back).same_dim(b)
{
    assert(rows_upto(b, 0, back).d =~= b.d);
    assert(rows_upto(b, b.h(), back).d =~= step_rows(b, back).d);
}
