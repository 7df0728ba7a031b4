pub open spec fn bytes16(s: Seq<u16>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { seq![] } else { bytes16(s.drop_last()) + le16(s.last()) }
}
pub open spec fn bytes64(s: Seq<i64>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { seq![] } else { bytes64(s.drop_last()) + le64(s.last()) }
}
pub proof fn lemma_take_step<T>(s: Seq<T>, i: int)
    requires 0 <= i < s.len()
    ensures s.take(i + 1).drop_last() == s.take(i), s.take(i + 1).last() == s[i], s.take(i + 1) == s.take(i).push(s[i]),
        s.take(s.len() as int) == s, s.take(0) == Seq::<T>::empty(),
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    assert(s.take(i + 1) =~= s.take(i).push(s[i]));
    assert(s.take(s.len() as int) =~= s);
    assert(s.take(0) =~= Seq::<T>::empty());
}
pub proof fn lemma_take_all<T>(s: Seq<T>)
    ensures s.take(s.len() as int) == s, s.take(0) == Seq::<T>::empty(),
{
    assert(s.take(s.len() as int) =~= s);
    assert(s.take(0) =~= Seq::<T>::empty());
}
pub proof fn lemma_bytes16_len(s: Seq<u16>)
    ensures bytes16(s).len() == 2 * s.len()
    decreases s.len()
{
    if s.len() > 0 { lemma_bytes16_len(s.drop_last()); }
}
pub proof fn lemma_bytes64_len(s: Seq<i64>)
    ensures bytes64(s).len() == 8 * s.len()
    decreases s.len()
{
    if s.len() > 0 { lemma_le_n_len(u64_of(s.last()), 8); }
    if s.len() > 0 { lemma_bytes64_len(s.drop_last()); }
}
pub proof fn lemma_le16_inj(a: u16, b: u16)
    requires le16(a) == le16(b)
    ensures a == b
{
    assert(le16(a)[0] == le16(b)[0]);
    assert(le16(a)[1] == le16(b)[1]);
}
pub proof fn lemma_le_n_len(u: int, n: nat)
    ensures le_n(u, n).len() == n
    decreases n
{
    if n > 0 { lemma_le_n_len(u / 256, (n - 1) as nat); }
}
pub open spec fn p256(n: nat) -> int decreases n { if n == 0 { 1 } else { 256 * p256((n - 1) as nat) } }
pub proof fn lemma_le_n_inj(a: int, b: int, n: nat)
    requires le_n(a, n) == le_n(b, n), 0 <= a < p256(n), 0 <= b < p256(n)
    ensures a == b
    decreases n
{
    if n > 0 {
        let m = (n - 1) as nat;
        lemma_le_n_len(a / 256, m);
        lemma_le_n_len(b / 256, m);
        assert(le_n(a, n)[0] == (a % 256) as u8);
        assert(le_n(b, n)[0] == (b % 256) as u8);
        assert(a % 256 == b % 256);
        assert(le_n(a, n).subrange(1, n as int) =~= le_n(a / 256, m));
        assert(le_n(b, n).subrange(1, n as int) =~= le_n(b / 256, m));
        lemma_le_n_inj(a / 256, b / 256, m);
    }
}
pub proof fn lemma_le64_inj(a: i64, b: i64)
    requires le64(a) == le64(b)
    ensures a == b
{
    assert(p256(8) == 0x1_0000_0000_0000_0000) by (compute);
    lemma_le_n_inj(u64_of(a), u64_of(b), 8);
}
// different lists have different bytes
pub proof fn lemma_bytes16_inj(a: Seq<u16>, b: Seq<u16>)
    requires bytes16(a) == bytes16(b)
    ensures a == b
    decreases a.len()
{
    lemma_bytes16_len(a);
    lemma_bytes16_len(b);
    if a.len() > 0 {
        let x = bytes16(a);
        let y = bytes16(b);
        let n = x.len() - 2;
        assert(x.subrange(0, n) =~= bytes16(a.drop_last()));
        assert(y.subrange(0, n) =~= bytes16(b.drop_last()));
        assert(x.subrange(n, n + 2) =~= le16(a.last()));
        assert(y.subrange(n, n + 2) =~= le16(b.last()));
        lemma_le16_inj(a.last(), b.last());
        lemma_bytes16_inj(a.drop_last(), b.drop_last());
        assert(a =~= a.drop_last().push(a.last()));
        assert(b =~= b.drop_last().push(b.last()));
    } else {
        assert(a =~= b);
    }
}
pub proof fn lemma_bytes64_inj(a: Seq<i64>, b: Seq<i64>)
    requires bytes64(a) == bytes64(b)
    ensures a == b
    decreases a.len()
{
    lemma_bytes64_len(a);
    lemma_bytes64_len(b);
    if a.len() > 0 && b.len() > 0 {
        lemma_le_n_len(u64_of(a.last()), 8);
        lemma_le_n_len(u64_of(b.last()), 8);
        lemma_bytes64_len(a.drop_last());
        lemma_bytes64_len(b.drop_last());
        let x = bytes64(a);
        let y = bytes64(b);
        let n = x.len() - 8;
        assert(x.subrange(0, n) =~= bytes64(a.drop_last()));
        assert(y.subrange(0, n) =~= bytes64(b.drop_last()));
        assert(x.subrange(n, n + 8) =~= le64(a.last()));
        assert(y.subrange(n, n + 8) =~= le64(b.last()));
        lemma_le_n_len(u64_of(a.last()), 8);
        lemma_le_n_len(u64_of(b.last()), 8);
        lemma_le64_inj(a.last(), b.last());
        lemma_bytes64_inj(a.drop_last(), b.drop_last());
        assert(a =~= a.drop_last().push(a.last()));
        assert(b =~= b.drop_last().push(b.last()));
    } else {
        assert(a =~= b);
    }
}
// one decoding step: a prefix of k elements followed by one more
pub proof fn lemma_chunk_step(s: Seq<u8>, n: int, i: int)
    requires n > 0, s.len() % (n as nat) == 0, 0 <= i < nchunks(s.len() as int, n)
    ensures nchunks(s.len() as int, n) * n == s.len(), (i + 1) * n <= s.len(), chunk_at(s, n, i).len() == n,
        s.take((i + 1) * n) == s.take(i * n) + chunk_at(s, n, i),
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s.len() as int, n);
    let q = s.len() as int / n;
    assert(s.len() == n * q);
    assert((n * q + n - 1) / n == q) by {
        vstd::arithmetic::div_mod::lemma_div_multiples_vanish_fancy(q, n - 1, n);
        assert(n * q + n - 1 == n * q + (n - 1));
    }
    assert(nchunks(s.len() as int, n) == q);
    assert(q * n == n * q) by (nonlinear_arith);
    assert((i + 1) * n <= q * n) by (nonlinear_arith) requires i + 1 <= q, n > 0;
    assert((i + 1) * n == i * n + n) by (nonlinear_arith);
    assert(i * n >= 0) by (nonlinear_arith) requires i >= 0, n > 0;
    assert(s.take((i + 1) * n) =~= s.take(i * n) + chunk_at(s, n, i));
}
