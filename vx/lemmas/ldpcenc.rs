// The encoder: the rows of the generator of the set bits, added. Words made by it satisfy every check if those of the
// words with one bit do.
use crate::labrador_ldpc::codes::LDPCCode;
pub open spec fn xr(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { Seq::new(a.len(), |i: int| a[i] ^ b[i]) }
pub open spec fn zs(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
pub open spec fn gbyte(g: u64, t: int) -> u8 {
    if t == 7 { (g >> 0) as u8 } else if t == 6 { (g >> 8) as u8 } else if t == 5 { (g >> 16) as u8 } else if t == 4 { (g >> 24) as u8 } else if t == 3 { (g >> 32) as u8 } else if t == 2 { (g >> 40) as u8 } else if t == 1 { (g >> 48) as u8 } else { (g >> 56) as u8 }
}
pub open spec fn row(c: LDPCCode, k: int) -> Seq<u8> { Seq::new((kk(c) / 8) as nat, |i: int| gbyte(gen(c)[k * (kk(c) / 64) + i / 8], i % 8)) }
// blocks of w bytes turned by one bit
pub open spec fn nx(i: int, w: int) -> int { if (i + 1) % w == 0 { i + 1 - w } else { i + 1 } }
pub open spec fn turned(p: Seq<u8>, w: int) -> Seq<u8> { Seq::new(p.len(), |i: int| (p[i] << 1) | (p[nx(i, w)] >> 7)) }
pub open spec fn mix(c: LDPCCode, d: Seq<u8>, off: int, rows: int, p: Seq<u8>) -> Seq<u8> decreases rows {
    if rows <= 0 { p } else { let q = mix(c, d, off, rows - 1, p); if bit(d, (rows - 1) * bb(c) + off) { xr(q, row(c, rows - 1)) } else { q } }
}
pub open spec fn stage(c: LDPCCode, d: Seq<u8>, off: int) -> Seq<u8> decreases off {
    if off <= 0 { zs(kk(c) / 8) } else { turned(mix(c, d, off - 1, kk(c) / bb(c), stage(c, d, off - 1)), bb(c) / 8) }
}
pub open spec fn mixed(c: LDPCCode, d: Seq<u8>, off: int) -> Seq<u8> { mix(c, d, off, kk(c) / bb(c), stage(c, d, off)) }
pub open spec fn word(c: LDPCCode, d: Seq<u8>) -> Seq<u8> { d + stage(c, d, bb(c)) }
// sizes
pub proof fn lemma_sizes(c: LDPCCode)
    requires used(c)
    ensures nn(c) - kk(c) == kk(c), kk(c) % 64 == 0, bb(c) % 8 == 0, bb(c) / 8 >= 2, (kk(c) / bb(c)) * bb(c) == kk(c), (kk(c) / bb(c)) * (bb(c) / 8) == kk(c) / 8, kk(c) / 8 == 8 * (kk(c) / 64),
        (kk(c) / 8) % (bb(c) / 8) == 0, kk(c) / bb(c) >= 1, 0 <= (kk(c) / bb(c)) * (kk(c) / 64) <= 512
{
    let (a, b, w, r, q, d) = (kk(c) / bb(c), bb(c), bb(c) / 8, kk(c) / 64, kk(c) / 8, kk(c));
    assert(a * b == d && a * w == q && q % w == 0 && 0 <= a * r <= 512) by (nonlinear_arith)
        requires (a == 4 && b == 16 && w == 2 && r == 1 && q == 8 && d == 64) || (a == 4 && b == 32 && w == 4 && r == 2 && q == 16 && d == 128) || (a == 4 && b == 64 && w == 8 && r == 4 && q == 32 && d == 256)
            || (a == 8 && b == 128 && w == 16 && r == 16 && q == 128 && d == 1024) || (a == 8 && b == 512 && w == 64 && r == 64 && q == 512 && d == 4096);
}
pub proof fn lemma_prod(k: int, a: int, b: int)
    requires 0 <= k < a, 0 <= b
    ensures 0 <= k * b, k * b + b <= a * b, (k + 1) * b == k * b + b
{
    assert(0 <= k * b && k * b + b <= a * b && (k + 1) * b == k * b + b) by (nonlinear_arith) requires 0 <= k < a, 0 <= b;
}
pub proof fn lemma_len(c: LDPCCode, d: Seq<u8>, off: int, rows: int)
    ensures stage(c, d, off).len() == zs(kk(c) / 8).len(), mix(c, d, off, rows, stage(c, d, off)).len() == zs(kk(c) / 8).len()
    decreases off, (if rows <= 0 { 0 } else { rows })
{
    if rows > 0 { lemma_len(c, d, off, rows - 1); } else if off > 0 { lemma_len(c, d, off - 1, kk(c) / bb(c) as int); }
}
// a position in a row, and in a block
pub proof fn lemma_pos(c: LDPCCode, k: int, t: int)
    requires used(c), 0 <= k < kk(c) / bb(c)
    ensures 0 <= t < kk(c) / 64 ==> 0 <= k * (kk(c) / 64) + t < (kk(c) / bb(c)) * (kk(c) / 64), 0 <= t < bb(c) ==> 0 <= k * bb(c) + t < kk(c),
        0 <= k * (kk(c) / 64) <= (kk(c) / bb(c)) * (kk(c) / 64), 0 <= k * bb(c) <= kk(c)
{
    lemma_sizes(c);
    lemma_prod(k, kk(c) / bb(c), kk(c) / 64);
    lemma_prod(k, kk(c) / bb(c), bb(c));
}
pub proof fn lemma_block(c: LDPCCode, k: int)
    requires used(c), 0 <= k < kk(c) / bb(c)
    ensures k * bb(c) / 8 == k * (bb(c) / 8), (k + 1) * bb(c) / 8 == (k + 1) * (bb(c) / 8), (k + 1) * (bb(c) / 8) == k * (bb(c) / 8) + bb(c) / 8, (k + 1) * (bb(c) / 8) <= kk(c) / 8,
        forall|i: int| k * (bb(c) / 8) <= i < (k + 1) * (bb(c) / 8) ==> #[trigger] nx(i, bb(c) / 8) == (if i == (k + 1) * (bb(c) / 8) - 1 { k * (bb(c) / 8) } else { i + 1 })
{
    let w = bb(c) / 8;
    let b = bb(c);
    lemma_sizes(c);
    lemma_prod(k, kk(c) / bb(c), w);
    assert(k * b == 8 * (k * w) && (k + 1) * b == 8 * ((k + 1) * w)) by (nonlinear_arith) requires b == 8 * w;
    assert forall|i: int| k * w <= i < (k + 1) * w implies #[trigger] nx(i, w) == (if i == (k + 1) * w - 1 { k * w } else { i + 1 }) by {
        let t = i - k * w;
        if t + 1 == w { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i + 1, w, k + 1, 0); }
        else { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i + 1, w, k, t + 1); }
    }
}
// sums
pub proof fn lemma_xbit(a: Seq<u8>, b: Seq<u8>, v: int)
    requires a.len() == b.len(), 0 <= v < 8 * a.len()
    ensures bit(xr(a, b), v) == (bit(a, v) != bit(b, v))
{
    let (x, y, s) = (a[v / 8], b[v / 8], (7 - v % 8) as u8);
    assert((((x ^ y) >> s) & 1u8 == 1u8) == (((x >> s) & 1u8 == 1u8) != ((y >> s) & 1u8 == 1u8))) by (bit_vector) requires s < 8u8;
}
pub proof fn lemma_turned(a: Seq<u8>, b: Seq<u8>, w: int)
    requires a.len() == b.len(), w >= 1, (a.len() as int) % w == 0
    ensures turned(xr(a, b), w) == xr(turned(a, w), turned(b, w))
{
    assert forall|i: int| 0 <= i < a.len() implies turned(xr(a, b), w)[i] == xr(turned(a, w), turned(b, w))[i] by {
        let j = nx(i, w);
        lemma_nx(i, w, a.len() as int);
        let (p, q, s, t) = (a[i], b[i], a[j], b[j]);
        assert(((p ^ q) << 1) | ((s ^ t) >> 7) == ((p << 1) | (s >> 7)) ^ ((q << 1) | (t >> 7))) by (bit_vector);
    }
    assert(turned(xr(a, b), w) =~= xr(turned(a, w), turned(b, w)));
}
pub proof fn lemma_nx(i: int, w: int, n: int)
    requires w >= 1, n % w == 0, 0 <= i < n
    ensures 0 <= nx(i, w) < n
{
    if (i + 1) % w == 0 {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i + 1, w);
        let q = (i + 1) / w;
        assert(w * q >= w) by (nonlinear_arith) requires w * q == i + 1, i >= 0, w >= 1;
    } else if i + 1 == n {
    }
}
pub proof fn lemma_mix(c: LDPCCode, a: Seq<u8>, b: Seq<u8>, off: int, rows: int, p: Seq<u8>, q: Seq<u8>)
    requires used(c), a.len() == b.len(), a.len() == kk(c) / 8, 0 <= off < bb(c), 0 <= rows <= kk(c) / bb(c), p.len() == q.len(), p.len() == kk(c) / 8
    ensures mix(c, xr(a, b), off, rows, xr(p, q)) == xr(mix(c, a, off, rows, p), mix(c, b, off, rows, q)), mix(c, a, off, rows, p).len() == kk(c) / 8, mix(c, b, off, rows, q).len() == kk(c) / 8
    decreases rows
{
    if rows > 0 {
        lemma_mix(c, a, b, off, rows - 1, p, q);
        lemma_pos(c, rows - 1, off);
        lemma_sizes(c);
        lemma_xbit(a, b, (rows - 1) * bb(c) + off);
        let (x, y, g) = (mix(c, a, off, rows - 1, p), mix(c, b, off, rows - 1, q), row(c, rows - 1));
        let l = mix(c, xr(a, b), off, rows, xr(p, q));
        let r = xr(mix(c, a, off, rows, p), mix(c, b, off, rows, q));
        assert forall|i: int| 0 <= i < x.len() implies l[i] == r[i] by {
            let (s, t, u) = (x[i], y[i], g[i]);
            assert((s ^ t) ^ u == (s ^ u) ^ t && (s ^ t) ^ u == s ^ (t ^ u) && s ^ t == (s ^ u) ^ (t ^ u)) by (bit_vector);
        }
        assert(l =~= r);
    }
}
pub proof fn lemma_stage(c: LDPCCode, a: Seq<u8>, b: Seq<u8>, off: int)
    requires used(c), a.len() == b.len(), a.len() == kk(c) / 8, 0 <= off <= bb(c)
    ensures stage(c, xr(a, b), off) == xr(stage(c, a, off), stage(c, b, off))
    decreases off
{
    lemma_len(c, a, off, 0);
    lemma_len(c, b, off, 0);
    if off == 0 {
        assert(0u8 ^ 0u8 == 0u8) by (bit_vector);
        assert(stage(c, xr(a, b), 0) =~= xr(stage(c, a, 0), stage(c, b, 0)));
    } else {
        lemma_stage(c, a, b, off - 1);
        lemma_len(c, a, off - 1, 0);
        lemma_len(c, b, off - 1, 0);
        lemma_mix(c, a, b, off - 1, kk(c) / bb(c), stage(c, a, off - 1), stage(c, b, off - 1));
        lemma_sizes(c);
        lemma_turned(mixed(c, a, off - 1), mixed(c, b, off - 1), bb(c) / 8);
    }
}
pub proof fn lemma_word(c: LDPCCode, a: Seq<u8>, b: Seq<u8>)
    requires used(c), a.len() == b.len(), a.len() == kk(c) / 8
    ensures word(c, xr(a, b)) == xr(word(c, a), word(c, b)), word(c, a).len() == nn(c) / 8
{
    lemma_stage(c, a, b, bb(c));
    lemma_len(c, a, bb(c), 0);
    lemma_len(c, b, bb(c), 0);
    assert(word(c, xr(a, b)) =~= xr(word(c, a), word(c, b)));
}
// the words that satisfy the checks are closed under addition
pub proof fn lemma_par_sum(e: Edges, a: Seq<u8>, b: Seq<u8>, k: int, m: int)
    requires a.len() == b.len(), m <= 8 * a.len()
    ensures par(e, xr(a, b), k, 0, m) == (par(e, a, k, 0, m) != par(e, b, k, 0, m))
    decreases e.len()
{
    if e.len() > 0 {
        lemma_par_sum(e.drop_last(), a, b, k, m);
        if e.last().1 < m { lemma_xbit(a, b, e.last().1 as int); }
    }
}
pub open spec fn good(c: LDPCCode, d: Seq<u8>) -> bool { is_codeword(c, word(c, d)) }
pub proof fn lemma_good_sum(c: LDPCCode, a: Seq<u8>, b: Seq<u8>)
    requires used(c), a.len() == kk(c) / 8, b.len() == kk(c) / 8, good(c, a), good(c, b)
    ensures good(c, xr(a, b))
{
    lemma_word(c, a, b);
    lemma_word(c, b, a);
    let x = fullest(c, word(c, a));
    let y = fullest(c, word(c, b));
    assert(full(c, x, word(c, a)) && full(c, y, word(c, b)));
    let z = xr(x, y);
    assert forall|k: int| 0 <= k < tot(c) implies !#[trigger] par(edges(c), z, k, 0, tot(c)) by { lemma_par_sum(edges(c), x, y, k, tot(c)); }
    assert forall|i: int| 0 <= i < nn(c) / 8 implies z[i] == word(c, xr(a, b))[i] by { assert(x[i] == x.take(nn(c) / 8)[i] && y[i] == y.take(nn(c) / 8)[i]); }
    assert(z.take(nn(c) / 8) =~= word(c, xr(a, b)));
    assert(full(c, z, word(c, xr(a, b))));
}
pub proof fn lemma_zbit(n: int, v: int) requires 0 <= v < 8 * n ensures !bit(zs(n), v) { lemma_zero(0, (7 - v % 8) as u8); }
pub proof fn lemma_zpar(e: Edges, n: int, k: int, m: int)
    requires 0 <= m <= 8 * n
    ensures !par(e, zs(n), k, 0, m)
    decreases e.len()
{
    if e.len() > 0 { lemma_zpar(e.drop_last(), n, k, m); if e.last().1 < m { lemma_zbit(n, e.last().1 as int); } }
}
pub proof fn lemma_zmix(c: LDPCCode, off: int, rows: int)
    requires used(c), 0 <= off < bb(c), 0 <= rows <= kk(c) / bb(c)
    ensures mix(c, zs(kk(c) / 8), off, rows, zs(kk(c) / 8)) == zs(kk(c) / 8)
    decreases rows
{
    if rows > 0 { lemma_zmix(c, off, rows - 1); lemma_pos(c, rows - 1, off); lemma_zbit(kk(c) / 8, (rows - 1) * bb(c) + off); }
}
pub proof fn lemma_zstage(c: LDPCCode, off: int)
    requires used(c), 0 <= off <= bb(c)
    ensures stage(c, zs(kk(c) / 8), off) == zs(kk(c) / 8)
    decreases off
{
    if off > 0 {
        lemma_zstage(c, off - 1);
        lemma_zmix(c, off - 1, kk(c) / bb(c));
        let z = zs(kk(c) / 8);
        lemma_sizes(c);
        assert forall|i: int| 0 <= i < z.len() implies #[trigger] turned(z, bb(c) / 8)[i] == 0u8 by { lemma_nx(i, bb(c) / 8, z.len() as int); assert((0u8 << 1) | (0u8 >> 7) == 0u8) by (bit_vector); }
        assert(turned(z, bb(c) / 8) =~= z);
    }
}
pub proof fn lemma_good_zero(c: LDPCCode)
    requires used(c)
    ensures good(c, zs(kk(c) / 8))
{
    lemma_zstage(c, bb(c));
    let x = zs(tot(c) / 8);
    let w = word(c, zs(kk(c) / 8));
    assert forall|k: int| 0 <= k < tot(c) implies !#[trigger] par(edges(c), x, k, 0, tot(c)) by { lemma_zpar(edges(c), tot(c) / 8, k, tot(c)); }
    assert(x.take(nn(c) / 8) =~= w);
    assert(full(c, x, w));
}
// data with the bits below m, and the one bit j
pub open spec fn low(d: Seq<u8>, m: int) -> Seq<u8> { Seq::new(d.len(), |i: int| if 8 * i + 8 <= m { d[i] } else if 8 * i >= m { 0u8 } else { d[i] & !(0xffu8 >> ((m - 8 * i) as u8)) }) }
pub open spec fn one(n: int, j: int) -> Seq<u8> { zs(n).update(j / 8, 1u8 << ((7 - j % 8) as u8)) }
pub proof fn lemma_low(d: Seq<u8>, m: int, v: int)
    requires 0 <= v < 8 * d.len(), 0 <= m
    ensures bit(low(d, m), v) == (bit(d, v) && v < m)
{
    let (i, b, s) = (v / 8, d[v / 8], (7 - v % 8) as u8);
    if 8 * i + 8 <= m {
    } else if 8 * i >= m {
        lemma_zero(0, s);
    } else {
        let t = (m - 8 * i) as u8;
        assert((((b & !(0xffu8 >> t)) >> s) & 1u8 == 1u8) == (((b >> s) & 1u8 == 1u8) && 7 - s < t)) by (bit_vector) requires s < 8u8, 0u8 < t < 8u8;
    }
}
pub proof fn lemma_one(n: int, j: int, v: int)
    requires 0 <= v < 8 * n, 0 <= j < 8 * n
    ensures bit(one(n, j), v) == (v == j)
{
    let (s, t) = ((7 - j % 8) as u8, (7 - v % 8) as u8);
    if v / 8 == j / 8 {
        assert((((1u8 << s) >> t) & 1u8 == 1u8) == (s == t)) by (bit_vector) requires s < 8u8, t < 8u8;
        assert((s == t) == (v == j));
    } else {
        lemma_zero(0, t);
    }
}
pub proof fn lemma_good_low(c: LDPCCode, d: Seq<u8>, m: int)
    requires used(c), d.len() == kk(c) / 8, 0 <= m <= kk(c)
    ensures good(c, low(d, m))
    decreases m
{
    let n = kk(c) / 8;
    if m == 0 {
        assert(low(d, 0) =~= zs(n));
        lemma_good_zero(c);
    } else {
        lemma_good_low(c, d, m - 1);
        let j = m - 1;
        let y = if bit(d, j) { xr(low(d, j), one(n, j)) } else { low(d, j) };
        assert forall|v: int| 0 <= v < 8 * y.len() implies #[trigger] bit(y, v) == bit(low(d, m), v) by {
            lemma_low(d, m, v);
            lemma_low(d, j, v);
            lemma_one(n, j, v);
            lemma_xbit(low(d, j), one(n, j), v);
        }
        lemma_bits_eq(y, low(d, m));
        if bit(d, j) { ax_rows(c, j); lemma_good_sum(c, low(d, j), one(n, j)); }
    }
}
// every word made by the encoder satisfies the checks
pub proof fn lemma_good(c: LDPCCode, d: Seq<u8>)
    requires used(c), d.len() == kk(c) / 8
    ensures good(c, d), word(c, d).len() == nn(c) / 8
{
    lemma_good_low(c, d, kk(c));
    lemma_word(c, d, d);
    assert(low(d, kk(c)) =~= d);
}
// of the tables: the words of one bit satisfy the checks (evaluated completely by the executions)
pub axiom fn ax_rows(c: LDPCCode, j: int)
    requires used(c), 0 <= j < kk(c)
    ensures good(c, one(kk(c) / 8, j));
// eight bytes of a row
pub proof fn lemma_row(c: LDPCCode, k: int, i: int)
    requires used(c), 0 <= k < kk(c) / bb(c), 0 <= i < kk(c) / 64
    ensures ({
        let g = gen(c)[k * (kk(c) / 64) + i];
        let r = row(c, k);
        &&& r.len() == kk(c) / 8 && 8 * i + 7 < kk(c) / 8
        &&& r[8 * i + 7] == (g >> 0) as u8 && r[8 * i + 6] == (g >> 8) as u8 && r[8 * i + 5] == (g >> 16) as u8 && r[8 * i + 4] == (g >> 24) as u8
        &&& r[8 * i + 3] == (g >> 32) as u8 && r[8 * i + 2] == (g >> 40) as u8 && r[8 * i + 1] == (g >> 48) as u8 && r[8 * i] == (g >> 56) as u8
    })
{
    assert((8 * i) / 8 == i && (8 * i) % 8 == 0);
}
pub open spec fn eight(h: Seq<u8>, g: Seq<u8>, b: int) -> Seq<u8> {
    h.update(b + 7, h[b + 7] ^ g[b + 7]).update(b + 6, h[b + 6] ^ g[b + 6]).update(b + 5, h[b + 5] ^ g[b + 5]).update(b + 4, h[b + 4] ^ g[b + 4])
        .update(b + 3, h[b + 3] ^ g[b + 3]).update(b + 2, h[b + 2] ^ g[b + 2]).update(b + 1, h[b + 1] ^ g[b + 1]).update(b, h[b] ^ g[b])
}
pub proof fn lemma_eight(h: Seq<u8>, y: Seq<u8>, p: Seq<u8>, g: Seq<u8>, b: int)
    requires 0 <= b, b + 7 < h.len(), p.len() == h.len(), y == eight(h, g, b), forall|t: int| 0 <= t < h.len() ==> #[trigger] h[t] == (if t < b { p[t] ^ g[t] } else { p[t] })
    ensures y.len() == h.len(), forall|t: int| 0 <= t < h.len() ==> #[trigger] y[t] == (if t < b + 8 { p[t] ^ g[t] } else { p[t] })
{
    assert forall|t: int| 0 <= t < h.len() implies #[trigger] y[t] == (if t < b + 8 { p[t] ^ g[t] } else { p[t] }) by { assert(h[t] == (if t < b { p[t] ^ g[t] } else { p[t] })); }
}
