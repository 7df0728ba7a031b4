// Bit flipping on a word that satisfies every check, and the recovery of the bits that are not transmitted.
use crate::labrador_ldpc::codes::LDPCCode;
pub open spec fn bit(w: Seq<u8>, v: int) -> bool { ((w[v / 8] >> ((7 - v % 8) as u8)) & 1u8) == 1u8 }
// parity of the bits with index in [lo, hi) at check c
pub open spec fn par(e: Edges, w: Seq<u8>, c: int, lo: int, hi: int) -> bool decreases e.len() {
    if e.len() == 0 { false } else { par(e.drop_last(), w, c, lo, hi) != (e.last().0 == c && lo <= e.last().1 < hi && bit(w, e.last().1 as int)) }
}
pub open spec fn satisfied(c: LDPCCode, x: Seq<u8>) -> bool { x.len() == tot(c) / 8 && forall|k: int| 0 <= k < tot(c) ==> !#[trigger] par(edges(c), x, k, 0, tot(c)) }
// x is a word of all bits that satisfies every check and has the transmitted part w
pub open spec fn full(c: LDPCCode, x: Seq<u8>, w: Seq<u8>) -> bool { satisfied(c, x) && x.take(nn(c) / 8) == w }
pub open spec fn fullest(c: LDPCCode, w: Seq<u8>) -> Seq<u8> { choose|x: Seq<u8>| full(c, x, w) }
pub open spec fn is_codeword(c: LDPCCode, w: Seq<u8>) -> bool { exists|x: Seq<u8>| full(c, x, w) }
// the working byte: parity, number of lost bits (0, 1, more), lost, votes
pub open spec fn enc(p: bool, q: int, e: bool, l: int) -> u8 { (if p { 0x80u8 } else { 0u8 }) | (if q <= 0 { 0u8 } else if q == 1 { 0x20u8 } else { 0x60u8 }) | (if e { 0x10u8 } else { 0u8 }) | (l as u8) }
pub proof fn lemma_enc(p: bool, q: int, e: bool, l: int)
    requires 0 <= l <= 15, q >= 0
    ensures (enc(p, q, e, l) & 0x10 == 0x10) == e, (enc(p, q, e, l) & 0x60) == (if q == 0 { 0u8 } else if q == 1 { 0x20u8 } else { 0x60u8 }),
        (enc(p, q, e, l) & 0x80 == 0x80) == p, (enc(p, q, e, l) & 0x0f) == l as u8, enc(p, q, e, l) ^ 0x80 == enc(!p, q, e, l),
        q == 0 ==> enc(p, q, e, l) | 0x20 == enc(p, 1, e, l), q == 1 ==> enc(p, q, e, l) | 0x40 == enc(p, 2, e, l), q >= 2 ==> enc(p, q, e, l) == enc(p, q + 1, e, l),
        (enc(p, q, e, l) & 0x10) | 0x08 == enc(false, 0, e, 8),
        l < 15 ==> enc(p, q, e, l) < 255 && enc(p, q, e, l) + 1 == enc(p, q, e, l + 1), l > 0 ==> enc(p, q, e, l) > 0 && enc(p, q, e, l) - 1 == enc(p, q, e, l - 1),
{
    let pb = if p { 0x80u8 } else { 0u8 };
    let qb = if q <= 0 { 0u8 } else if q == 1 { 0x20u8 } else { 0x60u8 };
    let eb = if e { 0x10u8 } else { 0u8 };
    let lb = l as u8;
    let w = pb | qb | eb | lb;
    assert((w & 0x10 == eb) && (w & 0x60 == qb) && (w & 0x80 == pb) && (w & 0x0f == lb) && (w ^ 0x80 == (pb ^ 0x80) | qb | eb | lb) && (w & 0x10) | 0x08 == 0u8 | 0u8 | eb | 8u8) by (bit_vector)
        requires w == pb | qb | eb | lb, pb == 0u8 || pb == 0x80u8, qb == 0u8 || qb == 0x20u8 || qb == 0x60u8, eb == 0u8 || eb == 0x10u8, lb <= 15u8;
    assert(0x80u8 ^ 0x80u8 == 0u8 && 0u8 ^ 0x80u8 == 0x80u8) by (bit_vector);
    assert((pb | 0u8 | eb | lb) | 0x20 == pb | 0x20u8 | eb | lb) by (bit_vector);
    assert((pb | 0x20u8 | eb | lb) | 0x40 == pb | 0x60u8 | eb | lb) by (bit_vector);
    if l < 15 {
        let m = (l + 1) as u8;
        assert(w < 255u8 && add(w, 1u8) == pb | qb | eb | m) by (bit_vector)
            requires w == pb | qb | eb | lb, m == add(lb, 1u8), pb == 0u8 || pb == 0x80u8, qb == 0u8 || qb == 0x20u8 || qb == 0x60u8, eb == 0u8 || eb == 0x10u8, lb < 15u8;
    }
    if l > 0 {
        let m = (l - 1) as u8;
        assert(w > 0u8 && sub(w, 1u8) == pb | qb | eb | m) by (bit_vector)
            requires w == pb | qb | eb | lb, m == sub(lb, 1u8), pb == 0u8 || pb == 0x80u8, qb == 0u8 || qb == 0x20u8 || qb == 0x60u8, eb == 0u8 || eb == 0x10u8, 0u8 < lb <= 15u8;
    }
}
// one more pair
pub proof fn lemma_take(e: Edges, i: int)
    requires 0 <= i < e.len()
    ensures e.take(i + 1).drop_last() == e.take(i), e.take(i + 1).last() == e[i]
{
    assert(e.take(i + 1).drop_last() =~= e.take(i));
}
pub proof fn lemma_all(e: Edges)
    ensures e.take(e.len() as int) == e, e.take(0).len() == 0
{
    assert(e.take(e.len() as int) =~= e);
}
pub proof fn lemma_mono(e: Edges, i: int, v: int)
    requires 0 <= i <= e.len()
    ensures 0 <= deg(e.take(i), v) <= deg(e, v)
    decreases e.len() - i
{
    lemma_deg_nat(e.take(i), v);
    if i < e.len() { lemma_take(e, i); lemma_mono(e, i + 1, v); } else { lemma_all(e); }
}
pub proof fn lemma_deg_nat(e: Edges, v: int) ensures deg(e, v) >= 0 decreases e.len() { if e.len() > 0 { lemma_deg_nat(e.drop_last(), v); } }
pub proof fn lemma_cnt_nat(e: Edges, c: int, n: int) ensures cnt(e, c, n) >= 0 decreases e.len() { if e.len() > 0 { lemma_cnt_nat(e.drop_last(), c, n); } }
// parities: split at n; only the bits in range matter; with one lost bit it is that bit
pub proof fn lemma_split_par(e: Edges, w: Seq<u8>, c: int, n: int, m: int)
    requires 0 <= n <= m
    ensures par(e, w, c, 0, m) == (par(e, w, c, 0, n) != par(e, w, c, n, m))
    decreases e.len()
{
    if e.len() > 0 { lemma_split_par(e.drop_last(), w, c, n, m); }
}
pub proof fn lemma_same_par(e: Edges, w: Seq<u8>, x: Seq<u8>, c: int, n: int)
    requires forall|v: int| 0 <= v < n ==> #[trigger] bit(w, v) == bit(x, v)
    ensures par(e, w, c, 0, n) == par(e, x, c, 0, n)
    decreases e.len()
{
    if e.len() > 0 { lemma_same_par(e.drop_last(), w, x, c, n); }
}
pub proof fn lemma_alone_par(e: Edges, x: Seq<u8>, c: int, n: int, m: int, i: int)
    requires 0 <= i < e.len(), e[i].0 == c, n <= e[i].1, cnt(e, c, n) <= 1, forall|k: int| 0 <= k < e.len() ==> (#[trigger] e[k]).1 < m
    ensures par(e, x, c, n, m) == bit(x, e[i].1 as int), cnt(e, c, n) == 1
    decreases e.len()
{
    let d = e.drop_last();
    assert forall|k: int| 0 <= k < d.len() implies (#[trigger] d[k]).1 < m by { assert(d[k] == e[k]); }
    lemma_cnt_nat(d, c, n);
    if i == e.len() - 1 { lemma_none_par(d, x, c, n, m); } else { assert(d[i] == e[i]); lemma_alone_par(d, x, c, n, m, i); }
}
pub proof fn lemma_none_par(e: Edges, x: Seq<u8>, c: int, n: int, m: int)
    requires cnt(e, c, n) <= 0
    ensures !par(e, x, c, n, m), cnt(e, c, n) == 0
    decreases e.len()
{
    lemma_cnt_nat(e, c, n);
    if e.len() > 0 { lemma_cnt_nat(e.drop_last(), c, n); lemma_none_par(e.drop_last(), x, c, n, m); }
}
// votes for bit v among the pairs of the prefix p; a check votes when it has one lost bit
pub open spec fn votes(p: Edges, e: Edges, w: Seq<u8>, n: int, v: int) -> int decreases p.len() {
    if p.len() == 0 { 0 } else {
        votes(p.drop_last(), e, w, n, v) + (if p.last().1 == v && cnt(e, p.last().0 as int, n) == 1 { if par(e, w, p.last().0 as int, 0, n) { 1int } else { -1 } } else { 0 })
    }
}
pub proof fn lemma_votes(p: Edges, e: Edges, w: Seq<u8>, n: int, v: int)
    ensures -deg(p, v) <= votes(p, e, w, n, v) <= deg(p, v)
    decreases p.len()
{
    if p.len() > 0 { lemma_votes(p.drop_last(), e, w, n, v); }
}
// the votes agree with the word that satisfies every check
pub proof fn lemma_ballot(i: int, c: LDPCCode, x: Seq<u8>, w: Seq<u8>, v: int)
    requires used(c), 0 <= i <= edges(c).len(), satisfied(c, x), nn(c) <= v < tot(c), forall|k: int| 0 <= k < nn(c) ==> #[trigger] bit(w, k) == bit(x, k),
    ensures
        bit(x, v) ==> votes(edges(c).take(i), edges(c), w, nn(c), v) >= (if exists|k: int| 0 <= k < i && #[trigger] alone(c, k, v) { 1int } else { 0 }),
        !bit(x, v) ==> votes(edges(c).take(i), edges(c), w, nn(c), v) <= (if exists|k: int| 0 <= k < i && #[trigger] alone(c, k, v) { -1int } else { 0 }),
    decreases i
{
    let e = edges(c);
    let n = nn(c);
    if i > 0 {
        lemma_take(e, i - 1);
        lemma_ballot(i - 1, c, x, w, v);
        let k = i - 1;
        ax_edges(c);
        if e[k].1 == v && cnt(e, e[k].0 as int, n) == 1 {
            assert(alone(c, k, v));
            let ch = e[k].0 as int;
            lemma_alone_par(e, x, ch, n, tot(c), k);
            lemma_split_par(e, x, ch, n, tot(c));
            lemma_same_par(e, w, x, ch, n);
            assert(!par(e, x, ch, 0, tot(c)));
        } else {
            assert(!alone(c, k, v));
        }
    }
}
// bits of a byte
pub proof fn lemma_bits_eq(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == b.len(), forall|v: int| 0 <= v < 8 * a.len() ==> #[trigger] bit(a, v) == bit(b, v)
    ensures a == b
{
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        let (x, y) = (a[i], b[i]);
        assert forall|t: int| 0 <= t < 8 implies #[trigger] bit(a, 8 * i + t) == ((x >> ((7 - t) as u8)) & 1u8 == 1u8) && bit(b, 8 * i + t) == ((y >> ((7 - t) as u8)) & 1u8 == 1u8) && bit(a, 8 * i + t) == bit(b, 8 * i + t) by {
            assert((8 * i + t) / 8 == i && (8 * i + t) % 8 == t);
        }
        assert(bit(a, 8 * i + 0) == bit(b, 8 * i + 0) && bit(a, 8 * i + 1) == bit(b, 8 * i + 1) && bit(a, 8 * i + 2) == bit(b, 8 * i + 2) && bit(a, 8 * i + 3) == bit(b, 8 * i + 3));
        assert(bit(a, 8 * i + 4) == bit(b, 8 * i + 4) && bit(a, 8 * i + 5) == bit(b, 8 * i + 5) && bit(a, 8 * i + 6) == bit(b, 8 * i + 6) && bit(a, 8 * i + 7) == bit(b, 8 * i + 7));
        assert(x == y) by (bit_vector) requires
            ((x >> 7u8) & 1u8 == 1u8) == ((y >> 7u8) & 1u8 == 1u8), ((x >> 6u8) & 1u8 == 1u8) == ((y >> 6u8) & 1u8 == 1u8), ((x >> 5u8) & 1u8 == 1u8) == ((y >> 5u8) & 1u8 == 1u8), ((x >> 4u8) & 1u8 == 1u8) == ((y >> 4u8) & 1u8 == 1u8),
            ((x >> 3u8) & 1u8 == 1u8) == ((y >> 3u8) & 1u8 == 1u8), ((x >> 2u8) & 1u8 == 1u8) == ((y >> 2u8) & 1u8 == 1u8), ((x >> 1u8) & 1u8 == 1u8) == ((y >> 1u8) & 1u8 == 1u8), ((x >> 0u8) & 1u8 == 1u8) == ((y >> 0u8) & 1u8 == 1u8);
    }
    assert(a =~= b);
}
// setting a bit
pub proof fn lemma_set(w: Seq<u8>, v: int)
    requires 0 <= v < 8 * w.len()
    ensures forall|u: int| 0 <= u < 8 * w.len() ==> #[trigger] bit(w.update(v / 8, w[v / 8] | (1u8 << ((7 - v % 8) as u8))), u) == (bit(w, u) || u == v)
{
    let b = w[v / 8];
    let s = (7 - v % 8) as u8;
    let z = w.update(v / 8, b | (1u8 << s));
    assert forall|u: int| 0 <= u < 8 * w.len() implies #[trigger] bit(z, u) == (bit(w, u) || u == v) by {
        if u / 8 == v / 8 {
            let t = (7 - u % 8) as u8;
            assert((((b | (1u8 << s)) >> t) & 1u8 == 1u8) == ((b >> t) & 1u8 == 1u8 || s == t)) by (bit_vector) requires s < 8u8, t < 8u8;
            assert((s == t) == (u == v));
        }
    }
}
pub proof fn lemma_prefix(w: Seq<u8>, x: Seq<u8>, m: int)
    requires 0 <= m <= w.len(), m <= x.len(), w.take(m) == x.take(m)
    ensures forall|v: int| 0 <= v < 8 * m ==> #[trigger] bit(w, v) == bit(x, v)
{
    assert forall|v: int| 0 <= v < 8 * m implies #[trigger] bit(w, v) == bit(x, v) by { assert(w[v / 8] == w.take(m)[v / 8] && x[v / 8] == x.take(m)[v / 8]); }
}
pub proof fn lemma_zero(b: u8, s: u8)
    requires s < 8
    ensures ((0u8 >> s) & 1u8) != 1u8
{
    assert(((0u8 >> s) & 1u8) != 1u8) by (bit_vector) requires s < 8u8;
}
// the received word with zeros for the bits that are not transmitted
pub open spec fn padded(c: LDPCCode, w: Seq<u8>) -> Seq<u8> { Seq::new((tot(c) / 8) as nat, |j: int| if j < nn(c) / 8 { w[j] } else { 0u8 }) }
pub proof fn lemma_padded(c: LDPCCode, w: Seq<u8>)
    requires used(c), w.len() >= nn(c) / 8
    ensures forall|v: int| nn(c) <= v < tot(c) ==> !#[trigger] bit(padded(c, w), v), forall|v: int| 0 <= v < nn(c) ==> #[trigger] bit(padded(c, w), v) == bit(w, v)
{
    assert forall|v: int| nn(c) <= v < tot(c) implies !#[trigger] bit(padded(c, w), v) by { lemma_zero(0, (7 - v % 8) as u8); }
}
pub proof fn lemma_reset()
    ensures (0u8 & 0x10) | 0x08 == enc(false, 0, false, 8), (0x10u8 & 0x10) | 0x08 == enc(false, 0, true, 8)
{
    assert((0u8 & 0x10) | 0x08 == 0u8 | 0u8 | 0u8 | 8u8 && (0x10u8 & 0x10) | 0x08 == 0u8 | 0u8 | 0x10u8 | 8u8) by (bit_vector);
}
// a word whose lost bits are set by the votes is the codeword
pub open spec fn recovered(c: LDPCCode, z: Seq<u8>, w: Seq<u8>, m: int) -> bool {
    z.len() == tot(c) / 8 && forall|v: int| 0 <= v < tot(c) ==> #[trigger] bit(z, v) == (if v < nn(c) { bit(w, v) } else { v < m && votes(edges(c), edges(c), w, nn(c), v) > 0 })
}
pub proof fn lemma_recovered(c: LDPCCode, z: Seq<u8>, w: Seq<u8>)
    requires used(c), w.len() == tot(c) / 8, recovered(c, z, padded(c, w), tot(c)), is_codeword(c, w.take(nn(c) / 8))
    ensures z == fullest(c, w.take(nn(c) / 8))
{
    let x = fullest(c, w.take(nn(c) / 8));
    let y = padded(c, w);
    assert(full(c, x, w.take(nn(c) / 8)));
    lemma_padded(c, w);
    lemma_prefix(w, x, nn(c) / 8);
    assert forall|k: int| 0 <= k < nn(c) implies #[trigger] bit(y, k) == bit(x, k) by { assert(bit(w, k) == bit(x, k)); }
    ax_edges(c);
    lemma_all(edges(c));
    assert forall|v: int| 0 <= v < 8 * z.len() implies #[trigger] bit(z, v) == bit(x, v) by {
        if v >= nn(c) {
            lemma_ballot(edges(c).len() as int, c, x, y, v);
            assert(covered(c, v));
            let i = choose|i: int| #[trigger] alone(c, i, v);
            assert(alone(c, i, v) && 0 <= i < edges(c).len());
        }
    }
    lemma_bits_eq(z, x);
}
// the vote of the pair with index i
pub proof fn lemma_vote(c: LDPCCode, i: int, w: Seq<u8>)
    requires used(c), 0 <= i < edges(c).len()
    ensures
        0 <= edges(c)[i].0 < tot(c), 0 <= edges(c)[i].1 < tot(c), edges(c).take(i + 1).drop_last() == edges(c).take(i), edges(c).take(i + 1).last() == edges(c)[i],
        forall|v: int| 0 <= v < tot(c) ==> -7 <= #[trigger] votes(edges(c).take(i), edges(c), w, nn(c), v) <= 7, forall|v: int| 0 <= v < tot(c) ==> -7 <= #[trigger] votes(edges(c).take(i + 1), edges(c), w, nn(c), v) <= 7,
        forall|k: int, n: int| 0 <= #[trigger] cnt(edges(c), k, n), forall|k: int, n: int| 0 <= #[trigger] cnt(edges(c).take(i), k, n), forall|v: int| 0 <= v < tot(c) ==> 0 <= #[trigger] deg(edges(c).take(i + 1), v) <= 7,
        forall|v: int| 0 <= v < tot(c) ==> 0 <= #[trigger] deg(edges(c).take(i), v) <= 7,
{
    let e = edges(c);
    lemma_take(e, i);
    ax_edges(c);
    assert forall|v: int| 0 <= v < tot(c) implies -7 <= #[trigger] votes(e.take(i), e, w, nn(c), v) <= 7 by { lemma_votes(e.take(i), e, w, nn(c), v); lemma_mono(e, i, v); }
    assert forall|v: int| 0 <= v < tot(c) implies -7 <= #[trigger] votes(e.take(i + 1), e, w, nn(c), v) <= 7 by { lemma_votes(e.take(i + 1), e, w, nn(c), v); lemma_mono(e, i + 1, v); }
    assert forall|k: int, n: int| 0 <= #[trigger] cnt(e, k, n) by { lemma_cnt_nat(e, k, n); }
    assert forall|k: int, n: int| 0 <= #[trigger] cnt(e.take(i), k, n) by { lemma_cnt_nat(e.take(i), k, n); }
    assert forall|v: int| 0 <= v < tot(c) implies 0 <= #[trigger] deg(e.take(i), v) <= 7 by { lemma_mono(e, i, v); }
    assert forall|v: int| 0 <= v < tot(c) implies 0 <= #[trigger] deg(e.take(i + 1), v) <= 7 by { lemma_mono(e, i + 1, v); }
}
// the byte of a bit in the first loop, and in the vote
pub open spec fn byte1(c: LDPCCode, w: Seq<u8>, i: int, j: int) -> u8 { enc(par(edges(c).take(i), w, j, 0, nn(c)), cnt(edges(c).take(i), j, nn(c)), j >= nn(c), 8) }
pub open spec fn byte2(c: LDPCCode, w: Seq<u8>, i: int, j: int) -> u8 { enc(par(edges(c), w, j, 0, nn(c)), cnt(edges(c), j, nn(c)), j >= nn(c), if j >= nn(c) { 8 + votes(edges(c).take(i), edges(c), w, nn(c), j) } else { 8 }) }
pub proof fn lemma_byte1(c: LDPCCode, w: Seq<u8>, i: int)
    requires used(c), 0 <= i < edges(c).len(),
    ensures ({
        let (k, v) = (edges(c)[i].0 as int, edges(c)[i].1 as int);
        &&& 0 <= k < tot(c) && 0 <= v < tot(c)
        &&& (byte1(c, w, i, v) & 0x10 == 0x10) == (v >= nn(c))
        &&& v >= nn(c) ==> byte1(c, w, i + 1, k) == (if byte1(c, w, i, k) & 0x60 == 0 { byte1(c, w, i, k) | 0x20 } else if byte1(c, w, i, k) & 0x60 == 0x20 { byte1(c, w, i, k) | 0x40 } else { byte1(c, w, i, k) })
        &&& v < nn(c) ==> byte1(c, w, i + 1, k) == (if bit(w, v) { byte1(c, w, i, k) ^ 0x80 } else { byte1(c, w, i, k) })
    }), forall|j: int| j != edges(c)[i].0 ==> #[trigger] byte1(c, w, i + 1, j) == byte1(c, w, i, j)
{
    lemma_vote(c, i, w);
    let e = edges(c);
    let (k, v) = (e[i].0 as int, e[i].1 as int);
    lemma_enc(par(e.take(i), w, v, 0, nn(c)), cnt(e.take(i), v, nn(c)), v >= nn(c), 8);
    lemma_enc(par(e.take(i), w, k, 0, nn(c)), cnt(e.take(i), k, nn(c)), k >= nn(c), 8);
    assert(par(e.take(i + 1), w, k, 0, nn(c)) == (par(e.take(i), w, k, 0, nn(c)) != (v < nn(c) && bit(w, v))));
    assert(cnt(e.take(i + 1), k, nn(c)) == cnt(e.take(i), k, nn(c)) + (if v >= nn(c) { 1int } else { 0 }));
}
pub proof fn lemma_byte2(c: LDPCCode, w: Seq<u8>, i: int)
    requires used(c), 0 <= i < edges(c).len(),
    ensures ({
        let (k, v) = (edges(c)[i].0 as int, edges(c)[i].1 as int);
        &&& 0 <= k < tot(c) && 0 <= v < tot(c)
        &&& (byte2(c, w, i, v) & 0x10 == 0x10) == (v >= nn(c))
        &&& (v >= nn(c) && byte2(c, w, i, k) & 0x60 == 0x20) ==> (byte2(c, w, i, k) & 0x80 == 0x80 ==> byte2(c, w, i, v) < 255 && byte2(c, w, i + 1, v) == byte2(c, w, i, v) + 1) && (byte2(c, w, i, k) & 0x80 != 0x80 ==> byte2(c, w, i, v) > 0 && byte2(c, w, i + 1, v) == byte2(c, w, i, v) - 1)
        &&& !(v >= nn(c) && byte2(c, w, i, k) & 0x60 == 0x20) ==> byte2(c, w, i + 1, v) == byte2(c, w, i, v)
    }), forall|j: int| j != edges(c)[i].1 ==> #[trigger] byte2(c, w, i + 1, j) == byte2(c, w, i, j)
{
    lemma_vote(c, i, w);
    let e = edges(c);
    let (k, v) = (e[i].0 as int, e[i].1 as int);
    let n = nn(c);
    let (a, b) = (votes(e.take(i), e, w, n, v), votes(e.take(i + 1), e, w, n, v));
    assert(b == a + (if cnt(e, k, n) == 1 { if par(e, w, k, 0, n) { 1int } else { -1 } } else { 0 }));
    lemma_enc(par(e, w, v, 0, n), cnt(e, v, n), v >= n, if v >= n { 8 + a } else { 8 });
    lemma_enc(par(e, w, k, 0, n), cnt(e, k, n), k >= n, if k >= n { 8 + votes(e.take(i), e, w, n, k) } else { 8 });
}
pub proof fn lemma_byte3(c: LDPCCode, w: Seq<u8>, v: int)
    requires used(c), 0 <= v < tot(c),
    ensures (byte2(c, w, edges(c).len() as int, v) & 0x10 == 0x10) == (v >= nn(c)), v >= nn(c) ==> (byte2(c, w, edges(c).len() as int, v) & 0x0f > 8) == (votes(edges(c), edges(c), w, nn(c), v) > 0)
{
    let e = edges(c);
    lemma_all(e);
    ax_edges(c);
    lemma_votes(e, e, w, nn(c), v);
    lemma_cnt_nat(e, v, nn(c));
    lemma_enc(par(e, w, v, 0, nn(c)), cnt(e, v, nn(c)), v >= nn(c), if v >= nn(c) { 8 + votes(e, e, w, nn(c), v) } else { 8 });
}
// between the loops
pub proof fn lemma_start(c: LDPCCode, w: Seq<u8>)
    ensures forall|j: int| #[trigger] byte1(c, w, 0, j) == enc(false, 0, j >= nn(c), 8), forall|j: int| #[trigger] byte2(c, w, 0, j) == byte1(c, w, edges(c).len() as int, j)
{
    lemma_all(edges(c));
}
// bit flipping: the top bit of a byte is a parity, the rest a count
pub open spec fn flag(p: bool) -> u8 { if p { 0x80u8 } else { 0u8 } }
pub proof fn lemma_flag() ensures 0u8 ^ 0x80 == 0x80u8, 0x80u8 ^ 0x80 == 0u8, 0x80u8 & 0x80 == 0x80, 0u8 & 0x80 == 0, 0x80u8 & 0x7f == 0, 0u8 & 0x7f == 0 {
    assert(0u8 ^ 0x80 == 0x80u8 && 0x80u8 ^ 0x80 == 0u8 && 0x80u8 & 0x80 == 0x80 && 0u8 & 0x80 == 0 && 0x80u8 & 0x7f == 0 && 0u8 & 0x7f == 0) by (bit_vector);
}
pub proof fn lemma_inc(b: u8)
    ensures b & 0x7f < 0x7f ==> b < 255 && (add(b, 1) & 0x7f) == (b & 0x7f) + 1 && (add(b, 1) & 0x80) == (b & 0x80)
{
    assert(b & 0x7f < 0x7f ==> b < 255 && (add(b, 1) & 0x7f) == add(b & 0x7f, 1) && (add(b, 1) & 0x80) == (b & 0x80)) by (bit_vector);
}
pub proof fn lemma_incs()
    ensures forall|b: u8| (#[trigger] (b & 0x7f)) < 0x7f ==> b < 255 && (add(b, 1) & 0x7f) == (b & 0x7f) + 1 && (add(b, 1) & 0x80) == (b & 0x80)
{
    assert forall|b: u8| (#[trigger] (b & 0x7f)) < 0x7f implies b < 255 && (add(b, 1) & 0x7f) == (b & 0x7f) + 1 && (add(b, 1) & 0x80) == (b & 0x80) by { lemma_inc(b); }
}
pub proof fn lemma_recover(c: LDPCCode, z: Seq<u8>, y: Seq<u8>, w: Seq<u8>, v: int)
    requires
        used(c), 0 <= v < tot(c), recovered(c, z, w, v), forall|u: int| nn(c) <= u < tot(c) ==> !#[trigger] bit(w, u),
        y == (if v >= nn(c) && votes(edges(c), edges(c), w, nn(c), v) > 0 { z.update(v / 8, z[v / 8] | (1u8 << ((7 - v % 8) as u8))) } else { z })
    ensures recovered(c, y, w, v + 1)
{
    lemma_set(z, v);
    assert forall|u: int| 0 <= u < tot(c) implies #[trigger] bit(y, u) == (if u < nn(c) { bit(w, u) } else { u < v + 1 && votes(edges(c), edges(c), w, nn(c), u) > 0 }) by {
        assert(bit(z, u) == (if u < nn(c) { bit(w, u) } else { u < v && votes(edges(c), edges(c), w, nn(c), u) > 0 }));
    }
}
