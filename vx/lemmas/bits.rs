pub proof fn lemma_bits_inj(a: Seq<u8>, b: Seq<u8>)
    requires bits_of(a) == bits_of(b)
    ensures a == b
{
    assert(bits_of(a).len() == 8 * a.len());
    assert(bits_of(b).len() == 8 * b.len());
    assert(a.len() == b.len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        let x = a[i];
        let y = b[i];
        assert forall|k: int| 0 <= k < 8 implies bit(x, k) == bit(y, k) by {
            let j = 8 * i + k;
            assert(j / 8 == i && j % 8 == k);
            assert(bits_of(a)[j] == bit(a[j / 8], j % 8));
            assert(bits_of(b)[j] == bit(b[j / 8], j % 8));
        }
        lemma_byte_inj(x, y);
    }
    assert(a =~= b);
}
pub proof fn lemma_byte_inj(x: u8, y: u8)
    requires forall|k: int| 0 <= k < 8 ==> bit(x, k) == bit(y, k)
    ensures x == y
{
    assert(bit(x, 0) == bit(y, 0) && bit(x, 1) == bit(y, 1) && bit(x, 2) == bit(y, 2) && bit(x, 3) == bit(y, 3));
    assert(bit(x, 4) == bit(y, 4) && bit(x, 5) == bit(y, 5) && bit(x, 6) == bit(y, 6) && bit(x, 7) == bit(y, 7));
    assert(x == y) by (bit_vector)
        requires
            ((x >> 0u8) & 1u8 == 1u8) == ((y >> 0u8) & 1u8 == 1u8), ((x >> 1u8) & 1u8 == 1u8) == ((y >> 1u8) & 1u8 == 1u8),
            ((x >> 2u8) & 1u8 == 1u8) == ((y >> 2u8) & 1u8 == 1u8), ((x >> 3u8) & 1u8 == 1u8) == ((y >> 3u8) & 1u8 == 1u8),
            ((x >> 4u8) & 1u8 == 1u8) == ((y >> 4u8) & 1u8 == 1u8), ((x >> 5u8) & 1u8 == 1u8) == ((y >> 5u8) & 1u8 == 1u8),
            ((x >> 6u8) & 1u8 == 1u8) == ((y >> 6u8) & 1u8 == 1u8), ((x >> 7u8) & 1u8 == 1u8) == ((y >> 7u8) & 1u8 == 1u8);
}
pub proof fn lemma_zero_bit(k: int)
    requires 0 <= k < 8
    ensures !bit(0u8, k)
{
    let j = k as u8;
    assert(((0u8 >> j) & 1u8) == 0u8) by (bit_vector);
}

pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
pub proof fn lemma_bits_of_push(s: Seq<u8>, i: int, k: int)
    requires 0 <= i < s.len(), 0 <= k < 8
    ensures bits_of(s)[8 * i + k] == bits_of(seq![s[i]])[k], 8 * i + k < bits_of(s).len(), bits_of(seq![s[i]]).len() == 8
{
    assert((8 * i + k) / 8 == i && (8 * i + k) % 8 == k);
}
pub proof fn lemma_bits_push_all(s: Seq<u8>)
    ensures forall|i: int, k: int| 0 <= i < s.len() && 0 <= k < 8 ==> bits_of(s)[8 * i + k] == #[trigger] bits_of(seq![s[i]])[k], bits_of(s).len() == 8 * s.len()
{
    assert forall|i: int, k: int| 0 <= i < s.len() && 0 <= k < 8 implies bits_of(s)[8 * i + k] == #[trigger] bits_of(seq![s[i]])[k] by { lemma_bits_of_push(s, i, k); }
}
pub proof fn lemma_bits_byte(b0: bool, b1: bool, b2: bool, b3: bool, b4: bool, b5: bool, b6: bool, b7: bool) -> (y: u8)
    ensures bit(y, 0) == b0, bit(y, 1) == b1, bit(y, 2) == b2, bit(y, 3) == b3, bit(y, 4) == b4, bit(y, 5) == b5, bit(y, 6) == b6, bit(y, 7) == b7
{
    let y = (if b0 { 1u8 } else { 0u8 }) | (if b1 { 2u8 } else { 0u8 }) | (if b2 { 4u8 } else { 0u8 }) | (if b3 { 8u8 } else { 0u8 }) | (if b4 { 16u8 } else { 0u8 }) | (if b5 { 32u8 } else { 0u8 }) | (if b6 { 64u8 } else { 0u8 }) | (if b7 { 128u8 } else { 0u8 });
    assert(((y >> 0u8) & 1u8 == 1u8) == b0) by (bit_vector) requires y == ((if b0 { 1u8 } else { 0u8 }) | (if b1 { 2u8 } else { 0u8 }) | (if b2 { 4u8 } else { 0u8 }) | (if b3 { 8u8 } else { 0u8 }) | (if b4 { 16u8 } else { 0u8 }) | (if b5 { 32u8 } else { 0u8 }) | (if b6 { 64u8 } else { 0u8 }) | (if b7 { 128u8 } else { 0u8 }));
    assert(((y >> 1u8) & 1u8 == 1u8) == b1) by (bit_vector) requires y == ((if b0 { 1u8 } else { 0u8 }) | (if b1 { 2u8 } else { 0u8 }) | (if b2 { 4u8 } else { 0u8 }) | (if b3 { 8u8 } else { 0u8 }) | (if b4 { 16u8 } else { 0u8 }) | (if b5 { 32u8 } else { 0u8 }) | (if b6 { 64u8 } else { 0u8 }) | (if b7 { 128u8 } else { 0u8 }));
    assert(((y >> 2u8) & 1u8 == 1u8) == b2) by (bit_vector) requires y == ((if b0 { 1u8 } else { 0u8 }) | (if b1 { 2u8 } else { 0u8 }) | (if b2 { 4u8 } else { 0u8 }) | (if b3 { 8u8 } else { 0u8 }) | (if b4 { 16u8 } else { 0u8 }) | (if b5 { 32u8 } else { 0u8 }) | (if b6 { 64u8 } else { 0u8 }) | (if b7 { 128u8 } else { 0u8 }));
    assert(((y >> 3u8) & 1u8 == 1u8) == b3) by (bit_vector) requires y == ((if b0 { 1u8 } else { 0u8 }) | (if b1 { 2u8 } else { 0u8 }) | (if b2 { 4u8 } else { 0u8 }) | (if b3 { 8u8 } else { 0u8 }) | (if b4 { 16u8 } else { 0u8 }) | (if b5 { 32u8 } else { 0u8 }) | (if b6 { 64u8 } else { 0u8 }) | (if b7 { 128u8 } else { 0u8 }));
    assert(((y >> 4u8) & 1u8 == 1u8) == b4) by (bit_vector) requires y == ((if b0 { 1u8 } else { 0u8 }) | (if b1 { 2u8 } else { 0u8 }) | (if b2 { 4u8 } else { 0u8 }) | (if b3 { 8u8 } else { 0u8 }) | (if b4 { 16u8 } else { 0u8 }) | (if b5 { 32u8 } else { 0u8 }) | (if b6 { 64u8 } else { 0u8 }) | (if b7 { 128u8 } else { 0u8 }));
    assert(((y >> 5u8) & 1u8 == 1u8) == b5) by (bit_vector) requires y == ((if b0 { 1u8 } else { 0u8 }) | (if b1 { 2u8 } else { 0u8 }) | (if b2 { 4u8 } else { 0u8 }) | (if b3 { 8u8 } else { 0u8 }) | (if b4 { 16u8 } else { 0u8 }) | (if b5 { 32u8 } else { 0u8 }) | (if b6 { 64u8 } else { 0u8 }) | (if b7 { 128u8 } else { 0u8 }));
    assert(((y >> 6u8) & 1u8 == 1u8) == b6) by (bit_vector) requires y == ((if b0 { 1u8 } else { 0u8 }) | (if b1 { 2u8 } else { 0u8 }) | (if b2 { 4u8 } else { 0u8 }) | (if b3 { 8u8 } else { 0u8 }) | (if b4 { 16u8 } else { 0u8 }) | (if b5 { 32u8 } else { 0u8 }) | (if b6 { 64u8 } else { 0u8 }) | (if b7 { 128u8 } else { 0u8 }));
    assert(((y >> 7u8) & 1u8 == 1u8) == b7) by (bit_vector) requires y == ((if b0 { 1u8 } else { 0u8 }) | (if b1 { 2u8 } else { 0u8 }) | (if b2 { 4u8 } else { 0u8 }) | (if b3 { 8u8 } else { 0u8 }) | (if b4 { 16u8 } else { 0u8 }) | (if b5 { 32u8 } else { 0u8 }) | (if b6 { 64u8 } else { 0u8 }) | (if b7 { 128u8 } else { 0u8 }));
    y
}
pub proof fn lemma_byte_of(s: Seq<bool>) -> (y: u8)
    requires s.len() == 8
    ensures forall|k: int| 0 <= k < 8 ==> bit(y, k) == #[trigger] s[k]
{
    let y = lemma_bits_byte(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]);
    assert forall|k: int| 0 <= k < 8 implies bit(y, k) == #[trigger] s[k] by {
        assert(k == 0 || k == 1 || k == 2 || k == 3 || k == 4 || k == 5 || k == 6 || k == 7);
    }
    y
}
// bits are the bits of some bytes
pub proof fn lemma_bits_surj(b: Seq<bool>, n: nat) -> (e: Seq<u8>)
    requires b.len() == 8 * n
    ensures e.len() == n, bits_of(e) == b
    decreases n
{
    if n == 0 {
        assert(bits_of(Seq::<u8>::empty()) =~= b);
        Seq::<u8>::empty()
    } else {
        let m = (n - 1) as nat;
        let t = lemma_bits_surj(b.take(8 * (m as int)), m);
        let y = lemma_byte_of(b.subrange(8 * (m as int), 8 * (n as int)));
        let e = t.push(y);
        assert forall|i: int| 0 <= i < 8 * n implies bits_of(e)[i] == b[i] by {
            if i < 8 * m {
                assert(e[i / 8] == t[i / 8]);
                assert(bits_of(t)[i] == b.take(8 * (m as int))[i]);
            } else {
                assert(i / 8 == m && i % 8 == i - 8 * m);
                assert(bit(y, i % 8) == b.subrange(8 * (m as int), 8 * (n as int))[i - 8 * m]);
            }
        }
        assert(bits_of(e) =~= b);
        e
    }
}
