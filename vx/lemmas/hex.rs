pub open spec fn all_hex(b: Seq<u8>) -> bool { b.len() % 2 == 0 && forall|i: int| 0 <= i < b.len() ==> is_hex(#[trigger] b[i]) }
pub open spec fn unhex(b: Seq<u8>) -> Seq<u8> { Seq::new((b.len() / 2) as nat, |i: int| (16 * hex_val(b[2 * i]) + hex_val(b[2 * i + 1])) as u8) }
pub open spec fn to_hex(b: Seq<u8>) -> Seq<char> { Seq::new((2 * b.len()) as nat, |i: int| if i % 2 == 0 { hex_digit(b[i / 2] as int / 16) } else { hex_digit(b[i / 2] as int % 16) }) }
pub proof fn lemma_hex_digit(n: int)
    requires 0 <= n < 16
    ensures (hex_digit(n) as u32) < 128, is_hex(hex_digit(n) as u8), hex_val(hex_digit(n) as u8) == n
{
    assert((48u8 as char) as u8 == 48u8);
}
pub proof fn lemma_hex_round_trip(b: Seq<u8>)
    ensures all_hex(utf8(to_hex(b))), unhex(utf8(to_hex(b))) == b
{
    let s = to_hex(b);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i] as u32) < 128 && is_hex(s[i] as u8) by {
        lemma_hex_digit(b[i / 2] as int / 16);
        lemma_hex_digit(b[i / 2] as int % 16);
    }
    ax_utf8_ascii(s);
    let u = utf8(s);
    assert forall|i: int| 0 <= i < b.len() implies unhex(u)[i] == b[i] by {
        lemma_hex_digit(b[i] as int / 16);
        lemma_hex_digit(b[i] as int % 16);
        assert((2 * i) / 2 == i && (2 * i + 1) / 2 == i);
        assert(u[2 * i] == s[2 * i] as u8);
        assert(u[2 * i + 1] == s[2 * i + 1] as u8);
    }
    assert(unhex(u) =~= b);
}
