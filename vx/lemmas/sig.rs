pub open spec fn key_text(s: Seq<char>) -> bool { all_hex(utf8(s)) && pk_ok(unhex(utf8(s))) }
pub open spec fn secret_text(s: Seq<char>) -> bool { all_hex(utf8(s)) && unhex(utf8(s)).len() == 32 }
pub open spec fn key_of(s: Seq<char>) -> Seq<u8> { unhex(utf8(s)) }
// both texts are hex, of 64 bytes together
pub open spec fn pair_text(s: Seq<char>, p: Seq<char>) -> bool { all_hex(utf8(s)) && all_hex(utf8(p)) && key_of(s).len() + key_of(p).len() == 64 }
pub proof fn lemma_generated()
    ensures
        forall|b: Seq<u8>| all_hex(utf8(#[trigger] to_hex(b))) && key_of(to_hex(b)) == b,
        forall|s: Seq<u8>, p: Seq<u8>| #[trigger] ed_pair(s, p) ==> s.len() == 32 && p.len() == 32
{
    assert forall|b: Seq<u8>| all_hex(utf8(#[trigger] to_hex(b))) && key_of(to_hex(b)) == b by { lemma_hex_round_trip(b); }
    assert forall|s: Seq<u8>, p: Seq<u8>| #[trigger] ed_pair(s, p) implies s.len() == 32 && p.len() == 32 by { ax_pair(s, p, seq![]); }
}
