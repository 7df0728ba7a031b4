// the payload frame: 16-bit little-endian length, then the payload
pub open spec fn frame(p: Seq<u8>) -> Seq<u8> { le16(p.len() as u16) + p }
pub open spec fn u16_at(s: Seq<u8>) -> int { s[0] as int + 256 * s[1] as int }
pub proof fn lemma_frame_header(s: Seq<u8>)
    requires s.len() >= 2
    ensures forall|r: Seq<u16>| r.len() == 1 && #[trigger] bytes16(r) == s.subrange(0, 2) ==> r[0] == u16_at(s),
{
    assert forall|r: Seq<u16>| r.len() == 1 && #[trigger] bytes16(r) == s.subrange(0, 2) implies r[0] == u16_at(s) by {
        reveal_with_fuel(bytes16, 2);
        assert(r.drop_last() =~= Seq::<u16>::empty());
        assert(bytes16(r) =~= le16(r[0]));
        assert(s.subrange(0, 2)[0] == s[0]);
        assert(s.subrange(0, 2)[1] == s[1]);
        assert(le16(r[0])[0] == s[0]);
        assert(le16(r[0])[1] == s[1]);
    }
}
pub proof fn lemma_frame_inverse(p: Seq<u8>, t: Seq<u8>)
    requires p.len() <= 65535
    ensures (frame(p) + t).len() == 2 + p.len() + t.len(), u16_at(frame(p) + t) == p.len(),
        (frame(p) + t).subrange(2, 2 + p.len() as int) == p,
{
    assert((frame(p) + t).subrange(2, 2 + p.len() as int) =~= p);
}
