// a watermark record: three lengths, the packed perturbation bits, the signature, the text
pub open spec fn rec_p(b: Seq<u8>) -> Seq<u8> { b.subrange(3, 3 + ceil8(b[0] as int)) }
pub open spec fn rec_s(b: Seq<u8>) -> Seq<u8> { b.subrange(3 + ceil8(b[0] as int), 3 + ceil8(b[0] as int) + b[1] as int) }
pub open spec fn rec_t(b: Seq<u8>) -> Seq<u8> { b.subrange(3 + ceil8(b[0] as int) + b[1] as int, 3 + ceil8(b[0] as int) + b[1] as int + b[2] as int) }
pub open spec fn rec_len(b: Seq<u8>) -> int { 3 + ceil8(b[0] as int) + b[1] as int + b[2] as int }
pub open spec fn is_record(b: Seq<u8>, bits: Seq<bool>, sig: Seq<u8>, text: Seq<u8>) -> bool {
    b.len() >= 3 && rec_len(b) <= b.len() && b[0] as int == bits.len() && b[1] as int == sig.len() && b[2] as int == text.len()
    && prefix(bits, bits_of(rec_p(b))) && rec_s(b) == sig && rec_t(b) == text
}
pub proof fn lemma_record(n: u8, s: u8, t: u8, p: Seq<u8>, sig: Seq<u8>, text: Seq<u8>, bits: Seq<bool>, b: Seq<u8>)
    requires n as int == bits.len(), s as int == sig.len(), t as int == text.len(), p.len() == ceil8(n as int), prefix(bits, bits_of(p)),
        b == seq![n, s, t] + p + sig + text
    ensures is_record(b, bits, sig, text), b.len() == rec_len(b)
{
    assert(rec_p(b) =~= p);
    assert(rec_s(b) =~= sig);
    assert(rec_t(b) =~= text);
}
pub proof fn lemma_record_prefix(b: Seq<u8>, bits: Seq<bool>, sig: Seq<u8>, text: Seq<u8>, tail: Seq<u8>)
    requires is_record(b, bits, sig, text)
    ensures is_record(b + tail, bits, sig, text)
{
    assert(rec_p(b + tail) =~= rec_p(b));
    assert(rec_s(b + tail) =~= rec_s(b));
    assert(rec_t(b + tail) =~= rec_t(b));
}

// the parts of a record, whichever way their bounds are written
pub proof fn lemma_rec_parts(b: Seq<u8>)
    requires b.len() >= 3, rec_len(b) <= b.len()
    ensures
        forall|x: int, y: int| x == 3 && y == 3 + ceil8(b[0] as int) ==> #[trigger] b.subrange(x, y) == rec_p(b),
        forall|x: int, y: int| x == 3 + ceil8(b[0] as int) && y == x + b[1] as int ==> #[trigger] b.subrange(x, y) == rec_s(b),
        forall|x: int, y: int| x == 3 + ceil8(b[0] as int) + b[1] as int && y == x + b[2] as int ==> #[trigger] b.subrange(x, y) == rec_t(b),
{}
