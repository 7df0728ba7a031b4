use crate::vx_ldpc::labrador_ldpc::*;
// the code selected for a capacity of c bytes
pub open spec fn code_for(c: int) -> Option<LDPCCode> {
    if c < 16 { None } else if c < 32 { Some(LDPCCode::TC128) } else if c < 64 { Some(LDPCCode::TC256) } else if c < 256 { Some(LDPCCode::TC512) }
    else if c < 1024 { Some(LDPCCode::TM2048) } else { Some(LDPCCode::TM8192) }
}
// input with its 16-bit big-endian length
pub open spec fn headed(input: Seq<u8>) -> Seq<u8> { seq![(input.len() / 256) as u8, (input.len() % 256) as u8] + input }
pub open spec fn pad_to(w: Seq<u8>, n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| if i < w.len() { w[i] } else { 0u8 }) }
// the i-th data word, padded with zeros
pub open spec fn word_of(code: LDPCCode, s: Seq<u8>, i: int) -> Seq<u8> { pad_to(chunk_at(s, code.kb(), i), code.kb()) }
pub open spec fn enc_upto(code: LDPCCode, s: Seq<u8>, i: int) -> Seq<u8> decreases i {
    if i <= 0 { seq![] } else { enc_upto(code, s, i - 1) + code.cw(word_of(code, s, i - 1)) }
}
pub open spec fn received(code: LDPCCode, s: Seq<u8>, i: int) -> Seq<u8> { s.subrange(i * code.nb(), (i + 1) * code.nb()) }
pub open spec fn dec_upto(code: LDPCCode, s: Seq<u8>, i: int) -> Seq<u8> decreases i {
    if i <= 0 { seq![] } else { dec_upto(code, s, i - 1) + code.dec(received(code, s, i - 1), 20) }
}
pub open spec fn dec_all(code: LDPCCode, s: Seq<u8>) -> Seq<u8> { dec_upto(code, s, s.len() as int / code.nb()) }
pub open spec fn head_len(d: Seq<u8>) -> int { d[0] as int * 256 + d[1] as int }
pub open spec fn decodable(code: LDPCCode, s: Seq<u8>) -> bool {
    let d = dec_all(code, s);
    d.len() >= 2 && 2 + head_len(d) <= d.len()
}
pub open spec fn decoded(code: LDPCCode, s: Seq<u8>) -> Seq<u8> {
    let d = dec_all(code, s);
    d.subrange(2, 2 + head_len(d))
}
// padding the bits of a word with false and packing them again pads the bytes with zeros
pub proof fn lemma_pad_bits(w: Seq<u8>, n: int, v: Seq<u8>)
    requires w.len() <= n, v.len() == ceil8(8 * n), prefix(resized(bits_of(w), 8 * n, false), bits_of(v))
    ensures v == pad_to(w, n)
{
    let p = pad_to(w, n);
    let b = resized(bits_of(w), 8 * n, false);
    assert(v.len() == n);
    assert(bits_of(v) =~= b);
    assert forall|i: int| 0 <= i < 8 * n implies bits_of(p)[i] == b[i] by {
        if i / 8 >= w.len() { lemma_zero_bit(i % 8); }
    }
    assert(bits_of(p) =~= bits_of(v));
    lemma_bits_inj(p, v);
}

pub proof fn lemma_code_sizes(code: LDPCCode)
    ensures code.kb() >= 8, code.nb() == 2 * code.kb(), code.kk() == 8 * code.kb(), code.nn() == 8 * code.nb(), code.kb() <= 512
{}
// whatever packs the padded bits of data word i is that data word padded with zeros
pub proof fn lemma_pad_word(code: LDPCCode, s: Seq<u8>, i: int)
    requires 0 <= i < nchunks(s.len() as int, code.kb())
    ensures forall|v: Seq<u8>| v.len() == ceil8(code.kk()) && prefix(resized(bits_of(chunk_at(s, code.kb(), i)), code.kk(), false), #[trigger] bits_of(v)) ==> v == word_of(code, s, i),
        word_of(code, s, i).len() == code.kb()
{
    let w = chunk_at(s, code.kb(), i);
    lemma_chunk_len(s, code.kb(), i);
    assert forall|v: Seq<u8>| v.len() == ceil8(code.kk()) && prefix(resized(bits_of(w), code.kk(), false), #[trigger] bits_of(v)) implies v == word_of(code, s, i) by {
        lemma_pad_bits(w, code.kb(), v);
    }
}
pub proof fn lemma_chunk_len<T>(s: Seq<T>, n: int, i: int)
    requires n > 0, 0 <= i < nchunks(s.len() as int, n)
    ensures 0 <= i * n < s.len(), chunk_at(s, n, i).len() <= n, (i + 1) * n <= s.len() ==> chunk_at(s, n, i).len() == n
{
    let m = nchunks(s.len() as int, n);
    assert(m * n <= s.len() + n - 1) by (nonlinear_arith) requires m == (s.len() + n - 1) / n, n > 0;
    assert((i + 1) * n <= m * n) by (nonlinear_arith) requires i + 1 <= m, n > 0;
    assert((i + 1) * n == i * n + n) by (nonlinear_arith);
    assert(i * n >= 0) by (nonlinear_arith) requires i >= 0, n > 0;
}
// ---- decoding inverts encoding
pub open spec fn words_upto(code: LDPCCode, s: Seq<u8>, i: int) -> Seq<u8> decreases i {
    if i <= 0 { seq![] } else { words_upto(code, s, i - 1) + word_of(code, s, i - 1) }
}
pub open spec fn nwords(code: LDPCCode, s: Seq<u8>) -> int { nchunks(s.len() as int, code.kb()) }
pub proof fn lemma_words_content(code: LDPCCode, s: Seq<u8>, i: int)
    requires 0 <= i <= nwords(code, s)
    ensures words_upto(code, s, i).len() == i * code.kb(),
        forall|j: int| 0 <= j < i * code.kb() && j < s.len() ==> words_upto(code, s, i)[j] == s[j],
        i == nwords(code, s) ==> i * code.kb() >= s.len()
    decreases i
{
    let n = code.kb();
    if i > 0 {
        lemma_words_content(code, s, i - 1);
        lemma_chunk_len(s, n, i - 1);
        assert(i * n == (i - 1) * n + n) by (nonlinear_arith);
    }
    if i == nwords(code, s) {
        assert(i * n >= s.len()) by (nonlinear_arith) requires i == (s.len() + n - 1) / n, n > 0;
    }
}
pub proof fn lemma_enc_len(code: LDPCCode, s: Seq<u8>, i: int)
    requires 0 <= i <= nwords(code, s)
    ensures enc_upto(code, s, i).len() == i * code.nb()
    decreases i
{
    if i == 0 { assert(0 * code.nb() == 0) by (nonlinear_arith); }
    if i > 0 {
        lemma_enc_len(code, s, i - 1);
        lemma_pad_word(code, s, i - 1);
        ax_undamaged(code, word_of(code, s, i - 1));
        assert(enc_upto(code, s, i) == enc_upto(code, s, i - 1) + code.cw(word_of(code, s, i - 1)));
        assert(i * code.nb() == (i - 1) * code.nb() + code.nb()) by (nonlinear_arith);
    }
}
pub proof fn lemma_received(code: LDPCCode, s: Seq<u8>, i: int)
    requires 0 <= i < nwords(code, s)
    ensures received(code, enc_upto(code, s, nwords(code, s)), i) == code.cw(word_of(code, s, i))
{
    lemma_received_upto(code, s, i, nwords(code, s));
}
pub proof fn lemma_received_upto(code: LDPCCode, s: Seq<u8>, i: int, m: int)
    requires 0 <= i < m <= nwords(code, s)
    ensures received(code, enc_upto(code, s, m), i) == code.cw(word_of(code, s, i)), (i + 1) * code.nb() <= enc_upto(code, s, m).len(), 0 <= i * code.nb()
    decreases m
{
    lemma_enc_len(code, s, m);
    lemma_enc_len(code, s, m - 1);
    lemma_pad_word(code, s, m - 1);
    ax_undamaged(code, word_of(code, s, m - 1));
    let e = enc_upto(code, s, m);
    let b = code.nb();
    assert((i + 1) * b == i * b + b) by (nonlinear_arith);
    assert(m * b == (m - 1) * b + b) by (nonlinear_arith);
    assert(i * b >= 0) by (nonlinear_arith) requires i >= 0, b > 0;
    if i == m - 1 {
        assert(received(code, e, i) =~= code.cw(word_of(code, s, i)));
    } else {
        lemma_received_upto(code, s, i, m - 1);
        assert((i + 1) * b <= (m - 1) * b) by (nonlinear_arith) requires i + 1 <= m - 1, b > 0;
        assert(received(code, e, i) =~= received(code, enc_upto(code, s, m - 1), i));
    }
}
// every received word at position i < m is one the code corrects to the i-th data word of s
pub open spec fn correctable(code: LDPCCode, s: Seq<u8>, r: Seq<u8>) -> bool {
    r.len() >= nwords(code, s) * code.nb() && forall|i: int| 0 <= i < nwords(code, s) ==> #[trigger] corrects(code, received(code, r, i), word_of(code, s, i))
}
pub proof fn lemma_dec_prefix(code: LDPCCode, s: Seq<u8>, r: Seq<u8>, i: int)
    requires correctable(code, s, r), 0 <= i <= nwords(code, s)
    ensures dec_upto(code, r, i) == words_upto(code, s, i)
    decreases i
{
    if i > 0 {
        lemma_dec_prefix(code, s, r, i - 1);
        assert(corrects(code, received(code, r, i - 1), word_of(code, s, i - 1)));
    }
}
pub proof fn lemma_dec_grows(code: LDPCCode, r: Seq<u8>, i: int, m: int)
    requires 0 <= i <= m
    ensures dec_upto(code, r, i).len() <= dec_upto(code, r, m).len(), forall|j: int| 0 <= j < dec_upto(code, r, i).len() ==> dec_upto(code, r, m)[j] == dec_upto(code, r, i)[j]
    decreases m
{
    if i < m { lemma_dec_grows(code, r, i, m - 1); }
}
// decoding a received string whose leading words are correctable gives the input back, whatever follows
pub proof fn lemma_decode_inverts(code: LDPCCode, input: Seq<u8>, r: Seq<u8>)
    requires input.len() <= 65535, correctable(code, headed(input), r)
    ensures decodable(code, r), decoded(code, r) == input
{
    let s = headed(input);
    let m = nwords(code, s);
    let t = r.len() as int / code.nb();
    let b = code.nb();
    assert(t >= m) by (nonlinear_arith) requires r.len() >= m * b, t == r.len() as int / b, b > 0;
    assert(m >= 0);
    lemma_dec_prefix(code, s, r, m);
    lemma_words_content(code, s, m);
    lemma_dec_grows(code, r, m, t);
    let d = dec_all(code, r);
    assert forall|j: int| 0 <= j < s.len() implies d[j] == s[j] by {}
    assert(d[0] == s[0] && d[1] == s[1]);
    assert(head_len(d) == input.len());
    assert(decoded(code, r) =~= input);
}
// an undamaged encoding followed by anything is correctable
pub proof fn lemma_undamaged_correctable(code: LDPCCode, s: Seq<u8>, tail: Seq<u8>)
    ensures correctable(code, s, enc_upto(code, s, nwords(code, s)) + tail)
{
    let m = nwords(code, s);
    let e = enc_upto(code, s, m);
    let r = e + tail;
    assert(m >= 0);
    lemma_enc_len(code, s, m);
    assert forall|i: int| 0 <= i < m implies #[trigger] corrects(code, received(code, r, i), word_of(code, s, i)) by {
        lemma_received_upto(code, s, i, m);
        lemma_pad_word(code, s, i);
        ax_undamaged(code, word_of(code, s, i));
        assert(code.nb() * i >= 0) by (nonlinear_arith) requires i >= 0, code.nb() > 0;
        let lo = i * code.nb();
        let hi = (i + 1) * code.nb();
        assert(0 <= lo <= hi <= e.len()) by (nonlinear_arith) requires lo == i * code.nb(), hi == (i + 1) * code.nb(), hi <= e.len(), i >= 0, code.nb() > 0;
        assert(r.subrange(lo, hi) =~= e.subrange(lo, hi));
    }
}

pub proof fn lemma_received_len(code: LDPCCode, r: Seq<u8>, i: int)
    requires 0 <= i < r.len() as int / code.nb()
    ensures received(code, r, i).len() == code.nb(), 0 <= i * code.nb(), (i + 1) * code.nb() <= r.len()
{
    let b = code.nb();
    assert((i + 1) * b == i * b + b) by (nonlinear_arith);
    assert((i + 1) * b <= r.len()) by (nonlinear_arith) requires i + 1 <= r.len() as int / b, b > 0;
    assert(i * b >= 0) by (nonlinear_arith) requires i >= 0, b > 0;
}
