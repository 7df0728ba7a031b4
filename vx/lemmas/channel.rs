// one grey channel, its features and the record it carries
pub open spec fn tight(g: Img) -> bool { g.raw.len() == g.w * g.h }
pub open spec fn chan_mat(g: Img) -> Mat<u8> { rows_of(g.raw, g.w, g.h) }
pub open spec fn eq_img(g: Img) -> Img { Img { w: g.w, h: g.h, raw: equalized(g) } }
// the features of a channel are those of its equalized image
pub open spec fn own_features(g: Img, n: int) -> Seq<f64> { zernike_features(chan_mat(eq_img(g)), n) }
pub open spec fn channel_ok(g: Img, n: int, s: f64, l: int) -> bool {
    1 <= n && tight(g) && shape_ok(chan_mat(g), l) && features_ok(own_features(g, n), s)
}
pub open spec fn secret_key() -> Seq<char> { "e1ec991518bead7d94b60bf64469b98d866315b3676d4fa5b4e7c36dc4951d60"@ }
pub open spec fn public_key() -> Seq<char> { "a7fd235002f60fad1a7077d74cfd62dd8922963ebc713c385ad37596fba5a7d6"@ }
pub axiom fn ax_own_keys() ensures ed_pair(key_of(secret_key()), key_of(public_key()));
pub proof fn lemma_keys()
    ensures all_hex(utf8(secret_key())), all_hex(utf8(public_key())), ed_pair(key_of(secret_key()), key_of(public_key())),
        secret_text(secret_key()), key_text(public_key()), key_of(public_key()).len() == 32, key_of(secret_key()).len() == 32,
{
    ax_own_keys();
    ax_pair(key_of(secret_key()), key_of(public_key()), seq![]);
    reveal_strlit("e1ec991518bead7d94b60bf64469b98d866315b3676d4fa5b4e7c36dc4951d60");
    reveal_strlit("a7fd235002f60fad1a7077d74cfd62dd8922963ebc713c385ad37596fba5a7d6");
    ax_utf8_ascii(secret_key());
    ax_utf8_ascii(public_key());
}
pub open spec fn text_bytes() -> Seq<u8> { utf8("Hello world!"@) }
pub proof fn lemma_text() ensures text_bytes().len() == 12, is_utf8(text_bytes()) {
    reveal_strlit("Hello world!");
    ax_utf8_ascii("Hello world!"@);
}
// the record of a channel: the perturbation bits of its features, the signature of its quantized features, the text
pub open spec fn own_record(g: Img, s: f64, n: int, b: Seq<u8>) -> bool {
    let f = own_features(g, n);
    is_record(b, all_bits(f, s, n), ed_sign(key_of(secret_key()) + key_of(public_key()), bytes64(all_q(f, s))), text_bytes()) && b.len() == rec_len(b)
}
pub open spec fn carriable(g: Img, n: int, l: int) -> bool { 3 * n <= 255 && fits(chan_mat(g), l, 3 + ceil8(3 * n) + 64 + 12) }
pub open spec fn is_watermarked(g: Img, r: Img, d: f64, s: f64, n: int, l: int) -> bool {
    exists|b: Seq<u8>| #[trigger] own_record(g, s, n, b)
        && (deep(d, l) && headroom(chan_mat(g), d, l) ==> carries(chan_mat(g), chan_mat(r), coded(chan_mat(g), l, b), d, l))
}
pub proof fn lemma_rec_len() ensures forall|b: Seq<u8>, p: Seq<bool>, s: Seq<u8>, t: Seq<u8>| #[trigger] is_record(b, p, s, t) ==> rec_len(b) == 3 + ceil8(p.len() as int) + s.len() + t.len() {}
pub proof fn lemma_flat_rows<T>(m: Mat<T>)
    requires m.wf()
    ensures flat_rows(m.d).len() == m.h() * m.w, rows_of(flat_rows(m.d), m.h(), m.w) == m
    decreases m.d.len()
{
    let f = flat_rows(m.d);
    if m.d.len() == 0 {
        assert(m.h() * m.w == 0) by (nonlinear_arith) requires m.h() == 0;
        assert(rows_of(f, m.h(), m.w).d =~= m.d);
    } else {
        let k = Mat { w: m.w, d: m.d.drop_last() };
        assert forall|r: int| 0 <= r < k.d.len() implies (#[trigger] k.d[r]).len() == k.w by { assert(m.d[r].len() == m.w); }
        lemma_flat_rows(k);
        let g = flat_rows(k.d);
        let h = m.h();
        let w = m.w;
        assert((h - 1) * w + w == h * w) by (nonlinear_arith);
        assert(m.d[h - 1].len() == w);
        assert(f == g + m.d[h - 1]);
        assert forall|r: int| 0 <= r < h implies #[trigger] f.subrange(r * w, (r + 1) * w) =~= m.d[r] by {
            if r < h - 1 {
                assert(0 <= r * w && (r + 1) * w <= (h - 1) * w && (r + 1) * w == r * w + w) by (nonlinear_arith) requires 0 <= r < h - 1, w >= 0;
                assert(rows_of(g, h - 1, w).d[r] == g.subrange(r * w, (r + 1) * w));
                assert(f.subrange(r * w, (r + 1) * w) =~= g.subrange(r * w, (r + 1) * w));
            }
        }
        assert(rows_of(f, h, w).d =~= m.d);
    }
}
// a matrix of the channel's shape, made into an image again
pub proof fn lemma_out_image(g: Img)
    requires tight(g), 0 <= g.w, 0 <= g.h
    ensures forall|m: Mat<u8>| m.wf() && m.same_dim(chan_mat(g)) ==> (#[trigger] flat_rows(m.d)).len() == g.w * g.h && rows_of(flat_rows(m.d), g.w, g.h) == m
{
    assert forall|m: Mat<u8>| m.wf() && m.same_dim(chan_mat(g)) implies (#[trigger] flat_rows(m.d)).len() == g.w * g.h && rows_of(flat_rows(m.d), g.w, g.h) == m by { lemma_flat_rows(m); }
}
// the record a channel carries and what it says about the channel
pub open spec fn found_record(g: Img, d: f64, l: int) -> Seq<u8> { extracted(chan_mat(g), d, l) }
pub open spec fn judgeable(g: Img, d: f64, n: int, l: int) -> bool {
    let b = found_record(g, d, l);
    extractable(chan_mat(g), d, l) && b.len() >= 3 && rec_len(b) <= b.len() && is_utf8(rec_t(b)) && sig_ok(rec_s(b)) && b[0] as int == 3 * n
}
pub open spec fn restored_features(g: Img, d: f64, s: f64, n: int, l: int) -> Seq<i64> {
    let b = found_record(g, d, l);
    all_restored(own_features(g, n), bits_of(rec_p(b)).take(b[0] as int), s)
}
pub open spec fn judged(g: Img, d: f64, s: f64, n: int, l: int, key: Seq<u8>) -> bool {
    let b = found_record(g, d, l);
    ed_verify(key, bytes64(all_restored(own_features(g, n), bits_of(rec_p(b)).take(b[0] as int), s)), rec_s(b))
}

pub proof fn lemma_own_len(g: Img, s: f64, n: int, b: Seq<u8>)
    requires own_record(g, s, n, b), 1 <= n
    ensures b.len() == 3 + ceil8(3 * n) + 64 + 12, bits_of(rec_p(b)).take(b[0] as int) == all_bits(own_features(g, n), s, n), sig_ok(rec_s(b)), b[0] as int == 3 * n
{
    let f = own_features(g, n);
    ax_features_len(chan_mat(eq_img(g)), n);
    lemma_keys();
    ax_pair(key_of(secret_key()), key_of(public_key()), bytes64(all_q(f, s)));
    lemma_text();
    lemma_all_bits(f, s, n);
    assert(bits_of(rec_p(b)).take(b[0] as int) =~= all_bits(f, s, n));
}

pub proof fn lemma_own(g: Img, s: f64, n: int)
    ensures forall|b: Seq<u8>, sig: Seq<u8>| sig == ed_sign(key_of(secret_key()) + key_of(public_key()), bytes64(all_q(own_features(g, n), s))) && b.len() == rec_len(b)
        && #[trigger] is_record(b, all_bits(own_features(g, n), s, n), sig, text_bytes()) ==> own_record(g, s, n, b)
{}
