// C12: list -> bytes -> list is the identity, and the bytes determine the list
pub fn thm_u16_round_trip(v: &Vec<u16>) -> (r: Vec<u16>)
    ensures r@ == v@
{
    let b = utils::bytes::vec_u16_to_bytes(v);
    proof { lemma_bytes16_len(v@); }
    let r = utils::bytes::vec_u16_from_bytes(&b);
    proof { lemma_bytes16_inj(r@, v@); }
    r
}
pub fn thm_i64_round_trip(v: &Vec<i64>) -> (r: Vec<i64>)
    ensures r@ == v@
{
    let b = utils::bytes::vec_i64_to_bytes(v);
    proof { lemma_bytes64_len(v@); }
    let r = utils::bytes::vec_i64_from_bytes(&b);
    proof { lemma_bytes64_inj(r@, v@); }
    r
}
pub fn thm_i64_bytes_bind(v: &Vec<i64>, w: &Vec<i64>) -> (r: (Vec<u8>, Vec<u8>))
    ensures r.0@ == r.1@ ==> v@ == w@, r.0@.len() == 8 * v@.len(),
        forall|i: int, k: int| 0 <= i < v@.len() && 0 <= k < 8 ==> #[trigger] r.0@[8 * i + k] == le64(v@[i])[k],
{
    let a = utils::bytes::vec_i64_to_bytes(v);
    let b = utils::bytes::vec_i64_to_bytes(w);
    proof {
        lemma_bytes64_len(v@);
        if a@ == b@ { lemma_bytes64_inj(v@, w@); }
        assert forall|i: int, k: int| 0 <= i < v@.len() && 0 <= k < 8 implies #[trigger] a@[8 * i + k] == le64(v@[i])[k] by {
            lemma_bytes64_at(v@, i, k);
        }
    }
    (a, b)
}
pub proof fn lemma_bytes64_at(s: Seq<i64>, i: int, k: int)
    requires 0 <= i < s.len(), 0 <= k < 8
    ensures bytes64(s).len() == 8 * s.len(), bytes64(s)[8 * i + k] == le64(s[i])[k]
    decreases s.len()
{
    lemma_bytes64_len(s);
    lemma_bytes64_len(s.drop_last());
    lemma_le_n_len(u64_of(s.last()), 8);
    if i < s.len() - 1 { lemma_bytes64_at(s.drop_last(), i, k); }
}
