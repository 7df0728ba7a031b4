// The parity checks of the crate labrador-ldpc (trusted): the iterator yields the same pairs (check, bit) every time.
// The facts on them are about five fixed tables; the executions evaluate every one of them completely.
use crate::labrador_ldpc::codes::LDPCCode;
pub open spec fn used(c: LDPCCode) -> bool { c is TC128 || c is TC256 || c is TC512 || c is TM2048 || c is TM8192 }
pub open spec fn nn(c: LDPCCode) -> int { if c is TC128 { 128 } else if c is TC256 { 256 } else if c is TC512 { 512 } else if c is TM2048 { 2048 } else { 8192 } }
pub open spec fn kk(c: LDPCCode) -> int { if c is TC128 { 64 } else if c is TC256 { 128 } else if c is TC512 { 256 } else if c is TM2048 { 1024 } else { 4096 } }
// bits that are not transmitted
pub open spec fn pp(c: LDPCCode) -> int { if c is TM2048 { 512 } else if c is TM8192 { 2048 } else { 0 } }
pub open spec fn tot(c: LDPCCode) -> int { nn(c) + pp(c) }
pub type Edges = Seq<(usize, usize)>;
pub uninterp spec fn edges(c: LDPCCode) -> Edges;
#[verifier::external_body] pub fn vx_edges(c: LDPCCode) -> (r: Vec<(usize, usize)>) ensures r@ == edges(c) { unimplemented!() }
// pairs at a bit, at a check, and pairs at a check whose bit is not transmitted
pub open spec fn deg(e: Edges, v: int) -> int decreases e.len() { if e.len() == 0 { 0 } else { deg(e.drop_last(), v) + (if e.last().1 == v { 1int } else { 0 }) } }
pub open spec fn cnt(e: Edges, c: int, n: int) -> int decreases e.len() { if e.len() == 0 { 0 } else { cnt(e.drop_last(), c, n) + (if e.last().0 == c && e.last().1 >= n { 1int } else { 0 }) } }
pub open spec fn alone(c: LDPCCode, i: int, v: int) -> bool { 0 <= i < edges(c).len() && edges(c)[i].1 == v && cnt(edges(c), edges(c)[i].0 as int, nn(c)) == 1 }
pub open spec fn covered(c: LDPCCode, v: int) -> bool { exists|i: int| alone(c, i, v) }
pub axiom fn ax_edges(c: LDPCCode)
    requires used(c)
    ensures
        forall|i: int| 0 <= i < edges(c).len() ==> (#[trigger] edges(c)[i]).0 < tot(c) && edges(c)[i].1 < tot(c),
        forall|v: int| 0 <= v < tot(c) ==> #[trigger] deg(edges(c), v) <= 7,
        // every bit that is not transmitted has a check in which it is the only such bit
        forall|v: int| nn(c) <= v < tot(c) ==> #[trigger] covered(c, v);
// circulants of the generator
pub open spec fn bb(c: LDPCCode) -> int { if c is TC128 { 16 } else if c is TC256 { 32 } else if c is TC512 { 64 } else if c is TM2048 { 128 } else { 512 } }
pub uninterp spec fn gen(c: LDPCCode) -> Seq<u64>;
#[verifier::external_body] pub fn vx_generator(c: LDPCCode) -> (r: Vec<u64>) requires used(c) ensures r@ == gen(c), r@.len() == (kk(c) / bb(c)) * (kk(c) / 64) { unimplemented!() }
pub fn vx_part(v: &Vec<u8>, a: usize, b: usize) -> (r: Vec<u8>)
    requires a <= b <= v@.len()
    ensures r@ == v@.subrange(a as int, b as int)
{
    let mut r = Vec::new();
    let mut i = a;
    while i < b
        invariant a <= i <= b <= v@.len(), r@ == v@.subrange(a as int, i as int)
        decreases b - i
    {
        r.push(v[i]);
        proof { assert(v@.subrange(a as int, i + 1) =~= v@.subrange(a as int, i as int).push(v@[i as int])); }
        i = i + 1;
    }
    r
}
pub fn vx_put(v: &mut Vec<u8>, a: usize, w: &Vec<u8>)
    requires a + w@.len() == old(v)@.len()
    ensures final(v)@ == old(v)@.take(a as int) + w@
{
    let ghost v0 = v@;
    let mut i: usize = 0;
    let l = v.len();
    proof { assert(v@ =~= v0.take(a as int) + w@.take(0) + v0.skip(a + 0)); }
    while i < w.len()
        invariant i <= w@.len(), v@.len() == v0.len(), l == v0.len(), a + w@.len() == v0.len(), v@ == v0.take(a as int) + w@.take(i as int) + v0.skip(a + i)
        decreases w@.len() - i
    {
        v.set(a + i, w[i]);
        i = i + 1;
        proof { assert(v@ =~= v0.take(a as int) + w@.take(i as int) + v0.skip(a + i)); }
    }
    proof { assert(v@ =~= v0.take(a as int) + w@); }
}
