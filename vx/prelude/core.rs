// Assumed contracts on the standard library (trusted).
pub uninterp spec fn vx_canary(i: int) -> bool;
/*PANIC*/
/*GEN:casts*/

pub trait VxItems: Sized {
    type Item;
    spec fn items(self) -> Seq<Self::Item>;
    fn vx_items(self) -> (r: Vec<Self::Item>)
        ensures r@ == self.items();
}
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
impl<'a, T> VxItems for &'a Vec<T> {
    type Item = &'a T;
    open spec fn items(self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body]
    fn vx_items(self) -> (r: Vec<&'a T>) { self.iter().collect() }
}
impl<'a, T> VxItems for &'a [T] {
    type Item = &'a T;
    open spec fn items(self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body]
    fn vx_items(self) -> (r: Vec<&'a T>) { self.iter().collect() }
}
impl<'a, T, const N: usize> VxItems for &'a [T; N] {
    type Item = &'a T;
    open spec fn items(self) -> Seq<&'a T> { refs(self@) }
    #[verifier::external_body]
    fn vx_items(self) -> (r: Vec<&'a T>) { self.iter().collect() }
}
impl<T> VxItems for Vec<T> {
    type Item = T;
    open spec fn items(self) -> Seq<T> { self@ }
    fn vx_items(self) -> (r: Vec<T>) { self }
}
// `x[i]` through an Index implementation
pub trait VxIdx { type Out; spec fn idx_ok(&self, i: int) -> bool; spec fn idx(&self, i: int) -> Self::Out; fn vx_idx(&self, i: usize) -> (r: &Self::Out) requires self.idx_ok(i as int) ensures *r == self.idx(i as int); }
// `x.iter()` on a place expression
pub trait VxIter {
    type Elem;
    spec fn iter_view(&self) -> Seq<Self::Elem>;
    fn vx_iter<'a>(&'a self) -> (r: Vec<&'a Self::Elem>)
        ensures r@ == refs(self.iter_view());
}
impl<T> VxIter for Vec<T> {
    type Elem = T;
    open spec fn iter_view(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter<'a>(&'a self) -> (r: Vec<&'a T>) { self.iter().collect() }
}
impl<T> VxIter for [T] {
    type Elem = T;
    open spec fn iter_view(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter<'a>(&'a self) -> (r: Vec<&'a T>) { self.iter().collect() }
}
impl<T, const N: usize> VxIter for [T; N] {
    type Elem = T;
    open spec fn iter_view(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter<'a>(&'a self) -> (r: Vec<&'a T>) { self.iter().collect() }
}
impl<'b, S: VxIter> VxIter for &'b S {
    type Elem = S::Elem;
    open spec fn iter_view(&self) -> Seq<S::Elem> { (*self).iter_view() }
    #[verifier::external_body]
    fn vx_iter<'a>(&'a self) -> (r: Vec<&'a S::Elem>) { (*self).vx_iter() }
}

pub trait VxRange: Sized {
    spec fn rint(self) -> int;
    fn vx_range_len(lo: Self, hi: Self) -> (r: usize)
        requires hi.rint() - lo.rint() <= usize::MAX,
        ensures r as int == (if hi.rint() > lo.rint() { hi.rint() - lo.rint() } else { 0 });
    fn vx_range_len_incl(lo: Self, hi: Self) -> (r: usize)
        requires hi.rint() - lo.rint() < usize::MAX,
        ensures r as int == (if hi.rint() >= lo.rint() { hi.rint() - lo.rint() + 1 } else { 0 });
    fn vx_range_len_step(lo: Self, hi: Self, st: usize) -> (r: usize)
        requires st > 0, hi.rint() - lo.rint() <= usize::MAX,
        ensures r as int == (if hi.rint() > lo.rint() { (hi.rint() - lo.rint() - 1) / (st as int) + 1 } else { 0 });
    fn vx_range_len_incl_step(lo: Self, hi: Self, st: usize) -> (r: usize)
        requires st > 0, hi.rint() - lo.rint() < usize::MAX,
        ensures r as int == (if hi.rint() >= lo.rint() { (hi.rint() - lo.rint()) / (st as int) + 1 } else { 0 });
    fn vx_range_at(lo: Self, i: usize) -> (r: Self)
        ensures r.rint() == lo.rint() + i;
    fn vx_range_at_step(lo: Self, i: usize, st: usize) -> (r: Self)
        ensures r.rint() == lo.rint() + i * st;
}
impl VxRange for usize {
    open spec fn rint(self) -> int { self as int }
    #[verifier::external_body] fn vx_range_len(lo: usize, hi: usize) -> (r: usize) { (lo..hi).len() }
    #[verifier::external_body] fn vx_range_len_incl(lo: usize, hi: usize) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_range_len_step(lo: usize, hi: usize, st: usize) -> (r: usize) { (lo..hi).step_by(st).len() }
    #[verifier::external_body] fn vx_range_len_incl_step(lo: usize, hi: usize, st: usize) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_range_at(lo: usize, i: usize) -> (r: usize) { lo + i }
    #[verifier::external_body] fn vx_range_at_step(lo: usize, i: usize, st: usize) -> (r: usize) { lo + i * st }
}
impl VxRange for i32 {
    open spec fn rint(self) -> int { self as int }
    #[verifier::external_body] fn vx_range_len(lo: i32, hi: i32) -> (r: usize) { (lo..hi).len() }
    #[verifier::external_body] fn vx_range_len_incl(lo: i32, hi: i32) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_range_len_step(lo: i32, hi: i32, st: usize) -> (r: usize) { (lo..hi).step_by(st).len() }
    #[verifier::external_body] fn vx_range_len_incl_step(lo: i32, hi: i32, st: usize) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_range_at(lo: i32, i: usize) -> (r: i32) { unimplemented!() }
    #[verifier::external_body] fn vx_range_at_step(lo: i32, i: usize, st: usize) -> (r: i32) { unimplemented!() }
}

// little-endian bytes
pub open spec fn le16(x: u16) -> Seq<u8> { seq![(x % 256) as u8, (x / 256) as u8] }
pub open spec fn u64_of(x: i64) -> int { if x >= 0 { x as int } else { x as int + 0x1_0000_0000_0000_0000 } }
pub open spec fn le_n(u: int, n: nat) -> Seq<u8> decreases n {
    if n == 0 { seq![] } else { seq![(u % 256) as u8] + le_n(u / 256, (n - 1) as nat) }
}
pub open spec fn le64(x: i64) -> Seq<u8> { le_n(u64_of(x), 8) }
pub trait VxLe<const N: usize>: Sized {
    spec fn le(self) -> Seq<u8>;
    fn vx_to_le_bytes(self) -> (r: [u8; N]) ensures r@ == self.le();
    fn vx_to_be_bytes(self) -> (r: [u8; N]) ensures r@ == self.le().reverse();
}
impl VxLe<2> for u16 {
    open spec fn le(self) -> Seq<u8> { le16(self) }
    #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; 2]) { self.to_le_bytes() }
    #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 2]) { self.to_be_bytes() }
}
impl VxLe<8> for i64 {
    open spec fn le(self) -> Seq<u8> { le64(self) }
    #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; 8]) { self.to_le_bytes() }
    #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 8]) { self.to_be_bytes() }
}
pub trait VxFromLe<const N: usize>: Sized {
    spec fn fle(self) -> Seq<u8>;
    fn vx_from_le_bytes(b: [u8; N]) -> (r: Self) ensures r.fle() == b@;
    fn vx_from_be_bytes(b: [u8; N]) -> (r: Self) ensures r.fle() == b@.reverse();
}
impl VxFromLe<2> for u16 {
    open spec fn fle(self) -> Seq<u8> { le16(self) }
    #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 2]) -> (r: u16) { u16::from_le_bytes(b) }
    #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 2]) -> (r: u16) { u16::from_be_bytes(b) }
}
impl VxFromLe<8> for i64 {
    open spec fn fle(self) -> Seq<u8> { le64(self) }
    #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 8]) -> (r: i64) { i64::from_le_bytes(b) }
    #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 8]) -> (r: i64) { i64::from_be_bytes(b) }
}

// slices
pub open spec fn nchunks(len: int, n: int) -> int { (len + n - 1) / n }
pub open spec fn chunk_at<T>(s: Seq<T>, n: int, i: int) -> Seq<T> { s.subrange(i * n, if (i + 1) * n <= s.len() { (i + 1) * n } else { s.len() as int }) }
pub open spec fn chunks_are<T>(s: Seq<T>, n: int, r: Seq<&[T]>) -> bool {
    r.len() == nchunks(s.len() as int, n) && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i])@ == chunk_at(s, n, i)
}
pub open spec fn chunks_exact_are<T>(s: Seq<T>, n: int, r: Seq<&[T]>) -> bool {
    r.len() == s.len() as int / n && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i])@ == s.subrange(i * n, (i + 1) * n)
}
pub trait VxSlice {
    type Elem;
    spec fn sl(&self) -> Seq<Self::Elem>;
    fn vx_chunks<'a>(&'a self, n: usize) -> (r: Vec<&'a [Self::Elem]>)
        requires n > 0 ensures chunks_are(self.sl(), n as int, r@);
    fn vx_chunks_exact<'a>(&'a self, n: usize) -> (r: Vec<&'a [Self::Elem]>)
        requires n > 0 ensures chunks_exact_are(self.sl(), n as int, r@);
    fn vx_as_slice<'a>(&'a self) -> (r: &'a [Self::Elem]) ensures r@ == self.sl();
    fn vx_get<'a>(&'a self, i: usize) -> (r: Option<&'a Self::Elem>)
        ensures r == (if i < self.sl().len() { Some(&self.sl()[i as int]) } else { None });
}
impl<T> VxSlice for Vec<T> {
    type Elem = T;
    open spec fn sl(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_chunks<'a>(&'a self, n: usize) -> (r: Vec<&'a [T]>) { self.chunks(n).collect() }
    #[verifier::external_body] fn vx_chunks_exact<'a>(&'a self, n: usize) -> (r: Vec<&'a [T]>) { self.chunks_exact(n).collect() }
    #[verifier::external_body] fn vx_as_slice<'a>(&'a self) -> (r: &'a [T]) { self.as_slice() }
    #[verifier::external_body] fn vx_get<'a>(&'a self, i: usize) -> (r: Option<&'a T>) { self.get(i) }
}
impl<T> VxSlice for [T] {
    type Elem = T;
    open spec fn sl(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_chunks<'a>(&'a self, n: usize) -> (r: Vec<&'a [T]>) { self.chunks(n).collect() }
    #[verifier::external_body] fn vx_chunks_exact<'a>(&'a self, n: usize) -> (r: Vec<&'a [T]>) { self.chunks_exact(n).collect() }
    #[verifier::external_body] fn vx_as_slice<'a>(&'a self) -> (r: &'a [T]) { self }
    #[verifier::external_body] fn vx_get<'a>(&'a self, i: usize) -> (r: Option<&'a T>) { self.get(i) }
}
impl<T, const N: usize> VxSlice for [T; N] {
    type Elem = T;
    open spec fn sl(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_chunks<'a>(&'a self, n: usize) -> (r: Vec<&'a [T]>) { self.chunks(n).collect() }
    #[verifier::external_body] fn vx_chunks_exact<'a>(&'a self, n: usize) -> (r: Vec<&'a [T]>) { self.chunks_exact(n).collect() }
    #[verifier::external_body] fn vx_as_slice<'a>(&'a self) -> (r: &'a [T]) { self }
    #[verifier::external_body] fn vx_get<'a>(&'a self, i: usize) -> (r: Option<&'a T>) { self.get(i) }
}
pub trait VxToVec {
    type Elem;
    spec fn tv(&self) -> Seq<Self::Elem>;
    fn vx_to_vec(&self) -> (r: Vec<Self::Elem>) ensures r@ == self.tv();
}
impl<T: Copy> VxToVec for [T] {
    type Elem = T;
    open spec fn tv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) { self.to_vec() }
}
impl<const N: usize> VxToVec for [u8; N] {
    type Elem = u8;
    open spec fn tv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<u8>) { self.to_vec() }
}
pub trait VxSub {
    type Elem;
    spec fn sub_view(&self) -> Seq<Self::Elem>;
    fn vx_sub<'a>(&'a self, lo: usize, hi: usize) -> (r: &'a [Self::Elem])
        requires lo <= hi <= self.sub_view().len(),
        ensures r@ == self.sub_view().subrange(lo as int, hi as int);
    fn vx_sub_from<'a>(&'a self, lo: usize) -> (r: &'a [Self::Elem])
        requires lo <= self.sub_view().len(),
        ensures r@ == self.sub_view().subrange(lo as int, self.sub_view().len() as int), lo == 0 ==> r@ == self.sub_view();
}
impl<T> VxSub for Vec<T> {
    type Elem = T;
    open spec fn sub_view(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_sub<'a>(&'a self, lo: usize, hi: usize) -> (r: &'a [T]) { &self[lo..hi] }
    #[verifier::external_body] fn vx_sub_from<'a>(&'a self, lo: usize) -> (r: &'a [T]) { &self[lo..] }
}
impl<T> VxSub for [T] {
    type Elem = T;
    open spec fn sub_view(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_sub<'a>(&'a self, lo: usize, hi: usize) -> (r: &'a [T]) { &self[lo..hi] }
    #[verifier::external_body] fn vx_sub_from<'a>(&'a self, lo: usize) -> (r: &'a [T]) { &self[lo..] }
}
impl<'b, S: VxSub + ?Sized> VxSub for &'b S {
    type Elem = S::Elem;
    open spec fn sub_view(&self) -> Seq<S::Elem> { (**self).sub_view() }
    #[verifier::external_body] fn vx_sub<'a>(&'a self, lo: usize, hi: usize) -> (r: &'a [S::Elem]) { (**self).vx_sub(lo, hi) }
    #[verifier::external_body] fn vx_sub_from<'a>(&'a self, lo: usize) -> (r: &'a [S::Elem]) { (**self).vx_sub_from(lo) }
}
pub trait VxTryInto<T>: Sized {
    spec fn ti(self, r: Result<T, ()>) -> bool;
    fn vx_try_into(self) -> (r: Result<T, ()>) ensures self.ti(r);
}
impl<'a> VxTryInto<[u8; 2]> for &'a [u8] {
    open spec fn ti(self, r: Result<[u8; 2], ()>) -> bool { match r { Ok(a) => self@.len() == 2 && a@ == self@, Err(_) => self@.len() != 2 } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<[u8; 2], ()>) { unimplemented!() }
}
impl<'a> VxTryInto<[u8; 8]> for &'a [u8] {
    open spec fn ti(self, r: Result<[u8; 8], ()>) -> bool { match r { Ok(a) => self@.len() == 8 && a@ == self@, Err(_) => self@.len() != 8 } }
    #[verifier::external_body] fn vx_try_into(self) -> (r: Result<[u8; 8], ()>) { unimplemented!() }
}
pub trait VxUnwrap {
    type Out;
    spec fn has(self) -> bool where Self: Sized;
    spec fn out(self) -> Self::Out where Self: Sized;
    fn vx_unwrap(self) -> (r: Self::Out) where Self: Sized /*IF:accept*/requires self.has()/*END*//*IF:ideal*/requires self.has()/*END*/ ensures self.has(), r == self.out();
    fn vx_expect(self, m: &str) -> (r: Self::Out) where Self: Sized /*IF:accept*/requires self.has()/*END*//*IF:ideal*/requires self.has()/*END*/ ensures self.has(), r == self.out();
}
impl<T> VxUnwrap for Option<T> {
    type Out = T;
    open spec fn has(self) -> bool { self is Some }
    open spec fn out(self) -> T { self->Some_0 }
    fn vx_unwrap(self) -> (r: T) { match self { Some(x) => x, None => vx_never() } }
    fn vx_expect(self, m: &str) -> (r: T) { match self { Some(x) => x, None => vx_never() } }
}
impl<T, E> VxUnwrap for Result<T, E> {
    type Out = T;
    open spec fn has(self) -> bool { self is Ok }
    open spec fn out(self) -> T { self->Ok_0 }
    fn vx_unwrap(self) -> (r: T) { match self { Ok(x) => x, Err(_) => vx_never() } }
    fn vx_expect(self, m: &str) -> (r: T) { match self { Ok(x) => x, Err(_) => vx_never() } }
}
pub trait VxIsOk { fn vx_is_ok(&self) -> bool; fn vx_is_err(&self) -> bool; }
impl<T, E> VxIsOk for Result<T, E> {
    fn vx_is_ok(&self) -> (r: bool) ensures r == (self is Ok) { match self { Ok(_) => true, Err(_) => false } }
    fn vx_is_err(&self) -> (r: bool) ensures r == (self is Err) { match self { Ok(_) => false, Err(_) => true } }
}
#[verifier::external_body]
pub fn vx_never() -> ! /*IF:accept*/requires false/*END*//*IF:ideal*/requires false/*END*/ { panic!() }

#[verifier::external_body]
pub fn vx_vec_of<T, const N: usize>(a: [T; N]) -> (r: Vec<T>) ensures r@ == a@ { Vec::from(a) }
#[verifier::external_body]
pub fn vx_vec_rep<T: Clone>(x: T, n: usize) -> (r: Vec<T>) ensures r@ == Seq::new(n as nat, |i: int| x) { vec![x; n] }
pub trait VxVecFrom<T> { spec fn vf(self) -> Seq<T> where Self: Sized; }
impl<'a> VxVecFrom<u8> for &'a [u8] { open spec fn vf(self) -> Seq<u8> { self@ } }
impl VxVecFrom<u8> for Vec<u8> { open spec fn vf(self) -> Seq<u8> { self@ } }
#[verifier::external_body]
pub fn vx_vec_from<T, S: VxVecFrom<T>>(s: S) -> (r: Vec<T>) ensures r@ == s.vf() { unimplemented!() }

pub trait VxConcat<T> {
    spec fn cc(&self) -> Seq<T>;
    fn vx_concat(&self) -> (r: Vec<T>) ensures r@ == self.cc();
}
pub open spec fn flat<T>(s: Seq<&[T]>) -> Seq<T> decreases s.len() {
    if s.len() == 0 { seq![] } else { flat(s.drop_last()) + s.last()@ }
}
impl<'a, T: Clone, const N: usize> VxConcat<T> for [&'a [T]; N] {
    open spec fn cc(&self) -> Seq<T> { flat(self@) }
    #[verifier::external_body] fn vx_concat(&self) -> (r: Vec<T>) { self.concat() }
}
pub trait VxVecExt<T> {
    fn vx_extend_from_slice(&mut self, s: &[T]);
    fn vx_append(&mut self, s: &mut Vec<T>);
}
impl VxVecExt<u8> for Vec<u8> {
    #[verifier::external_body] fn vx_extend_from_slice(&mut self, s: &[u8]) ensures final(self)@ == old(self)@ + s@ { self.extend_from_slice(s) }
    #[verifier::external_body] fn vx_append(&mut self, s: &mut Vec<u8>) ensures final(self)@ == old(self)@ + old(s)@, final(s)@ == Seq::<u8>::empty() { self.append(s) }
}
pub trait VxExtend<A> { spec fn ext(&self, a: A) -> Seq<u8>; fn vx_extend(&mut self, a: A) ensures final(self).ext_view() == old(self).ext(a); spec fn ext_view(&self) -> Seq<u8>; }
impl VxExtend<Vec<u8>> for Vec<u8> {
    open spec fn ext(&self, a: Vec<u8>) -> Seq<u8> { self@ + a@ }
    open spec fn ext_view(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_extend(&mut self, a: Vec<u8>) { self.extend(a) }
}
impl<'a> VxExtend<&'a Vec<u8>> for Vec<u8> {
    open spec fn ext(&self, a: &'a Vec<u8>) -> Seq<u8> { self@ + a@ }
    open spec fn ext_view(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_extend(&mut self, a: &'a Vec<u8>) { self.extend(a) }
}
impl<'a> VxExtend<&'a [u8]> for Vec<u8> {
    open spec fn ext(&self, a: &'a [u8]) -> Seq<u8> { self@ + a@ }
    open spec fn ext_view(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_extend(&mut self, a: &'a [u8]) { self.extend(a) }
}
impl<const N: usize> VxExtend<[u8; N]> for Vec<u8> {
    open spec fn ext(&self, a: [u8; N]) -> Seq<u8> { self@ + a@ }
    open spec fn ext_view(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_extend(&mut self, a: [u8; N]) { self.extend(a) }
}
pub trait VxCopyFrom<T> {
    spec fn cf(&self) -> Seq<T>;
    fn vx_copy_from_slice(&mut self, s: &[T]) requires old(self).cf().len() == s@.len() ensures final(self).cf() == s@;
}
impl VxCopyFrom<u8> for Vec<u8> {
    open spec fn cf(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_copy_from_slice(&mut self, s: &[u8]) { self.copy_from_slice(s) }
}
pub trait VxClone: Sized { spec fn cloned(&self, r: Self) -> bool; fn vx_clone(&self) -> (r: Self) ensures self.cloned(r); }
impl<T: Copy> VxClone for Vec<T> { open spec fn cloned(&self, r: Self) -> bool { r@ == self@ } #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { self.clone() } }
impl VxClone for u8 { open spec fn cloned(&self, r: Self) -> bool { r == *self } fn vx_clone(&self) -> (r: Self) { *self } }
impl VxClone for u16 { open spec fn cloned(&self, r: Self) -> bool { r == *self } fn vx_clone(&self) -> (r: Self) { *self } }
impl VxClone for u32 { open spec fn cloned(&self, r: Self) -> bool { r == *self } fn vx_clone(&self) -> (r: Self) { *self } }
impl VxClone for usize { open spec fn cloned(&self, r: Self) -> bool { r == *self } fn vx_clone(&self) -> (r: Self) { *self } }
impl VxClone for i32 { open spec fn cloned(&self, r: Self) -> bool { r == *self } fn vx_clone(&self) -> (r: Self) { *self } }
impl VxClone for i64 { open spec fn cloned(&self, r: Self) -> bool { r == *self } fn vx_clone(&self) -> (r: Self) { *self } }
impl VxClone for f64 { open spec fn cloned(&self, r: Self) -> bool { r == *self } fn vx_clone(&self) -> (r: Self) { *self } }
impl VxClone for bool { open spec fn cloned(&self, r: Self) -> bool { r == *self } fn vx_clone(&self) -> (r: Self) { *self } }
pub trait VxEuclid: Sized { spec fn eu(self, o: Self, r: Self) -> bool; spec fn eu_ok(self, o: Self) -> bool; fn vx_rem_euclid(self, o: Self) -> (r: Self) requires self.eu_ok(o) ensures self.eu(o, r); }
impl VxEuclid for i64 { open spec fn eu_ok(self, o: i64) -> bool { o > 0 } open spec fn eu(self, o: i64, r: i64) -> bool { r as int == self as int % o as int } #[verifier::external_body] fn vx_rem_euclid(self, o: i64) -> (r: i64) { self.rem_euclid(o) } }
impl VxEuclid for i8 { open spec fn eu_ok(self, o: i8) -> bool { o > 0 } open spec fn eu(self, o: i8, r: i8) -> bool { r as int == self as int % o as int } #[verifier::external_body] fn vx_rem_euclid(self, o: i8) -> (r: i8) { self.rem_euclid(o) } }
impl VxEuclid for i32 { open spec fn eu_ok(self, o: i32) -> bool { o > 0 } open spec fn eu(self, o: i32, r: i32) -> bool { r as int == self as int % o as int } #[verifier::external_body] fn vx_rem_euclid(self, o: i32) -> (r: i32) { self.rem_euclid(o) } }
impl VxEuclid for usize { open spec fn eu_ok(self, o: usize) -> bool { o > 0 } open spec fn eu(self, o: usize, r: usize) -> bool { r as int == self as int % o as int } #[verifier::external_body] fn vx_rem_euclid(self, o: usize) -> (r: usize) { self.rem_euclid(o) } }
pub trait VxSat: Sized { spec fn satm(self, o: Self) -> int; fn vx_saturating_mul(self, o: Self) -> Self; }
impl VxSat for usize { open spec fn satm(self, o: usize) -> int { if self * o > usize::MAX { usize::MAX as int } else { self * o } }
  #[verifier::external_body] fn vx_saturating_mul(self, o: usize) -> (r: usize) ensures r as int == self.satm(o) { self.saturating_mul(o) } }
pub trait VxMinMax: Sized { fn vx_max(self, o: Self) -> Self; fn vx_min(self, o: Self) -> Self; }
impl VxMinMax for usize { fn vx_max(self, o: usize) -> (r: usize) ensures r == (if self >= o { self } else { o }) { if self >= o { self } else { o } }
  fn vx_min(self, o: usize) -> (r: usize) ensures r == (if self <= o { self } else { o }) { if self <= o { self } else { o } } }
pub trait VxPow: Sized { spec fn pw(self, e: u32) -> int; spec fn pw_ok(self, e: u32) -> bool; spec fn rr(r: Self) -> int; fn vx_pow(self, e: u32) -> (r: Self) requires self.pw_ok(e) ensures Self::rr(r) == self.pw(e); }
impl VxPow for i32 { open spec fn rr(r: i32) -> int { r as int } open spec fn pw(self, e: u32) -> int { vstd::arithmetic::power::pow(self as int, e as nat) } open spec fn pw_ok(self, e: u32) -> bool { i32::MIN <= self.pw(e) <= i32::MAX }
  #[verifier::external_body] fn vx_pow(self, e: u32) -> (r: i32) { self.pow(e) } }
impl VxPow for usize { open spec fn rr(r: usize) -> int { r as int } open spec fn pw(self, e: u32) -> int { vstd::arithmetic::power::pow(self as int, e as nat) } open spec fn pw_ok(self, e: u32) -> bool { self.pw(e) <= usize::MAX }
  #[verifier::external_body] fn vx_pow(self, e: u32) -> (r: usize) { self.pow(e) } }
pub fn vx_push_all<T: Copy, const N: usize>(v: &mut Vec<T>, a: [T; N]) ensures final(v)@ == old(v)@ + a@ {
    let mut i: usize = 0;
    while i < N invariant i <= N, v@ == old(v)@ + a@.take(i as int) decreases N - i {
        v.push(a[i]);
        i = i + 1;
        proof { assert(a@.take(i as int) =~= a@.take(i - 1).push(a@[i - 1])); }
    }
    proof { assert(a@.take(N as int) =~= a@); }
}
pub trait VxNeg: Sized { spec fn neg_ens(self, r: Self) -> bool; fn vx_neg(self) -> (r: Self) ensures self.neg_ens(r); }
pub broadcast proof fn lemma_push_drop<T>(s: Seq<T>, x: T)
    ensures #[trigger] s.push(x).drop_last() == s, s.push(x).last() == x
{ assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn lemma_add_empty<T>(s: Seq<T>)
    ensures #[trigger] (s + Seq::<T>::empty()) == s, #[trigger] (Seq::<T>::empty() + s) == s
{ assert(s + Seq::<T>::empty() =~= s); assert(Seq::<T>::empty() + s =~= s); }
pub broadcast proof fn lemma_add_push<T>(a: Seq<T>, b: Seq<T>, x: T)
    ensures #[trigger] (a + b).push(x) == a + b.push(x)
{ assert((a + b).push(x) =~= a + b.push(x)); }
pub broadcast group group_core { lemma_push_drop, lemma_add_empty, lemma_add_push }
pub fn vx_least(a: usize, b: usize) -> (r: usize) ensures r as int == (if a <= b { a as int } else { b as int }) { if a <= b { a } else { b } }
