// ROOTS: bitvec
// Assumed contracts on the crates bitvec and funty (trusted).
pub open spec fn bit(b: u8, k: int) -> bool { ((b >> (k as u8)) & 1u8) == 1u8 }
pub open spec fn bits_of(s: Seq<u8>) -> Seq<bool> { Seq::new((8 * s.len()) as nat, |i: int| bit(s[i / 8], i % 8)) }
pub open spec fn ceil8(n: int) -> int { (n + 7) / 8 }
pub open spec fn prefix<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a }
pub open spec fn resized(s: Seq<bool>, n: int, v: bool) -> Seq<bool> { Seq::new(n as nat, |i: int| if i < s.len() { s[i] } else { v }) }
pub open spec fn be_value(s: Seq<bool>) -> int decreases s.len() { if s.len() == 0 { 0 } else { (if s[0] { 1int } else { 0int }) + 2 * be_value(s.skip(1)) } }
pub mod bitvec {
    pub mod order {
        pub struct Lsb0;
        pub struct Msb0;
    }
    pub mod slice {
        use vstd::prelude::*;
        use crate::vx_core::*;
        use super::super::*;
        use super::order::*;
        #[verifier::external_body]
        #[verifier::reject_recursive_types(T)]
        #[verifier::reject_recursive_types(O)]
        pub struct BitSlice<T = usize, O = Lsb0> { p: core::marker::PhantomData<(T, O)> }
        impl<T, O> View for BitSlice<T, O> { type V = Seq<bool>; uninterp spec fn view(&self) -> Seq<bool>; }
        impl<T, O> BitSlice<T, O> {
            #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
        }
        impl<T, O> VxIter for BitSlice<T, O> {
            type Elem = bool;
            open spec fn iter_view(&self) -> Seq<bool> { self@ }
            #[verifier::external_body] fn vx_iter<'a>(&'a self) -> (r: Vec<&'a bool>) { unimplemented!() }
        }
        impl<T, O> BitSlice<T, O> {
            #[verifier::external_body] pub fn vx_get<'a>(&'a self, i: usize) -> (r: Option<&'a bool>)
                ensures r == (if i < self@.len() { Some(&self@[i as int]) } else { None }) { unimplemented!() }
        }
    }
    pub mod vec {
        use vstd::prelude::*;
        use crate::vx_core::*;
        use super::super::*;
        use super::order::*;
        use super::slice::BitSlice;
        #[verifier::external_body]
        #[verifier::reject_recursive_types(T)]
        #[verifier::reject_recursive_types(O)]
        pub struct BitVec<T = usize, O = Lsb0> { p: core::marker::PhantomData<(T, O)> }
        impl<T, O> View for BitVec<T, O> { type V = Seq<bool>; uninterp spec fn view(&self) -> Seq<bool>; }
        impl<T, O> BitVec<T, O> {
            // the first bit of the storage is the first bit of the vector
            pub uninterp spec fn head0(&self) -> bool;
            #[verifier::external_body] pub fn new() -> (r: BitVec<T, O>) ensures r@ == Seq::<bool>::empty(), r.head0() { unimplemented!() }
            #[verifier::external_body] pub fn push(&mut self, b: bool) ensures final(self)@ == old(self)@.push(b), final(self).head0() == old(self).head0() { unimplemented!() }
            #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
            #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
            #[verifier::external_body] pub fn resize(&mut self, n: usize, v: bool) ensures final(self)@ == resized(old(self)@, n as int, v), final(self).head0() == old(self).head0() { unimplemented!() }
            #[verifier::external_body] pub fn vx_chunks<'a>(&'a self, n: usize) -> (r: Vec<&'a BitSlice<T, O>>)
                requires n > 0,
                ensures r@.len() == nchunks(self@.len() as int, n as int), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == chunk_at(self@, n as int, i) { unimplemented!() }
            #[verifier::external_body] pub fn vx_get<'a>(&'a self, i: usize) -> (r: Option<&'a bool>)
                ensures r == (if i < self@.len() { Some(&self@[i as int]) } else { None }) { unimplemented!() }
        }
        impl BitVec<u8, Lsb0> {
            #[verifier::external_body] pub fn from_vec(v: Vec<u8>) -> (r: BitVec<u8, Lsb0>) ensures r@ == bits_of(v@), r.head0() { unimplemented!() }
            #[verifier::external_body] pub fn from_slice(v: &[u8]) -> (r: BitVec<u8, Lsb0>) ensures r@ == bits_of(v@), r.head0() { unimplemented!() }
            #[verifier::external_body] pub fn into_vec(self) -> (r: Vec<u8>) ensures self.head0() ==> prefix(self@, bits_of(r@)) && r@.len() == ceil8(self@.len() as int) { unimplemented!() }
            #[verifier::external_body] pub fn as_raw_slice(&self) -> (r: &[u8]) ensures self.head0() ==> prefix(self@, bits_of(r@)) && r@.len() == ceil8(self@.len() as int) { unimplemented!() }
        }
        impl BitVec<usize, Lsb0> {
            #[verifier::external_body] pub fn into_vec(self) -> (r: Vec<usize>)
                ensures self.head0() && self@.len() == 8 ==> r@.len() == 1 && forall|k: int| 0 <= k < 8 ==> #[trigger] bit((r@[0] as u8), k) == self@[k] { unimplemented!() }
            #[verifier::external_body] pub fn load_be<V: VxLoad>(&self) -> (r: V)
                requires self.head0(), 0 < self@.len() <= 8,
                ensures r.loaded() == be_value(self@) { unimplemented!() }
        }
        pub trait VxLoad: Sized { spec fn loaded(self) -> int; }
        impl VxLoad for u8 { open spec fn loaded(self) -> int { self as int } }
        impl<T, O> VxIter for BitVec<T, O> {
            type Elem = bool;
            open spec fn iter_view(&self) -> Seq<bool> { self@ }
            #[verifier::external_body] fn vx_iter<'a>(&'a self) -> (r: Vec<&'a bool>) { unimplemented!() }
        }
        impl<T, O> VxClone for BitVec<T, O> {
            open spec fn cloned(&self, r: Self) -> bool { r@ == self@ && r.head0() == self.head0() }
            #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() }
        }
    }
    pub mod view {
        use vstd::prelude::*;
        use crate::vx_core::*;
        use super::super::*;
        use super::order::*;
        use super::slice::BitSlice;
        pub trait BitOrderSpec { spec fn ord(b: u8) -> Seq<bool>; }
        impl BitOrderSpec for Lsb0 { open spec fn ord(b: u8) -> Seq<bool> { bits_of(seq![b]) } }
        impl BitOrderSpec for Msb0 { open spec fn ord(b: u8) -> Seq<bool> { bits_of(seq![b]).reverse() } }
        pub trait BitView { fn view_bits<O: BitOrderSpec>(&self) -> &BitSlice<u8, O>; }
        impl BitView for u8 {
            #[verifier::external_body] fn view_bits<O: BitOrderSpec>(&self) -> (r: &BitSlice<u8, O>) ensures r@ == O::ord(*self) { unimplemented!() }
        }
    }
    pub mod field { pub trait BitField {} }
    pub mod macros { pub mod internal { pub mod funty {
        use vstd::prelude::*;
        // funty: as_bool() of a bool is `!self` (it compares with zero); as_u8() of a bool is 0 or 1
        pub trait Fundamental { fn as_bool(&self) -> bool; fn as_u8(&self) -> u8; }
        impl Fundamental for bool {
            #[verifier::external_body] fn as_bool(&self) -> (r: bool) ensures r == !*self { unimplemented!() }
            #[verifier::external_body] fn as_u8(&self) -> (r: u8) ensures r == (if *self { 1u8 } else { 0u8 }) { unimplemented!() }
        }
    } } }
    pub mod prelude {
        pub use super::order::*;
        pub use super::vec::*;
        pub use super::slice::*;
        pub use super::view::*;
        pub use super::field::*;
    }
}
