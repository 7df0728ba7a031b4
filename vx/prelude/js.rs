// ROOTS: js_sys
// Assumed contracts on values handed to and from JavaScript (trusted), and on reading an encoded picture from memory.
// A typed array is the bytes it holds; nobody on the other side writes to it meanwhile.
pub ghost enum Js { Num(int), Items(Seq<Js>), Bytes(Seq<u8>), Other }
// what a typed array of bytes makes of one number
pub open spec fn js_byte(j: Js) -> u8 { match j { Js::Num(n) => (n % 256) as u8, _ => 0 } }
pub open spec fn js_bytes(j: Js) -> Seq<u8> {
    match j { Js::Items(s) => Seq::new(s.len(), |i: int| js_byte(s[i])), Js::Bytes(b) => b, Js::Num(n) => if n >= 0 { Seq::new(n as nat, |i: int| 0u8) } else { Seq::empty() }, Js::Other => Seq::empty() }
}
#[verifier::external_body] pub struct JsValue { p: u8 }
impl View for JsValue { type V = Js; uninterp spec fn view(&self) -> Js; }
pub trait VxJs: Sized { spec fn jsv(&self) -> Js; }
impl VxJs for u8 { open spec fn jsv(&self) -> Js { Js::Num(*self as int) } }
impl VxJs for u16 { open spec fn jsv(&self) -> Js { Js::Num(*self as int) } }
impl VxJs for u32 { open spec fn jsv(&self) -> Js { Js::Num(*self as int) } }
impl VxJs for i32 { open spec fn jsv(&self) -> Js { Js::Num(*self as int) } }
impl<'a> VxJs for &'a js_sys::Array { open spec fn jsv(&self) -> Js { Js::Items((**self)@) } }
impl VxJs for js_sys::Array { open spec fn jsv(&self) -> Js { Js::Items(self@) } }
impl VxJs for js_sys::Uint8Array { open spec fn jsv(&self) -> Js { Js::Bytes(self@) } }
impl VxJs for JsValue { open spec fn jsv(&self) -> Js { self@ } }
impl JsValue { #[verifier::external_body] pub fn from<T: VxJs>(x: T) -> (r: JsValue) ensures r@ == x.jsv() { unimplemented!() } }
#[verifier::external_body] pub fn vx_js_array(v: Vec<JsValue>) -> (r: js_sys::Array) ensures r@ == Seq::new(v@.len(), |i: int| v@[i]@) { unimplemented!() }
impl VxToVec for js_sys::Uint8Array {
    type Elem = u8;
    open spec fn tv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<u8>) { unimplemented!() }
}
// the clone of a handle shows the same array
impl VxClone for js_sys::Uint8Array { open spec fn cloned(&self, r: Self) -> bool { r@ == self@ } #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
pub trait VxByteSlice { spec fn bsl(&self) -> Seq<u8>; }
impl<'a> VxByteSlice for &'a [u8] { open spec fn bsl(&self) -> Seq<u8> { (**self)@ } }
impl<'a> VxByteSlice for &'a Vec<u8> { open spec fn bsl(&self) -> Seq<u8> { (**self)@ } }
pub mod js_sys {
    use vstd::prelude::*;
    use crate::vx_core::*;
    use super::*;
    #[verifier::external_body] pub struct Array { p: u8 }
    impl View for Array { type V = Seq<Js>; uninterp spec fn view(&self) -> Seq<Js>; }
    #[verifier::external_body] pub struct Uint8Array { p: u8 }
    impl View for Uint8Array { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl Array {
        #[verifier::external_body] pub fn new() -> (r: Array) ensures r@ == Seq::<Js>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn push(&mut self, v: &JsValue) -> u32 ensures final(self)@ == old(self)@.push(v@) { unimplemented!() }
    }
    impl Uint8Array {
        #[verifier::external_body] pub fn new<T: VxJs>(v: &T) -> (r: Uint8Array) ensures r@ == js_bytes(v.jsv()) { unimplemented!() }
        #[verifier::external_body] pub fn from<T: VxByteSlice>(x: T) -> (r: Uint8Array) ensures r@ == x.bsl() { unimplemented!() }
        #[verifier::external_body] pub fn length(&self) -> (r: u32) ensures r as int == self@.len() { unimplemented!() }
    }
}
// pictures as rows of four bytes per pixel
pub open spec fn rgba(p: Seq<Px>) -> Seq<u8> { Seq::new(4 * p.len(), |i: int| chan4(p[i / 4], i % 4)) }
pub open spec fn chan4(p: Px, c: int) -> u8 { if c == 0 { p.r } else if c == 1 { p.g } else if c == 2 { p.b } else { p.a } }
impl image::DynamicImage {
    #[verifier::external_body] pub fn into_rgba8(self) -> (r: image::ImageBuffer<image::Rgba<u8>, Vec<u8>>)
        ensures r@.w == self@.w, r@.h == self@.h, pixs(r) == self@.px, r@.raw == rgba(self@.px) { unimplemented!() }
    #[verifier::external_body] pub fn to_rgba8(&self) -> (r: image::ImageBuffer<image::Rgba<u8>, Vec<u8>>)
        ensures r@.w == self@.w, r@.h == self@.h, pixs(r) == self@.px, r@.raw == rgba(self@.px) { unimplemented!() }
}
impl VxClone for image::DynamicImage { open spec fn cloned(&self, r: Self) -> bool { r@ == self@ } #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl<A: Copy, B: Copy> VxClone for (A, B) { open spec fn cloned(&self, r: Self) -> bool { r == *self } fn vx_clone(&self) -> (r: Self) { *self } }
// the format an encoded picture shows by its first bytes
pub uninterp spec fn guess(b: Seq<u8>) -> Option<ImageFormat>;
// the name of a format as `{:?}` prints it
pub uninterp spec fn fmt_name(f: ImageFormat) -> Seq<char>;
impl VxDbg for ImageFormat { open spec fn dbg(&self) -> Seq<char> { fmt_name(*self) } }
pub trait VxDbg { spec fn dbg(&self) -> Seq<char>; }
#[verifier::external_body] pub fn vx_push_dbg<S: VxDbg>(f: &mut String, s: &S) ensures final(f)@ == old(f)@ + s.dbg() { unimplemented!() }
impl<'b, S: VxDbg> VxDbg for &'b S { open spec fn dbg(&self) -> Seq<char> { (**self).dbg() } }
#[verifier::external_body] pub fn vx_guess_format(b: &[u8]) -> (r: Result<ImageFormat, VxIoError>)
    ensures (r is Ok) == (guess(b@) is Some), r is Ok ==> guess(b@) == Some(r->Ok_0) { unimplemented!() }
#[verifier::external_body] pub fn vx_load_as(b: &[u8], f: ImageFormat) -> (r: Result<image::DynamicImage, VxIoError>)
    ensures (r is Ok) == pic_decodable(Some(f), b@), r is Ok ==> r->Ok_0@ == pic_decoded(Some(f), b@) { unimplemented!() }
pub struct Cursor<T> { pub inner: T }
impl<T> Cursor<T> { pub fn new(inner: T) -> (r: Cursor<T>) ensures r.inner == inner { Cursor { inner } } }
pub trait VxBlob { spec fn blob(&self) -> Seq<u8>; }
impl VxBlob for Vec<u8> { open spec fn blob(&self) -> Seq<u8> { self@ } }
impl<'a> VxBlob for &'a Vec<u8> { open spec fn blob(&self) -> Seq<u8> { (**self)@ } }
impl<'a> VxBlob for &'a [u8] { open spec fn blob(&self) -> Seq<u8> { (**self)@ } }
pub struct ImageReader<T> { pub c: Cursor<T>, pub f: Option<ImageFormat> }
impl<T: VxBlob> ImageReader<T> {
    pub fn new(c: Cursor<T>) -> (r: ImageReader<T>) ensures r.c == c, r.f is None { ImageReader { c, f: None } }
    // reading from memory does not fail
    #[verifier::external_body] pub fn with_guessed_format(self) -> (r: Result<ImageReader<T>, VxIoError>)
        ensures r is Ok, r->Ok_0.c == self.c, r->Ok_0.f == (if guess(self.c.inner.blob()) is Some { guess(self.c.inner.blob()) } else { self.f }) { unimplemented!() }
    pub fn format(&self) -> (r: Option<ImageFormat>) ensures r == self.f { self.f }
    #[verifier::external_body] pub fn decode(self) -> (r: Result<image::DynamicImage, VxIoError>)
        ensures (r is Ok) == (self.f is Some && pic_decodable(self.f, self.c.inner.blob())), r is Ok ==> r->Ok_0@ == pic_decoded(self.f, self.c.inner.blob()) { unimplemented!() }
}
