// Assumed contracts on strings (trusted).
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub axiom fn ax_utf8_inj(a: Seq<char>, b: Seq<char>) requires utf8(a) == utf8(b) ensures a == b;
pub open spec fn is_utf8(b: Seq<u8>) -> bool { exists|s: Seq<char>| #[trigger] utf8(s) == b }
pub struct VxUtf8Error;
#[verifier::external_body]
pub fn vx_string_from_utf8(v: Vec<u8>) -> (r: Result<String, VxUtf8Error>)
    ensures is_utf8(v@) ==> r is Ok, r is Ok ==> utf8(r->Ok_0@) == v@ { unimplemented!() }
pub trait VxStr {
    spec fn chars(&self) -> Seq<char>;
    fn vx_as_bytes<'a>(&'a self) -> (r: &'a [u8]) ensures r@ == utf8(self.chars());
}
impl VxStr for String {
    open spec fn chars(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_as_bytes<'a>(&'a self) -> (r: &'a [u8]) { self.as_bytes() }
}
impl VxStr for str {
    open spec fn chars(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_as_bytes<'a>(&'a self) -> (r: &'a [u8]) { self.as_bytes() }
}
pub axiom fn ax_utf8_ascii(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128
    ensures utf8(s) == Seq::new(s.len(), |i: int| s[i] as u8);
// every string is at most isize::MAX bytes long
pub trait VxLen { spec fn vlen(&self) -> int; fn vx_len(&self) -> (r: usize) ensures r as int == self.vlen(), r <= isize::MAX; }
impl VxLen for str { open spec fn vlen(&self) -> int { utf8(self@).len() as int } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { self.len() } }
impl VxLen for String { open spec fn vlen(&self) -> int { utf8(self@).len() as int } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { self.len() } }
impl VxLen for [u8] { open spec fn vlen(&self) -> int { self@.len() as int } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { self.len() } }
impl VxLen for Vec<u8> { open spec fn vlen(&self) -> int { self@.len() as int } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { self.len() } }
pub open spec fn boundary(b: Seq<u8>, i: int) -> bool { i == 0 || i == b.len() || b[i] < 0x80u8 || b[i] >= 0xc0u8 }
pub trait VxStrOps {
    spec fn ub(&self) -> Seq<u8>;
    fn vx_get_range<'a>(&'a self, lo: usize, hi: usize) -> (r: Option<&'a str>)
        ensures (r is Some) == (lo <= hi <= self.ub().len() && boundary(self.ub(), lo as int) && boundary(self.ub(), hi as int)),
            r is Some ==> utf8(r->Some_0@) == self.ub().subrange(lo as int, hi as int);
    fn vx_starts_with(&self, c: char) -> (r: bool)
        ensures (c as u32) < 128 ==> r == (self.ub().len() > 0 && self.ub()[0] == c as u8);
    fn vx_is_empty(&self) -> (r: bool) ensures r == (self.ub().len() == 0);
}
impl VxStrOps for str {
    open spec fn ub(&self) -> Seq<u8> { utf8(self@) }
    #[verifier::external_body] fn vx_get_range<'a>(&'a self, lo: usize, hi: usize) -> (r: Option<&'a str>) { self.get(lo..hi) }
    #[verifier::external_body] fn vx_starts_with(&self, c: char) -> (r: bool) { self.starts_with(c) }
    #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { self.is_empty() }
}
pub trait VxUnwrapOr<T> { fn vx_unwrap_or(self, d: T) -> T; }
impl<T> VxUnwrapOr<T> for Option<T> { fn vx_unwrap_or(self, d: T) -> (r: T) ensures r == (match self { Some(x) => x, None => d }) { match self { Some(x) => x, None => d } } }
pub struct ParseIntError;
pub open spec fn is_hex(c: u8) -> bool { 48 <= c <= 57 || 97 <= c <= 102 || 65 <= c <= 70 }
pub open spec fn hex_val(c: u8) -> int { if c <= 57 { c - 48 } else if c <= 70 { c - 55 } else { c - 87 } }
#[verifier::external_body]
pub fn vx_u8_from_str_radix(s: &str, radix: u32) -> (r: Result<u8, ParseIntError>)
    ensures
        utf8(s@).len() == 0 ==> r is Err,
        radix == 16 && utf8(s@).len() == 2 && utf8(s@)[0] != 43 ==> (r is Ok) == (is_hex(utf8(s@)[0]) && is_hex(utf8(s@)[1])),
        radix == 16 && utf8(s@).len() == 2 && utf8(s@)[0] != 43 && r is Ok ==> r->Ok_0 as int == 16 * hex_val(utf8(s@)[0]) + hex_val(utf8(s@)[1]),
{ unimplemented!() }
#[verifier::external_body] pub fn vx_string_with_capacity(n: usize) -> (r: String) ensures r@ == Seq::<char>::empty() { String::with_capacity(n) }
#[verifier::external_body] pub fn vx_string_new() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
pub open spec fn hex_digit(n: int) -> char { if n < 10 { (48 + n) as u8 as char } else { (87 + n) as u8 as char } }
pub open spec fn hex2(b: u8) -> Seq<char> { seq![hex_digit(b as int / 16), hex_digit(b as int % 16)] }
pub struct VxFmtError;
#[verifier::external_body] pub fn vx_write_02x(s: &mut String, b: u8) -> (r: Result<(), VxFmtError>) ensures r is Ok, final(s)@ == old(s)@ + hex2(b) { unimplemented!() }
#[verifier::external_body] pub fn vx_format_02x(b: u8) -> (r: String) ensures r@ == hex2(b) { unimplemented!() }
pub trait VxPushStr { fn vx_push_str(&mut self, t: &str); }
impl VxPushStr for String { #[verifier::external_body] fn vx_push_str(&mut self, t: &str) ensures final(self)@ == old(self)@ + t@ { self.push_str(t) } }

pub trait VxToString { spec fn ts(&self) -> Seq<char>; fn vx_to_string(&self) -> (r: String) ensures r@ == self.ts(); }
impl VxToString for str { open spec fn ts(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { self.to_string() } }
impl VxToString for String { open spec fn ts(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { self.to_string() } }
pub trait VxToOwned { type T; spec fn to_ens(&self, r: Self::T) -> bool; fn vx_to_owned(&self) -> (r: Self::T) ensures self.to_ens(r); }
impl VxToOwned for str { type T = String; open spec fn to_ens(&self, r: String) -> bool { r@ == self@ } #[verifier::external_body] fn vx_to_owned(&self) -> (r: String) { self.to_string() } }
pub trait VxStringFrom { spec fn sf(&self) -> Seq<char>; fn vx_sf(self) -> (r: String) where Self: Sized ensures r@ == self.sf(); }
impl VxStringFrom for &str { open spec fn sf(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_sf(self) -> (r: String) { self.to_string() } }
impl VxStringFrom for String { open spec fn sf(&self) -> Seq<char> { self@ } fn vx_sf(self) -> (r: String) { self } }
pub fn vx_string_from<S: VxStringFrom>(s: S) -> (r: String) ensures r@ == s.sf() { s.vx_sf() }
