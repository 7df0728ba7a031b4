// ROOTS: image imageproc
// Assumed contracts on the crates image and imageproc (trusted). An image buffer is its width, its height and its raw bytes.
pub ghost struct Img { pub w: int, pub h: int, pub raw: Seq<u8> }
// One pixel, and the buffers and pictures that hold such pixels in row-major order.
pub ghost struct Px { pub r: u8, pub g: u8, pub b: u8, pub a: u8 }
pub open spec fn grey(v: u8) -> Px { Px { r: v, g: v, b: v, a: 255 } }
pub open spec fn lum(p: Px) -> u8 { ((2126 * p.r + 7152 * p.g + 722 * p.b) / 10000) as u8 }
pub ghost struct Pic { pub color: image::ColorType, pub w: int, pub h: int, pub px: Seq<Px> }
pub open spec fn is_color(c: image::ColorType) -> bool { !(c is L8 || c is La8 || c is L16 || c is La16) }
pub open spec fn is_alpha(c: image::ColorType) -> bool { c is La8 || c is Rgba8 || c is La16 || c is Rgba16 || c is Rgba32F }
pub open spec fn px_of(p: image::Rgba<u8>) -> Px { Px { r: p.0@[0], g: p.0@[1], b: p.0@[2], a: p.0@[3] } }
// what the buffers with several channels per pixel hold, pixel by pixel
pub uninterp spec fn pixs<P>(b: image::ImageBuffer<P, Vec<u8>>) -> Seq<Px>;
pub open spec fn opaque_px(s: Seq<Px>) -> Seq<Px> { Seq::new(s.len(), |i: int| Px { r: s[i].r, g: s[i].g, b: s[i].b, a: 255 }) }
pub open spec fn sized(w: int, h: int) -> bool { w * h <= 0x0fff_ffff_ffff_ffff }
pub open spec fn row_major<'a, P>(s: Seq<(u32, u32, &'a P)>, w: int, h: int) -> bool {
    s.len() == w * h && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 as int == i % w && s[i].1 as int == i / w
}
pub trait VxBuffer: Sized { spec fn blank(b: Self, w: int, h: int) -> bool; fn new(w: u32, h: u32) -> (r: Self) requires sized(w as int, h as int) ensures Self::blank(r, w as int, h as int); }
pub uninterp spec fn equalized(g: Img) -> Seq<u8>;
pub mod image {
    use vstd::prelude::*;
    use crate::vx_core::*;
    use super::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(P)]
    #[verifier::reject_recursive_types(C)]
    pub struct ImageBuffer<P, C> { p: core::marker::PhantomData<(P, C)> }
    pub struct Luma<T>(pub [T; 1]);
    pub type GrayImage = ImageBuffer<Luma<u8>, Vec<u8>>;
    pub struct LumaA<T>(pub [T; 2]);
    pub struct Rgb<T>(pub [T; 3]);
    pub struct Rgba<T>(pub [T; 4]);
    pub trait GenericImage {}
    pub trait GenericImageView {}
    pub trait Pixel { type Subpixel; }
    impl Pixel for Luma<u8> { type Subpixel = u8; }
    impl Pixel for LumaA<u8> { type Subpixel = u8; }
    impl Pixel for Rgb<u8> { type Subpixel = u8; }
    impl Pixel for Rgba<u8> { type Subpixel = u8; }
    impl VxIdx for Luma<u8> {
        type Out = u8;
        open spec fn idx_ok(&self, i: int) -> bool { 0 <= i < 1 }
        open spec fn idx(&self, i: int) -> u8 { self.0@[i] }
        #[verifier::external_body] fn vx_idx(&self, i: usize) -> (r: &u8) { unimplemented!() }
    }
    impl VxIdx for Rgba<u8> {
        type Out = u8;
        open spec fn idx_ok(&self, i: int) -> bool { 0 <= i < 4 }
        open spec fn idx(&self, i: int) -> u8 { self.0@[i] }
        #[verifier::external_body] fn vx_idx(&self, i: usize) -> (r: &u8) { unimplemented!() }
    }
    impl Rgba<u8> {
        #[verifier::external_body] pub fn channels4(&self) -> (r: (u8, u8, u8, u8)) ensures (Px { r: r.0, g: r.1, b: r.2, a: r.3 }) == px_of(*self) { unimplemented!() }
    }
    #[derive(Clone, Copy)]
    pub enum ColorType { L8, La8, Rgb8, Rgba8, L16, La16, Rgb16, Rgba16, Rgb32F, Rgba32F }
    impl ColorType {
        #[verifier::external_body] pub fn has_color(self) -> (r: bool) ensures r == is_color(self) { unimplemented!() }
        #[verifier::external_body] pub fn has_alpha(self) -> (r: bool) ensures r == is_alpha(self) { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct DynamicImage { p: u8 }
    impl View for DynamicImage { type V = Pic; uninterp spec fn view(&self) -> Pic; }
    pub broadcast axiom fn ax_pic(a: DynamicImage) ensures 0 <= (#[trigger] a@).w <= u32::MAX, 0 <= a@.h <= u32::MAX, a@.px.len() == a@.w * a@.h,
        !is_color(a@.color) ==> forall|i: int| 0 <= i < a@.px.len() ==> (#[trigger] a@.px[i]).r == a@.px[i].g && a@.px[i].g == a@.px[i].b;
    impl DynamicImage {
        #[verifier::external_body] pub fn color(&self) -> (r: ColorType) ensures r == self@.color { unimplemented!() }
        #[verifier::external_body] pub fn dimensions(&self) -> (r: (u32, u32)) ensures r.0 as int == self@.w, r.1 as int == self@.h { unimplemented!() }
        #[verifier::external_body] pub fn width(&self) -> (r: u32) ensures r as int == self@.w { unimplemented!() }
        #[verifier::external_body] pub fn height(&self) -> (r: u32) ensures r as int == self@.h { unimplemented!() }
        #[verifier::external_body] pub fn get_pixel(&self, x: u32, y: u32) -> (r: Rgba<u8>) requires x < self@.w, y < self@.h ensures px_of(r) == self@.px[y * self@.w + x] { unimplemented!() }
        #[verifier::external_body] pub fn new_rgb8(w: u32, h: u32) -> (r: DynamicImage) requires sized(w as int, h as int)
            ensures r@ == (Pic { color: ColorType::Rgb8, w: w as int, h: h as int, px: Seq::new((w * h) as nat, |i: int| grey(0)) }) { unimplemented!() }
        // only pictures without alpha are filled this way here
        #[verifier::external_body] pub fn copy_from(&mut self, o: &ImageBuffer<Rgba<u8>, Vec<u8>>, x: u32, y: u32) -> (r: Result<(), ()>)
            requires old(self)@.color is Rgb8
            ensures final(self)@.color == old(self)@.color, final(self)@.w == old(self)@.w, final(self)@.h == old(self)@.h,
                (r is Ok) == (o@.w + x <= old(self)@.w && o@.h + y <= old(self)@.h),
                r is Ok && x == 0 && y == 0 && o@.w == old(self)@.w && o@.h == old(self)@.h ==> final(self)@.px == opaque_px(pixs(*o)) { unimplemented!() }
    }
    // `DynamicImage::from`
    pub trait VxDyn: Sized { spec fn dyn_ok(&self) -> bool; spec fn dynv(&self) -> Pic; fn vx_dyn(self) -> (r: DynamicImage) requires self.dyn_ok() ensures r@ == self.dynv(); }
    impl VxDyn for DynamicImage { open spec fn dyn_ok(&self) -> bool { true } open spec fn dynv(&self) -> Pic { self@ } fn vx_dyn(self) -> (r: DynamicImage) { self } }
    impl VxDyn for ImageBuffer<Luma<u8>, Vec<u8>> {
        open spec fn dyn_ok(&self) -> bool { self@.raw.len() == self@.w * self@.h }
        open spec fn dynv(&self) -> Pic { Pic { color: ColorType::L8, w: self@.w, h: self@.h, px: Seq::new(self@.raw.len(), |i: int| grey(self@.raw[i])) } }
        #[verifier::external_body] fn vx_dyn(self) -> (r: DynamicImage) { unimplemented!() }
    }
    impl VxDyn for ImageBuffer<LumaA<u8>, Vec<u8>> {
        open spec fn dyn_ok(&self) -> bool { pixs(*self).len() == self@.w * self@.h }
        open spec fn dynv(&self) -> Pic { Pic { color: ColorType::La8, w: self@.w, h: self@.h, px: pixs(*self) } }
        #[verifier::external_body] fn vx_dyn(self) -> (r: DynamicImage) { unimplemented!() }
    }
    impl VxDyn for ImageBuffer<Rgba<u8>, Vec<u8>> {
        open spec fn dyn_ok(&self) -> bool { pixs(*self).len() == self@.w * self@.h }
        open spec fn dynv(&self) -> Pic { Pic { color: ColorType::Rgba8, w: self@.w, h: self@.h, px: pixs(*self) } }
        #[verifier::external_body] fn vx_dyn(self) -> (r: DynamicImage) { unimplemented!() }
    }
    pub fn vx_dyn_from<A: VxDyn>(a: A) -> (r: DynamicImage) requires a.dyn_ok() ensures r@ == a.dynv() { a.vx_dyn() }
    // pixels with their coordinates, row by row
    pub struct EnumeratePixels<'a, P> { p: core::marker::PhantomData<&'a P> }
    pub uninterp spec fn enum_of<'a, P>(e: EnumeratePixels<'a, P>) -> Seq<(u32, u32, &'a P)>;
    impl<'a, P> VxItems for EnumeratePixels<'a, P> {
        type Item = (u32, u32, &'a P);
        open spec fn items(self) -> Seq<(u32, u32, &'a P)> { enum_of(self) }
        #[verifier::external_body] fn vx_items(self) -> (r: Vec<(u32, u32, &'a P)>) { unimplemented!() }
    }
    impl<P> ImageBuffer<P, Vec<u8>> {
        #[verifier::external_body] pub fn enumerate_pixels<'a>(&'a self) -> (r: EnumeratePixels<'a, P>) ensures row_major(enum_of(r), self@.w, self@.h) { unimplemented!() }
        #[verifier::external_body] pub fn vx_enumerate_pixels_mut_count(&self) -> (r: usize) requires sized(self@.w, self@.h) ensures r as int == self@.w * self@.h { unimplemented!() }
    }
    impl VxBuffer for ImageBuffer<Luma<u8>, Vec<u8>> {
        open spec fn blank(b: Self, w: int, h: int) -> bool { b@ == (Img { w, h, raw: Seq::new((w * h) as nat, |i: int| 0u8) }) }
        #[verifier::external_body] fn new(w: u32, h: u32) -> (r: Self) { unimplemented!() }
    }
    impl VxBuffer for ImageBuffer<Rgba<u8>, Vec<u8>> {
        open spec fn blank(b: Self, w: int, h: int) -> bool { b@.w == w && b@.h == h && pixs(b) == Seq::new((w * h) as nat, |i: int| Px { r: 0, g: 0, b: 0, a: 0 }) }
        #[verifier::external_body] fn new(w: u32, h: u32) -> (r: Self) { unimplemented!() }
    }
    impl ImageBuffer<Luma<u8>, Vec<u8>> {
        #[verifier::external_body] pub fn put_pixel(&mut self, x: u32, y: u32, p: Luma<u8>) requires x < old(self)@.w, y < old(self)@.h, old(self)@.raw.len() == old(self)@.w * old(self)@.h
            ensures final(self)@ == (Img { w: old(self)@.w, h: old(self)@.h, raw: old(self)@.raw.update(y * old(self)@.w + x, p.0@[0]) }) { unimplemented!() }
        #[verifier::external_body] pub fn get_pixel(&self, x: u32, y: u32) -> (r: &Luma<u8>) requires x < self@.w, y < self@.h, self@.raw.len() == self@.w * self@.h
            ensures r.0@[0] == self@.raw[y * self@.w + x] { unimplemented!() }
    }
    impl ImageBuffer<Rgba<u8>, Vec<u8>> {
        #[verifier::external_body] pub fn put_pixel(&mut self, x: u32, y: u32, p: Rgba<u8>) requires x < old(self)@.w, y < old(self)@.h
            ensures final(self)@.w == old(self)@.w, final(self)@.h == old(self)@.h, pixs(*final(self)) == pixs(*old(self)).update(y * old(self)@.w + x, px_of(p)) { unimplemented!() }
        #[verifier::external_body] pub fn get_pixel(&self, x: u32, y: u32) -> (r: &Rgba<u8>) requires x < self@.w, y < self@.h ensures px_of(*r) == pixs(*self)[y * self@.w + x] { unimplemented!() }
        #[verifier::external_body] pub fn vx_enumerate_pixels_mut_at<'b>(&'b mut self, i: usize) -> (r: (u32, u32, &'b mut Rgba<u8>))
            requires i < old(self)@.w * old(self)@.h
            ensures r.0 as int == i as int % old(self)@.w, r.1 as int == i as int / old(self)@.w, final(self)@.w == old(self)@.w, final(self)@.h == old(self)@.h,
                pixs(*final(self)) == pixs(*old(self)).update(i as int, px_of(*final(r.2))) { unimplemented!() }
    }
    pub mod imageops {
        use super::*;
        use super::super::*;
        #[verifier::external_body] pub fn grayscale(o: &ImageBuffer<Rgba<u8>, Vec<u8>>) -> (r: GrayImage)
            ensures r@ == (Img { w: o@.w, h: o@.h, raw: Seq::new(pixs(*o).len(), |i: int| lum(pixs(*o)[i])) }) { unimplemented!() }
        #[verifier::external_body] pub fn grayscale_alpha(o: &ImageBuffer<Rgba<u8>, Vec<u8>>) -> (r: ImageBuffer<LumaA<u8>, Vec<u8>>)
            ensures r@.w == o@.w, r@.h == o@.h, pixs(r) == Seq::new(pixs(*o).len(), |i: int| Px { a: pixs(*o)[i].a, ..grey(lum(pixs(*o)[i])) }) { unimplemented!() }
    }
    impl<P> View for ImageBuffer<P, Vec<u8>> { type V = Img; uninterp spec fn view(&self) -> Img; }
    pub broadcast axiom fn ax_img<P>(a: ImageBuffer<P, Vec<u8>>) ensures 0 <= (#[trigger] a@).w <= u32::MAX, 0 <= a@.h <= u32::MAX;
    impl<P> ImageBuffer<P, Vec<u8>> {
        #[verifier::external_body] pub fn dimensions(&self) -> (r: (u32, u32)) ensures r.0 as int == self@.w, r.1 as int == self@.h { unimplemented!() }
        #[verifier::external_body] pub fn width(&self) -> (r: u32) ensures r as int == self@.w { unimplemented!() }
        #[verifier::external_body] pub fn height(&self) -> (r: u32) ensures r as int == self@.h { unimplemented!() }
        #[verifier::external_body] pub fn vx_as_raw(&self) -> (r: &Vec<u8>) ensures r@ == self@.raw { unimplemented!() }
        #[verifier::external_body] pub fn into_raw(self) -> (r: Vec<u8>) ensures r@ == self@.raw { unimplemented!() }
        #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@.raw { unimplemented!() }
    }
    impl ImageBuffer<Luma<u8>, Vec<u8>> {
        #[verifier::external_body] pub fn from_raw(w: u32, h: u32, raw: Vec<u8>) -> (r: Option<ImageBuffer<Luma<u8>, Vec<u8>>>)
            ensures (r is Some) == (raw@.len() >= w * h), r is Some ==> r->Some_0@ == (Img { w: w as int, h: h as int, raw: raw@ }) { unimplemented!() }
    }
    impl<P> VxClone for ImageBuffer<P, Vec<u8>> {
        open spec fn cloned(&self, r: Self) -> bool { r@ == self@ }
        #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() }
    }
}
pub mod imageproc {
    pub mod contrast {
        use vstd::prelude::*;
        use super::super::*;
        use super::super::image::*;
        #[verifier::external_body] pub fn equalize_histogram(g: &GrayImage) -> (r: GrayImage)
            ensures r@ == (Img { w: g@.w, h: g@.h, raw: equalized(g@) }), equalized(g@).len() == g@.raw.len() { unimplemented!() }
    }
}
pub broadcast group group_image { image::ax_img, image::ax_pic }
