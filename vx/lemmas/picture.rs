// pictures, their planes and what watermarking makes of them
pub open spec fn chan(p: Px, c: int) -> u8 { if c == 0 { p.r } else if c == 1 { p.g } else if c == 2 { p.b } else { p.a } }
pub open spec fn plane(p: Pic, c: int) -> Img { Img { w: p.w, h: p.h, raw: Seq::new(p.px.len(), |i: int| chan(p.px[i], c)) } }
// what watermark_channel makes of one grey image: a function of its arguments
pub uninterp spec fn wm_img(g: Img, d: f64, s: f64, n: int, l: int) -> Img;
pub open spec fn wm_ok(g: Img, d: f64, s: f64, n: int, l: int) -> bool { channel_ok(g, n, s, l) && scale_ok(d, l) && carriable(g, n, l) }
pub open spec fn wm(p: Pic, c: int, d: f64, s: f64, n: int, l: int) -> Img { wm_img(plane(p, c), d, s, n, l) }
pub open spec fn pic_ok(p: Pic, d: f64, s: f64, n: int, l: int) -> bool {
    wm_ok(plane(p, 0), d, s, n, l) && (is_color(p.color) ==> wm_ok(plane(p, 1), d, s, n, l) && wm_ok(plane(p, 2), d, s, n, l))
}
pub open spec fn out_color(c: image::ColorType) -> image::ColorType {
    if is_color(c) { if is_alpha(c) { image::ColorType::Rgba8 } else { image::ColorType::Rgb8 } } else { if is_alpha(c) { image::ColorType::La8 } else { image::ColorType::L8 } }
}
pub open spec fn painted_px(p: Pic, d: f64, s: f64, n: int, l: int, i: int) -> Px {
    let r = wm(p, 0, d, s, n, l).raw[i];
    Px { r, g: if is_color(p.color) { wm(p, 1, d, s, n, l).raw[i] } else { r }, b: if is_color(p.color) { wm(p, 2, d, s, n, l).raw[i] } else { r },
        a: if is_alpha(p.color) { p.px[i].a } else { r } }
}
// the result: every colour plane is what watermarking it alone gives, and alpha is kept
pub open spec fn painted(p: Pic, r: Pic, d: f64, s: f64, n: int, l: int) -> bool {
    forall|i: int| 0 <= i < p.px.len() ==> {
        let x = #[trigger] r.px[i];
        &&& x.r == wm(p, 0, d, s, n, l).raw[i]
        &&& is_color(p.color) ==> x.g == wm(p, 1, d, s, n, l).raw[i] && x.b == wm(p, 2, d, s, n, l).raw[i]
        &&& !is_color(p.color) ==> x.g == x.r && x.b == x.r
        &&& is_alpha(p.color) ==> x.a == p.px[i].a
        &&& !is_alpha(p.color) ==> x.a == 255
    }
}
pub open spec fn filled(g: Img, p: Pic, c: int, k: int) -> bool {
    g.w == p.w && g.h == p.h && tight(g) && forall|j: int| 0 <= j < k ==> #[trigger] g.raw[j] == chan(p.px[j], c)
}
pub proof fn lemma_row_major(i: int, w: int, h: int)
    requires 0 <= i < w * h, 0 <= w, 0 <= h
    ensures 0 <= i % w < w, 0 <= i / w < h, (i / w) * w + i % w == i
{
    assert(w > 0) by (nonlinear_arith) requires 0 <= i < w * h, 0 <= w;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, w);
    assert((i / w) * w == w * (i / w)) by (nonlinear_arith);
    assert(0 <= i / w < h) by (nonlinear_arith) requires 0 <= i < w * h, w > 0, i == w * (i / w) + i % w, 0 <= i % w < w;
}
pub proof fn lemma_full(g: Img, p: Pic, c: int)
    requires filled(g, p, c, p.px.len() as int), p.px.len() == p.w * p.h
    ensures g == plane(p, c)
{ assert(g.raw =~= plane(p, c).raw); }
pub proof fn lemma_grey() ensures forall|x: Px| #[trigger] lum(x) == x.r || x.r != x.g || x.g != x.b {
    assert forall|x: Px| x.r == x.g && x.g == x.b implies #[trigger] lum(x) == x.r by { }
}
