use crate::image::*;
use watermarking::*;
// C16: size, colour type and alpha are kept, and each colour plane is the same as in the watermarked grey picture made of that plane alone
pub fn thm_channels(image: DynamicImage, alone: &GrayImage, c: Ghost<int>, depth: f64, step: f64, n: usize) -> (r: (DynamicImage, DynamicImage))
    requires sized(image@.w, image@.h), pic_ok(image@, depth, step, n as int, DWT_LEVELS as int), 0 <= c@ < 3, c@ > 0 ==> is_color(image@.color), alone@ == plane(image@, c@)
    ensures
        r.0@.w == image@.w, r.0@.h == image@.h, r.0@.color == out_color(image@.color),
        is_alpha(image@.color) ==> plane(r.0@, 3) == plane(image@, 3),
        r.1@.color is L8, plane(r.0@, c@) == plane(r.1@, 0),
{
    let grey = vx_dyn_from(alone.vx_clone());
    proof { assert(plane(grey@, 0).raw =~= alone@.raw); }
    let a = watermark(image, depth, step, n);
    let b = watermark(grey, depth, step, n);
    proof {
        assert(plane(a@, c@).raw =~= plane(b@, 0).raw);
        if is_alpha(image@.color) { assert(plane(a@, 3).raw =~= plane(image@, 3).raw); }
    }
    (a, b)
}
