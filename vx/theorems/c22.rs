use crate::web::image_model::*;
use crate::web::watermarking_process::*;
use crate::js_sys::*;
// C22: the format, the picture as it was given and the watermarked one, of the same size, seen through the accessors
pub fn thm_binding(blob: Uint8Array, depth: f64, step: f64) -> (r: (String, ImageModel, ImageModel))
    requires blob_ok(blob@), sized(blob_pic(blob@).w, blob_pic(blob@).h), pic_ok(blob_pic(blob@), depth, step, 11, watermarking::DWT_LEVELS as int)
    ensures
        r.0@ == fmt_name(guess(blob@)->Some_0),
        shows(r.1, blob_pic(blob@)),
        shows(r.2, wm_pic(blob_pic(blob@), depth, step, 11, watermarking::DWT_LEVELS as int)),
        r.1.width == r.2.width, r.1.height == r.2.height, r.1.data@.len() == r.2.data@.len(),
{
    let p = web::get_watermarking_process(blob, depth, step);
    (p.get_source_format(), p.get_source(), p.get_watermarked())
}
// what goes in through the constructors comes out of the accessors
pub fn thm_accessors(w: u32, h: u32, a: Uint8Array, b: Uint8Array, f: String, g: String) -> (r: (u32, u32, Uint8Array, String))
    ensures r.0 == h, r.1 == w, r.2@ == b@, r.3@ == g@
{
    let mut m = ImageModel::new(w, h, a);
    m.set_data(b);
    m.set_width(h);
    m.set_height(w);
    let mut p = WatermarkingProcess::new(f, m.vx_clone(), m.vx_clone());
    p.set_source(m.vx_clone());
    p.set_watermarked(m);
    p.set_source_format(g);
    let q = p.get_source();
    let x = p.get_watermarked();
    (q.get_width(), x.get_height(), x.get_data(), p.get_source_format())
}
/*IF:refuse*/
// bytes that are no picture in a format known from its first bytes give no result
pub fn thm_binding_refuses(blob: Uint8Array, depth: f64, step: f64) -> (r: WatermarkingProcess)
    requires !blob_ok(blob@)
    ensures false
{
    web::get_watermarking_process(blob, depth, step)
}
/*END*/
