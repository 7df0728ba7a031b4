// What the browser binding returns.
use crate::web::image_model::ImageModel;
use crate::web::watermarking_process::WatermarkingProcess;
pub open spec fn blob_pic(b: Seq<u8>) -> Pic { pic_decoded(guess(b), b) }
pub open spec fn blob_ok(b: Seq<u8>) -> bool { guess(b) is Some && pic_decodable(guess(b), b) }
// a model shows a picture: its size, and its pixels row by row, four bytes each
pub open spec fn shows(m: ImageModel, p: Pic) -> bool { m.width as int == p.w && m.height as int == p.h && m.data@ == rgba(p.px) }
pub open spec fn same_model(a: ImageModel, b: ImageModel) -> bool { a.width == b.width && a.height == b.height && a.data@ == b.data@ }
pub proof fn lemma_items(s: Seq<u8>, v: Seq<JsValue>)
    requires v.len() == s.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == Js::Num(s[i] as int)
    ensures js_bytes(Js::Items(Seq::new(v.len(), |i: int| v[i]@))) == s
{
    assert(js_bytes(Js::Items(Seq::new(v.len(), |i: int| v[i]@))) =~= s);
}
