//! Stand-in for JavaScript values.
pub mod prelude {
    pub use crate::JsValue;
    pub use wasm_bindgen_macro::wasm_bindgen;
}

#[derive(Clone, Debug, PartialEq)]
pub enum JsValue {
    Number(f64),
    Items(Vec<JsValue>),
    Bytes(Vec<u8>),
    Undefined,
}

macro_rules! number {
    ($($t:ty)*) => { $(impl From<$t> for JsValue { fn from(x: $t) -> JsValue { JsValue::Number(x as f64) } })* };
}
number!(u8 u16 u32 i8 i16 i32 f32 f64 usize);

impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}
