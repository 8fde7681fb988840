//! Stand-in for wasm-bindgen: the few values the browser crate passes to the page.
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Debug, Clone)]
pub enum JsValue {
    Undefined,
    Number(f64),
    Text(String),
    Array(Rc<RefCell<Vec<JsValue>>>),
    Bytes(Rc<RefCell<Vec<u8>>>),
}

macro_rules! numbers { ($($t:ty),*) => { $(
    impl From<$t> for JsValue { fn from(n: $t) -> Self { JsValue::Number(n as f64) } }
)* } }
numbers!(u8, i8, u16, i16, u32, i32, f32, f64);

impl From<&str> for JsValue { fn from(s: &str) -> Self { JsValue::Text(s.to_string()) } }
impl From<String> for JsValue { fn from(s: String) -> Self { JsValue::Text(s) } }

pub mod prelude {
    pub use crate::JsValue;
    pub use wasm_bindgen_macro::wasm_bindgen;
}
pub use wasm_bindgen_macro::wasm_bindgen;

impl AsRef<JsValue> for JsValue { fn as_ref(&self) -> &JsValue { self } }

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub fn undefined() -> JsValue { JsValue::Undefined }
    pub fn from_f64(n: f64) -> JsValue { JsValue::Number(n) }
    pub fn from_str(s: &str) -> JsValue { JsValue::Text(s.to_string()) }
    pub fn as_f64(&self) -> Option<f64> { if let JsValue::Number(n) = self { Some(*n) } else { None } }
    pub fn as_string(&self) -> Option<String> { if let JsValue::Text(t) = self { Some(t.clone()) } else { None } }
    pub fn is_undefined(&self) -> bool { matches!(self, JsValue::Undefined) }
}
