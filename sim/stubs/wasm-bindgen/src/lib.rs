//! Stand-in for the JavaScript side of wasm-bindgen: a value is a JSON value, undefined is a marker of its own.
use serde_json::Value;

#[derive(Clone, Debug, PartialEq)]
pub struct JsValue(pub Option<Value>);

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue(None);
    pub const NULL: JsValue = JsValue(Some(Value::Null));
    pub const TRUE: JsValue = JsValue(Some(Value::Bool(true)));
    pub const FALSE: JsValue = JsValue(Some(Value::Bool(false)));
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> JsValue {
        JsValue(Some(Value::String(s.to_string())))
    }
    pub fn from_f64(n: f64) -> JsValue {
        JsValue(Some(Value::from(n)))
    }
    pub fn from_bool(b: bool) -> JsValue {
        JsValue(Some(Value::Bool(b)))
    }
    pub fn undefined() -> JsValue {
        Self::UNDEFINED
    }
    pub fn null() -> JsValue {
        Self::NULL
    }
    pub fn as_string(&self) -> Option<String> {
        self.0.as_ref().and_then(|v| v.as_str()).map(|s| s.to_string())
    }
    pub fn as_f64(&self) -> Option<f64> {
        self.0.as_ref().and_then(|v| v.as_f64())
    }
    pub fn as_bool(&self) -> Option<bool> {
        self.0.as_ref().and_then(|v| v.as_bool())
    }
    pub fn is_undefined(&self) -> bool {
        self.0.is_none()
    }
    pub fn is_null(&self) -> bool {
        self.0 == Some(Value::Null)
    }
    pub fn is_string(&self) -> bool {
        self.as_string().is_some()
    }
    pub fn is_object(&self) -> bool {
        matches!(self.0, Some(Value::Object(_)) | Some(Value::Array(_)))
    }
    pub fn is_truthy(&self) -> bool {
        match &self.0 {
            None | Some(Value::Null) => false,
            Some(Value::Bool(b)) => *b,
            Some(Value::Number(n)) => n.as_f64() != Some(0.0),
            Some(Value::String(s)) => !s.is_empty(),
            _ => true,
        }
    }
}
macro_rules! from {
    ($($t:ty),*) => { $(impl From<$t> for JsValue { fn from(v: $t) -> JsValue { JsValue(Some(Value::from(v))) } })* };
}
from!(&str, String, bool, f64, f32, i32, u32, i64, u64, usize);
impl From<&String> for JsValue {
    fn from(v: &String) -> JsValue {
        JsValue::from_str(v)
    }
}

#[derive(Clone, Debug)]
pub struct JsError(String);
impl JsError {
    pub fn new(s: &str) -> JsError {
        JsError(s.to_string())
    }
}
impl From<JsError> for JsValue {
    fn from(e: JsError) -> JsValue {
        JsValue::from_str(&e.0)
    }
}
impl<E: std::error::Error> From<E> for JsError {
    fn from(e: E) -> JsError {
        JsError(e.to_string())
    }
}

pub mod prelude {
    pub use super::{JsError, JsValue};
    pub use wasm_bindgen_macro::wasm_bindgen;
}
pub use wasm_bindgen_macro::wasm_bindgen;
