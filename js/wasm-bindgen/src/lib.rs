//! Stand-in for wasm-bindgen: a JavaScript value is the tree it denotes.
pub mod prelude {
    pub use crate::{JsError, JsValue, UnwrapThrowExt};
    pub use wasm_bindgen_macro::wasm_bindgen;
}
pub use wasm_bindgen_macro::wasm_bindgen;

#[derive(Clone, Debug)]
pub enum Js {
    Undefined,
    Null,
    Bool(bool),
    Number(f64),
    BigInt(i128),
    Str(String),
    Array(Vec<JsValue>),
    /// Own properties, each name once.
    Object(Vec<(String, JsValue)>),
    /// Entries in order of insertion, each key once.
    Map(Vec<(JsValue, JsValue)>),
    Error(String),
}
#[derive(Clone, Debug)]
pub struct JsValue(pub Js);

impl JsValue {
    pub const NULL: JsValue = JsValue(Js::Null);
    pub const UNDEFINED: JsValue = JsValue(Js::Undefined);
    pub const TRUE: JsValue = JsValue(Js::Bool(true));
    pub const FALSE: JsValue = JsValue(Js::Bool(false));
    pub fn null() -> JsValue { JsValue::NULL }
    pub fn undefined() -> JsValue { JsValue::UNDEFINED }
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> JsValue { JsValue(Js::Str(s.to_owned())) }
    pub fn from_f64(n: f64) -> JsValue { JsValue(Js::Number(n)) }
    pub fn from_bool(b: bool) -> JsValue { JsValue(Js::Bool(b)) }
    pub fn is_null(&self) -> bool { matches!(self.0, Js::Null) }
    pub fn is_undefined(&self) -> bool { matches!(self.0, Js::Undefined) }
    pub fn as_f64(&self) -> Option<f64> { if let Js::Number(n) = self.0 { Some(n) } else { None } }
    pub fn as_bool(&self) -> Option<bool> { if let Js::Bool(n) = self.0 { Some(n) } else { None } }
    pub fn as_string(&self) -> Option<String> { if let Js::Str(s) = &self.0 { Some(s.clone()) } else { None } }
    pub fn is_string(&self) -> bool { matches!(self.0, Js::Str(_)) }
    pub fn is_object(&self) -> bool { matches!(self.0, Js::Object(_) | Js::Map(_) | Js::Array(_) | Js::Error(_)) }
    pub fn is_array(&self) -> bool { matches!(self.0, Js::Array(_)) }
}
macro_rules! numbers { ($($t:ty),*) => { $(impl From<$t> for JsValue { fn from(n: $t) -> JsValue { JsValue(Js::Number(n as f64)) } })* } }
numbers!(i8, i16, i32, u8, u16, u32, f32, f64);
macro_rules! big { ($($t:ty),*) => { $(impl From<$t> for JsValue { fn from(n: $t) -> JsValue { JsValue(Js::BigInt(n as i128)) } })* } }
big!(i64, u64, i128);
impl From<bool> for JsValue { fn from(b: bool) -> JsValue { JsValue(Js::Bool(b)) } }
impl From<&str> for JsValue { fn from(s: &str) -> JsValue { JsValue::from_str(s) } }
impl From<&String> for JsValue { fn from(s: &String) -> JsValue { JsValue::from_str(s) } }
impl From<String> for JsValue { fn from(s: String) -> JsValue { JsValue(Js::Str(s)) } }
impl<T: Into<JsValue>> From<Option<T>> for JsValue { fn from(o: Option<T>) -> JsValue { match o { Some(v) => v.into(), None => JsValue::UNDEFINED } } }
impl Default for JsValue { fn default() -> JsValue { JsValue::UNDEFINED } }

#[derive(Clone, Debug)]
pub struct JsError { value: JsValue }
impl JsError {
    pub fn new(s: &str) -> JsError { JsError { value: JsValue(Js::Error(s.to_owned())) } }
}
impl<E: std::error::Error> From<E> for JsError {
    fn from(e: E) -> JsError { JsError::new(&e.to_string()) }
}
impl From<JsError> for JsValue { fn from(e: JsError) -> JsValue { e.value } }

pub trait UnwrapThrowExt<T>: Sized {
    fn expect_throw(self, m: &str) -> T;
    fn unwrap_throw(self) -> T { self.expect_throw("unwrap_throw") }
}
impl<T> UnwrapThrowExt<T> for Option<T> { fn expect_throw(self, m: &str) -> T { self.expect(m) } }
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> { fn expect_throw(self, m: &str) -> T { self.expect(m) } }
pub fn throw_str(s: &str) -> ! { panic!("{}", s) }

/// What a function imported from JavaScript returns here.
pub fn foreign<T: Default>() -> T { T::default() }
