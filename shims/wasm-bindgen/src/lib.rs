//! JavaScript values as plain data.

#[derive(Clone, Debug, PartialEq)]
pub enum JsValue {
    Undefined,
    Null,
    Bool(bool),
    Number(f64),
    BigInt(i128),
    String(String),
    Array(Vec<JsValue>),
    /// A plain object; entries in insertion order.
    Object(Vec<(String, JsValue)>),
    Map(Vec<(JsValue, JsValue)>),
}

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const NULL: JsValue = JsValue::Null;
    pub const TRUE: JsValue = JsValue::Bool(true);
    pub const FALSE: JsValue = JsValue::Bool(false);

    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> JsValue {
        JsValue::String(s.to_string())
    }
    pub fn from_f64(v: f64) -> JsValue {
        JsValue::Number(v)
    }
    pub fn from_bool(v: bool) -> JsValue {
        JsValue::Bool(v)
    }
    pub const fn undefined() -> JsValue {
        JsValue::Undefined
    }
    pub const fn null() -> JsValue {
        JsValue::Null
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self, JsValue::Undefined)
    }
    pub fn is_null(&self) -> bool {
        matches!(self, JsValue::Null)
    }
    pub fn is_null_or_undefined(&self) -> bool {
        matches!(self, JsValue::Null | JsValue::Undefined)
    }
    pub fn is_object(&self) -> bool {
        matches!(self, JsValue::Array(_) | JsValue::Object(_) | JsValue::Map(_))
    }
    pub fn is_array(&self) -> bool {
        matches!(self, JsValue::Array(_))
    }
    pub fn is_string(&self) -> bool {
        matches!(self, JsValue::String(_))
    }
    pub fn is_bigint(&self) -> bool {
        matches!(self, JsValue::BigInt(_))
    }
    pub fn is_falsy(&self) -> bool {
        match self {
            JsValue::Undefined | JsValue::Null => true,
            JsValue::Bool(b) => !b,
            JsValue::Number(v) => *v == 0.0 || v.is_nan(),
            JsValue::BigInt(v) => *v == 0,
            JsValue::String(s) => s.is_empty(),
            _ => false,
        }
    }
    pub fn is_truthy(&self) -> bool {
        !self.is_falsy()
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self {
            JsValue::Number(v) => Some(*v),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self {
            JsValue::Bool(v) => Some(*v),
            _ => None,
        }
    }
    pub fn as_string(&self) -> Option<String> {
        match self {
            JsValue::String(v) => Some(v.clone()),
            _ => None,
        }
    }
    /// Number.isSafeInteger
    pub fn safe_integer(&self) -> Option<i64> {
        match self {
            JsValue::Number(v) if v.fract() == 0.0 && v.abs() <= 9007199254740991.0 => Some(*v as i64),
            _ => None,
        }
    }
    pub fn get(&self, key: &str) -> Option<&JsValue> {
        match self {
            JsValue::Object(e) => e.iter().find(|(k, _)| k == key).map(|(_, v)| v),
            _ => None,
        }
    }
}

macro_rules! from_numbers {
    ($($t:ty)*) => { $(impl From<$t> for JsValue { fn from(v: $t) -> JsValue { JsValue::Number(v as f64) } })* };
}
from_numbers!(i8 u8 i16 u16 i32 u32 f32 f64 isize usize);
macro_rules! from_bigs {
    ($($t:ty)*) => { $(impl From<$t> for JsValue { fn from(v: $t) -> JsValue { JsValue::BigInt(v as i128) } })* };
}
from_bigs!(i64 u64 i128);
impl From<bool> for JsValue {
    fn from(v: bool) -> JsValue {
        JsValue::Bool(v)
    }
}
impl From<&str> for JsValue {
    fn from(v: &str) -> JsValue {
        JsValue::String(v.to_string())
    }
}
impl From<String> for JsValue {
    fn from(v: String) -> JsValue {
        JsValue::String(v)
    }
}
impl From<&String> for JsValue {
    fn from(v: &String) -> JsValue {
        JsValue::String(v.clone())
    }
}
impl From<JsError> for JsValue {
    fn from(e: JsError) -> JsValue {
        JsValue::String(e.0)
    }
}
impl<T: Into<JsValue>> From<Option<T>> for JsValue {
    fn from(v: Option<T>) -> JsValue {
        v.map(Into::into).unwrap_or(JsValue::Undefined)
    }
}

/// An error with a message.
#[derive(Clone, Debug)]
pub struct JsError(String);

impl JsError {
    pub fn new(s: &str) -> JsError {
        JsError(s.to_string())
    }
}

impl<E: std::error::Error> From<E> for JsError {
    fn from(e: E) -> JsError {
        JsError(e.to_string())
    }
}

pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, message: &str) -> T;
}

impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}

impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}

pub fn throw_str(s: &str) -> ! {
    panic!("{s}")
}

pub fn throw_val(v: JsValue) -> ! {
    panic!("{v:?}")
}

pub mod prelude {
    pub use crate::{JsError, JsValue, UnwrapThrowExt};
    pub use wasm_bindgen_macro::wasm_bindgen;
}
