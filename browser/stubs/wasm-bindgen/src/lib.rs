//! Stand-in for wasm-bindgen: values of the host as plain data
use std::sync::Arc;
pub mod prelude {
    pub use crate::JsValue;
    pub use wasm_bindgen_macro::wasm_bindgen;
}

#[derive(Debug, Clone, PartialEq)]
pub enum V {
    Undefined,
    Bool(bool),
    Str(String),
    /// contents of responses, blobs and buffers
    Bytes(Arc<Vec<u8>>),
    /// a request, by its resolved url
    Request(String),
    Cache(String, u64),
    Array(Vec<JsValue>),
}

#[derive(Debug, Clone, PartialEq)]
pub struct JsValue(pub V);

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue(V::Undefined);
    pub fn as_bool(&self) -> Option<bool> {
        match self.0 {
            V::Bool(b) => Some(b),
            _ => None,
        }
    }
    pub fn as_string(&self) -> Option<String> {
        match &self.0 {
            V::Str(s) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn is_undefined(&self) -> bool {
        self.0 == V::Undefined
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        JsValue(V::Str(s))
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        JsValue(V::Str(s.into()))
    }
}
impl From<bool> for JsValue {
    fn from(b: bool) -> Self {
        JsValue(V::Bool(b))
    }
}

pub trait JsCast: Sized {
    fn unchecked_into<T: From<JsValue>>(self) -> T
    where
        Self: Into<JsValue>,
    {
        T::from(self.into())
    }
}
impl<T> JsCast for T {}
