//! Stand-in for js-sys
use std::sync::Arc;
use wasm_bindgen::{JsValue, V};

#[derive(Debug, Clone)]
pub struct Promise(pub Result<JsValue, JsValue>);

#[derive(Debug, Clone)]
pub struct ArrayBuffer(pub JsValue);
impl From<JsValue> for ArrayBuffer {
    fn from(v: JsValue) -> Self {
        ArrayBuffer(v)
    }
}
fn bytes(v: &JsValue) -> Arc<Vec<u8>> {
    match &v.0 {
        V::Bytes(b) => b.clone(),
        v => panic!("not a buffer: {v:?}"),
    }
}
impl ArrayBuffer {
    pub fn slice_with_end(&self, a: u32, b: u32) -> ArrayBuffer {
        let d = bytes(&self.0);
        let b = (b as usize).min(d.len());
        let a = (a as usize).min(b);
        ArrayBuffer(JsValue(V::Bytes(Arc::new(d[a..b].to_vec()))))
    }
    pub fn byte_length(&self) -> u32 {
        bytes(&self.0).len() as u32
    }
}
#[derive(Debug, Clone)]
pub struct Uint8Array(Arc<Vec<u8>>);
impl Uint8Array {
    pub fn new(b: &ArrayBuffer) -> Self {
        Uint8Array(bytes(&b.0))
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.0.to_vec()
    }
    pub fn length(&self) -> u32 {
        self.0.len() as u32
    }
    /// like the original, this insists on equal lengths
    pub fn copy_to(&self, dst: &mut [u8]) {
        assert_eq!(self.0.len(), dst.len(), "copy_to: lengths differ");
        dst.copy_from_slice(&self.0)
    }
}
#[derive(Debug, Clone)]
pub struct Array(Vec<JsValue>);
impl Array {
    pub fn from(v: &JsValue) -> Self {
        match &v.0 {
            V::Array(a) => Array(a.clone()),
            v => panic!("not an array: {v:?}"),
        }
    }
    pub fn iter(&self) -> impl DoubleEndedIterator<Item = JsValue> + '_ {
        self.0.iter().cloned()
    }
    pub fn length(&self) -> u32 {
        self.0.len() as u32
    }
}
pub struct JSON;
impl JSON {
    pub fn stringify(v: &JsValue) -> Result<String, JsValue> {
        Ok(format!("{v:?}"))
    }
    pub fn parse(s: &str) -> Result<JsValue, JsValue> {
        Ok(JsValue::from(s))
    }
}
pub struct Date;
impl Date {
    pub fn now() -> f64 {
        0.0
    }
}
pub fn global() -> JsValue {
    JsValue::UNDEFINED
}
