//! Stand-in for wasm-bindgen-futures: promises are settled when they are made
use std::{future::Future, pin::Pin, task::{Context, Poll}};
use wasm_bindgen::JsValue;
pub struct JsFuture(Result<JsValue, JsValue>);
impl From<js_sys::Promise> for JsFuture {
    fn from(p: js_sys::Promise) -> Self {
        JsFuture(p.0)
    }
}
impl Future for JsFuture {
    type Output = Result<JsValue, JsValue>;
    fn poll(self: Pin<&mut Self>, _: &mut Context) -> Poll<Self::Output> {
        Poll::Ready(self.0.clone())
    }
}
