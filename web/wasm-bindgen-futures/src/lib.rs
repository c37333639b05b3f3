use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

use wasm_bindgen::{host, JsValue};

pub struct JsFuture(JsValue);
impl From<js_sys::Promise> for JsFuture {
    fn from(p: js_sys::Promise) -> Self {
        JsFuture(p.into())
    }
}
impl Future for JsFuture {
    type Output = Result<JsValue, JsValue>;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        match self.0.native::<host::Promise>() {
            Some(p) => p.poll(),
            None => Poll::Ready(Ok(self.0.clone())),
        }
    }
}
pub fn spawn_local(f: impl Future<Output = ()> + 'static) {
    host::spawn(f)
}
