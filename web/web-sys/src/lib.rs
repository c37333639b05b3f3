//! The browser types the application uses, over the stand-in's object model

use js_sys::{js_type, Object, Promise};
use wasm_bindgen::{host, JsValue, __rt as rt};

js_type!(WritableStream: Object, Object);
js_type!(Blob: Object, Object);
js_type!(File: Blob, Blob, Object);
js_type!(MediaQueryList: Object, Object);
js_type!(MouseEvent: Object, Object);

impl WritableStream {
    pub fn close(&self) -> Promise {
        rt::call(self.as_ref(), "close", vec![]).expect("close").into()
    }
    pub fn abort(&self) -> Promise {
        rt::call(self.as_ref(), "abort", vec![]).expect("abort").into()
    }
}
impl Blob {
    fn blob(&self) -> &host::Blob {
        let v: &JsValue = self.as_ref();
        v.native().unwrap_or_else(|| panic!("{v:?} is not a Blob"))
    }
    pub fn size(&self) -> f64 {
        self.blob().size() as f64
    }
    pub fn array_buffer(&self) -> Promise {
        self.blob().array_buffer().into()
    }
    fn part(&self, a: Option<f64>, b: Option<f64>) -> Result<Blob, JsValue> {
        Ok(JsValue::object(self.blob().slice(a, b)).into())
    }
    pub fn slice(&self) -> Result<Blob, JsValue> {
        self.part(None, None)
    }
    pub fn slice_with_f64(&self, a: f64) -> Result<Blob, JsValue> {
        self.part(Some(a), None)
    }
    pub fn slice_with_f64_and_f64(&self, a: f64, b: f64) -> Result<Blob, JsValue> {
        self.part(Some(a), Some(b))
    }
    pub fn slice_with_f64_and_f64_and_content_type(&self, a: f64, b: f64, _: &str) -> Result<Blob, JsValue> {
        self.part(Some(a), Some(b))
    }
    /// `slice(start, end)` with 32 bit arguments
    pub fn slice_with_i32_and_i32(&self, a: i32, b: i32) -> Result<Blob, JsValue> {
        self.part(Some(a as f64), Some(b as f64))
    }
    pub fn slice_with_i32_and_i32_and_content_type(&self, a: i32, b: i32, _: &str) -> Result<Blob, JsValue> {
        self.part(Some(a as f64), Some(b as f64))
    }
}
impl File {
    pub fn name(&self) -> String {
        self.blob_name()
    }
    fn blob_name(&self) -> String {
        let v: &JsValue = self.as_ref();
        v.native::<host::Blob>().and_then(|b| b.name.clone()).unwrap_or_default()
    }
}

pub struct Window;
pub fn window() -> Option<Window> {
    None
}
impl Window {
    pub fn match_media(&self, _: &str) -> Result<Option<MediaQueryList>, JsValue> {
        Ok(None)
    }
}
impl MediaQueryList {
    pub fn matches(&self) -> bool {
        false
    }
}
