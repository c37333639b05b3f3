//! The built-in JavaScript types the application uses, over the stand-in's object model

use std::cell::RefCell;
use std::rc::Rc;
use wasm_bindgen::{host, JsCast, JsValue};

#[macro_export]
macro_rules! js_type {
    ($n:ident : $parent:ty $(, $more:ty)*) => {
        #[derive(Clone, Debug, PartialEq, Eq)]
        #[repr(transparent)]
        pub struct $n { obj: wasm_bindgen::JsValue }
        impl From<wasm_bindgen::JsValue> for $n { fn from(obj: wasm_bindgen::JsValue) -> Self { Self { obj } } }
        impl From<$n> for wasm_bindgen::JsValue { fn from(v: $n) -> Self { v.obj } }
        impl From<&$n> for wasm_bindgen::JsValue { fn from(v: &$n) -> Self { v.obj.clone() } }
        impl AsRef<wasm_bindgen::JsValue> for $n { fn as_ref(&self) -> &wasm_bindgen::JsValue { &self.obj } }
        impl wasm_bindgen::JsCast for $n { const CLASS: &'static str = stringify!($n); }
        impl AsRef<$n> for $n { fn as_ref(&self) -> &$n { self } }
        impl std::ops::Deref for $n { type Target = $parent; fn deref(&self) -> &$parent { wasm_bindgen::JsCast::unchecked_ref(&self.obj) } }
        $(impl From<$n> for $more { fn from(v: $n) -> Self { v.obj.into() } }
          impl AsRef<$more> for $n { fn as_ref(&self) -> &$more { wasm_bindgen::JsCast::unchecked_ref(&self.obj) } })*
    };
}

js_type!(Object: JsValue);
js_type!(JsString: JsValue, Object);
js_type!(Array: Object, Object);
js_type!(Promise: Object, Object);
js_type!(AsyncIterator: JsValue);
js_type!(ArrayBuffer: Object, Object);
js_type!(Uint8Array: Object, Object);
js_type!(Function: Object, Object);
js_type!(Error: Object, Object);

impl Object {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        JsValue::object(host::Object::default()).into()
    }
}
impl From<&str> for JsString {
    fn from(s: &str) -> Self {
        JsValue::from(s).into()
    }
}
impl From<String> for JsString {
    fn from(s: String) -> Self {
        JsValue::from(s).into()
    }
}
impl From<JsString> for String {
    fn from(s: JsString) -> Self {
        JsValue::from(s).as_string().unwrap_or_default()
    }
}
impl Array {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        JsValue::object(host::Array::default()).into()
    }
    fn vec(&self) -> &RefCell<Vec<JsValue>> {
        let v: &JsValue = self.as_ref();
        &v.native::<host::Array>().expect("an array").0
    }
    pub fn get(&self, i: u32) -> JsValue {
        self.vec().borrow().get(i as usize).cloned().unwrap_or_default()
    }
    pub fn length(&self) -> u32 {
        self.vec().borrow().len() as u32
    }
    pub fn push(&self, v: &JsValue) -> u32 {
        self.vec().borrow_mut().push(v.clone());
        self.length()
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.vec().borrow().clone()
    }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.to_vec().into_iter()
    }
}
impl FromIterator<JsValue> for Array {
    fn from_iter<I: IntoIterator<Item = JsValue>>(i: I) -> Self {
        let a = Array::new();
        for v in i {
            a.push(&v);
        }
        a
    }
}
impl Array {
    pub fn at(&self, i: i32) -> JsValue {
        let n = self.length() as i32;
        self.get(if i < 0 { n + i } else { i } as u32)
    }
    pub fn is_array(v: &JsValue) -> bool {
        v.native::<host::Array>().is_some()
    }
    pub fn from(v: &JsValue) -> Array {
        v.clone().into()
    }
}
impl PartialEq<str> for JsString {
    fn eq(&self, o: &str) -> bool {
        self.as_string().as_deref() == Some(o)
    }
}
impl std::fmt::Display for JsString {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.as_string().unwrap_or_default())
    }
}
impl Promise {
    pub fn resolve(v: &JsValue) -> Promise {
        host::resolved(v.clone()).into()
    }
    pub fn reject(v: &JsValue) -> Promise {
        host::rejected(v.clone()).into()
    }
}
impl AsyncIterator {
    pub fn next(&self) -> Result<Promise, JsValue> {
        let v: &JsValue = self.as_ref();
        wasm_bindgen::__rt::call(v, "next", vec![]).map(Into::into)
    }
}

fn bytes(v: &JsValue) -> Option<Rc<RefCell<Vec<u8>>>> {
    v.native::<host::Bytes>().map(|b| b.0.clone())
}
impl ArrayBuffer {
    pub fn byte_length(&self) -> u32 {
        bytes(self.as_ref()).expect("a buffer").borrow().len() as u32
    }
}
impl Uint8Array {
    /// Of an array buffer (shared), an array or a typed array (copied)
    pub fn new(v: &JsValue) -> Self {
        let b = v.native::<host::Bytes>().unwrap_or_else(|| panic!("Uint8Array of {v:?}"));
        let data = if b.1 == "ArrayBuffer" { b.0.clone() } else { Rc::new(RefCell::new(b.0.borrow().clone())) };
        JsValue::object(host::Bytes(data, "Uint8Array")).into()
    }
    pub fn new_with_length(n: u32) -> Self {
        JsValue::object(host::Bytes(Rc::new(RefCell::new(vec![0; n as usize])), "Uint8Array")).into()
    }
    fn data(&self) -> Rc<RefCell<Vec<u8>>> {
        bytes(self.as_ref()).expect("a typed array")
    }
    pub fn length(&self) -> u32 {
        self.data().borrow().len() as u32
    }
    pub fn byte_length(&self) -> u32 {
        self.length()
    }
    pub fn copy_to(&self, d: &mut [u8]) {
        assert_eq!(self.length() as usize, d.len(), "copy_to with a destination of another length");
        d.copy_from_slice(&self.data().borrow());
    }
    pub fn copy_from(&self, d: &[u8]) {
        assert_eq!(self.length() as usize, d.len(), "copy_from with a source of another length");
        self.data().borrow_mut().copy_from_slice(d);
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.data().borrow().clone()
    }
    pub fn set_index(&self, i: u32, v: u8) {
        self.data().borrow_mut()[i as usize] = v;
    }
    pub fn set(&self, v: &JsValue, at: u32) {
        let b = bytes(v).expect("a typed array").borrow().clone();
        self.data().borrow_mut()[at as usize..at as usize + b.len()].copy_from_slice(&b);
    }
    pub fn fill(&self, v: u8, a: u32, b: u32) -> Self {
        self.data().borrow_mut()[a as usize..b as usize].fill(v);
        self.clone()
    }
    pub fn byte_offset(&self) -> u32 {
        0
    }
    pub fn buffer(&self) -> ArrayBuffer {
        JsValue::object(host::Bytes(self.data(), "ArrayBuffer")).into()
    }
    pub fn get_index(&self, i: u32) -> u8 {
        self.data().borrow()[i as usize]
    }
    pub fn subarray(&self, a: u32, b: u32) -> Self {
        Self::from(&self.data().borrow()[a as usize..b as usize])
    }
    pub fn slice(&self, a: u32, b: u32) -> Self {
        Self::from(&self.data().borrow()[a as usize..b as usize])
    }
    /// # Safety
    /// As in the real crate; the stand-in copies
    pub unsafe fn view(d: &[u8]) -> Self {
        Self::from(d)
    }
}
impl From<&[u8]> for Uint8Array {
    fn from(d: &[u8]) -> Self {
        JsValue::object(host::Bytes(Rc::new(RefCell::new(d.to_vec())), "Uint8Array")).into()
    }
}

#[allow(non_snake_case)]
pub mod Reflect {
    use super::*;
    fn key(k: &JsValue) -> String {
        match k {
            JsValue::Num(n) => n.to_string(),
            k => k.as_string().expect("a property name"),
        }
    }
    pub fn get(v: &JsValue, k: &JsValue) -> Result<JsValue, JsValue> {
        match v {
            JsValue::Obj(_) => wasm_bindgen::__rt::get(v, &key(k)),
            _ => Err(host::exception("TypeError", "Reflect.get called on non-object")),
        }
    }
    pub fn has(v: &JsValue, k: &JsValue) -> Result<bool, JsValue> {
        get(v, k).map(|v| !v.is_undefined())
    }
    pub fn set(v: &JsValue, k: &JsValue, x: &JsValue) -> Result<bool, JsValue> {
        match v.native::<host::Object>() {
            Some(o) => {
                o.0.borrow_mut().insert(key(k), x.clone());
                Ok(true)
            }
            None => Ok(false),
        }
    }
}
impl Function {
    pub fn call0(&self, _this: &JsValue) -> Result<JsValue, JsValue> {
        host::call_function(self.as_ref(), &[])
    }
    pub fn call2(&self, _this: &JsValue, a: &JsValue, b: &JsValue) -> Result<JsValue, JsValue> {
        host::call_function(self.as_ref(), &[a.clone(), b.clone()])
    }
    pub fn call1(&self, _this: &JsValue, a: &JsValue) -> Result<JsValue, JsValue> {
        host::call_function(self.as_ref(), &[a.clone()])
    }
}
impl Error {
    pub fn new(m: &str) -> Self {
        host::exception("Error", m).into()
    }
}
#[allow(unused)]
fn used(v: &JsValue) -> &Object {
    v.unchecked_ref()
}
