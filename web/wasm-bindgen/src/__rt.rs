//! What the macros expand to

use super::*;

pub trait Exported {
    fn js_get(&self, name: &str) -> Option<JsValue>;
}

struct Export<T> {
    value: T,
    get: fn(&T, &str) -> Option<JsValue>,
}
impl<T: 'static> JsObject for Export<T> {
    fn class(&self) -> &'static str {
        std::any::type_name::<T>()
    }
    fn get(&self, name: &str) -> Option<JsValue> {
        (self.get)(&self.value, name)
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}
pub fn exported<T: 'static>(value: T, get: fn(&T, &str) -> Option<JsValue>) -> JsValue {
    JsValue::object(Export { value, get })
}

pub trait FromJs {
    fn from_js(v: JsValue) -> Self;
}
impl FromJs for () {
    fn from_js(_: JsValue) {}
}
impl FromJs for bool {
    fn from_js(v: JsValue) -> Self {
        v.as_bool().unwrap_or_else(|| panic!("{v:?} is not a boolean"))
    }
}
impl FromJs for f64 {
    fn from_js(v: JsValue) -> Self {
        v.as_f64().unwrap_or_else(|| panic!("{v:?} is not a number"))
    }
}
impl FromJs for String {
    fn from_js(v: JsValue) -> Self {
        v.as_string().unwrap_or_else(|| panic!("{v:?} is not a string"))
    }
}
impl<T: JsCast> FromJs for T {
    fn from_js(v: JsValue) -> Self {
        v.into()
    }
}

pub fn get(this: &JsValue, name: &str) -> Result<JsValue, JsValue> {
    match this {
        JsValue::Obj(o) => Ok(o.get(name).unwrap_or_default()),
        JsValue::Undefined | JsValue::Null => Err(JsValue::from(format!("TypeError: {this:?} has no property {name}"))),
        _ => Ok(JsValue::Undefined),
    }
}
pub fn call(this: &JsValue, name: &str, args: Vec<JsValue>) -> Result<JsValue, JsValue> {
    match this {
        JsValue::Obj(o) => o.call(name, &args),
        _ => Err(JsValue::from(format!("TypeError: {this:?} has no method {name}"))),
    }
}
pub fn import(module: &str, name: &str, args: Vec<JsValue>) -> Result<JsValue, JsValue> {
    host::import(module, name, args)
}

/// Waits for a promise
pub async fn settled(p: JsValue) -> Result<JsValue, JsValue> {
    match p.native::<host::Promise>() {
        Some(_) => std::future::poll_fn(|_| p.native::<host::Promise>().unwrap().poll()).await,
        None => Ok(p),
    }
}
