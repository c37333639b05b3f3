//! Values of JavaScript as values of Rust, and plain data of JSON as values of JavaScript
use serde_json::Value;
use wasm_bindgen::host::{Array, Object};
use wasm_bindgen::JsValue;

#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Error: {}", self.0)
    }
}
impl std::error::Error for Error {}
impl From<Error> for JsValue {
    fn from(e: Error) -> JsValue {
        JsValue::from(e.0)
    }
}

fn json(v: &JsValue) -> Result<Value, Error> {
    Ok(match v {
        JsValue::Undefined | JsValue::Null => Value::Null,
        JsValue::Bool(b) => Value::Bool(*b),
        // as for the real crate, whole numbers in the safe range are integers
        JsValue::Num(n) if n.fract() == 0.0 && n.abs() <= 9007199254740991.0 => {
            if *n < 0.0 {
                Value::from(*n as i64)
            } else {
                Value::from(*n as u64)
            }
        }
        JsValue::Num(n) => Value::from(*n),
        JsValue::Str(s) => Value::String(s.to_string()),
        JsValue::Obj(_) => {
            if let Some(a) = v.native::<Array>() {
                Value::Array(a.0.borrow().iter().map(json).collect::<Result<_, _>>()?)
            } else if let Some(o) = v.native::<Object>() {
                Value::Object(o.0.borrow().iter().map(|(k, v)| Ok((k.clone(), json(v)?))).collect::<Result<_, Error>>()?)
            } else {
                return Err(Error(format!("{v:?} is no plain data")));
            }
        }
    })
}

pub fn from_value<T: serde::de::DeserializeOwned>(v: JsValue) -> Result<T, Error> {
    serde_json::from_value(json(&v)?).map_err(|e| Error(e.to_string()))
}

/// What `JSON.parse` gives
pub fn parsed(v: &Value) -> JsValue {
    match v {
        Value::Null => JsValue::Null,
        Value::Bool(b) => JsValue::Bool(*b),
        Value::Number(n) => JsValue::Num(n.as_f64().expect("number")),
        Value::String(s) => JsValue::from(s.as_str()),
        Value::Array(a) => {
            let x = Array::default();
            x.0.borrow_mut().extend(a.iter().map(parsed));
            JsValue::object(x)
        }
        Value::Object(o) => {
            let x = Object::default();
            x.0.borrow_mut().extend(o.iter().map(|(k, v)| (k.clone(), parsed(v))));
            JsValue::object(x)
        }
    }
}
