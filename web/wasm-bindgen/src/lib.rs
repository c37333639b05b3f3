//! JavaScript values as a small native object model. Everything lives on one thread, like in a browser.

use std::any::Any;
use std::rc::Rc;

pub use wasm_bindgen_macro_standin::wasm_bindgen;

pub mod __rt;
pub mod host;

pub trait JsObject: Any {
    fn class(&self) -> &'static str;
    fn get(&self, _name: &str) -> Option<JsValue> {
        None
    }
    fn call(&self, method: &str, _args: &[JsValue]) -> Result<JsValue, JsValue> {
        Err(JsValue::from(format!("TypeError: {}.{method} is not a function", self.class())))
    }
    fn as_any(&self) -> &dyn Any;
}

#[derive(Clone, Default)]
pub enum JsValue {
    #[default]
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    Str(Rc<str>),
    Obj(Rc<dyn JsObject>),
}

impl std::fmt::Debug for JsValue {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            JsValue::Undefined => write!(f, "JsValue(undefined)"),
            JsValue::Null => write!(f, "JsValue(null)"),
            JsValue::Bool(b) => write!(f, "JsValue({b})"),
            JsValue::Num(b) => write!(f, "JsValue({b})"),
            JsValue::Str(b) => write!(f, "JsValue({b:?})"),
            JsValue::Obj(o) => write!(f, "JsValue({})", o.class()),
        }
    }
}

impl PartialEq for JsValue {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (JsValue::Undefined, JsValue::Undefined) | (JsValue::Null, JsValue::Null) => true,
            (JsValue::Bool(a), JsValue::Bool(b)) => a == b,
            (JsValue::Num(a), JsValue::Num(b)) => a == b,
            (JsValue::Str(a), JsValue::Str(b)) => a == b,
            (JsValue::Obj(a), JsValue::Obj(b)) => Rc::as_ptr(a) as *const () == Rc::as_ptr(b) as *const (),
            _ => false,
        }
    }
}
impl Eq for JsValue {}

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const NULL: JsValue = JsValue::Null;
    pub const TRUE: JsValue = JsValue::Bool(true);
    pub const FALSE: JsValue = JsValue::Bool(false);
    pub fn undefined() -> Self {
        JsValue::Undefined
    }
    pub fn null() -> Self {
        JsValue::Null
    }
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> Self {
        JsValue::Str(s.into())
    }
    pub fn from_bool(b: bool) -> Self {
        JsValue::Bool(b)
    }
    pub fn from_f64(n: f64) -> Self {
        JsValue::Num(n)
    }
    pub fn object(o: impl JsObject) -> Self {
        JsValue::Obj(Rc::new(o))
    }
    pub fn as_string(&self) -> Option<String> {
        match self {
            JsValue::Str(s) => Some(s.to_string()),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self {
            JsValue::Bool(s) => Some(*s),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self {
            JsValue::Num(s) => Some(*s),
            _ => None,
        }
    }
    pub fn is_string(&self) -> bool {
        matches!(self, JsValue::Str(_))
    }
    pub fn is_null(&self) -> bool {
        matches!(self, JsValue::Null)
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self, JsValue::Undefined)
    }
    pub fn is_object(&self) -> bool {
        matches!(self, JsValue::Obj(_))
    }
    pub fn is_falsy(&self) -> bool {
        !self.is_truthy()
    }
    pub fn is_truthy(&self) -> bool {
        match self {
            JsValue::Undefined | JsValue::Null => false,
            JsValue::Bool(b) => *b,
            JsValue::Num(n) => *n != 0.0,
            JsValue::Str(s) => !s.is_empty(),
            JsValue::Obj(_) => true,
        }
    }
    /// The object of a certain Rust type behind this value
    pub fn native<T: 'static>(&self) -> Option<&T> {
        match self {
            JsValue::Obj(o) => o.as_any().downcast_ref(),
            _ => None,
        }
    }
}

impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}
impl From<&JsValue> for JsValue {
    fn from(s: &JsValue) -> Self {
        s.clone()
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        JsValue::Str(s.into())
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        JsValue::Str(s.into())
    }
}
impl From<&String> for JsValue {
    fn from(s: &String) -> Self {
        JsValue::Str(s.as_str().into())
    }
}
impl From<bool> for JsValue {
    fn from(s: bool) -> Self {
        JsValue::Bool(s)
    }
}
macro_rules! numbers { ($($t:ty),*) => { $(impl From<$t> for JsValue { fn from(n: $t) -> Self { JsValue::Num(n as f64) } })* } }
numbers!(f64, f32, u8, u16, u32, i8, i16, i32, usize, isize);
impl<T: Into<JsValue>> From<Option<T>> for JsValue {
    fn from(s: Option<T>) -> Self {
        s.map(Into::into).unwrap_or(JsValue::Undefined)
    }
}

/// Imported types are transparent wrappers of `JsValue`
pub trait JsCast: AsRef<JsValue> + Into<JsValue> + From<JsValue> {
    const CLASS: &'static str = "";
    fn instance(v: &JsValue) -> bool {
        let c = match v {
            JsValue::Obj(o) => o.class(),
            JsValue::Str(_) => "JsString",
            _ => return Self::CLASS.is_empty(),
        };
        match Self::CLASS {
            "" => true,
            "Object" => matches!(v, JsValue::Obj(_)),
            "Blob" => c == "Blob" || c == "File",
            "Error" => c == "Error" || c == "DOMException",
            "FileSystemHandle" => c == "FileSystemFileHandle" || c == "FileSystemDirectoryHandle",
            "WritableStream" => c == "WritableStream" || c == "FileSystemWritableFileStream",
            x => c == x,
        }
    }
    fn has_type<T: JsCast>(&self) -> bool {
        T::instance(self.as_ref())
    }
    fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instance(self.as_ref())
    }
    fn unchecked_ref_from(v: &JsValue) -> &Self
    where
        Self: Sized,
    {
        assert_eq!(std::mem::size_of::<Self>(), std::mem::size_of::<JsValue>());
        unsafe { &*(v as *const JsValue as *const Self) }
    }
    fn unchecked_ref<T: JsCast>(&self) -> &T {
        T::unchecked_ref_from(self.as_ref())
    }
    fn unchecked_into<T: JsCast>(self) -> T {
        T::from(self.into())
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        if !T::instance(self.as_ref()) {
            return Err(self);
        }
        Ok(T::from(self.into()))
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        T::instance(self.as_ref()).then(|| self.unchecked_ref())
    }
}
impl JsCast for JsValue {}

pub struct Function(pub Box<dyn Fn(&[JsValue]) -> Result<JsValue, JsValue>>);
impl JsObject for Function {
    fn class(&self) -> &'static str {
        "Function"
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}

pub mod closure {
    use super::*;

    pub trait WasmClosure {
        fn function(self: Box<Self>) -> Function;
    }
    impl WasmClosure for dyn Fn() {
        fn function(self: Box<Self>) -> Function {
            Function(Box::new(move |_| {
                self();
                Ok(JsValue::Undefined)
            }))
        }
    }
    impl WasmClosure for dyn Fn(JsValue) {
        fn function(self: Box<Self>) -> Function {
            Function(Box::new(move |a| {
                self(a.first().cloned().unwrap_or_default());
                Ok(JsValue::Undefined)
            }))
        }
    }
    impl WasmClosure for dyn FnMut(JsValue) {
        fn function(self: Box<Self>) -> Function {
            let c = std::cell::RefCell::new(self);
            Function(Box::new(move |a| {
                (c.borrow_mut())(a.first().cloned().unwrap_or_default());
                Ok(JsValue::Undefined)
            }))
        }
    }

    pub trait IntoClosure<T: ?Sized> {
        fn boxed(self) -> Box<T>;
    }
    impl<F: Fn() + 'static> IntoClosure<dyn Fn()> for F {
        fn boxed(self) -> Box<dyn Fn()> {
            Box::new(self)
        }
    }
    impl<F: Fn(JsValue) + 'static> IntoClosure<dyn Fn(JsValue)> for F {
        fn boxed(self) -> Box<dyn Fn(JsValue)> {
            Box::new(self)
        }
    }
    impl<F: FnMut(JsValue) + 'static> IntoClosure<dyn FnMut(JsValue)> for F {
        fn boxed(self) -> Box<dyn FnMut(JsValue)> {
            Box::new(self)
        }
    }

    pub struct Closure<T: ?Sized>(JsValue, std::marker::PhantomData<Box<T>>);
    impl<T: ?Sized + WasmClosure> Closure<T> {
        pub fn wrap(f: Box<T>) -> Self {
            Closure(JsValue::object(f.function()), Default::default())
        }
        pub fn new<F>(f: F) -> Self
        where
            F: IntoClosure<T>,
        {
            Self::wrap(f.boxed())
        }
        pub fn into_js_value(self) -> JsValue {
            self.0
        }
        pub fn as_ref(&self) -> &JsValue {
            &self.0
        }
        pub fn forget(self) {}
    }
}

pub mod prelude {
    pub use crate::closure::Closure;
    pub use crate::{wasm_bindgen, JsCast, JsValue};
    pub trait UnwrapThrowExt<T>: Sized {
        fn unwrap_throw(self) -> T;
        fn expect_throw(self, m: &str) -> T;
    }
    impl<T> UnwrapThrowExt<T> for Option<T> {
        fn unwrap_throw(self) -> T {
            self.unwrap()
        }
        fn expect_throw(self, m: &str) -> T {
            self.expect(m)
        }
    }
    impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
        fn unwrap_throw(self) -> T {
            self.unwrap()
        }
        fn expect_throw(self, m: &str) -> T {
            self.expect(m)
        }
    }
}
pub use closure::Closure;
pub use prelude::UnwrapThrowExt;
