//! Stand-in for tauri: the command named by the first program argument is invoked with the arguments that the web front end
//! would pass (sourcePath, destPath: the next two). Events go to standard output, one JSON line each. The reply is the last
//! line. Exit status: 0 for a null reply, which the front end shows as success, 1 for an error, 101 for a panic.
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context as Cx, Poll, RawWaker, RawWakerVTable, Waker};

pub use tauri_stub_macros::{command, generate_context, generate_handler};

#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

pub trait Runtime: 'static {}
pub struct Wry;
impl Runtime for Wry {}

#[derive(Clone, Debug, Default)]
pub struct Window;
#[derive(Clone, Debug, Default)]
pub struct AppHandle;
impl From<Window> for AppHandle {
    fn from(_: Window) -> Self {
        AppHandle
    }
}
fn event<S: Serialize>(name: &str, payload: &S) -> Result<()> {
    let v = serde_json::to_value(payload).map_err(|e| Error(e.to_string()))?;
    println!("{}", json!({"event": name, "payload": v}));
    Ok(())
}
impl Window {
    pub fn emit<S: Serialize + Clone>(&self, name: &str, payload: S) -> Result<()> {
        event(name, &payload)
    }
    pub fn app_handle(&self) -> AppHandle {
        AppHandle
    }
}
pub trait Manager {
    fn emit_all<S: Serialize + Clone>(&self, name: &str, payload: S) -> Result<()> {
        event(name, &payload)
    }
}
impl Manager for Window {}
impl Manager for AppHandle {}

pub type Args = Value;
pub type Answer = std::result::Result<Value, Value>;
pub type Reply = Pin<Box<dyn Future<Output = Answer>>>;

pub fn argument<T: DeserializeOwned>(args: &Args, key: &str) -> std::result::Result<T, Value> {
    serde_json::from_value(args.get(key).cloned().unwrap_or(Value::Null)).map_err(|e| Value::String(format!("invalid argument {key}: {e}")))
}

pub struct Wrap<T>(pub T);
pub trait IntoReply {
    fn reply(self) -> Answer;
}
impl<T: Serialize, E: Serialize> IntoReply for Wrap<std::result::Result<T, E>> {
    fn reply(self) -> Answer {
        match self.0 {
            Ok(v) => Ok(serde_json::to_value(v).unwrap()),
            Err(e) => Err(serde_json::to_value(e).unwrap()),
        }
    }
}
impl<T: Serialize> IntoReply for Wrap<Option<T>> {
    fn reply(self) -> Answer {
        Ok(serde_json::to_value(self.0).unwrap())
    }
}
impl IntoReply for Wrap<()> {
    fn reply(self) -> Answer {
        Ok(Value::Null)
    }
}
impl IntoReply for Wrap<String> {
    fn reply(self) -> Answer {
        Ok(Value::String(self.0))
    }
}

pub struct Context;

type Handler = Box<dyn Fn(&str, Window, Args) -> Option<Reply>>;
#[derive(Default)]
pub struct Builder {
    handler: Option<Handler>,
}
impl Builder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn invoke_handler(mut self, f: impl Fn(&str, Window, Args) -> Option<Reply> + 'static) -> Self {
        self.handler = Some(Box::new(f));
        self
    }
    pub fn setup<F>(self, _: F) -> Self {
        self
    }
    pub fn run(self, _: Context) -> Result<()> {
        let a: Vec<String> = std::env::args().skip(1).collect();
        let [name, src, dst] = &a[..] else { return Err(Error("usage: COMMAND SOURCE DEST".into())) };
        let args = json!({"sourcePath": src, "destPath": dst});
        let h = self.handler.ok_or(Error("no handler".into()))?;
        let reply = h(name, Window, args).ok_or(Error(format!("no command {name}")))?;
        let (v, failed) = match block_on(reply) {
            Ok(Value::Null) => (Value::Null, false),
            Ok(v) | Err(v) => (v, true),
        };
        println!("{}", json!({"reply": v}));
        std::process::exit(failed as i32)
    }
}

fn block_on<F: Future>(f: F) -> F::Output {
    fn raw() -> RawWaker {
        const V: RawWakerVTable = RawWakerVTable::new(|_| raw(), |_| {}, |_| {}, |_| {});
        RawWaker::new(std::ptr::null(), &V)
    }
    let w = unsafe { Waker::from_raw(raw()) };
    let mut f = Box::pin(f);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut Cx::from_waker(&w)) {
            return v;
        }
    }
}
