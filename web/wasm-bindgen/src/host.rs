//! The browser: promises under a controlled scheduler, and the File System Access API over files in memory.
//!
//! Every asynchronous operation of the host is numbered. A plan decides how many turns of the event loop each takes, which
//! of them is rejected, how much space there is, and what else happens just before one of them.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

use crate::{Function, JsObject, JsValue};

// ---------------------------------------------------------------- plan

#[derive(Clone, Default)]
pub struct Plan {
    /// Turns before the i-th promise settles: `delays[i % len]`; at once if empty
    pub delays: Vec<u8>,
    /// The i-th promise is rejected; and all later ones
    pub fail: Option<(usize, bool)>,
    /// No writable stream may become larger
    pub quota: Option<u64>,
    /// Happens just before the i-th operation
    pub at: Option<(usize, Rc<dyn Fn()>)>,
}

/// A call to an imported JavaScript function: module, name, arguments
pub type Imports = Rc<dyn Fn(&str, &str, &[JsValue]) -> Result<JsValue, JsValue>>;

#[derive(Default)]
struct World {
    plan: Plan,
    turn: u64,
    log: Vec<String>,
    fired: bool,
    tasks: Vec<Pin<Box<dyn Future<Output = ()>>>>,
    imports: Option<Imports>,
}

thread_local! {
    static WORLD: RefCell<World> = RefCell::default();
}

/// A fresh browser
pub fn reset(plan: Plan) {
    let old = WORLD.with(|w| std::mem::replace(&mut *w.borrow_mut(), World { plan, ..World::default() }));
    drop(old);
}
pub fn set_imports(i: Imports) {
    WORLD.with(|w| w.borrow_mut().imports = Some(i));
}
/// The operations so far
pub fn log() -> Vec<String> {
    WORLD.with(|w| w.borrow().log.clone())
}
pub fn fired() -> bool {
    WORLD.with(|w| w.borrow().fired)
}
pub fn spawn(f: impl Future<Output = ()> + 'static) {
    WORLD.with(|w| w.borrow_mut().tasks.push(Box::pin(f)));
}
/// Tasks that have not finished
pub fn tasks() -> usize {
    WORLD.with(|w| w.borrow().tasks.len())
}

fn waker() -> Waker {
    const VT: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &VT), |_| {}, |_| {}, |_| {});
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}

/// One turn of the event loop: every task is polled once, in order, and time passes. False if there is none.
pub fn turn() -> bool {
    let mut tasks = WORLD.with(|w| std::mem::take(&mut w.borrow_mut().tasks));
    if tasks.is_empty() {
        return false;
    }
    let w = waker();
    tasks.retain_mut(|t| t.as_mut().poll(&mut Context::from_waker(&w)).is_pending());
    WORLD.with(|w| {
        let mut w = w.borrow_mut();
        w.turn += 1;
        let new = std::mem::take(&mut w.tasks);
        w.tasks = tasks;
        w.tasks.extend(new);
    });
    true
}

pub(crate) fn import(module: &str, name: &str, args: Vec<JsValue>) -> Result<JsValue, JsValue> {
    let i = WORLD.with(|w| w.borrow().imports.clone());
    match i {
        Some(i) => i(module, name, &args),
        None => Err(exception("TypeError", &format!("{name} of {module}"))),
    }
}

// ---------------------------------------------------------------- objects

pub struct Exception {
    pub name: String,
    pub message: String,
}
impl JsObject for Exception {
    fn class(&self) -> &'static str {
        "DOMException"
    }
    fn get(&self, n: &str) -> Option<JsValue> {
        match n {
            "name" => Some(self.name.as_str().into()),
            "message" => Some(self.message.as_str().into()),
            _ => None,
        }
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}
pub fn exception(name: &str, message: &str) -> JsValue {
    JsValue::object(Exception { name: name.into(), message: message.into() })
}

pub struct Promise {
    at: u64,
    result: Result<JsValue, JsValue>,
    later: Option<Later>,
}
/// Settles a promise of `deferred`
pub type Later = Rc<RefCell<Option<Result<JsValue, JsValue>>>>;
impl Promise {
    pub fn poll(&self) -> Poll<Result<JsValue, JsValue>> {
        if let Some(l) = &self.later {
            return l.borrow().clone().map_or(Poll::Pending, Poll::Ready);
        }
        if WORLD.with(|w| w.borrow().turn) >= self.at {
            Poll::Ready(self.result.clone())
        } else {
            Poll::Pending
        }
    }
}
impl JsObject for Promise {
    fn class(&self) -> &'static str {
        "Promise"
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}

/// Performs an operation of the host, whose result is delivered by a promise
pub fn promise(what: String, effect: impl FnOnce() -> Result<JsValue, JsValue>) -> JsValue {
    let (i, at, fail, hook) = WORLD.with(|w| {
        let mut w = w.borrow_mut();
        let i = w.log.len();
        w.log.push(what);
        let d = if w.plan.delays.is_empty() { 0 } else { w.plan.delays[i % w.plan.delays.len()] };
        let fail = matches!(w.plan.fail, Some((k, on)) if i == k || (on && i > k));
        let hook = w.plan.at.as_ref().filter(|a| a.0 == i).map(|a| a.1.clone());
        w.fired |= fail || hook.is_some();
        (i, w.turn + d as u64, fail, hook)
    });
    let _ = i;
    if let Some(h) = hook {
        h();
    }
    let result = if fail { Err(exception("UnknownError", "injected")) } else { effect() };
    JsValue::object(Promise { at, result, later: None })
}
pub fn resolved(v: JsValue) -> JsValue {
    JsValue::object(Promise { at: 0, result: Ok(v), later: None })
}
pub fn rejected(v: JsValue) -> JsValue {
    JsValue::object(Promise { at: 0, result: Err(v), later: None })
}

/// A promise that the harness settles
pub fn deferred() -> (JsValue, Later) {
    let l = Later::default();
    (JsValue::object(Promise { at: 0, result: Ok(JsValue::Undefined), later: Some(l.clone()) }), l)
}

#[derive(Default)]
pub struct Object(pub RefCell<BTreeMap<String, JsValue>>);
impl JsObject for Object {
    fn class(&self) -> &'static str {
        "Object"
    }
    fn get(&self, n: &str) -> Option<JsValue> {
        self.0.borrow().get(n).cloned()
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}
#[derive(Default)]
pub struct Array(pub RefCell<Vec<JsValue>>);
impl JsObject for Array {
    fn class(&self) -> &'static str {
        "Array"
    }
    fn get(&self, n: &str) -> Option<JsValue> {
        match n {
            "length" => Some((self.0.borrow().len() as f64).into()),
            n => n.parse::<usize>().ok().and_then(|i| self.0.borrow().get(i).cloned()),
        }
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}
/// ArrayBuffer or Uint8Array
pub struct Bytes(pub Rc<RefCell<Vec<u8>>>, pub &'static str);
impl JsObject for Bytes {
    fn class(&self) -> &'static str {
        self.1
    }
    fn get(&self, n: &str) -> Option<JsValue> {
        (n == "byteLength" || n == "length").then(|| (self.0.borrow().len() as f64).into())
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}

// ---------------------------------------------------------------- files

pub trait Content {
    fn len(&self) -> u64;
    /// Within bounds
    fn read(&self, at: u64, buf: &mut [u8]);
}
impl Content for Vec<u8> {
    fn len(&self) -> u64 {
        Vec::len(self) as u64
    }
    fn read(&self, at: u64, buf: &mut [u8]) {
        buf.copy_from_slice(&self[at as usize..][..buf.len()]);
    }
}

pub struct FileNode {
    pub name: String,
    data: RefCell<Rc<dyn Content>>,
    version: Cell<u64>,
    gone: Cell<bool>,
    /// open writable streams
    pub open: Cell<u32>,
}
#[derive(Clone)]
pub enum Entry {
    File(Rc<FileNode>),
    Dir(Rc<DirNode>),
}
pub struct DirNode {
    pub name: String,
    pub children: RefCell<BTreeMap<String, Entry>>,
}

impl FileNode {
    pub fn new(name: &str, data: impl Content + 'static) -> Rc<Self> {
        Rc::new(FileNode { name: name.into(), data: RefCell::new(Rc::new(data)), version: Cell::new(0), gone: Cell::new(false), open: Cell::new(0) })
    }
    pub fn set(&self, data: impl Content + 'static) {
        *self.data.borrow_mut() = Rc::new(data);
        self.version.set(self.version.get() + 1);
    }
    /// Deleted by somebody else
    pub fn remove(&self) {
        self.gone.set(true);
        self.version.set(self.version.get() + 1);
    }
    pub fn content(&self) -> Rc<dyn Content> {
        self.data.borrow().clone()
    }
    pub fn bytes(&self) -> Vec<u8> {
        let c = self.content();
        let mut v = vec![0; c.len() as usize];
        c.read(0, &mut v);
        v
    }
    pub fn handle(self: &Rc<Self>) -> JsValue {
        JsValue::object(FileHandle(self.clone()))
    }
}
impl DirNode {
    pub fn new(name: &str) -> Rc<Self> {
        Rc::new(DirNode { name: name.into(), children: Default::default() })
    }
    pub fn handle(self: &Rc<Self>) -> JsValue {
        JsValue::object(DirHandle(self.clone()))
    }
    pub fn add_file(&self, name: &str, data: impl Content + 'static) -> Rc<FileNode> {
        let f = FileNode::new(name, data);
        self.children.borrow_mut().insert(name.into(), Entry::File(f.clone()));
        f
    }
    pub fn add_dir(&self, name: &str) -> Rc<DirNode> {
        let f = DirNode::new(name);
        self.children.borrow_mut().insert(name.into(), Entry::Dir(f.clone()));
        f
    }
    pub fn get(&self, name: &str) -> Option<Entry> {
        self.children.borrow().get(name).cloned()
    }
}

fn arg(args: &[JsValue], i: usize) -> JsValue {
    args.get(i).cloned().unwrap_or_default()
}

pub struct FileHandle(pub Rc<FileNode>);
impl JsObject for FileHandle {
    fn class(&self) -> &'static str {
        "FileSystemFileHandle"
    }
    fn get(&self, n: &str) -> Option<JsValue> {
        match n {
            "kind" => Some("file".into()),
            "name" => Some(self.0.name.as_str().into()),
            _ => None,
        }
    }
    fn call(&self, method: &str, args: &[JsValue]) -> Result<JsValue, JsValue> {
        let node = self.0.clone();
        match method {
            "getFile" => Ok(promise(format!("getFile {}", node.name), move || {
                if node.gone.get() {
                    return Err(exception("NotFoundError", "no such file"));
                }
                let data = node.content();
                let end = data.len();
                Ok(JsValue::object(Blob { name: Some(node.name.clone()), from: Some((node.clone(), node.version.get())), data, start: 0, end }))
            })),
            "createWritable" => {
                let keep = arg(args, 0);
                let keep = matches!(&keep, JsValue::Obj(o) if o.get("keepExistingData").is_some_and(|v| v.is_truthy()));
                Ok(promise(format!("createWritable {}", node.name), move || {
                    node.open.set(node.open.get() + 1);
                    let data = if keep { node.bytes() } else { Vec::new() };
                    Ok(JsValue::object(Writable { node, data: RefCell::new(data), pos: Cell::new(0), state: Cell::new(State::Open) }))
                }))
            }
            "isSameEntry" => {
                let other = arg(args, 0);
                Ok(promise("isSameEntry".into(), move || Ok(other.native::<FileHandle>().is_some_and(|h| Rc::ptr_eq(&h.0, &node)).into())))
            }
            m => Err(exception("TypeError", m)),
        }
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}

pub struct DirHandle(pub Rc<DirNode>);

fn valid_name(n: &str) -> bool {
    !n.is_empty() && n != "." && n != ".." && !n.contains(['/', '\\', '\0'])
}

impl JsObject for DirHandle {
    fn class(&self) -> &'static str {
        "FileSystemDirectoryHandle"
    }
    fn get(&self, n: &str) -> Option<JsValue> {
        match n {
            "kind" => Some("directory".into()),
            "name" => Some(self.0.name.as_str().into()),
            _ => None,
        }
    }
    fn call(&self, method: &str, args: &[JsValue]) -> Result<JsValue, JsValue> {
        let node = self.0.clone();
        match method {
            "entries" => {
                let items = node.children.borrow().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                Ok(JsValue::object(Iter { items, next: Cell::new(0), of: node.name.clone() }))
            }
            "getFileHandle" | "getDirectoryHandle" => {
                let name = arg(args, 0).as_string().ok_or_else(|| exception("TypeError", "name"))?;
                let create = matches!(&arg(args, 1), JsValue::Obj(o) if o.get("create").is_some_and(|v| v.is_truthy()));
                let file = method == "getFileHandle";
                Ok(promise(format!("{method} {name}"), move || {
                    if !valid_name(&name) {
                        return Err(exception("TypeError", "Name is not allowed."));
                    }
                    match (node.get(&name), file) {
                        (Some(Entry::File(f)), true) => Ok(f.handle()),
                        (Some(Entry::Dir(f)), false) => Ok(f.handle()),
                        (Some(_), _) => Err(exception("TypeMismatchError", "The path supplied exists, but was not an entry of requested type.")),
                        (None, _) if !create => Err(exception("NotFoundError", "no such entry")),
                        (None, true) => Ok(node.add_file(&name, Vec::new()).handle()),
                        (None, false) => Ok(node.add_dir(&name).handle()),
                    }
                }))
            }
            "removeEntry" => {
                let name = arg(args, 0).as_string().unwrap_or_default();
                Ok(promise(format!("removeEntry {name}"), move || match node.children.borrow_mut().remove(&name) {
                    Some(_) => Ok(JsValue::Undefined),
                    None => Err(exception("NotFoundError", "no such entry")),
                }))
            }
            m => Err(exception("TypeError", m)),
        }
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}

struct Iter {
    items: Vec<(String, Entry)>,
    next: Cell<usize>,
    of: String,
}
impl JsObject for Iter {
    fn class(&self) -> &'static str {
        "AsyncIterator"
    }
    fn call(&self, method: &str, _: &[JsValue]) -> Result<JsValue, JsValue> {
        if method != "next" {
            return Err(exception("TypeError", method));
        }
        let i = self.next.get();
        self.next.set(i + 1);
        let item = self.items.get(i).cloned();
        Ok(promise(format!("next entry of {}", self.of), move || {
            let o = Object::default();
            o.0.borrow_mut().insert("done".into(), item.is_none().into());
            if let Some((n, e)) = item {
                let h = match e {
                    Entry::File(f) => f.handle(),
                    Entry::Dir(f) => f.handle(),
                };
                o.0.borrow_mut().insert("value".into(), JsValue::object(Array(RefCell::new(vec![n.into(), h]))));
            }
            Ok(JsValue::object(o))
        }))
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}

/// Blob or File: a part of a snapshot of a file
pub struct Blob {
    pub name: Option<String>,
    from: Option<(Rc<FileNode>, u64)>,
    data: Rc<dyn Content>,
    start: u64,
    end: u64,
}
impl Blob {
    pub fn size(&self) -> u64 {
        self.end - self.start
    }
    pub fn slice(&self, a: Option<f64>, b: Option<f64>) -> Blob {
        let n = self.size();
        let clamp = |x: f64| -> u64 {
            if x.is_nan() {
                0
            } else if x < 0.0 {
                (n as f64 + x.trunc()).max(0.0) as u64
            } else {
                (x.round_ties_even() as u64).min(n)
            }
        };
        let a = a.map(clamp).unwrap_or(0);
        let b = b.map(clamp).unwrap_or(n).max(a);
        Blob { name: None, from: self.from.clone(), data: self.data.clone(), start: self.start + a, end: self.start + b }
    }
    /// The bytes, unless the file has been changed since it was looked at
    fn load(&self) -> Result<Vec<u8>, JsValue> {
        if let Some((f, v)) = &self.from {
            if f.version.get() != *v {
                return Err(exception("NotReadableError", "the file was changed"));
            }
        }
        if self.size() > 1 << 31 {
            return Err(exception("NotReadableError", "too large for an array buffer"));
        }
        let mut v = vec![0; self.size() as usize];
        self.data.read(self.start, &mut v);
        Ok(v)
    }
    pub fn array_buffer(&self) -> JsValue {
        promise(format!("arrayBuffer {}..{}", self.start, self.end), || Ok(JsValue::object(Bytes(Rc::new(RefCell::new(self.load()?)), "ArrayBuffer"))))
    }
}
impl JsObject for Blob {
    fn class(&self) -> &'static str {
        if self.name.is_some() {
            "File"
        } else {
            "Blob"
        }
    }
    fn get(&self, n: &str) -> Option<JsValue> {
        match n {
            "size" => Some((self.size() as f64).into()),
            "name" => self.name.as_ref().map(|n| n.into()),
            _ => None,
        }
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}

#[derive(Clone, Copy, PartialEq)]
enum State {
    Open,
    Errored,
    Closed,
}

/// FileSystemWritableFileStream: the file changes when the stream is closed
struct Writable {
    node: Rc<FileNode>,
    data: RefCell<Vec<u8>>,
    pos: Cell<u64>,
    state: Cell<State>,
}
impl Drop for Writable {
    fn drop(&mut self) {
        if self.state.get() == State::Open {
            self.node.open.set(self.node.open.get() - 1);
        }
    }
}
impl Writable {
    fn usable(&self) -> Result<(), JsValue> {
        match self.state.get() {
            State::Open => Ok(()),
            State::Errored => Err(exception("TypeError", "the stream is errored")),
            State::Closed => Err(exception("TypeError", "the stream is closed")),
        }
    }
    fn fail(&self) {
        if self.state.get() == State::Open {
            self.state.set(State::Errored);
            self.node.open.set(self.node.open.get() - 1);
        }
    }
    fn write(&self, b: Vec<u8>) -> Result<JsValue, JsValue> {
        let end = self.pos.get() + b.len() as u64;
        let quota = WORLD.with(|w| w.borrow().plan.quota).unwrap_or(1 << 32);
        if end > quota {
            self.fail();
            WORLD.with(|w| w.borrow_mut().fired = true);
            return Err(exception("QuotaExceededError", "no space"));
        }
        let mut d = self.data.borrow_mut();
        if (d.len() as u64) < end {
            d.resize(end as usize, 0);
        }
        d[self.pos.get() as usize..end as usize].copy_from_slice(&b);
        self.pos.set(end);
        Ok(JsValue::Undefined)
    }
    /// A promise after whose rejection the stream is errored
    fn op(&self, what: String, f: impl FnOnce() -> Result<JsValue, JsValue>) -> JsValue {
        let ran = Cell::new(false);
        let p = promise(what, || {
            ran.set(true);
            self.usable()?;
            let r = f();
            if r.is_err() {
                self.fail();
            }
            r
        });
        if !ran.get() {
            self.fail();
        }
        p
    }
}
impl JsObject for Writable {
    fn class(&self) -> &'static str {
        "FileSystemWritableFileStream"
    }
    fn call(&self, method: &str, args: &[JsValue]) -> Result<JsValue, JsValue> {
        let a = arg(args, 0);
        let name = &self.node.name;
        match method {
            "write" => Ok(self.op(format!("write {name}"), || {
                let b = if let Some(b) = a.native::<Bytes>() {
                    b.0.borrow().clone()
                } else if let Some(b) = a.native::<Blob>() {
                    b.load()?
                } else if let Some(s) = a.as_string() {
                    s.into_bytes()
                } else {
                    return Err(exception("TypeError", "write"));
                };
                self.write(b)
            })),
            "seek" => Ok(self.op(format!("seek {name}"), || {
                let p = a.as_f64().filter(|p| *p >= 0.0).ok_or_else(|| exception("TypeError", "position"))?;
                self.pos.set(p as u64);
                Ok(JsValue::Undefined)
            })),
            "truncate" => Ok(self.op(format!("truncate {name}"), || {
                let p = a.as_f64().filter(|p| *p >= 0.0).ok_or_else(|| exception("TypeError", "size"))?;
                self.data.borrow_mut().resize(p as usize, 0);
                self.pos.set(self.pos.get().min(p as u64));
                Ok(JsValue::Undefined)
            })),
            "close" => Ok(self.op(format!("close {name}"), || {
                self.state.set(State::Closed);
                self.node.open.set(self.node.open.get() - 1);
                self.node.set(self.data.take());
                Ok(JsValue::Undefined)
            })),
            "abort" => Ok(self.op(format!("abort {name}"), || {
                self.state.set(State::Closed);
                self.node.open.set(self.node.open.get() - 1);
                Ok(JsValue::Undefined)
            })),
            m => Err(exception("TypeError", m)),
        }
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}

pub fn call_function(f: &JsValue, args: &[JsValue]) -> Result<JsValue, JsValue> {
    match f.native::<Function>() {
        Some(f) => (f.0)(args),
        None => Err(exception("TypeError", "not a function")),
    }
}
