//! Components, properties, callbacks and a rendered tree, without a browser: the harness renders, looks and clicks.

use std::any::{Any, TypeId};
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;

pub use yew_macro_standin::{classes, function_component, html, Properties};

pub mod prelude {
    pub use crate::{
        classes, function_component, html, use_state, Callback, Children, Classes, Component, Context, Html, MouseEvent, Properties,
        UseStateHandle,
    };
}
pub mod html {
    pub use crate::{Html, IntoPropValue, Scope};
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct MouseEvent;
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Classes;

pub struct Callback<I, O = ()>(Rc<dyn Fn(I) -> O>);
impl<I, O> Clone for Callback<I, O> {
    fn clone(&self) -> Self {
        Callback(self.0.clone())
    }
}
impl<I, O> PartialEq for Callback<I, O> {
    fn eq(&self, o: &Self) -> bool {
        Rc::as_ptr(&self.0) as *const () == Rc::as_ptr(&o.0) as *const ()
    }
}
impl<I> Default for Callback<I, ()> {
    fn default() -> Self {
        Callback(Rc::new(|_| ()))
    }
}
impl<I, O, F: Fn(I) -> O + 'static> From<F> for Callback<I, O> {
    fn from(f: F) -> Self {
        Callback(Rc::new(f))
    }
}
impl<I, O> Callback<I, O> {
    pub fn emit(&self, v: I) -> O {
        (self.0)(v)
    }
    pub fn reform<F, T>(&self, f: F) -> Callback<T, O>
    where
        F: Fn(T) -> I + 'static,
        I: 'static,
        O: 'static,
    {
        let c = self.clone();
        Callback(Rc::new(move |t| c.emit(f(t))))
    }
}
impl<I> Callback<I> {
    pub fn noop() -> Self {
        Self::default()
    }
}

pub trait IntoPropValue<T> {
    fn into_prop_value(self) -> T;
}
impl<T> IntoPropValue<T> for T {
    fn into_prop_value(self) -> T {
        self
    }
}
impl<I, O, F: Fn(I) -> O + 'static> IntoPropValue<Callback<I, O>> for F {
    fn into_prop_value(self) -> Callback<I, O> {
        self.into()
    }
}
impl IntoPropValue<String> for &str {
    fn into_prop_value(self) -> String {
        self.into()
    }
}
impl IntoPropValue<String> for &String {
    fn into_prop_value(self) -> String {
        self.clone()
    }
}
impl IntoPropValue<Html> for &str {
    fn into_prop_value(self) -> Html {
        self.into_html()
    }
}
impl<T> IntoPropValue<Option<T>> for T {
    fn into_prop_value(self) -> Option<T> {
        Some(self)
    }
}

// ---------------------------------------------------------------- trees

#[derive(Clone)]
pub enum Html {
    Nothing,
    Text(String),
    List(Vec<Html>),
    Tag { name: &'static str, attrs: Vec<(&'static str, String)>, on: Vec<(&'static str, Handler)>, children: Box<Html> },
    Comp(Comp),
    /// For the harness
    Item(Item),
}
impl Default for Html {
    fn default() -> Self {
        Html::Nothing
    }
}
impl PartialEq for Html {
    fn eq(&self, _: &Self) -> bool {
        false
    }
}
pub type Handler = Rc<dyn Fn()>;
pub type VNode = Html;

pub fn handler(c: Callback<MouseEvent>) -> Handler {
    Rc::new(move || c.emit(MouseEvent))
}
pub fn attr<T: 'static>(v: T) -> String {
    let v: &dyn Any = &v;
    if let Some(s) = v.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = v.downcast_ref::<&'static str>() {
        s.to_string()
    } else if let Some(s) = v.downcast_ref::<bool>() {
        s.to_string()
    } else {
        String::new()
    }
}

pub trait IntoHtml {
    fn into_html(self) -> Html;
}
impl IntoHtml for Html {
    fn into_html(self) -> Html {
        self
    }
}
impl IntoHtml for Children {
    fn into_html(self) -> Html {
        self.0
    }
}
impl<T: std::fmt::Display + ?Sized> IntoHtml for &T {
    fn into_html(self) -> Html {
        Html::Text(self.to_string())
    }
}
macro_rules! texts { ($($t:ty),*) => { $(impl IntoHtml for $t { fn into_html(self) -> Html { Html::Text(self.to_string()) } })* } }
texts!(String, u32, u64, usize, i32, i64, f64, bool);
impl<T: IntoHtml> IntoHtml for Option<T> {
    fn into_html(self) -> Html {
        self.map(IntoHtml::into_html).unwrap_or_default()
    }
}

#[derive(Clone, Default, PartialEq)]
pub struct Children(pub Html);

// ---------------------------------------------------------------- components

pub trait Properties: PartialEq {
    type Builder: Default;
    fn build(b: Self::Builder) -> Self;
}
impl Properties for () {
    type Builder = ();
    fn build(_: ()) {}
}

pub trait Component: Sized + 'static {
    /// Function components are shown anew every time, others when they ask for it
    #[doc(hidden)]
    const KEEPS: bool = true;
    type Message: 'static;
    type Properties: Properties + 'static;
    fn create(ctx: &Context<Self>) -> Self;
    #[allow(unused)]
    fn update(&mut self, ctx: &Context<Self>, msg: Self::Message) -> bool {
        true
    }
    #[allow(unused)]
    fn changed(&mut self, ctx: &Context<Self>, old: &Self::Properties) -> bool {
        true
    }
    fn view(&self, ctx: &Context<Self>) -> Html;
    #[allow(unused)]
    fn rendered(&mut self, ctx: &Context<Self>, first: bool) {}
    #[allow(unused)]
    fn destroy(&mut self, ctx: &Context<Self>) {}
}
pub trait BaseComponent: Component {}
impl<T: Component> BaseComponent for T {}

pub struct Scope<C: Component>(Rc<RefCell<VecDeque<C::Message>>>);
impl<C: Component> Clone for Scope<C> {
    fn clone(&self) -> Self {
        Scope(self.0.clone())
    }
}
impl<C: Component> Scope<C> {
    pub fn send_message(&self, m: impl Into<C::Message>) {
        self.0.borrow_mut().push_back(m.into())
    }
    pub fn send_message_batch(&self, m: Vec<C::Message>) {
        self.0.borrow_mut().extend(m)
    }
    pub fn batch_callback<F, I, O>(&self, f: F) -> Callback<I>
    where
        F: Fn(I) -> O + 'static,
        O: IntoIterator<Item = C::Message>,
    {
        let s = self.clone();
        Callback(Rc::new(move |i| s.0.borrow_mut().extend(f(i))))
    }
    pub fn send_future<F, M>(&self, f: F)
    where
        F: std::future::Future<Output = M> + 'static,
        M: Into<C::Message>,
    {
        let s = self.clone();
        wasm_bindgen::host::spawn(async move { s.send_message(f.await) });
    }
    pub fn callback_future<F, I, U, M>(&self, f: F) -> Callback<I>
    where
        F: Fn(I) -> U + 'static,
        U: std::future::Future<Output = M> + 'static,
        M: Into<C::Message>,
    {
        let s = self.clone();
        Callback(Rc::new(move |i| s.send_future(f(i))))
    }
    pub fn callback<F, I, M>(&self, f: F) -> Callback<I>
    where
        F: Fn(I) -> M + 'static,
        M: Into<C::Message>,
    {
        let s = self.clone();
        Callback(Rc::new(move |i| s.send_message(f(i))))
    }
}
pub struct Context<C: Component> {
    scope: Scope<C>,
    props: Rc<C::Properties>,
}
impl<C: Component> Context<C> {
    pub fn link(&self) -> &Scope<C> {
        &self.scope
    }
    pub fn props(&self) -> &C::Properties {
        &self.props
    }
}

trait Instance {
    fn kind(&self) -> TypeId;
    /// One message, if there is one
    fn step(&mut self) -> bool;
    fn set(&mut self, props: Rc<dyn Any>);
    fn view(&mut self) -> Html;
}
struct Live<C: Component> {
    c: C,
    ctx: Context<C>,
    hooks: Vec<Rc<dyn Any>>,
    shown: Option<Html>,
}
impl<C: Component> Instance for Live<C> {
    fn kind(&self) -> TypeId {
        TypeId::of::<C>()
    }
    fn step(&mut self) -> bool {
        let m = self.ctx.scope.0.borrow_mut().pop_front();
        match m {
            Some(m) => {
                if self.c.update(&self.ctx, m) {
                    self.shown = None;
                }
                true
            }
            None => false,
        }
    }
    fn set(&mut self, props: Rc<dyn Any>) {
        let new = props.downcast::<C::Properties>().unwrap_or_else(|_| panic!("props"));
        if *self.ctx.props == *new {
            return;
        }
        let old = std::mem::replace(&mut self.ctx.props, new);
        if self.c.changed(&self.ctx, &old) {
            self.shown = None;
        }
    }
    fn view(&mut self) -> Html {
        if let (true, Some(h)) = (C::KEEPS, &self.shown) {
            return h.clone();
        }
        HOOKS.with(|h| *h.borrow_mut() = (std::mem::take(&mut self.hooks), 0));
        let r = self.c.view(&self.ctx);
        self.hooks = HOOKS.with(|h| std::mem::take(&mut h.borrow_mut().0));
        self.shown = Some(r.clone());
        r
    }
}

#[derive(Clone)]
pub struct Comp {
    kind: TypeId,
    props: Rc<dyn Any>,
    make: fn(Rc<dyn Any>) -> Box<dyn Instance>,
}
impl Html {
    pub fn component<C: Component>(props: C::Properties) -> Html {
        Html::Comp(Comp {
            kind: TypeId::of::<C>(),
            props: Rc::new(props),
            make: |p| {
                let ctx = Context { scope: Scope(Default::default()), props: p.downcast::<C::Properties>().unwrap_or_else(|_| panic!("props")) };
                Box::new(Live { c: C::create(&ctx), ctx, hooks: Vec::new(), shown: None })
            },
        })
    }
}

thread_local! {
    static HOOKS: RefCell<(Vec<Rc<dyn Any>>, usize)> = RefCell::default();
}

pub struct UseStateHandle<T>(Rc<T>, Rc<RefCell<Rc<T>>>);
impl<T> Clone for UseStateHandle<T> {
    fn clone(&self) -> Self {
        UseStateHandle(self.0.clone(), self.1.clone())
    }
}
impl<T> std::ops::Deref for UseStateHandle<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T> UseStateHandle<T> {
    pub fn set(&self, v: T) {
        *self.1.borrow_mut() = Rc::new(v);
    }
}
pub fn use_state<T: 'static>(f: impl FnOnce() -> T) -> UseStateHandle<T> {
    HOOKS.with(|h| {
        let mut h = h.borrow_mut();
        let i = h.1;
        h.1 += 1;
        if h.0.len() <= i {
            h.0.push(Rc::new(RefCell::new(Rc::new(f()))));
        }
        let cell = h.0[i].clone().downcast::<RefCell<Rc<T>>>().unwrap_or_else(|_| panic!("hook"));
        let now = cell.borrow().clone();
        UseStateHandle(now, cell)
    })
}

// ---------------------------------------------------------------- the page

#[derive(Clone)]
pub struct Button {
    pub label: String,
    pub disabled: bool,
    pub click: Handler,
}
/// What is shown, from top to bottom
#[derive(Clone)]
pub enum Item {
    Text(String),
    Button(Button),
    /// The panels of the tabs start
    Panel,
    /// The kind of a notice, ahead of its contents
    Notice(String),
    Progress(f32),
}

pub struct Page {
    root: Html,
    live: BTreeMap<Vec<usize>, Box<dyn Instance>>,
    pub items: Vec<Item>,
}
impl Page {
    pub fn new<C: Component>(props: C::Properties) -> Page {
        let mut p = Page { root: Html::component::<C>(props), live: Default::default(), items: vec![] };
        p.render();
        p
    }
    /// Handles one pending message of a component and shows the result
    pub fn step(&mut self) -> bool {
        let did = self.live.values_mut().any(|c| c.step());
        if did {
            self.render();
        }
        did
    }
    pub fn render(&mut self) {
        let root = self.root.clone();
        let mut old = std::mem::take(&mut self.live);
        let mut out = Vec::new();
        self.show(&root, &mut vec![], &mut old, &mut out);
        self.items = out;
    }
    fn show(&mut self, h: &Html, at: &mut Vec<usize>, old: &mut BTreeMap<Vec<usize>, Box<dyn Instance>>, out: &mut Vec<Item>) {
        match h {
            Html::Nothing => {}
            Html::Text(t) => out.push(Item::Text(t.clone())),
            Html::Item(i) => out.push(i.clone()),
            Html::List(v) => {
                for (i, x) in v.iter().enumerate() {
                    at.push(i);
                    self.show(x, at, old, out);
                    at.pop();
                }
            }
            Html::Tag { attrs, on, children, .. } => {
                let from = out.len();
                at.push(0);
                self.show(children, at, old, out);
                at.pop();
                if let Some((_, h)) = on.iter().find(|o| o.0 == "onclick") {
                    let label = text(&out[from..]);
                    out.truncate(from);
                    let disabled = attrs.iter().any(|a| a.0 == "disabled" && a.1 == "true");
                    out.push(Item::Button(Button { label, disabled, click: h.clone() }));
                }
            }
            Html::Comp(c) => {
                let inst = match old.remove(at) {
                    Some(mut i) if i.kind() == c.kind => {
                        i.set(c.props.clone());
                        i
                    }
                    _ => (c.make)(c.props.clone()),
                };
                let mut inst = inst;
                let v = inst.view();
                self.live.insert(at.clone(), inst);
                at.push(0);
                self.show(&v, at, old, out);
                at.pop();
            }
        }
    }
    pub fn buttons(&self) -> Vec<Button> {
        self.items.iter().filter_map(|i| if let Item::Button(b) = i { Some(b.clone()) } else { None }).collect()
    }
    pub fn text(&self) -> String {
        text(&self.items)
    }
}
pub fn text(items: &[Item]) -> String {
    let v: Vec<&str> = items.iter().filter_map(|i| if let Item::Text(t) = i { Some(t.as_str()) } else { None }).collect();
    v.join("\n")
}

pub struct Renderer<C>(std::marker::PhantomData<C>);
impl<C: Component> Renderer<C> {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Renderer(Default::default())
    }
    pub fn render(self) {}
}
