//! `#[wasm_bindgen]` for the stand-in: imported types wrap a `JsValue`, imported functions and methods are looked up by
//! their JavaScript name at run time, exported structs become objects with their getters.

use proc_macro::TokenStream;
use proc_macro2::TokenStream as T2;
use quote::{format_ident, quote};
use syn::parse::{Parse, ParseStream};
use syn::punctuated::Punctuated;
use syn::*;

struct Arg {
    name: String,
    value: Option<Expr>,
}
impl Parse for Arg {
    fn parse(i: ParseStream) -> Result<Self> {
        use syn::ext::IdentExt;
        let name = Ident::parse_any(i)?.to_string();
        let value = if i.peek(Token![=]) {
            i.parse::<Token![=]>()?;
            Some(i.parse()?)
        } else {
            None
        };
        Ok(Arg { name, value })
    }
}
struct Args(Vec<Arg>);
impl Parse for Args {
    fn parse(i: ParseStream) -> Result<Self> {
        Ok(Args(Punctuated::<Arg, Token![,]>::parse_terminated(i)?.into_iter().collect()))
    }
}
impl Args {
    fn has(&self, n: &str) -> bool {
        self.0.iter().any(|a| a.name == n)
    }
    fn text(&self, n: &str) -> Option<String> {
        self.0.iter().find(|a| a.name == n).and_then(|a| a.value.as_ref()).map(|e| match e {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
            Expr::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
            _ => panic!("unsupported value of {n}"),
        })
    }
    fn exprs(&self, n: &str) -> Vec<&Expr> {
        self.0.iter().filter(|a| a.name == n).filter_map(|a| a.value.as_ref()).collect()
    }
}

/// The arguments of all `#[wasm_bindgen(..)]` among the attributes, and the other attributes
fn split(attrs: &[Attribute]) -> (Args, Vec<&Attribute>) {
    let mut all = Vec::new();
    let mut rest = Vec::new();
    for a in attrs {
        if a.path().is_ident("wasm_bindgen") {
            if let Meta::List(l) = &a.meta {
                all.extend(l.parse_args::<Args>().expect("wasm_bindgen arguments").0);
            }
        } else {
            rest.push(a);
        }
    }
    (Args(all), rest)
}

#[proc_macro_attribute]
pub fn wasm_bindgen(args: TokenStream, item: TokenStream) -> TokenStream {
    let outer = parse_macro_input!(args as Args);
    let item = parse_macro_input!(item as Item);
    match item {
        Item::ForeignMod(m) => foreign(&outer, m).into(),
        Item::Struct(mut s) => {
            for f in s.fields.iter_mut() {
                f.attrs.retain(|a| !a.path().is_ident("wasm_bindgen"));
            }
            let n = &s.ident;
            quote! {
                #s
                impl From<#n> for ::wasm_bindgen::JsValue {
                    fn from(v: #n) -> Self {
                        ::wasm_bindgen::__rt::exported(v, |v, name| ::wasm_bindgen::__rt::Exported::js_get(v, name))
                    }
                }
            }
            .into()
        }
        Item::Impl(mut i) => {
            let ty = &i.self_ty;
            let mut arms = Vec::new();
            for it in i.items.iter_mut() {
                if let ImplItem::Fn(f) = it {
                    let (a, _) = split(&f.attrs);
                    if a.has("getter") {
                        let js = a.text("js_name").or_else(|| a.text("getter")).unwrap_or_else(|| f.sig.ident.to_string());
                        let id = &f.sig.ident;
                        arms.push(quote! { #js => Some(::wasm_bindgen::JsValue::from(self.#id())), });
                    }
                    f.attrs.retain(|a| !a.path().is_ident("wasm_bindgen"));
                }
            }
            quote! {
                #i
                impl ::wasm_bindgen::__rt::Exported for #ty {
                    fn js_get(&self, name: &str) -> Option<::wasm_bindgen::JsValue> {
                        match name { #(#arms)* _ => None }
                    }
                }
            }
            .into()
        }
        other => quote! { #other }.into(),
    }
}

fn foreign(outer: &Args, m: ItemForeignMod) -> T2 {
    let module = outer.text("module").unwrap_or_default();
    let mut out = T2::new();
    for it in m.items {
        match it {
            ForeignItem::Type(t) => {
                let (a, rest) = split(&t.attrs);
                let (vis, n) = (&t.vis, &t.ident);
                let ext = a.exprs("extends");
                let class = a.text("js_name").unwrap_or_else(|| n.to_string());
                let target: T2 = ext.first().map(|e| quote! { #e }).unwrap_or(quote! { ::wasm_bindgen::JsValue });
                out.extend(quote! {
                    #(#rest)*
                    #[repr(transparent)]
                    #vis struct #n { obj: ::wasm_bindgen::JsValue }
                    impl From<::wasm_bindgen::JsValue> for #n {
                        fn from(obj: ::wasm_bindgen::JsValue) -> Self { Self { obj } }
                    }
                    impl From<#n> for ::wasm_bindgen::JsValue {
                        fn from(v: #n) -> Self { v.obj }
                    }
                    impl From<&#n> for ::wasm_bindgen::JsValue {
                        fn from(v: &#n) -> Self { v.obj.clone() }
                    }
                    impl AsRef<::wasm_bindgen::JsValue> for #n {
                        fn as_ref(&self) -> &::wasm_bindgen::JsValue { &self.obj }
                    }
                    impl AsRef<#n> for #n {
                        fn as_ref(&self) -> &#n { self }
                    }
                    impl ::wasm_bindgen::JsCast for #n { const CLASS: &'static str = #class; }
                    impl ::std::ops::Deref for #n {
                        type Target = #target;
                        fn deref(&self) -> &#target { ::wasm_bindgen::JsCast::unchecked_ref(&self.obj) }
                    }
                    #(
                        impl From<#n> for #ext {
                            fn from(v: #n) -> Self { v.obj.into() }
                        }
                        impl AsRef<#ext> for #n {
                            fn as_ref(&self) -> &#ext { ::wasm_bindgen::JsCast::unchecked_ref(&self.obj) }
                        }
                    )*
                });
            }
            ForeignItem::Fn(f) => {
                let (a, rest) = split(&f.attrs);
                let vis = &f.vis;
                let sig = &f.sig;
                let js = a.text("js_name").unwrap_or_else(|| sig.ident.to_string());
                let names: Vec<_> = sig
                    .inputs
                    .iter()
                    .map(|i| match i {
                        FnArg::Typed(t) => match &*t.pat {
                            Pat::Ident(p) => p.ident.clone(),
                            _ => format_ident!("_x"),
                        },
                        _ => panic!("receiver"),
                    })
                    .collect();
                let catch = a.has("catch");
                let finish = |call: T2| if catch { quote! { #call.map(::wasm_bindgen::__rt::FromJs::from_js) } } else { quote! { ::wasm_bindgen::__rt::FromJs::from_js(#call.unwrap_or_else(|e| panic!("exception in {}: {:?}", #js, e))) } };
                let (id, ret) = (&sig.ident, &sig.output);
                if a.has("method") {
                    let FnArg::Typed(this) = &sig.inputs[0] else { panic!() };
                    let Type::Reference(r) = &*this.ty else { panic!() };
                    let ty = &r.elem;
                    let params = sig.inputs.iter().skip(1);
                    let args = &names[1..];
                    let body = if a.has("getter") {
                        let js = a.text("js_name").or_else(|| a.text("getter")).unwrap_or(js.clone());
                        finish(quote! { ::wasm_bindgen::__rt::get(this, #js) })
                    } else {
                        finish(quote! { ::wasm_bindgen::__rt::call(this, #js, vec![#(::wasm_bindgen::JsValue::from(#args)),*]) })
                    };
                    out.extend(quote! {
                        impl #ty {
                            #(#rest)*
                            #vis fn #id(&self, #(#params),*) #ret {
                                let this: &::wasm_bindgen::JsValue = ::std::convert::AsRef::<::wasm_bindgen::JsValue>::as_ref(self);
                                #body
                            }
                        }
                    });
                } else if sig.asyncness.is_some() {
                    let params = sig.inputs.iter();
                    out.extend(quote! {
                        #(#rest)*
                        #vis async fn #id(#(#params),*) #ret {
                            let p = ::wasm_bindgen::__rt::import(#module, #js, vec![#(::wasm_bindgen::JsValue::from(#names)),*]).unwrap_or_else(|e| panic!("exception in {}: {:?}", #js, e));
                            let r = ::wasm_bindgen::__rt::settled(p).await;
                            ::wasm_bindgen::__rt::FromJs::from_js(r.unwrap_or_else(|e| panic!("{} was rejected: {:?}", #js, e)))
                        }
                    });
                } else {
                    let params = sig.inputs.iter();
                    let body = finish(quote! { ::wasm_bindgen::__rt::import(#module, #js, vec![#(::wasm_bindgen::JsValue::from(#names)),*]) });
                    out.extend(quote! {
                        #(#rest)*
                        #[allow(non_snake_case)]
                        #vis fn #id(#(#params),*) #ret { #body }
                    });
                }
            }
            other => panic!("unsupported import {}", quote! { #other }),
        }
    }
    out
}
