//! `html!`, `classes!`, `Properties` and `#[function_component]` for the stand-in

use proc_macro::TokenStream;
use proc_macro2::TokenStream as T2;
use quote::{format_ident, quote};
use syn::parse::{Parse, ParseStream};
use syn::*;

// ---------------------------------------------------------------- html!

enum Node {
    Text(T2),
    Element { path: Path, attrs: Vec<(Ident, T2)>, children: Vec<Node> },
    List(Vec<Node>),
    If(T2, Vec<Node>, Option<Box<Node>>),
}

struct Root(Vec<Node>);
impl Parse for Root {
    fn parse(i: ParseStream) -> Result<Self> {
        let mut v = Vec::new();
        while !i.is_empty() {
            v.push(node(i)?);
        }
        Ok(Root(v))
    }
}

fn children(i: ParseStream) -> Result<Vec<Node>> {
    let mut v = Vec::new();
    while !(i.peek(Token![<]) && i.peek2(Token![/])) {
        if i.is_empty() {
            return Err(i.error("missing closing tag"));
        }
        v.push(node(i)?);
    }
    Ok(v)
}

fn block(i: ParseStream) -> Result<Vec<Node>> {
    let c;
    braced!(c in i);
    Ok(c.parse::<Root>()?.0)
}

fn node(i: ParseStream) -> Result<Node> {
    if i.peek(Token![if]) {
        return cond(i);
    }
    if i.peek(token::Brace) {
        let c;
        braced!(c in i);
        if c.is_empty() {
            return Ok(Node::List(vec![]));
        }
        if c.peek(Token![for]) {
            c.parse::<Token![for]>()?;
            let e: T2 = c.parse()?;
            return Ok(Node::Text(quote! { ::yew::Html::List((#e).into_iter().map(::yew::IntoHtml::into_html).collect()) }));
        }
        let e: T2 = c.parse()?;
        return Ok(Node::Text(quote! { ::yew::IntoHtml::into_html({ #e }) }));
    }
    if i.peek(Lit) {
        let l: Lit = i.parse()?;
        return Ok(Node::Text(quote! { ::yew::IntoHtml::into_html(#l) }));
    }
    i.parse::<Token![<]>()?;
    if i.peek(Token![>]) {
        i.parse::<Token![>]>()?;
        let c = children(i)?;
        i.parse::<Token![<]>()?;
        i.parse::<Token![/]>()?;
        i.parse::<Token![>]>()?;
        return Ok(Node::List(c));
    }
    let path: Path = i.parse()?;
    let mut attrs = Vec::new();
    loop {
        if i.peek(Token![/]) {
            i.parse::<Token![/]>()?;
            i.parse::<Token![>]>()?;
            return Ok(Node::Element { path, attrs, children: vec![] });
        }
        if i.peek(Token![>]) {
            i.parse::<Token![>]>()?;
            break;
        }
        if i.peek(token::Brace) {
            // {name}
            let c;
            braced!(c in i);
            let n: Ident = c.parse()?;
            attrs.push((n.clone(), quote! { #n }));
            continue;
        }
        use syn::ext::IdentExt;
        let n = Ident::parse_any(i)?;
        i.parse::<Token![=]>()?;
        let v = if i.peek(token::Brace) {
            let c;
            braced!(c in i);
            let e: T2 = c.parse()?;
            quote! { { #e } }
        } else {
            let l: Lit = i.parse()?;
            quote! { #l }
        };
        attrs.push((n, v));
    }
    let c = children(i)?;
    i.parse::<Token![<]>()?;
    i.parse::<Token![/]>()?;
    i.parse::<Path>()?;
    i.parse::<Token![>]>()?;
    Ok(Node::Element { path, attrs, children: c })
}

fn cond(i: ParseStream) -> Result<Node> {
    i.parse::<Token![if]>()?;
    let e = Expr::parse_without_eager_brace(i)?;
    let then = block(i)?;
    let other = if i.peek(Token![else]) {
        i.parse::<Token![else]>()?;
        Some(Box::new(if i.peek(Token![if]) { cond(i)? } else { Node::List(block(i)?) }))
    } else {
        None
    };
    Ok(Node::If(quote! { #e }, then, other))
}

fn list(v: &[Node]) -> T2 {
    let c = v.iter().map(gen);
    quote! { ::yew::Html::List(vec![#(#c),*]) }
}

fn gen(n: &Node) -> T2 {
    match n {
        Node::Text(t) => t.clone(),
        Node::List(v) => list(v),
        Node::If(e, a, b) => {
            let a = list(a);
            let b = b.as_ref().map(|b| gen(b)).unwrap_or(quote! { ::yew::Html::Nothing });
            quote! { if #e { #a } else { #b } }
        }
        Node::Element { path, attrs, children } => {
            let c = list(children);
            let last = path.segments.last().unwrap().ident.to_string();
            if last.starts_with(|c: char| c.is_ascii_uppercase()) {
                let sets = attrs.iter().map(|(n, v)| quote! { __b.#n = Some(::yew::IntoPropValue::into_prop_value(#v)); });
                let ch = if children.is_empty() { quote!() } else { quote! { __b.children = Some(::yew::Children(#c)); } };
                quote! {{
                    let mut __b = <<#path as ::yew::Component>::Properties as ::yew::Properties>::Builder::default();
                    #(#sets)*
                    #ch
                    ::yew::Html::component::<#path>(<<#path as ::yew::Component>::Properties as ::yew::Properties>::build(__b))
                }}
            } else {
                let mut plain = Vec::new();
                let mut on = Vec::new();
                for (n, v) in attrs {
                    let k = n.to_string();
                    if k.starts_with("on") {
                        on.push(quote! { (#k, ::yew::handler(::yew::IntoPropValue::into_prop_value(#v))) });
                    } else {
                        plain.push(quote! { (#k, ::yew::attr(#v)) });
                    }
                }
                quote! { ::yew::Html::Tag { name: #last, attrs: vec![#(#plain),*], on: vec![#(#on),*], children: Box::new(#c) } }
            }
        }
    }
}

#[proc_macro]
pub fn html(t: TokenStream) -> TokenStream {
    let Root(v) = parse_macro_input!(t as Root);
    if v.len() == 1 {
        gen(&v[0]).into()
    } else {
        list(&v).into()
    }
}

#[proc_macro]
pub fn classes(t: TokenStream) -> TokenStream {
    let t: T2 = t.into();
    quote! { { let _ = (#t); ::yew::Classes::default() } }.into()
}

// ---------------------------------------------------------------- Properties

#[proc_macro_derive(Properties, attributes(prop_or_default, prop_or, prop_or_else))]
pub fn properties(t: TokenStream) -> TokenStream {
    let s = parse_macro_input!(t as DeriveInput);
    let Data::Struct(d) = &s.data else { panic!("Properties of a struct") };
    let (n, vis) = (&s.ident, &s.vis);
    let b = format_ident!("{}Builder", n);
    let (ig, tg, wh) = s.generics.split_for_impl();
    let generics = &s.generics;
    let fields: Vec<_> = d.fields.iter().collect();
    let ids: Vec<_> = fields.iter().map(|f| f.ident.clone().unwrap()).collect();
    let tys: Vec<_> = fields.iter().map(|f| &f.ty).collect();
    let vals = fields.iter().map(|f| {
        let id = f.ident.as_ref().unwrap();
        let name = id.to_string();
        for a in &f.attrs {
            if a.path().is_ident("prop_or_default") {
                return quote! { b.#id.unwrap_or_default() };
            }
            if a.path().is_ident("prop_or") {
                let e: Expr = a.parse_args().unwrap();
                return quote! { b.#id.unwrap_or(#e) };
            }
            if a.path().is_ident("prop_or_else") {
                let e: Expr = a.parse_args().unwrap();
                return quote! { b.#id.unwrap_or_else(#e) };
            }
        }
        quote! { b.#id.unwrap_or_else(|| panic!("property {} is required", #name)) }
    });
    quote! {
        #vis struct #b #generics #wh { #(pub #ids: Option<#tys>),* }
        impl #ig Default for #b #tg #wh { fn default() -> Self { Self { #(#ids: None),* } } }
        impl #ig ::yew::Properties for #n #tg #wh {
            type Builder = #b #tg;
            fn build(b: Self::Builder) -> Self { Self { #(#ids: #vals),* } }
        }
    }
    .into()
}

// ---------------------------------------------------------------- function components

#[proc_macro_attribute]
pub fn function_component(args: TokenStream, item: TokenStream) -> TokenStream {
    let f = parse_macro_input!(item as ItemFn);
    let name: Ident = if args.is_empty() { f.sig.ident.clone() } else { parse_macro_input!(args as Ident) };
    let vis = &f.vis;
    let (ig, tg, wh) = f.sig.generics.split_for_impl();
    let generics = &f.sig.generics;
    let params: Vec<_> = f.sig.generics.type_params().map(|p| &p.ident).collect();
    let (props, bind): (T2, T2) = match f.sig.inputs.first() {
        Some(FnArg::Typed(t)) => {
            let Type::Reference(r) = &*t.ty else { panic!("props by reference") };
            let (ty, p) = (&r.elem, &t.pat);
            (quote! { #ty }, quote! { let #p: &#ty = __ctx.props(); })
        }
        _ => (quote! { () }, quote! {}),
    };
    let body = &f.block;
    let attrs = &f.attrs;
    quote! {
        #(#attrs)*
        #vis struct #name #generics (::std::marker::PhantomData<(#(#params,)*)>) #wh;
        impl #ig ::yew::Component for #name #tg #wh {
            type Message = ();
            type Properties = #props;
            const KEEPS: bool = false;
            fn create(_: &::yew::Context<Self>) -> Self { Self(::std::marker::PhantomData) }
            fn view(&self, __ctx: &::yew::Context<Self>) -> ::yew::Html {
                #bind
                #body
            }
        }
    }
    .into()
}
