//! `#[command]` and `generate_handler!` with the argument and result conventions of tauri 1.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse::Parser, punctuated::Punctuated, FnArg, ItemFn, Pat, Path, Token, Type};

fn camel(s: &str) -> String {
    let mut up = false;
    let mut out = String::new();
    for c in s.chars() {
        if c == '_' {
            up = true;
        } else if up {
            out.extend(c.to_uppercase());
            up = false;
        } else {
            out.push(c);
        }
    }
    out
}

#[proc_macro_attribute]
pub fn command(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let f: ItemFn = syn::parse(item).expect("a function");
    let name = &f.sig.ident;
    let wrapper = format_ident!("__cmd__{}", name);
    let mut args = Vec::new();
    for a in &f.sig.inputs {
        let FnArg::Typed(t) = a else { panic!("commands have no receiver") };
        let Pat::Ident(p) = &*t.pat else { panic!("plain argument names only") };
        let is = |n: &str| matches!(&*t.ty, Type::Path(x) if x.path.segments.last().is_some_and(|s| s.ident == n));
        args.push(if is("Window") || is("AppHandle") {
            quote!(window.clone().into())
        } else {
            let key = camel(&p.ident.to_string());
            quote!(::tauri::argument(&args, #key)?)
        });
    }
    let call = if f.sig.asyncness.is_some() { quote!(#name(#(#args),*).await) } else { quote!(#name(#(#args),*)) };
    quote! {
        #f
        #[doc(hidden)]
        #[allow(non_snake_case, dead_code, unused_variables)]
        pub fn #wrapper(window: ::tauri::Window, args: ::tauri::Args) -> ::tauri::Reply {
            Box::pin(async move {
                use ::tauri::IntoReply as _;
                ::tauri::Wrap(#call).reply()
            })
        }
    }
    .into()
}

#[proc_macro]
pub fn generate_handler(input: TokenStream) -> TokenStream {
    let paths = Punctuated::<Path, Token![,]>::parse_terminated.parse(input).expect("paths");
    let arms = paths.iter().map(|p| {
        let mut w = p.clone();
        let last = w.segments.last_mut().unwrap();
        let name = last.ident.to_string();
        last.ident = format_ident!("__cmd__{}", last.ident);
        quote!(#name => ::core::option::Option::Some(#w(window, args)))
    });
    quote!(|name: &str, window: ::tauri::Window, args: ::tauri::Args| match name { #(#arms,)* _ => ::core::option::Option::None }).into()
}

#[proc_macro]
pub fn generate_context(_: TokenStream) -> TokenStream {
    quote!(::tauri::Context).into()
}
