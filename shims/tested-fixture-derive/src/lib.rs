use proc_macro::TokenStream;
use quote::quote;
use syn::parse::{Parse, ParseStream};

struct Args { vis: syn::Visibility, name: syn::Ident, ty: Option<syn::Type> }
impl Parse for Args {
    fn parse(i: ParseStream) -> syn::Result<Self> {
        let (vis, name) = (i.parse()?, i.parse()?);
        let ty = if i.peek(syn::Token![:]) { i.parse::<syn::Token![:]>()?; Some(i.parse()?) } else { None };
        Ok(Args { vis, name, ty })
    }
}
#[proc_macro_attribute]
pub fn tested_fixture(attr: TokenStream, item: TokenStream) -> TokenStream {
    let Args { vis, name, ty } = syn::parse(attr).unwrap();
    let f: syn::ItemFn = syn::parse(item).unwrap();
    let (id, attrs, block, ret) = (&f.sig.ident, &f.attrs, &f.block, &f.sig.output);
    let body = quote! { fn run() #ret #block };
    let (ty, val) = match ty {
        Some(t) => (quote!(#t), quote!({ #body run().unwrap() })),
        None => match ret { syn::ReturnType::Type(_, t) => (quote!(#t), quote!({ #body run() })), _ => (quote!(()), quote!({ #body run() })) },
    };
    quote! {
        #vis static #name: ::tested_fixture::Lazy<#ty> = ::tested_fixture::Lazy::new(|| Box::leak(Box::new(#val)));
        #[test] #(#attrs)* fn #id() { ::tested_fixture::Lazy::force(&#name); }
    }.into()
}
