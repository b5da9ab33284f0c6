//! `#[bitflags]` for enums whose variants all carry their bit.
use proc_macro::TokenStream;
use quote::quote;

#[proc_macro_attribute]
pub fn bitflags(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let e: syn::ItemEnum = syn::parse(item).unwrap();
    let name = &e.ident;
    let repr = e.attrs.iter().find(|a| a.path().is_ident("repr")).map(|a| a.parse_args::<syn::Ident>().unwrap()).expect("a repr");
    let vs: Vec<_> = e.variants.iter().map(|v| &v.ident).collect();
    quote! {
        #e
        impl ::enumflags2::BitFlag for #name {
            type Numeric = #repr;
            const ALL_BITS: #repr = 0 #(| (#name::#vs as #repr))*;
            const VARIANTS: &'static [Self] = &[#(#name::#vs),*];
            fn bit(self) -> #repr { self as #repr }
        }
        impl ::core::ops::BitOr for #name {
            type Output = ::enumflags2::BitFlags<Self>;
            fn bitor(self, o: Self) -> Self::Output { ::enumflags2::BitFlags::from(self) | o }
        }
        impl ::core::ops::Not for #name {
            type Output = ::enumflags2::BitFlags<Self>;
            fn not(self) -> Self::Output { !::enumflags2::BitFlags::from(self) }
        }
    }.into()
}
