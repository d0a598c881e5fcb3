//! stand-in for strum's EnumString: unit variants by name
use proc_macro::TokenStream;
use quote::quote;
use syn::*;
#[proc_macro_derive(EnumString, attributes(strum))]
pub fn derive(i: TokenStream) -> TokenStream {
    let d: DeriveInput = parse_macro_input!(i as DeriveInput); let n = &d.ident;
    let v: Vec<_> = match &d.data { Data::Enum(e) => e.variants.iter().map(|v| v.ident.clone()).collect(), _ => panic!() };
    let s: Vec<_> = v.iter().map(|v| v.to_string()).collect();
    quote!(impl ::core::str::FromStr for #n { type Err = ::strum::ParseError; fn from_str(s: &str) -> ::core::result::Result<Self, ::strum::ParseError> { match s { #(#s => Ok(#n::#v),)* _ => Err(::strum::ParseError::VariantNotFound) } } }
    impl ::core::convert::TryFrom<&str> for #n { type Error = ::strum::ParseError; fn try_from(s: &str) -> ::core::result::Result<Self, ::strum::ParseError> { ::core::str::FromStr::from_str(s) } }).into()
}
