//! stand-in for smart_default: the derive, for plain structs and enums
use proc_macro::TokenStream;
use quote::quote;
use syn::*;
fn expr(a: &[Attribute], ty: &Type) -> proc_macro2::TokenStream {
    for x in a { if x.path.is_ident("default") { if let Ok(e) = x.parse_args::<Expr>() { return quote!(#e); }
        if let Ok(Meta::NameValue(n)) = x.parse_meta() { let l = n.lit; return quote!(#l.into()); } } }
    quote!(<#ty as ::core::default::Default>::default())
}
fn fields(f: &Fields) -> proc_macro2::TokenStream { match f {
    Fields::Named(n) => { let v = n.named.iter().map(|f| { let (i, e) = (&f.ident, expr(&f.attrs, &f.ty)); quote!(#i: #e) }); quote!({ #(#v),* }) }
    Fields::Unnamed(n) => { let v = n.unnamed.iter().map(|f| expr(&f.attrs, &f.ty)); quote!((#(#v),*)) }
    Fields::Unit => quote!() } }
#[proc_macro_derive(SmartDefault, attributes(default))]
pub fn derive(i: TokenStream) -> TokenStream {
    let d: DeriveInput = parse_macro_input!(i as DeriveInput); let n = &d.ident; let (a, b, c) = d.generics.split_for_impl();
    let e = match &d.data { Data::Struct(s) => { let f = fields(&s.fields); quote!(#n #f) }
        Data::Enum(s) => { let v = s.variants.iter().find(|v| v.attrs.iter().any(|a| a.path.is_ident("default"))).expect("default variant"); let (w, f) = (&v.ident, fields(&v.fields)); quote!(#n::#w #f) }
        _ => panic!() };
    quote!(impl #a ::core::default::Default for #n #b #c { fn default() -> Self { #e } }).into()
}
