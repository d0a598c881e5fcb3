//@include prelude_core.rs
broadcast use vx_bits;
use vstd::std_specs::convert::*;
//@include part_versioned.rs
// ---- the conversion macros, expanded for types that stand for any type
macro_rules! convertible { ($a:ty, $b:ty, $f:ident) => { verus! {
    pub uninterp spec fn $f(v: $a) -> $b;
    impl FromSpecImpl<$a> for $b {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: $a) -> Self { $f(v) }
    }
} } }
macro_rules! assumed { ($a:ty, $b:ty) => { verus! { impl From<$a> for $b { #[verifier::external_body] fn from(v: $a) -> Self { unimplemented!() } } } } }
pub struct P(pub u64);
impl<const G0: u16> FromSpecImpl<Versioned<P, G0>> for P {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Versioned<P, G0>) -> Self { v.t }
}
impl<const G0: u16, const G1: u16> FromSpecImpl<Versioned<Versioned<P, G0>, G1>> for P {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Versioned<Versioned<P, G0>, G1>) -> Self { v.t.t }
}
//@sub :: versioned :: Versioned =>> Versioned
//@emit protocol/versioned/src/macros.rs macro:impl_from_versioned(P)
pub struct Content(pub u64);
pub struct N(pub Content);
pub type NV = Versioned<Versioned<Content, 11>, 12>;
impl FromSpecImpl<N> for NV {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: N) -> Self { w2::<Content, 11, 12>(v.0) }
}
impl FromSpecImpl<NV> for N {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: NV) -> Self { N(v.t.t) }
}
//@emit protocol/versioned/src/macros.rs macro:impl_from_for_newtype(N;NV)
// original <-> proxy <-> target: every conversion is an arbitrary function
pub struct Orig(pub u64);
pub struct Proxy(pub u64);
pub struct Json(pub u64);
convertible!(Orig, Proxy, orig_proxy);
convertible!(Proxy, Orig, proxy_orig);
convertible!(Json, Proxy, json_proxy);
convertible!(Proxy, Json, proxy_json);
assumed!(Orig, Proxy);
assumed!(Proxy, Orig);
assumed!(Json, Proxy);
assumed!(Proxy, Json);
impl FromSpecImpl<Orig> for Json {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Orig) -> Self { proxy_json(orig_proxy(v)) }
}
impl FromSpecImpl<Json> for Orig {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Json) -> Self { proxy_orig(json_proxy(v)) }
}
//@emit protocol/versioned/src/macros.rs macro:impl_from_with_proxy(Orig;Proxy;Json)
pub type PV = Versioned<Versioned<Proxy, 21>, 22>;
impl FromSpecImpl<Orig> for PV {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Orig) -> Self { w2::<Proxy, 21, 22>(orig_proxy(v)) }
}
impl FromSpecImpl<PV> for Orig {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: PV) -> Self { proxy_orig(v.t.t) }
}
//@emit protocol/versioned/src/macros.rs macro:impl_from_for_versioned_with_proxy(Orig;Proxy;PV)
pub struct Gen<T>(pub T);
pub type GP = Gen<Proxy>;
impl FromSpecImpl<Proxy> for GP {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Proxy) -> Self { Gen(v) }
}
impl From<Proxy> for GP { fn from(v: Proxy) -> Self { Gen(v) } }
impl FromSpecImpl<GP> for (Proxy,) {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: GP) -> Self { (v.0,) }
}
impl From<GP> for (Proxy,) { fn from(v: GP) -> Self { (v.0,) } }
impl FromSpecImpl<Orig> for GP {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Orig) -> Self { Gen(orig_proxy(v)) }
}
impl FromSpecImpl<GP> for Orig {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: GP) -> Self { proxy_orig(v.0) }
}
//@emit protocol/versioned/src/macros.rs macro:impl_from_for_generic_with_proxy(Orig;Proxy;GP)
} // verus!
fn main() {}
