//@include prelude_core.rs
use vstd::std_specs::convert::*;
//@include part_versioned.rs
// a vector is its elements
pub mod vecs { use vstd::prelude::*; use vstd::std_specs::convert::*; verus! {
//@include part_vec_of.rs
// std: converting a value to its own type gives it back
pub broadcast axiom fn from_self<T>(t: T) ensures #[trigger] <T as FromSpec<T>>::from_spec(t) == t;
pub broadcast axiom fn from_self_holds<T>() ensures #[trigger] <T as FromSpec<T>>::obeys_from_spec();
// proved in the unit c_vecmap
#[verifier::external_body]
pub fn vx_map_into<A, B: From<A>>(v: Vec<A>) -> (r: Vec<B>)
    ensures <B as FromSpec<A>>::obeys_from_spec() ==> r == mapped::<A, B>(v)
{ v.into_iter().map(::std::convert::Into::into).collect() }
} }
use vecs::*;
broadcast use {vec_of_view, from_self, from_self_holds};
//@rw vec_map_into
// what the fields convert to
pub struct W(pub u64);
impl FromSpecImpl<u64> for W { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: u64) -> Self { W(v) } }
impl FromSpecImpl<W> for u64 { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: W) -> Self { v.0 } }
pub struct S(pub String);
impl FromSpecImpl<String> for S { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: String) -> Self { S(v) } }
impl FromSpecImpl<S> for String { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: S) -> Self { v.0 } }
pub struct Inner { pub a: u64, pub b: Vec<u64> }
pub struct InnerT { pub b: Vec<W>, pub a: W }
//@include part_autofrom.rs
//@sub :: versioned :: Versioned =>> Versioned
//@emit !expanded/af.rs impls:From
} // verus!
fn main() {}
