// versions a wrapper gets when it is built from its content: the ones its type declares, at every level
pub open spec fn w1<T, const A: u16>(t: T) -> Versioned<T, A> { Versioned { version: A, t } }
pub open spec fn w2<T, const A: u16, const B: u16>(t: T) -> Versioned<Versioned<T, A>, B> { w1::<_, B>(w1::<T, A>(t)) }
pub open spec fn w3<T, const A: u16, const B: u16, const C: u16>(t: T) -> Versioned<Versioned<Versioned<T, A>, B>, C> { w1::<_, C>(w2::<T, A, B>(t)) }
pub open spec fn w4<T, const A: u16, const B: u16, const C: u16, const D: u16>(t: T) -> Versioned<Versioned<Versioned<Versioned<T, A>, B>, C>, D> { w1::<_, D>(w3::<T, A, B, C>(t)) }
impl<G0, const G1: u16> FromSpecImpl<G0> for Versioned<G0, G1> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(t: G0) -> Self { w1::<G0, G1>(t) }
}
impl<G0, const G1: u16, const G2: u16> FromSpecImpl<G0> for Versioned<Versioned<G0, G1>, G2> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(t: G0) -> Self { w2::<G0, G1, G2>(t) }
}
impl<G0, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<G0> for Versioned<Versioned<Versioned<G0, G1>, G2>, G3> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(t: G0) -> Self { w3::<G0, G1, G2, G3>(t) }
}
impl<G0, const G1: u16, const G2: u16, const G3: u16, const G4: u16> FromSpecImpl<G0> for Versioned<Versioned<Versioned<Versioned<G0, G1>, G2>, G3>, G4> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(t: G0) -> Self { w4::<G0, G1, G2, G3, G4>(t) }
}
impl<G0, const G1: u16> FromSpecImpl<Versioned<G0, G1>> for (G0,) {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Versioned<G0, G1>) -> Self { (v.t,) }
}
impl<G0, const G1: u16, const G2: u16> FromSpecImpl<Versioned<Versioned<G0, G1>, G2>> for (G0,) {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Versioned<Versioned<G0, G1>, G2>) -> Self { (v.t.t,) }
}
impl<G0, const G1: u16, const G2: u16, const G3: u16> FromSpecImpl<Versioned<Versioned<Versioned<G0, G1>, G2>, G3>> for (G0,) {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Versioned<Versioned<Versioned<G0, G1>, G2>, G3>) -> Self { (v.t.t.t,) }
}
impl<G0, const G1: u16, const G2: u16, const G3: u16, const G4: u16> FromSpecImpl<Versioned<Versioned<Versioned<Versioned<G0, G1>, G2>, G3>, G4>> for (G0,) {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Versioned<Versioned<Versioned<Versioned<G0, G1>, G2>, G3>, G4>) -> Self { (v.t.t.t.t,) }
}
//@fn Versioned::new
    ensures r == w1::<G0, G1>(t),
//@end
//@fn Versioned::inner
    ensures r == self.t,
//@end
//@fn Versioned::version
    ensures r == self.version,
//@end
//@fn Default::default
    ensures r.version == G1, call_ensures(G0::default, (), r.t),
//@end
//@rw canon_generics
//@emit protocol/versioned/src/lib.rs struct:Versioned
//@emit protocol/versioned/src/lib.rs impls
