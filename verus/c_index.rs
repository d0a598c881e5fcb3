//@include prelude_core.rs
broadcast use vx_bits;
pub mod ops { use vstd::prelude::*; verus! {
pub trait Index<I> { type Output; fn index(&self, index: I) -> &Self::Output; }
} }
pub mod fmtx { pub trait Display {} }
#[verifier::external_body]
pub fn vx_eq(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_clone(v: &Option<Box<Value>>) -> (r: Option<Box<Value>>) ensures r == *v { unimplemented!() }
#[verifier::external_body]
pub fn vx_str(s: &String) -> (r: &str) ensures r@ == s@ { unimplemented!() }
/// asking for what is not there: the code panics, which never yields another component
#[verifier::external_body]
pub fn vx_abort<T>() -> (r: T) ensures false { panic!() }

// ------------------------------------------------------------ what is addressed
pub open spec fn body(v: Value) -> Value { match v { Value::Sum { value, .. } => *value, _ => v } }
pub open spec fn by_position(v: Value, i: int) -> Option<Value> {
    match body(v) {
        Value::List(x) => if 0 <= i < x@.len() { Some(x@[i]) } else { None },
        Value::Tuple(x) => if 0 <= i < x@.len() { Some(x@[i]) } else { None },
        _ => None,
    }
}
pub open spec fn first_key(m: Seq<(String, Value)>, k: Seq<char>) -> Option<Value>
    decreases m.len()
{
    if m.len() == 0 { None } else if m[0].0@ == k { Some(m[0].1) } else { first_key(m.skip(1), k) }
}
pub open spec fn by_name(v: Value, k: Seq<char>) -> Option<Value> { match body(v) { Value::Record(m) => first_key(m@, k), _ => None } }
pub open spec fn found(r: Option<&Value>, w: Option<Value>) -> bool { match r { Some(x) => w == Some(*x), None => w is None } }
pub proof fn first_key_skip(m: Seq<(String, Value)>, k: Seq<char>, n: int)
    requires 0 <= n <= m.len(), forall|j: int| 0 <= j < n ==> (#[trigger] m[j]).0@ != k
    ensures first_key(m, k) == first_key(m.skip(n), k)
    decreases n
{
    if n == 0 { assert(m.skip(0) =~= m); } else {
        assert(forall|j: int| 0 <= j < n - 1 ==> (#[trigger] m.skip(1)[j]) == m[j + 1]);
        first_key_skip(m.skip(1), k, n - 1); assert(m.skip(1).skip(n - 1) =~= m.skip(n)); }
}
/// first_key is decided by the first matching entry
pub proof fn first_key_all(m: Seq<(String, Value)>, k: Seq<char>)
    ensures
        forall|n: int| 0 <= n < m.len() && (#[trigger] m[n]).0@ == k && (forall|j: int| 0 <= j < n ==> (#[trigger] m[j]).0@ != k) ==> first_key(m, k) == Some(m[n].1),
        (forall|j: int| 0 <= j < m.len() ==> (#[trigger] m[j]).0@ != k) ==> first_key(m, k) is None,
{
    assert forall|n: int| 0 <= n < m.len() && (#[trigger] m[n]).0@ == k && (forall|j: int| 0 <= j < n ==> (#[trigger] m[j]).0@ != k) implies first_key(m, k) == Some(m[n].1) by {
        first_key_skip(m, k, n); assert(m.skip(n)[0] == m[n]); }
    if forall|j: int| 0 <= j < m.len() ==> (#[trigger] m[j]).0@ != k { first_key_skip(m, k, m.len() as int); }
}
//@impl Index
    spec fn addressed(&self, v: Value) -> Option<Value>;
//@end
//@impl IdxUsize
    open spec fn addressed(&self, v: Value) -> Option<Value> { by_position(v, *self as int) }
//@end
//@impl IdxStr
    open spec fn addressed(&self, v: Value) -> Option<Value> { by_name(v, self@) }
//@end
//@impl IdxString
    open spec fn addressed(&self, v: Value) -> Option<Value> { by_name(v, self@) }
//@end
//@impl IdxRef
    open spec fn addressed(&self, v: Value) -> Option<Value> { (**self).addressed(v) }
//@end
//@fn Index::index_into
    ensures found(r, self.addressed(*v)),
//@end
//@fn IdxUsize::index_into
//@end
//@fn IdxStr::index_into
//@loop 0
    invariant
        vx_i0 <= vx_s0@.len(), body(*v) is Record, vx_s0@ == body(*v)->Record_0@,
        forall|j: int| 0 <= j < vx_i0 && (vx_a0 is None || j < vx_i0 - 1) ==> (#[trigger] vx_s0@[j]).0@ != self@,
        vx_a0 is Some ==> vx_i0 > 0 && *vx_a0->Some_0 == vx_s0@[vx_i0 - 1] && vx_s0@[vx_i0 - 1].0@ == self@,
    decreases vx_s0@.len() - vx_i0
//@loop 1
    invariant
        vx_i1 <= vx_s1@.len(), body(*v) is Record, vx_s1@ == body(*v)->Record_0@,
        forall|j: int| 0 <= j < vx_i1 && (vx_a1 is None || j < vx_i1 - 1) ==> (#[trigger] vx_s1@[j]).0@ != self@,
        vx_a1 is Some ==> vx_i1 > 0 && *vx_a1->Some_0 == vx_s1@[vx_i1 - 1] && vx_s1@[vx_i1 - 1].0@ == self@,
    decreases vx_s1@.len() - vx_i1
//@entry
    proof { if body(*v) is Record { first_key_all(body(*v)->Record_0@, self@); } }
//@end
//@fn IdxString::index_into
//@end
//@fn IdxRef::index_into
//@end
//@fn OpsIndex::index
    ensures index.addressed(*self) == Some(*r),
//@end
//@fn Value::inner
    ensures self is Option && r is Some ==> self->Option_0 is Some && *(self->Option_0->Some_0) == r->Some_0,
        self is Option && r is None ==> self->Option_0 is None,
        self is Option,
//@end
//@rw iter
//@rw option_map
//@emit protocol/bin-prot/src/value/mod.rs enum:Value
//@sub k == self =>> vx_eq ( k , self )
//@sub inner . clone ( ) =>> vx_clone ( inner )
//@sub self [ .. ] . index_into =>> vx_str ( self ) . index_into
//@sub vx_panic ( ) =>> vx_abort ( )
//@sub std :: fmt :: Display =>> fmtx :: Display
//@emit protocol/bin-prot/src/value/mod.rs impl:=implValue only=inner as=Value
//@emit protocol/bin-prot/src/value/index.rs trait:Index
//@emit protocol/bin-prot/src/value/index.rs impl:Indexforusize as=IdxUsize
//@emit protocol/bin-prot/src/value/index.rs impl:Indexforstr as=IdxStr
//@emit protocol/bin-prot/src/value/index.rs impl:IndexforString as=IdxString
//@emit protocol/bin-prot/src/value/index.rs impl:Indexfor&'aT as=IdxRef
//@emit protocol/bin-prot/src/value/index.rs impl:ops::Index<I>forValue as=OpsIndex
} // verus!
fn main() {}
