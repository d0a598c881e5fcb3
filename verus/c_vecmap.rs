//@include prelude_core.rs
broadcast use vx_bits;
use vstd::std_specs::convert::*;
//@include part_vec_of.rs
/// what the rewrite vec_map_into stands for: the iterator chain itself
pub fn vx_map_into<A, B: From<A>>(v: Vec<A>) -> (r: Vec<B>)
    ensures <B as FromSpec<A>>::obeys_from_spec() ==> r == mapped::<A, B>(v)
{
    let r: Vec<B> = v.into_iter().map(<A as Into<B>>::into).collect();
    assert(r@.len() == v@.len());
    assert(<B as FromSpec<A>>::obeys_from_spec() ==> forall|i: int| 0 <= i < r@.len() ==> call_ensures(<A as Into<B>>::into, (v@[i],), #[trigger] r@[i]));
    assert(<B as FromSpec<A>>::obeys_from_spec() ==> forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == <B as FromSpec<A>>::from_spec(v@[i]));
    proof { vec_of_same(Seq::new(v@.len(), |i: int| <B as FromSpec<A>>::from_spec(v@[i])), r); }
    r
}
} // verus!
fn main() {}
