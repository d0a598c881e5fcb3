pub uninterp spec fn vec_of<T>(s: Seq<T>) -> Vec<T>;
pub broadcast axiom fn vec_of_view<T>(s: Seq<T>) requires s.len() <= usize::MAX ensures #[trigger] vec_of(s)@ == s;
pub broadcast axiom fn vec_of_same<T>(s: Seq<T>, v: Vec<T>) ensures #![trigger vec_of(s), v@] v@ =~= s ==> v == vec_of(s);
/// every element converted, in order
pub open spec fn mapped<A, B: From<A>>(v: Vec<A>) -> Vec<B> { vec_of(Seq::new(v@.len(), |i: int| <B as FromSpec<A>>::from_spec(v@[i]))) }
