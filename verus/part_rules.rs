pub type Path = Option<Seq<char>>;
/// the search for a variant with hash h ends here (an inherited list of variants is refused)
pub open spec fn tag_at(p: Polyvar, h: u32) -> bool { match p { Polyvar::Tagged(t) => t.hash == h, Polyvar::Inherited(_) => true } }
pub open spec fn first_sum(ss: Seq<Summand>, x: u8) -> Option<int> decreases ss.len() {
    if ss.len() == 0 { None } else { match first_sum(ss.drop_last(), x) { Some(i) => Some(i), None => if ss.last().index == x { Some(ss.len() - 1) } else { None } } }
}
pub broadcast proof fn lemma_first_sum(ss: Seq<Summand>, x: u8)
    ensures match #[trigger] first_sum(ss, x) {
        None => forall|j: int| 0 <= j < ss.len() ==> (#[trigger] ss[j]).index != x,
        Some(i) => 0 <= i < ss.len() && ss[i].index == x && forall|j: int| 0 <= j < i ==> (#[trigger] ss[j]).index != x }
    decreases ss.len()
{ if ss.len() > 0 { lemma_first_sum(ss.drop_last(), x); let d = ss.drop_last(); assert(forall|j: int| 0 <= j < d.len() ==> d[j] == #[trigger] ss[j]); } }
pub open spec fn first_tag(ps: Seq<Polyvar>, h: u32) -> Option<int> decreases ps.len() {
    if ps.len() == 0 { None } else { match first_tag(ps.drop_last(), h) { Some(i) => Some(i), None => if tag_at(ps.last(), h) { Some(ps.len() - 1) } else { None } } }
}
pub open spec fn vector_len(p: Seq<char>) -> Option<int> {
    if p == "Pickles_type.Vector.Vector2"@ || p == "Pickles_types.Vector.Vector2"@ { Some(2) }
    else if p == "Pickles_types.Vector.Vector4"@ { Some(4) }
    else if p == "Pickles_types.Vector.Vector8"@ { Some(8) }
    else if p == "Pickles_types.Vector.Vector17"@ { Some(17) }
    else if p == "Pickles_types.Vector.Vector18"@ { Some(18) }
    else { None }
}
/// the types that are 32 raw bytes
pub open spec fn field_element(p: Seq<char>) -> bool {
    p == "Ledger_hash0"@ || p == "State_hash"@ || p == "Pending_coinbase.Stack_hash"@ || p == "State_body_hash"@ || p == "Pending_coinbase.Hash_builder"@
    || p == "Snark_params.Make_inner_curve_scalar"@ || p == "Snark_params.Tick"@ || p == "Epoch_seed"@ || p == "Zexe_backend.Zexe_backend_common.Stable.Field"@ || p == "Pending_coinbase.Coinbase_stack"@
}
pub broadcast proof fn lemma_first_tag(ps: Seq<Polyvar>, h: u32)
    ensures match #[trigger] first_tag(ps, h) {
        None => forall|j: int| 0 <= j < ps.len() ==> !tag_at(#[trigger] ps[j], h),
        Some(i) => 0 <= i < ps.len() && tag_at(ps[i], h) && forall|j: int| 0 <= j < i ==> !tag_at(#[trigger] ps[j], h) }
    decreases ps.len()
{ if ps.len() > 0 { lemma_first_tag(ps.drop_last(), h); let d = ps.drop_last(); assert(forall|j: int| 0 <= j < d.len() ==> d[j] == #[trigger] ps[j]); } }
