#[verifier::external_body]
pub fn vx_nth<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
#[verifier::external_body]
pub fn vx_text(s: &String) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_cl<T>(s: &T) -> (r: T) ensures r == *s { unimplemented!() }
// the derived Clone of the layout types copies
impl Clone for BinProtRule { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Summand { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for TaggedPolyvar { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

// ------------------------------------------------------------ the traversal
pub type Stk = Seq<(BinProtRule, usize)>;
pub open spec fn text_of(o: Option<String>) -> Path { match o { Some(s) => Some(s@), None => None } }
/// what a step of the traversal hands to the code that drives it
pub enum Nx { Rule(BinProtRule), Named(Seq<char>, Vec<BinProtRule>) }
pub open spec fn nx_is(r: BinProtRule, n: Nx) -> bool {
    match n { Nx::Rule(x) => r == x, Nx::Named(p, rs) => match r { BinProtRule::CustomForPath(q, qs) => q@ == p && qs == rs, _ => false } }
}
pub open spec fn once(r: BinProtRule) -> (BinProtRule, usize) { (r, 1usize) }
pub open spec fn rev_fields(v: Seq<RecordField>) -> Stk { Seq::new(v.len(), |i: int| once(v[v.len() - 1 - i].field_rule)) }
pub open spec fn rev_rules(v: Seq<BinProtRule>) -> Stk { Seq::new(v.len(), |i: int| once(v[v.len() - 1 - i])) }
/// visiting `r` with `below` left for later: what is handed out, what is left, the path of the innermost reference
pub open spec fn visit(r: BinProtRule, below: Stk, path: Path) -> (Nx, Stk, Path)
    decreases r
{
    match r {
        BinProtRule::Record(fs) => (Nx::Rule(r), below + rev_fields(fs@), path),
        BinProtRule::Tuple(rs) => (Nx::Rule(r), below + rev_rules(rs@), path),
        BinProtRule::Reference(RuleRef::Resolved(p)) => visit(*p.ref_rule, below, Some(p.source_module_path@)),
        BinProtRule::Custom(rs) => match path { Some(p) => (Nx::Named(p, rs), below, path), None => (Nx::Rule(r), below, path) },
        BinProtRule::CustomForPath(p, rs) => (Nx::Named(p@, rs), below, path),
        _ => (Nx::Rule(r), below, path),
    }
}
/// one visit less of the rule on top
pub open spec fn popped(s: Stk) -> Stk { if s.last().1 > 1 { s.drop_last().push((s.last().0, (s.last().1 - 1) as usize)) } else { s.drop_last() } }
pub trait Iterator: Sized { type Item; fn next(&mut self) -> (r: Option<Self::Item>); }
//@fn RuleIter::next
    ensures
        old(self).stack@.len() == 0 ==> r is None && final(self).stack@ == old(self).stack@ && text_of(final(self).current_module_path) == text_of(old(self).current_module_path),
        old(self).stack@.len() > 0 ==> r is Some && ({
            let (n, s, p) = visit(old(self).stack@.last().0, popped(old(self).stack@), text_of(old(self).current_module_path));
            nx_is(r->Some_0, n) && final(self).stack@ == s && text_of(final(self).current_module_path) == p }),
    decreases old(self).stack@.last().0,
//@entry
    broadcast use push_drop;
//@loop 0
    invariant
        vx_i0 <= vx_s0@.len(), self.stack@ =~= popped(old(self).stack@) + rev_fields(vx_s0@).take(vx_i0 as int), self.current_module_path == old(self).current_module_path,
    decreases vx_s0@.len() - vx_i0
//@loop 1
    invariant
        vx_i1 <= vx_s1@.len(), self.stack@ =~= popped(old(self).stack@) + rev_rules(vx_s1@).take(vx_i1 as int), self.current_module_path == old(self).current_module_path,
    decreases vx_s1@.len() - vx_i1
//@end
//@fn BinProtRuleIterator::push
    ensures final(self).stack@ =~= old(self).stack@ + Seq::new(rules@.len(), |i: int| once(rules@[i])), final(self).current_module_path == old(self).current_module_path,
//@loop 0
    invariant vx_i0 <= vx_s0@.len(), vx_s0@ == rules@, self.stack@ =~= old(self).stack@ + Seq::new(vx_i0 as nat, |i: int| once(rules@[i])), self.current_module_path == old(self).current_module_path,
    decreases vx_s0@.len() - vx_i0
//@end
//@fn BinProtRuleIterator::push_n
    ensures n == 0 ==> final(self).stack@ == old(self).stack@, n > 0 ==> final(self).stack@ == old(self).stack@.push((rule, n)), final(self).current_module_path == old(self).current_module_path,
//@end
//@fn RuleInto::into_iter
    ensures r.stack@ =~= seq![once(self)], r.current_module_path is None,
//@end
pub trait IntoIterator: Sized { type Item; type IntoIter; fn into_iter(self) -> Self::IntoIter; }
pub broadcast proof fn push_drop(s: Stk, x: (BinProtRule, usize))
    ensures #[trigger] popped(s.push(x)) == (if x.1 > 1 { s.push((x.0, (x.1 - 1) as usize)) } else { s })
{ assert(s.push(x).drop_last() =~= s); }
