use de::{EnumAccess as _, VariantAccess as _, SeqAccess as _, MapAccess as _, Deserializer as _};
// ------------------------------------------------------------ what the visitor makes of it
/// the value of the rule on top of the stack
pub open spec fn vdec(s: LS) -> LDec<SV> {
    if s.stack.len() == 0 { None } else { match ld(s.stack.last().0, s.path, s.rem) { Some((v, p, m)) => Some((v, LS { stack: popped(s.stack), path: p, rem: m })), None => None } }
}
pub open spec fn vseq(n: nat, s: LS) -> LDec<Seq<SV>> decreases n {
    if n == 0 { Some((seq![], s)) } else { match vdec(s) { None => None, Some((v, t)) => match vseq((n - 1) as nat, t) { None => None, Some((vs, u)) => Some((seq![v] + vs, u)) } } }
}
pub open spec fn vmap(names: Seq<Seq<char>>, s: LS) -> LDec<Seq<(Seq<char>, SV)>> decreases names.len() {
    if names.len() == 0 { Some((seq![], s)) } else { match vdec(s) { None => None, Some((v, t)) => match vmap(names.skip(1), t) { None => None, Some((vs, u)) => Some((seq![(names[0], v)] + vs, u)) } } }
}
pub open spec fn vv_on(e: Ev) -> Option<SV> {
    Some(match e { Ev::Bool(b) => SV::Bool(b), Ev::I64(n) => SV::Int(n), Ev::F64(f) => SV::Float(f), Ev::Char(c) => SV::Char(c as u8), Ev::Bytes(b) => SV::List(chars(b)), Ev::None => SV::Nothing, Ev::Unit => SV::Unit })
}
// ------------------------------------------------------------ the visitor of Value
/// serde: the seed of next_element/next_value/next_key is the PhantomData of the element type, which calls its Deserialize
pub struct ValueSeed;
pub struct StringSeed;
pub struct EnumDataSeed;
impl<'de> de::DeserializeSeed<'de> for ValueSeed {
    type Value = Value;
    type W = SV;
    open spec fn w(v: Value) -> SV { sv(v) }
    open spec fn dec(self, s: LS) -> LDec<SV> { vdec(s) }
    open spec fn of_name(self, n: Seq<char>) -> Option<SV> { None }
    open spec fn of_data(self, d: Vt) -> Option<SV> { None }
    fn deserialize<'a, R: Read>(self, de: &'a mut Deserializer<R, LooselyTyped>) -> (r: Result<Value>) { vx_value(de) }
    #[verifier::external_body]
    fn vx_deserialize_name<N: VxName>(self, n: N) -> (r: Result<Value>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_from_data(self, d: EnumData) -> (r: Result<Value>) { unimplemented!() }
}
impl<'de> de::DeserializeSeed<'de> for StringSeed {
    type Value = String;
    type W = Seq<char>;
    open spec fn w(v: String) -> Seq<char> { v@ }
    uninterp spec fn dec(self, s: LS) -> LDec<Seq<char>>;
    open spec fn of_name(self, n: Seq<char>) -> Option<Seq<char>> { Some(n) }
    open spec fn of_data(self, d: Vt) -> Option<Seq<char>> { None }
    #[verifier::external_body]
    fn deserialize<'a, R: Read>(self, de: &'a mut Deserializer<R, LooselyTyped>) -> (r: Result<String>) { unimplemented!() }
    /// String::deserialize of serde's StringDeserializer/StrDeserializer
    #[verifier::external_body]
    fn vx_deserialize_name<N: VxName>(self, n: N) -> (r: Result<String>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_from_data(self, d: EnumData) -> (r: Result<String>) { unimplemented!() }
}
impl<'de> de::DeserializeSeed<'de> for EnumDataSeed {
    type Value = EnumData;
    type W = Vt;
    open spec fn w(v: EnumData) -> Vt { vt_of(v) }
    uninterp spec fn dec(self, s: LS) -> LDec<Vt>;
    open spec fn of_name(self, n: Seq<char>) -> Option<Vt> { None }
    open spec fn of_data(self, d: Vt) -> Option<Vt> { Some(d) }
    #[verifier::external_body]
    fn deserialize<'a, R: Read>(self, de: &'a mut Deserializer<R, LooselyTyped>) -> (r: Result<EnumData>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_deserialize_name<N: VxName>(self, n: N) -> (r: Result<EnumData>) { unimplemented!() }
    /// the data written by to_writer and read back by from_reader (C06)
    #[verifier::external_body]
    fn vx_from_data(self, d: EnumData) -> (r: Result<EnumData>) { unimplemented!() }
}
/// the recursive calls, taken by contract: vx_tie_value and vx_tie_body prove these contracts of the code they stand for
#[verifier::external_body]
pub fn vx_value<'a, R: Read>(de: &'a mut Deserializer<R, LooselyTyped>) -> (r: Result<Value>)
    ensures ldecoded(vdec(old(de).ls()), |v: Value| sv(v), r, final(de).ls(), old(de).reliable()), final(de).reliable() == old(de).reliable(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_variant_body<'a, R: Read>(a: Enum<'a, R, LooselyTyped>, len: usize, v: ValueVisitor) -> (r: Result<Value>)
    ensures ldecoded(vdec(old(a.de).ls()), |v: Value| sv(v), r, final(a.de).ls(), old(a.de).reliable()), final(a.de).reliable() == old(a.de).reliable(),
{ unimplemented!() }
pub fn vx_tie_value<'a, R: Read>(de: &'a mut Deserializer<R, LooselyTyped>) -> (r: Result<Value>)
    ensures ldecoded(vdec(old(de).ls()), |v: Value| sv(v), r, final(de).ls(), old(de).reliable()), final(de).reliable() == old(de).reliable(),
{ Value::deserialize(de) }
pub fn vx_tie_body<'a, R: Read>(a: Enum<'a, R, LooselyTyped>, len: usize, v: ValueVisitor) -> (r: Result<Value>)
    ensures ldecoded(vdec(old(a.de).ls()), |v: Value| sv(v), r, final(a.de).ls(), old(a.de).reliable()), final(a.de).reliable() == old(a.de).reliable(),
{ proof { loose_is_vdec(a.de.ls()); } a.tuple_variant(len, v) }
pub trait Deserialize<'de>: Sized { fn deserialize<'a, R: Read>(de: &'a mut Deserializer<R, LooselyTyped>) -> (r: Result<Self>); }
/// serde's MapAccess::next_entry
pub fn vx_next_entry<'a, R: Read>(a: &mut MapAccess<'a, R, LooselyTyped>) -> (r: Result<Option<(String, Value)>>)
    requires old(a).unnamed == 0,
    ensures
        *final(final(a).de) == *final(old(a).de), final(a).unnamed == 0, final(a).de.reliable() == old(a).de.reliable(),
        old(a).field_names@.len() == 0 ==> r is Ok && r->Ok_0 is None && final(a).field_names@.len() == 0 && final(a).de.ls() == old(a).de.ls(),
        old(a).field_names@.len() > 0 ==> final(a).field_names@ == old(a).field_names@.drop_last() && (r is Ok ==> r->Ok_0 is Some)
            && (r is Ok ==> r->Ok_0->Some_0.0@ == old(a).field_names@.last()@ && vdec(old(a).de.ls()) == Some((sv(r->Ok_0->Some_0.1), final(a).de.ls())))
            && (old(a).de.reliable() ==> (r is Ok <==> vdec(old(a).de.ls()) is Some)),
{
    match a.next_key_seed(StringSeed)? {
        Some(key) => { let value = a.next_value_seed(ValueSeed)?; Ok(Some((key, value))) }
        None => Ok(None),
    }
}
//@impl VV
    type W = SV;
    open spec fn w(v: Value) -> SV { sv(v) }
    open spec fn on(self, e: Ev) -> Option<SV> { vv_on(e) }
    open spec fn on_some(self, s: LS) -> LDec<SV> { match vdec(s) { Some((v, t)) => Some((SV::Just(Box::new(v)), t)), None => None } }
    open spec fn on_seq(self, n: nat, list: bool, s: LS) -> LDec<SV> { match vseq(n, s) { Some((vs, t)) => Some((if list { SV::List(vs) } else { SV::Tuple(vs) }, t)), None => None } }
    open spec fn on_map(self, names: Seq<Seq<char>>, s: LS) -> LDec<SV> { match vmap(names, s) { Some((vs, t)) => Some((SV::Record(vs), t)), None => None } }
    open spec fn on_enum(self, v: Vt, s: LS) -> LDec<SV> { match vdec(s) {
        Some((b, t)) => Some((match v { Vt::Sum { index, name, len } => SV::Sum { name, index, value: Box::new(b) }, Vt::Polyvar { index, tag, name, len } => SV::Polyvar { name, tag, value: Box::new(b) } }, t)),
        None => None } }
//@end
//@fn VV::visit_bytes
//@loop 0
    invariant vx_i0 <= vx_s0@.len(), vx_s0@ == value@, vx_a0@.len() == vx_i0, forall|i: int| 0 <= i < vx_i0 ==> #[trigger] vx_a0@[i] == Value::Char(value@[i]),
    decreases vx_s0@.len() - vx_i0
//@entry
    broadcast use sv_list, chars_ext;
//@end
//@fn VV::visit_some
//@end
//@fn VV::expecting
//@skip
//@end
//@fn VV::visit_str
//@skip
//@end
//@fn VV::visit_seq
//@attr #[verifier::loop_isolation(false)]
//@entry
    broadcast use sv_list, sv_tuple;
    proof { vseq_empty(visitor.de.ls()); }
    let ghost v0 = visitor;
//@loop 0
    invariant
        visitor.total_len == v0.len, visitor.is_list == v0.is_list, *final(visitor.de) == *final(v0.de), visitor.de.reliable() == v0.de.reliable(),
        vec@.len() + visitor.len == v0.len,
        vseq(vec@.len(), v0.de.ls()) == Some((ssv(vec@), visitor.de.ls())),
    decreases visitor.len
//@body 0
    broadcast use sv_list, sv_tuple;
    proof { if visitor.len > 0 { vseq_snoc(vec@.len(), v0.de.ls()); vseq_none(v0.len as nat, vec@.len() + 1, v0.de.ls());
        assert(forall|v: Value| #[trigger] ssv(vec@.push(v)) =~= ssv(vec@).push(sv(v))); } }
//@end
//@fn VV::visit_map
//@attr #[verifier::loop_isolation(false)]
//@entry
    broadcast use sv_record;
    let ghost v0 = visitor;
    let ghost names = unstacked(visitor.field_names@);
    proof { assert(names.take(0) =~= Seq::<Seq<char>>::empty()); assert(ssm(Seq::empty()) =~= Seq::<(Seq<char>, SV)>::empty()); }
//@loop 0
    invariant
        visitor.unnamed == 0, *final(visitor.de) == *final(v0.de), visitor.de.reliable() == v0.de.reliable(),
        names == unstacked(v0.field_names@), values@.len() + visitor.field_names@.len() == names.len(),
        forall|i: int| 0 <= i < visitor.field_names@.len() ==> visitor.field_names@[i] == v0.field_names@[i],
        vmap(names.take(values@.len() as int), v0.de.ls()) == Some((ssm(values@), visitor.de.ls())),
    decreases visitor.field_names@.len()
//@body 0
    broadcast use sv_record;
    proof { assert(names.take(names.len() as int) =~= names); if visitor.field_names@.len() > 0 { let n = values@.len() as int; assert(names.take(n + 1) =~= names.take(n).push(names[n])); vmap_snoc(names.take(n), names[n], v0.de.ls()); vmap_none(names, n + 1, v0.de.ls()); assert(names[n] == visitor.field_names@.last()@);
        assert(forall|k: String, v: Value| #[trigger] ssm(values@.push((k, v))) =~= ssm(values@).push((k@, sv(v)))); } }
//@end
//@fn VV::visit_enum
//@end
//@fn ValueDe::deserialize
    ensures ldecoded(vdec(old(deserializer).ls()), |v: Value| sv(v), r, final(deserializer).ls(), old(deserializer).reliable()), final(deserializer).reliable() == old(deserializer).reliable(),
//@entry
    proof { loose_is_vdec(deserializer.ls()); }
//@end
pub proof fn vseq_empty(s: LS) ensures vseq(0, s) == Some((ssv(Seq::empty()), s)) { assert(ssv(Seq::empty()) =~= seq![]); }

pub proof fn vseq_snoc(n: nat, s: LS)
    ensures vseq(n + 1, s) == (match vseq(n, s) { Some((vs, t)) => match vdec(t) { Some((v, u)) => Some((vs.push(v), u)), None => None }, None => None })
    decreases n
{
    match vdec(s) { None => { assert(vseq(n + 1, s) is None); if n == 0 { assert(vseq(0, s) == Some((Seq::<SV>::empty(), s))); } },
        Some((v, t)) => if n == 0 { assert(vseq(0, t) == Some((Seq::<SV>::empty(), t))); assert(seq![v] + Seq::<SV>::empty() =~= Seq::<SV>::empty().push(v)); } else {
            vseq_snoc((n - 1) as nat, t);
            match vseq((n - 1) as nat, t) { Some((vs, u)) => match vdec(u) { Some((w, x)) => { assert(seq![v] + vs.push(w) =~= (seq![v] + vs).push(w)); } None => {} }, None => {} }
        } }
}
pub proof fn vseq_none(n: nat, k: nat, s: LS) requires k <= n ensures vseq(k, s) is None ==> vseq(n, s) is None decreases n - k { if k < n { vseq_snoc(k, s); vseq_none(n, k + 1, s); } }
pub proof fn vmap_snoc(names: Seq<Seq<char>>, x: Seq<char>, s: LS)
    ensures vmap(names.push(x), s) == (match vmap(names, s) { Some((vs, t)) => match vdec(t) { Some((v, u)) => Some((vs.push((x, v)), u)), None => None }, None => None })
    decreases names.len()
{
    if names.len() > 0 { assert(names.push(x).skip(1) =~= names.skip(1).push(x)); assert(names.push(x)[0] == names[0]); } else { assert(names.push(x).skip(1) =~= names); assert(names.push(x)[0] == x); }
    match vdec(s) { None => { if names.len() == 0 { assert(vmap(names, s) == Some((Seq::<(Seq<char>, SV)>::empty(), s))); } },
        Some((v, t)) => if names.len() == 0 { assert(vmap(names, t) == Some((Seq::<(Seq<char>, SV)>::empty(), t))); assert(seq![(x, v)] + Seq::<(Seq<char>, SV)>::empty() =~= Seq::<(Seq<char>, SV)>::empty().push((x, v))); } else {
            vmap_snoc(names.skip(1), x, t);
            match vmap(names.skip(1), t) { Some((vs, u)) => match vdec(u) { Some((w, _)) => { assert(seq![(names[0], v)] + vs.push((x, w)) =~= (seq![(names[0], v)] + vs).push((x, w))); } None => {} }, None => {} }
        } }
}
pub proof fn vmap_none(names: Seq<Seq<char>>, k: int, s: LS) requires 0 <= k <= names.len() ensures vmap(names.take(k), s) is None ==> vmap(names, s) is None decreases names.len() - k
{ if k < names.len() { assert(names.take(k + 1) =~= names.take(k).push(names[k])); vmap_snoc(names.take(k), names[k], s); vmap_none(names, k + 1, s); } else { assert(names.take(k) =~= names); } }
pub broadcast proof fn chars_ext(v: Seq<Value>, b: Seq<u8>)
    requires v.len() == b.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == Value::Char(b[i])
    ensures #[trigger] ssv(v) == #[trigger] chars(b)
{ assert forall|i: int| 0 <= i < v.len() implies ssv(v)[i] == chars(b)[i] by { assert(v[i] == Value::Char(b[i])); } assert(ssv(v) =~= chars(b)); }

//@fn Deserializer::from_reader
    ensures r.rdr.rem() == rdr.rem(), r.rdr.reliable() == rdr.reliable(),
//@end
//@fn Deserializer::with_layout
    ensures r.ls() == (LS { stack: seq![once(*layout)], path: None, rem: self.rdr.rem() }), r.reliable() == self.rdr.reliable(),
//@end
/// Deserializer::from_reader(rdr).with_layout(&layout), then Value::deserialize: the value the layout gives for the bytes
pub fn decode_with_layout<R: Read>(rdr: R, layout: &BinProtRule) -> (r: Result<Value>)
    ensures
        r is Ok ==> ({ let d = ld(*layout, None, rdr.rem()); d is Some && d->Some_0.0 == sv(r->Ok_0) }),
        rdr.reliable() ==> (r is Ok <==> ld(*layout, None, rdr.rem()) is Some),
{
    let mut de = Deserializer::from_reader(rdr).with_layout(layout);
    Value::deserialize(&mut de)
}
// ------------------------------------------------------------ decoding through the traversal is decoding by structure of the rule
pub open spec fn lift<T>(o: Option<(T, Path, Seq<u8>)>, below: Stk) -> LDec<T> { match o { Some((v, p, m)) => Some((v, LS { stack: below, path: p, rem: m })), None => None } }
pub proof fn pushed_once(below: Stk, r: BinProtRule, p: Path, m: Seq<u8>)
    ensures vdec(LS { stack: below.push(once(r)), path: p, rem: m }) == lift(ld(r, p, m), below)
{ push_drop(below, once(r)); }
pub proof fn rules_pushed(rs: Vec<BinProtRule>, n: nat, below: Stk, p: Path, m: Seq<u8>)
    requires n <= rs@.len()
    ensures vseq(n, LS { stack: below + rev_rules(rs@).take(n as int), path: p, rem: m }) == lift(ld_rules(rs, n, p, m), below)
    decreases n
{
    let st = below + rev_rules(rs@).take(n as int);
    if n == 0 { assert(st =~= below); } else {
        let prev = below + rev_rules(rs@).take(n - 1);
        let r = rs@[rs@.len() - n];
        assert(st =~= prev.push(once(r)));
        pushed_once(prev, r, p, m);
        match ld(r, p, m) { None => {}, Some((v, q, t)) => { rules_pushed(rs, (n - 1) as nat, below, q, t); } }
    }
}
pub proof fn fields_pushed(fs: Vec<RecordField>, n: nat, below: Stk, p: Path, m: Seq<u8>)
    requires n <= fs@.len()
    ensures vmap(names_of(fs@).skip(fs@.len() - n), LS { stack: below + rev_fields(fs@).take(n as int), path: p, rem: m }) == lift(ld_fields(fs, n, p, m), below)
    decreases n
{
    let st = below + rev_fields(fs@).take(n as int);
    let ns = names_of(fs@).skip(fs@.len() - n);
    if n == 0 { assert(st =~= below); } else {
        let prev = below + rev_fields(fs@).take(n - 1);
        let f = fs@[fs@.len() - n];
        assert(st =~= prev.push(once(f.field_rule)));
        assert(ns.skip(1) =~= names_of(fs@).skip(fs@.len() - (n - 1)));
        assert(ns[0] == f.field_name@);
        pushed_once(prev, f.field_rule, p, m);
        match ld(f.field_rule, p, m) { None => {}, Some((v, q, t)) => { fields_pushed(fs, (n - 1) as nat, below, q, t); } }
    }
}
pub proof fn n_pushed(b: BinProtRule, n: nat, below: Stk, p: Path, m: Seq<u8>)
    requires n <= usize::MAX
    ensures vseq(n, LS { stack: if n > 0 { below.push((b, n as usize)) } else { below }, path: p, rem: m }) == lift(ld_n(b, n, p, m), below)
    decreases n
{
    if n > 0 {
        push_drop(below, (b, n as usize));
        match ld(b, p, m) { None => {}, Some((v, q, t)) => { n_pushed(b, (n - 1) as nat, below, q, t); } }
    }
}
pub proof fn n_chars(n: nat, p: Path, m: Seq<u8>)
    ensures ld_n(BinProtRule::Char, n, p, m) == (if m.len() >= n { Some((chars(m.take(n as int)), p, m.skip(n as int))) } else { None })
    decreases n
{
    assert(m.len() == 0 ==> ld(BinProtRule::Char, p, m) is None);
    if n == 0 { assert(chars(m.take(0)) =~= Seq::<SV>::empty()); assert(m.skip(0) =~= m); } else if m.len() > 0 {
        n_chars((n - 1) as nat, p, m.skip(1));
        assert(ld(BinProtRule::Char, p, m) == Some((SV::Char(m[0]), p, m.skip(1))));
        if m.len() >= n { assert(seq![SV::Char(m[0])] + chars(m.skip(1).take(n - 1)) =~= chars(m.take(n as int))); assert(m.skip(1).skip(n - 1) =~= m.skip(n as int)); }
    }
}
pub proof fn sum_at(ss: Vec<Summand>, n: nat, i: u8, p: Path, m: Seq<u8>)
    requires n <= ss@.len(), forall|j: int| 0 <= j < ss@.len() - n ==> (#[trigger] ss@[j]).index != i
    ensures ld_sum(ss, n, i, p, m) == (match first_sum(ss@, i) { Some(k) => { let c = ss@[k]; match ld_rules(c.ctor_args, c.ctor_args@.len(), p, m) { Some((vs, q, t)) => Some((SV::Sum { name: c.ctor_name@, index: i, value: Box::new(SV::Tuple(vs)) }, q, t)), None => None } }, None => None })
    decreases n
{
    lemma_first_sum(ss@, i);
    if n > 0 { let k = ss@.len() - n; if ss@[k].index != i { sum_at(ss, (n - 1) as nat, i, p, m); } else { assert(first_sum(ss@, i) == Some(k)); } }
}
pub proof fn poly_at(ps: Vec<Polyvar>, n: nat, h: u32, p: Path, m: Seq<u8>)
    requires n <= ps@.len(), forall|j: int| 0 <= j < ps@.len() - n ==> !tag_at(#[trigger] ps@[j], h)
    ensures ld_poly(ps, n, h, p, m) == (match first_tag(ps@, h) { Some(i) => match ps@[i] { Polyvar::Tagged(t) => match ld_rules(t.polyvar_args, t.polyvar_args@.len(), p, m) { Some((vs, q, u)) => Some((SV::Polyvar { name: t.polyvar_name@, tag: h, value: Box::new(SV::Tuple(vs)) }, q, u)), None => None }, Polyvar::Inherited(_) => None }, None => None })
    decreases n
{
    lemma_first_tag(ps@, h);
    if n > 0 { let k = ps@.len() - n; if !tag_at(ps@[k], h) { poly_at(ps, (n - 1) as nat, h, p, m); } else { assert(first_tag(ps@, h) == Some(k)); } }
}
/// a constructor's arguments are a tuple
pub proof fn args_pushed(args: Vec<BinProtRule>, below: Stk, p: Path, m: Seq<u8>)
    ensures vdec(LS { stack: below.push(once(BinProtRule::Tuple(args))), path: p, rem: m }) == lift(as_tuple(ld_rules(args, args@.len(), p, m)), below)
{ pushed_once(below, BinProtRule::Tuple(args), p, m); }
pub open spec fn handed(n: Nx, s: LS) -> LDec<SV> { match n { Nx::Rule(r) => by_rule(ValueVisitor, r, s), Nx::Named(p, rs) => by_path(ValueVisitor, p, rs@, s) } }
pub open spec fn same(r: BinProtRule, below: Stk, p: Path, m: Seq<u8>) -> bool { let (n, b, q) = visit(r, below, p); handed(n, LS { stack: b, path: q, rem: m }) == lift(ld(r, p, m), below) }
proof fn same_record(fs: Vec<RecordField>, below: Stk, p: Path, m: Seq<u8>) ensures same(BinProtRule::Record(fs), below, p, m)
{
    fields_pushed(fs, fs@.len(), below, p, m);
    assert(rev_fields(fs@).take(fs@.len() as int) =~= rev_fields(fs@));
    assert(names_of(fs@).skip(0) =~= names_of(fs@));
}
proof fn same_tuple(rs: Vec<BinProtRule>, below: Stk, p: Path, m: Seq<u8>) ensures same(BinProtRule::Tuple(rs), below, p, m)
{
    rules_pushed(rs, rs@.len(), below, p, m);
    assert(rev_rules(rs@).take(rs@.len() as int) =~= rev_rules(rs@));
}
proof fn same_sum(ss: Vec<Summand>, below: Stk, p: Path, m: Seq<u8>) ensures same(BinProtRule::Sum(ss), below, p, m)
{
    if m.len() >= 1 {
        sum_at(ss, ss@.len(), m[0], p, m.skip(1));
        lemma_first_sum(ss@, m[0]);
        match first_sum(ss@, m[0]) { Some(k) => { args_pushed(ss@[k].ctor_args, below, p, m.skip(1)); } None => {} }
    }
}
proof fn same_poly(ps: Vec<Polyvar>, below: Stk, p: Path, m: Seq<u8>) ensures same(BinProtRule::Polyvar(ps), below, p, m)
{
    if m.len() >= 4 {
        let h = (unle(m.take(4)) / 2) as u32;
        poly_at(ps, ps@.len(), h, p, m.skip(4));
        lemma_first_tag(ps@, h);
        match first_tag(ps@, h) { Some(i) => match ps@[i] { Polyvar::Tagged(t) => { args_pushed(t.polyvar_args, below, p, m.skip(4)); } _ => {} }, None => {} }
    }
}
proof fn same_option(o: Box<BinProtRule>, below: Stk, p: Path, m: Seq<u8>) ensures same(BinProtRule::Option(o), below, p, m)
{ if m.len() >= 1 && m[0] == 1 { pushed_once(below, *o, p, m.skip(1)); } }
proof fn same_list(o: Box<BinProtRule>, below: Stk, p: Path, m: Seq<u8>) ensures same(BinProtRule::List(o), below, p, m)
{
    broadcast use unle_bound;
    match dec_nat0(m) { Some((n, k)) => if n <= usize::MAX { assert(n >= 0); n_pushed(*o, n as nat, below, p, m.skip(k as int)); }, None => {} }
}
/// what a custom type of this name decodes to
pub open spec fn ld_named(path: Seq<char>, rs: Vec<BinProtRule>, p: Path, m: Seq<u8>) -> LR {
    match vector_len(path) {
        Some(k) => if rs@.len() == 0 { None } else { match ld_first(rs, k as nat, p, m) { Some((vs, q, t)) => if t.len() >= 1 && t[0] == 0 { Some((SV::Tuple(vs.push(SV::Unit)), q, t.skip(1))) } else { None }, None => None } },
        None => if field_element(path) && m.len() >= 32 { sc(SV::Tuple(chars(m.take(32))), p, m, 32) } else { None },
    }
}
proof fn same_named(path: Seq<char>, rs: Vec<BinProtRule>, below: Stk, p: Path, m: Seq<u8>)
    ensures by_path(ValueVisitor, path, rs@, LS { stack: below, path: p, rem: m }) == lift(ld_named(path, rs, p, m), below)
{
    broadcast use skip0;
    match vector_len(path) {
        Some(k) => if rs@.len() > 0 {
            let u = below.push(once(BinProtRule::Unit));
            vseq_snoc(k as nat, LS { stack: u.push((rs@[0], k as usize)), path: p, rem: m });
            n_pushed(rs@[0], k as nat, u, p, m);
            assert(ld_first(rs, k as nat, p, m) == ld_n(rs@[0], k as nat, p, m));
            match ld_n(rs@[0], k as nat, p, m) { Some((vs, q2, t)) => { pushed_once(below, BinProtRule::Unit, q2, t); } None => {} }
        },
        None => if field_element(path) { n_pushed(BinProtRule::Char, 32, below, p, m); n_chars(32, p, m); },
    }
}
proof fn same_custom(rs: Vec<BinProtRule>, below: Stk, p: Path, m: Seq<u8>) ensures same(BinProtRule::Custom(rs), below, p, m)
{
    match p { None => {}, Some(path) => { same_named(path, rs, below, p, m); } }
}
proof fn visit_is_ld(r: BinProtRule, below: Stk, p: Path, m: Seq<u8>)
    ensures same(r, below, p, m)
    decreases r
{
    match r {
        BinProtRule::Reference(RuleRef::Resolved(x)) => { visit_is_ld(*x.ref_rule, below, Some(x.source_module_path@), m); }
        BinProtRule::Record(fs) => { same_record(fs, below, p, m); }
        BinProtRule::Tuple(rs) => { same_tuple(rs, below, p, m); }
        BinProtRule::Sum(ss) => { same_sum(ss, below, p, m); }
        BinProtRule::Polyvar(ps) => { same_poly(ps, below, p, m); }
        BinProtRule::Option(o) => { same_option(o, below, p, m); }
        BinProtRule::List(o) => { same_list(o, below, p, m); }
        BinProtRule::Custom(rs) => { same_custom(rs, below, p, m); }
        BinProtRule::CustomForPath(path, rs) => { same_named(path@, rs, below, p, m); }
        BinProtRule::Char => { if m.len() >= 1 { char_byte(m[0]); } }
        _ => {}
    }
}
pub proof fn char_byte(b: u8) ensures (b as char) as u8 == b { }
pub proof fn loose_is_vdec(s: LS) ensures loose(ValueVisitor, s) == vdec(s)
{
    if s.stack.len() > 0 { visit_is_ld(s.stack.last().0, popped(s.stack), s.path, s.rem); }
}
