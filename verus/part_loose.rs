pub type DS<R, Mode> = Deserializer<R, Mode>;
#[verifier::external_body]
pub fn vx_streq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_first<T>(v: &Vec<T>) -> (r: Option<&T>) ensures match r { Some(x) => v@.len() > 0 && *x == v@[0], None => v@.len() == 0 } { unimplemented!() }
#[verifier::external_body]
pub fn vx_i32_u8(i: i32) -> (r: u8) requires 0 <= i < 256 ensures r == i { unimplemented!() }
#[verifier::external_body]
pub fn vx_bytes(v: &Vec<u8>) -> (r: &[u8]) ensures r@ == v@ { unimplemented!() }

/// where layout-driven decoding stands: what is left of the layout, the last path seen, the bytes left
pub struct LS { pub stack: Stk, pub path: Path, pub rem: Seq<u8> }
pub type LDec<V> = Option<(V, LS)>;
/// r answers d: Ok gives exactly the decoded value and leaves layout and stream exactly behind it; a stream that only
/// fails by ending gives Ok whenever there is something to decode
pub open spec fn ldecoded<T, W>(d: LDec<W>, w: spec_fn(T) -> W, r: Result<T>, after: LS, reliable: bool) -> bool {
    &&& r is Ok ==> d == Some((w(r->Ok_0), after))
    &&& reliable ==> (r is Ok <==> d is Some)
}
pub open spec fn answered<T, W>(o: Option<W>, r: Result<T>, w: spec_fn(T) -> W) -> bool { (r is Ok <==> o is Some) && (r is Ok ==> o == Some(w(r->Ok_0))) }
impl<R: Read> Deserializer<R, LooselyTyped> {
    pub open spec fn ls(&self) -> LS { LS { stack: self.mode.layout_iter.stack@, path: text_of(self.mode.layout_iter.current_module_path), rem: self.rdr.rem() } }
    pub open spec fn reliable(&self) -> bool { self.rdr.reliable() }
}
/// what a visitor is told about a scalar
pub enum Ev { Bool(bool), I64(i64), F64(f64), Char(char), Bytes(Seq<u8>), None, Unit }
/// what a visitor is told about a variant
pub enum Vt { Sum { index: u8, name: Seq<char>, len: nat }, Polyvar { index: u8, tag: u32, name: Seq<char>, len: nat } }
pub open spec fn vt_of(d: EnumData) -> Vt {
    match d { EnumData::Sum { index, name, len } => Vt::Sum { index, name: name@, len: len as nat },
              EnumData::Polyvar { index, tag, name, len } => Vt::Polyvar { index, tag, name: name@, len: len as nat } }
}
pub open spec fn vt(v: VariantType) -> Vt {
    match v { VariantType::Sum(s) => Vt::Sum { index: s.index as u8, name: s.ctor_name@, len: s.ctor_args@.len() },
              VariantType::Polyvar(i, p) => Vt::Polyvar { index: i, tag: p.hash, name: p.polyvar_name@, len: p.polyvar_args@.len() } }
}
/// the answer of a serde visitor is a function of what it is told and of what it is given access to
pub trait Visitor<'de>: Sized {
    type Value;
    /// the values as they are observed
    type W;
    spec fn w(v: Self::Value) -> Self::W;
    spec fn on(self, e: Ev) -> Option<Self::W>;
    spec fn on_some(self, s: LS) -> LDec<Self::W>;
    /// n elements; `list`: their number is announced
    spec fn on_seq(self, n: nat, list: bool, s: LS) -> LDec<Self::W>;
    spec fn on_map(self, names: Seq<Seq<char>>, s: LS) -> LDec<Self::W>;
    spec fn on_enum(self, v: Vt, s: LS) -> LDec<Self::W>;
    fn visit_bool(self, v: bool) -> (r: Result<Self::Value>) ensures answered(self.on(Ev::Bool(v)), r, |v| Self::w(v));
    fn visit_i64(self, v: i64) -> (r: Result<Self::Value>) ensures answered(self.on(Ev::I64(v)), r, |v| Self::w(v));
    fn visit_f64(self, v: f64) -> (r: Result<Self::Value>) ensures answered(self.on(Ev::F64(v)), r, |v| Self::w(v));
    fn visit_char(self, v: char) -> (r: Result<Self::Value>) ensures answered(self.on(Ev::Char(v)), r, |v| Self::w(v));
    fn visit_bytes(self, v: &[u8]) -> (r: Result<Self::Value>) ensures answered(self.on(Ev::Bytes(v@)), r, |v| Self::w(v));
    fn visit_none(self) -> (r: Result<Self::Value>) ensures answered(self.on(Ev::None), r, |v| Self::w(v));
    fn visit_unit(self) -> (r: Result<Self::Value>) ensures answered(self.on(Ev::Unit), r, |v| Self::w(v));
    fn visit_some<'a, R: Read>(self, de: &'a mut Deserializer<R, LooselyTyped>) -> (r: Result<Self::Value>)
        ensures ldecoded(self.on_some(old(de).ls()), |v: Self::Value| Self::w(v), r, final(de).ls(), old(de).reliable()), final(de).reliable() == old(de).reliable();
    fn visit_seq<'a, R: Read>(self, a: SeqAccess<'a, R, LooselyTyped>) -> (r: Result<Self::Value>)
        requires a.total_len == a.len,
        ensures ldecoded(self.on_seq(a.len as nat, a.is_list, old(a.de).ls()), |v: Self::Value| Self::w(v), r, final(a.de).ls(), old(a.de).reliable()), final(a.de).reliable() == old(a.de).reliable();
    fn visit_map<'a, R: Read>(self, a: MapAccess<'a, R, LooselyTyped>) -> (r: Result<Self::Value>)
        requires a.unnamed == 0,
        ensures ldecoded(self.on_map(unstacked(a.field_names@), old(a.de).ls()), |v: Self::Value| Self::w(v), r, final(a.de).ls(), old(a.de).reliable()), final(a.de).reliable() == old(a.de).reliable();
    fn visit_enum<'a, R: Read>(self, a: ValueEnum<'a, R, LooselyTyped>) -> (r: Result<Self::Value>)
        requires vt_ok(a.variant),
        ensures ldecoded(self.on_enum(vt(a.variant), old(a.de).ls()), |v: Self::Value| Self::w(v), r, final(a.de).ls(), old(a.de).reliable()), final(a.de).reliable() == old(a.de).reliable();
}
pub open spec fn vt_ok(v: VariantType) -> bool { match v { VariantType::Sum(s) => 0 <= s.index < 256, _ => true } }
/// field names are kept as a stack: the next one is the last
pub open spec fn unstacked(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[v.len() - 1 - i]@) }
pub open spec fn names_of(v: Seq<RecordField>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i].field_name@) }

// ------------------------------------------------------------ one rule of the layout against the bytes
pub open spec fn lscalar<V>(o: Option<V>, s: LS, n: int) -> LDec<V> { match o { Some(v) => Some((v, LS { rem: s.rem.skip(n), ..s })), None => None } }
pub open spec fn more(s: LS, r: BinProtRule, n: int, used: int) -> LS { LS { stack: if n > 0 { s.stack.push((r, n as usize)) } else { s.stack }, path: s.path, rem: s.rem.skip(used) } }
/// state of the search for the first summand with this hash among the first n
pub open spec fn tag_search(o: Option<Result<(usize, TaggedPolyvar)>>, ps: Seq<Polyvar>, n: int, h: u32) -> bool {
    match o {
        None => forall|j: int| 0 <= j < n ==> !tag_at(#[trigger] ps[j], h),
        Some(Err(_)) => exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]) is Inherited && forall|j: int| 0 <= j < i ==> !tag_at(#[trigger] ps[j], h),
        Some(Ok((i, t))) => 0 <= i < ps.len() && (match ps[i as int] { Polyvar::Tagged(u) => u == t && t.hash == h, _ => false }) && forall|j: int| 0 <= j < i ==> !tag_at(#[trigger] ps[j], h),
    }
}
pub open spec fn by_rule<'de, V: Visitor<'de>>(v: V, r: BinProtRule, s: LS) -> LDec<V::W> {
    match r {
        BinProtRule::Unit => if s.rem.len() >= 1 && s.rem[0] == 0 { lscalar(v.on(Ev::Unit), s, 1) } else { None },
        BinProtRule::Bool => if s.rem.len() >= 1 && s.rem[0] <= 1 { lscalar(v.on(Ev::Bool(s.rem[0] == 1)), s, 1) } else { None },
        BinProtRule::Char => if s.rem.len() >= 1 { lscalar(v.on(Ev::Char(s.rem[0] as char)), s, 1) } else { None },
        BinProtRule::Float => if s.rem.len() >= 8 { lscalar(v.on(Ev::F64(f64_of(unle(s.rem.take(8))))), s, 8) } else { None },
        BinProtRule::String => match dec_bytes(s.rem) { Some((b, k)) => lscalar(v.on(Ev::Bytes(b)), s, k as int), None => None },
        BinProtRule::Int | BinProtRule::Int32 | BinProtRule::Int64 | BinProtRule::NativeInt => match dec_int(s.rem) { Some((n, k)) => if i64::MIN <= n <= i64::MAX { lscalar(v.on(Ev::I64(n as i64)), s, k as int) } else { None }, None => None },
        BinProtRule::Record(fs) => v.on_map(names_of(fs@), s),
        BinProtRule::Tuple(rs) => v.on_seq(rs@.len(), false, s),
        BinProtRule::Sum(ss) => if s.rem.len() < 1 { None } else { match first_sum(ss@, s.rem[0]) {
                Some(i) => { let c = ss@[i]; v.on_enum(Vt::Sum { index: s.rem[0], name: c.ctor_name@, len: c.ctor_args@.len() }, more(s, BinProtRule::Tuple(c.ctor_args), 1, 1)) },
                None => None,
            } },
        BinProtRule::Polyvar(ps) => if s.rem.len() < 4 { None } else {
                let h = (unle(s.rem.take(4)) / 2) as u32;
                match first_tag(ps@, h) {
                    Some(i) => match ps@[i] { Polyvar::Tagged(t) => v.on_enum(Vt::Polyvar { index: (i as usize) as u8, tag: h, name: t.polyvar_name@, len: t.polyvar_args@.len() }, more(s, BinProtRule::Tuple(t.polyvar_args), 1, 4)), _ => None },
                    None => None,
                }
            },
        BinProtRule::Option(b) => if s.rem.len() < 1 { None } else if s.rem[0] == 0 { lscalar(v.on(Ev::None), s, 1) } else if s.rem[0] == 1 { v.on_some(more(s, *b, 1, 1)) } else { None },
        BinProtRule::List(b) => match dec_nat0(s.rem) { Some((n, k)) => if n <= usize::MAX { v.on_seq(n as nat, true, more(s, *b, n, k as int)) } else { None }, None => None },
        _ => None,
    }
}
pub open spec fn by_path<'de, V: Visitor<'de>>(v: V, p: Seq<char>, rs: Seq<BinProtRule>, s: LS) -> LDec<V::W> {
    match vector_len(p) {
        // the elements, then a zero byte
        Some(k) => if rs.len() == 0 { None } else { v.on_seq((k + 1) as nat, false, more(more(s, BinProtRule::Unit, 1, 0), rs[0], k, 0)) },
        None => if field_element(p) { v.on_seq(32, false, more(s, BinProtRule::Char, 32, 0)) } else { None },
    }
}
/// decoding what is on top of the layout stack
pub open spec fn loose<'de, V: Visitor<'de>>(v: V, s: LS) -> LDec<V::W> {
    if s.stack.len() == 0 { None } else {
        let (n, below, path) = visit(s.stack.last().0, popped(s.stack), s.path);
        let t = LS { stack: below, path, rem: s.rem };
        match n { Nx::Rule(r) => by_rule(v, r, t), Nx::Named(p, rs) => by_path(v, p, rs@, t) }
    }
}
pub mod de {
    use vstd::prelude::*;
    use super::*;
    verus! {
    pub trait DeserializeSeed<'de>: Sized {
        type Value;
        type W;
        spec fn w(v: Self::Value) -> Self::W;
        spec fn dec(self, s: LS) -> LDec<Self::W>;
        spec fn of_name(self, n: Seq<char>) -> Option<Self::W>;
        spec fn of_data(self, d: Vt) -> Option<Self::W>;
        fn deserialize<'a, R: Read>(self, de: &'a mut super::Deserializer<R, LooselyTyped>) -> (r: Result<Self::Value>)
            ensures ldecoded(self.dec(old(de).ls()), |v: Self::Value| Self::w(v), r, final(de).ls(), old(de).reliable()), final(de).reliable() == old(de).reliable();
        fn vx_deserialize_name<N: VxName>(self, n: N) -> (r: Result<Self::Value>)
            ensures answered(self.of_name(n.text()), r, |v| Self::w(v));
        fn vx_from_data(self, d: EnumData) -> (r: Result<Self::Value>)
            ensures answered(self.of_data(vt_of(d)), r, |v| Self::w(v));
    }
    pub trait MapAccess<'de>: Sized { type Error;
        fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>>;
        fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value>;
        fn size_hint(&self) -> Option<usize>; }
    pub trait SeqAccess<'de>: Sized { type Error;
        fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>>;
        fn size_hint(&self) -> Option<usize>; }
    pub trait VariantAccess<'de>: Sized { type Error;
        fn unit_variant(self) -> Result<()>;
        fn newtype_variant_seed<T>(self, seed: T) -> Result<T::Value> where T: DeserializeSeed<'de>;
        fn tuple_variant<V>(self, len: usize, visitor: V) -> Result<V::Value> where V: Visitor<'de>;
        fn struct_variant<V>(self, fields: &'static [&'static str], visitor: V) -> Result<V::Value> where V: Visitor<'de>; }
    /// serde::forward_to_deserialize_any!
    pub trait Deserializer<'de>: Sized { type Error;
        fn deserialize_any<V>(self, visitor: V) -> (r: Result<V::Value>) where V: Visitor<'de>;
        fn deserialize_tuple<V>(self, len: usize, visitor: V) -> (r: Result<V::Value>) where V: Visitor<'de>;
        fn deserialize_struct<V>(self, name: &'static str, fields: &'static [&'static str], visitor: V) -> (r: Result<V::Value>) where V: Visitor<'de>;
    }
    pub trait EnumAccess<'de>: Sized { type Error; type Variant;
        spec fn may(&self) -> bool;
        fn variant_seed<V>(self, seed: V) -> Result<(V::Value, Self::Variant)> where V: DeserializeSeed<'de> requires self.may(); }
    }
}
pub mod serde { pub use super::de; }
/// String and &str
pub trait VxName: Sized { spec fn text(self) -> Seq<char>; }
impl VxName for String { open spec fn text(self) -> Seq<char> { self@ } }
impl VxName for &str { open spec fn text(self) -> Seq<char> { self@ } }
// ------------------------------------------------------------ the code
//@fn MapAccess::new
    ensures *r.de == *old(de), *final(r.de) == *final(de), r.field_names == field_names, r.unnamed == 0,
//@end
//@fn SeqAccess::new
    ensures *r.de == *old(de), *final(r.de) == *final(de), r.len == len, r.total_len == len, !r.is_list,
//@end
//@fn SeqAccess::new_list
    ensures *r.de == *old(de), *final(r.de) == *final(de), r.len == len, r.total_len == len, r.is_list,
//@end
//@fn Enum::new
    ensures *r.de == *old(de), *final(r.de) == *final(de), r.index == index,
//@end
//@fn ValueEnum::new
    ensures *r.de == *old(de), *final(r.de) == *final(de), r.variant == variant,
//@end
//@impl LooseAny
    // serde::forward_to_deserialize_any! { .. tuple struct .. }
    fn deserialize_tuple<V>(self, len: usize, visitor: V) -> (r: Result<V::Value>) where V: Visitor<'de> ensures ldecoded(loose(visitor, old(self).ls()), |v: V::Value| V::w(v), r, final(self).ls(), old(self).reliable()), final(self).reliable() == old(self).reliable(), { self.deserialize_any(visitor) }
    fn deserialize_struct<V>(self, name: &'static str, fields: &'static [&'static str], visitor: V) -> (r: Result<V::Value>) where V: Visitor<'de> ensures ldecoded(loose(visitor, old(self).ls()), |v: V::Value| V::w(v), r, final(self).ls(), old(self).reliable()), final(self).reliable() == old(self).reliable(), { self.deserialize_any(visitor) }
//@end
//@fn LooseAny::deserialize_any
    ensures ldecoded(loose(visitor, old(self).ls()), |v: V::Value| V::w(v), r, final(self).ls(), old(self).reliable()), final(self).reliable() == old(self).reliable(),
//@end
//@impl SeqAcc
//@end
//@fn SeqAcc::next_element_seed
    ensures
        *final(final(self).de) == *final(old(self).de), final(self).total_len == old(self).total_len, final(self).is_list == old(self).is_list,
        final(self).de.reliable() == old(self).de.reliable(),
        old(self).len == 0 ==> r is Ok && r->Ok_0 is None && final(self).de.ls() == old(self).de.ls() && final(self).len == 0,
        old(self).len > 0 ==> final(self).len == old(self).len - 1 && (r is Ok ==> r->Ok_0 is Some)
            && (r is Ok ==> seed.dec(old(self).de.ls()) == Some((T::w(r->Ok_0->Some_0), final(self).de.ls())))
            && (old(self).de.reliable() ==> (r is Ok <==> seed.dec(old(self).de.ls()) is Some)),
//@end
//@fn SeqAcc::size_hint
    ensures r == (if self.is_list { Some(self.total_len) } else { None }),
//@end
//@impl MapAcc
//@end
//@fn MapAcc::next_key_seed
    ensures
        *final(final(self).de) == *final(old(self).de), *final(self).de == *old(self).de,
        ({ let (o, n) = (old(self).field_names@, final(self).field_names@);
            if o.len() > 0 { n == o.drop_last() && final(self).unnamed == old(self).unnamed
                && (r is Ok <==> seed.of_name(o.last()@) is Some) && (r is Ok ==> r->Ok_0 is Some && seed.of_name(o.last()@) == Some(T::w(r->Ok_0->Some_0))) }
            else if old(self).unnamed == 0 { n == o && final(self).unnamed == 0 && r is Ok && r->Ok_0 is None }
            else { true } }),
//@end
//@fn MapAcc::next_value_seed
    ensures
        *final(final(self).de) == *final(old(self).de), final(self).field_names == old(self).field_names, final(self).unnamed == old(self).unnamed,
        ldecoded(seed.dec(old(self).de.ls()), |v: T::Value| T::w(v), r, final(self).de.ls(), old(self).de.reliable()), final(self).de.reliable() == old(self).de.reliable(),
//@end
//@fn MapAcc::size_hint
    ensures r is Some,
//@end
//@impl VarAcc
//@end
//@fn VarAcc::unit_variant
    ensures r is Ok,
//@end
//@fn VarAcc::newtype_variant_seed
    ensures ldecoded(seed.dec(old(self.de).ls()), |v: T::Value| T::w(v), r, final(self.de).ls(), old(self.de).reliable()), final(self.de).reliable() == old(self.de).reliable(),
//@end
//@fn VarAcc::tuple_variant
    ensures ldecoded(loose(visitor, old(self.de).ls()), |v: V::Value| V::w(v), r, final(self.de).ls(), old(self.de).reliable()), final(self.de).reliable() == old(self.de).reliable(),
//@end
//@fn VarAcc::struct_variant
    ensures ldecoded(loose(visitor, old(self.de).ls()), |v: V::Value| V::w(v), r, final(self.de).ls(), old(self.de).reliable()), final(self.de).reliable() == old(self.de).reliable(),
//@end
//@impl ValEnum
    open spec fn may(&self) -> bool { vt_ok(self.variant) }
//@end
//@fn ValEnum::variant_seed
    ensures
        r is Ok <==> seed.of_data(vt(self.variant)) is Some,
        r is Ok ==> seed.of_data(vt(self.variant)) == Some(V::w(r->Ok_0.0)) && *r->Ok_0.1.de == *old(self.de) && *final(r->Ok_0.1.de) == *final(self.de),
//@end
//@fn LooseDe::deserialize_loose
    ensures ldecoded(loose(visitor, old(self).ls()), |v: V::Value| V::w(v), r, final(self).ls(), old(self).reliable()), final(self).reliable() == old(self).reliable(),
//@entry
    broadcast use skip_skip, skip_none, lemma_first_tag, lemma_first_sum, one_pushed, skip0, unle_bound, names_ext;
    proof { if self.ls().stack.len() > 0 { lemma_visit(self.ls().stack.last().0, popped(self.ls().stack), self.ls().path); } }
//@loop 0
    invariant vx_i0 <= vx_s0@.len(), vx_s0 == fields, vx_v@.len() == vx_i0, forall|i: int| 0 <= i < vx_i0 ==> vx_v@[i] == fields@[fields@.len() - 1 - i].field_name,
    decreases vx_s0@.len() - vx_i0
//@loop 1
    invariant vx_i1 <= vx_s1@.len(), vx_s1@ == summands@,
        vx_a1 is None ==> forall|j: int| 0 <= j < vx_i1 ==> (#[trigger] summands@[j]).index != index,
        vx_a1 is Some ==> exists|i: int| 0 <= i < summands@.len() && *vx_a1->Some_0 == #[trigger] summands@[i] && summands@[i].index == index && forall|j: int| 0 <= j < i ==> (#[trigger] summands@[j]).index != index,
    decreases vx_s1@.len() - vx_i1
//@loop 2
    invariant vx_i2 <= vx_s2@.len(), vx_s2 == summands,
        tag_search(vx_a2, summands@, vx_i2 as int, tag),
    decreases vx_s2@.len() - vx_i2
//@end
/// a custom type is handed out with its name
pub proof fn lemma_visit(r: BinProtRule, below: Stk, path: Path)
    ensures ({ let n = visit(r, below, path).0; n is Rule ==> !(n->Rule_0 is CustomForPath) })
    decreases r
{ match r { BinProtRule::Reference(RuleRef::Resolved(p)) => { lemma_visit(*p.ref_rule, below, Some(p.source_module_path@)); } _ => {} } }
pub broadcast proof fn skip0(s: Seq<u8>) ensures #[trigger] s.skip(0) == s { assert(s.skip(0) =~= s); }
pub broadcast proof fn one_pushed(s: Stk, t: Stk) ensures t.len() == 1 ==> #[trigger] (s + t) == s.push(t[0]) { if t.len() == 1 { assert(s + t =~= s.push(t[0])); } }
pub broadcast proof fn names_ext(v: Seq<String>, fs: Seq<RecordField>)
    requires v.len() == fs.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == fs[fs.len() - 1 - i].field_name
    ensures #[trigger] unstacked(v) == #[trigger] names_of(fs)
{ assert forall|i: int| 0 <= i < v.len() implies unstacked(v)[i] == names_of(fs)[i] by { assert(v[v.len() - 1 - i] == fs[i].field_name); } assert(unstacked(v) =~= names_of(fs)); }
