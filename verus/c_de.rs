//@include prelude_core.rs
broadcast use vx_bits;
//@include prelude_io.rs
//@include prelude_read.rs
//@include part_read.rs
//@nosub
//@include part_bufreader.rs
pub uninterp spec fn caml_hash(label: Seq<char>) -> u32;
pub uninterp spec fn is_ascii(label: Seq<char>) -> bool;
#[verifier::external_body]
pub fn caml_hash_variant(label: &str) -> (r: u32) ensures r == caml_hash(label@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_is_ascii(label: &str) -> (r: bool) ensures r == is_ascii(label@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_streq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub type VariantHash = u32;
/// what a scalar visitor is told
pub enum Ev { Bool(bool), I8(i8), I16(i16), I32(i32), I64(i64), U8(u8), U16(u16), U32(u32), U64(u64), F32(f32), F64(f64), Char(char), Str(Seq<char>), None, Unit }
pub type Dec<V> = Option<(V, Seq<u8>)>;
/// what the code relies on of a serde visitor: its answer is a function of what it is told and of the bytes it is given access to
pub trait Visitor<'de>: Sized {
    type Value;
    spec fn on(self, e: Ev) -> Option<Self::Value>;
    spec fn on_some(self, s: Seq<u8>) -> Dec<Self::Value>;
    spec fn on_newtype(self, s: Seq<u8>) -> Dec<Self::Value>;
    /// a sequence of n elements that starts at s
    spec fn on_seq(self, n: int, s: Seq<u8>) -> Dec<Self::Value>;
    /// a map of n entries that starts at s
    spec fn on_map(self, n: int, s: Seq<u8>) -> Dec<Self::Value>;
    /// variant number i, whose content starts at s
    spec fn on_enum(self, i: u8, s: Seq<u8>) -> Dec<Self::Value>;
    spec fn on_polyvar(self, h: u32, labels: Seq<&'static str>, s: Seq<u8>) -> Dec<Self::Value>;
    fn visit_bool(self, v: bool) -> (r: Result<Self::Value>) ensures r is Ok ==> self.on(Ev::Bool(v)) == Some(r->Ok_0), r is Ok <==> self.on(Ev::Bool(v)) is Some;
    fn visit_i8(self, v: i8) -> (r: Result<Self::Value>) ensures r is Ok ==> self.on(Ev::I8(v)) == Some(r->Ok_0), r is Ok <==> self.on(Ev::I8(v)) is Some;
    fn visit_i16(self, v: i16) -> (r: Result<Self::Value>) ensures r is Ok ==> self.on(Ev::I16(v)) == Some(r->Ok_0), r is Ok <==> self.on(Ev::I16(v)) is Some;
    fn visit_i32(self, v: i32) -> (r: Result<Self::Value>) ensures r is Ok ==> self.on(Ev::I32(v)) == Some(r->Ok_0), r is Ok <==> self.on(Ev::I32(v)) is Some;
    fn visit_i64(self, v: i64) -> (r: Result<Self::Value>) ensures r is Ok ==> self.on(Ev::I64(v)) == Some(r->Ok_0), r is Ok <==> self.on(Ev::I64(v)) is Some;
    fn visit_u8(self, v: u8) -> (r: Result<Self::Value>) ensures r is Ok ==> self.on(Ev::U8(v)) == Some(r->Ok_0), r is Ok <==> self.on(Ev::U8(v)) is Some;
    fn visit_u16(self, v: u16) -> (r: Result<Self::Value>) ensures r is Ok ==> self.on(Ev::U16(v)) == Some(r->Ok_0), r is Ok <==> self.on(Ev::U16(v)) is Some;
    fn visit_u32(self, v: u32) -> (r: Result<Self::Value>) ensures r is Ok ==> self.on(Ev::U32(v)) == Some(r->Ok_0), r is Ok <==> self.on(Ev::U32(v)) is Some;
    fn visit_u64(self, v: u64) -> (r: Result<Self::Value>) ensures r is Ok ==> self.on(Ev::U64(v)) == Some(r->Ok_0), r is Ok <==> self.on(Ev::U64(v)) is Some;
    fn visit_f32(self, v: f32) -> (r: Result<Self::Value>) ensures r is Ok ==> self.on(Ev::F32(v)) == Some(r->Ok_0), r is Ok <==> self.on(Ev::F32(v)) is Some;
    fn visit_f64(self, v: f64) -> (r: Result<Self::Value>) ensures r is Ok ==> self.on(Ev::F64(v)) == Some(r->Ok_0), r is Ok <==> self.on(Ev::F64(v)) is Some;
    fn visit_char(self, v: char) -> (r: Result<Self::Value>) ensures r is Ok ==> self.on(Ev::Char(v)) == Some(r->Ok_0), r is Ok <==> self.on(Ev::Char(v)) is Some;
    fn visit_string(self, v: String) -> (r: Result<Self::Value>) ensures r is Ok ==> self.on(Ev::Str(v@)) == Some(r->Ok_0), r is Ok <==> self.on(Ev::Str(v@)) is Some;
    fn visit_none(self) -> (r: Result<Self::Value>) ensures r is Ok ==> self.on(Ev::None) == Some(r->Ok_0), r is Ok <==> self.on(Ev::None) is Some;
    fn visit_unit(self) -> (r: Result<Self::Value>) ensures r is Ok ==> self.on(Ev::Unit) == Some(r->Ok_0), r is Ok <==> self.on(Ev::Unit) is Some;
    fn visit_some<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<Self::Value>)
        ensures decoded(self.on_some(old(de).rem()), r, final(de).rem(), old(de).reliable()), final(de).reliable() == old(de).reliable();
    fn visit_newtype_struct<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<Self::Value>)
        ensures decoded(self.on_newtype(old(de).rem()), r, final(de).rem(), old(de).reliable()), final(de).reliable() == old(de).reliable();
    fn visit_seq<'a, R: Read>(self, a: SeqAccess<'a, R, StronglyTyped>) -> (r: Result<Self::Value>)
        requires a.fresh(),
        ensures decoded(self.on_seq(a.len as int, old(a.de).rem()), r, final(a.de).rem(), old(a.de).reliable()), final(a.de).reliable() == old(a.de).reliable();
    fn visit_map<'a, R: Read>(self, a: MapAccess<'a, R, StronglyTyped>) -> (r: Result<Self::Value>)
        requires a.field_names@.len() == 0,
        ensures decoded(self.on_map(a.unnamed as int, old(a.de).rem()), r, final(a.de).rem(), old(a.de).reliable()), final(a.de).reliable() == old(a.de).reliable();
    fn visit_enum<'a, R: Read>(self, a: Enum<'a, R, StronglyTyped>) -> (r: Result<Self::Value>)
        ensures decoded(self.on_enum(a.index, old(a.de).rem()), r, final(a.de).rem(), old(a.de).reliable()), final(a.de).reliable() == old(a.de).reliable();
    fn vx_visit_polyvar<'a, R: Read>(self, a: PolyvarEnum<'a, R, StronglyTyped>) -> (r: Result<Self::Value>)
        ensures decoded(self.on_polyvar(a.hash, a.variants@, old(a.de).rem()), r, final(a.de).rem(), old(a.de).reliable()), final(a.de).reliable() == old(a.de).reliable();
}
/// r answers `d`: Ok gives exactly the decoded value and leaves the stream exactly behind it; a stream that only
/// fails by ending gives Ok whenever there is something to decode
pub open spec fn decoded<V>(d: Dec<V>, r: Result<V>, after: Seq<u8>, reliable: bool) -> bool {
    &&& r is Ok ==> d == Some((r->Ok_0, after))
    &&& reliable ==> (r is Ok <==> d is Some)
}
/// String and &str
pub trait VxName: Sized { spec fn text(self) -> Seq<char>; }
pub trait VxIndex: Sized { spec fn index(self) -> int; }
impl VxIndex for u8 { open spec fn index(self) -> int { self as int } }
impl VxIndex for u16 { open spec fn index(self) -> int { self as int } }
impl VxIndex for u32 { open spec fn index(self) -> int { self as int } }
impl VxIndex for u64 { open spec fn index(self) -> int { self as int } }
impl VxIndex for usize { open spec fn index(self) -> int { self as int } }
impl VxName for String { open spec fn text(self) -> Seq<char> { self@ } }
impl VxName for &str { open spec fn text(self) -> Seq<char> { self@ } }
pub mod de {
    use vstd::prelude::*;
    use super::*;
    verus! {
    pub trait DeserializeSeed<'de>: Sized {
        type Value;
        spec fn dec(self, s: Seq<u8>) -> Dec<Self::Value>;
        spec fn of_index(self, i: int) -> Option<Self::Value>;
        spec fn of_name(self, n: Seq<char>) -> Option<Self::Value>;
        fn deserialize<'a, R: Read>(self, de: &'a mut super::Deserializer<R, StronglyTyped>) -> (r: Result<Self::Value>)
            ensures decoded(self.dec(old(de).rem()), r, final(de).rem(), old(de).reliable()), final(de).reliable() == old(de).reliable();
        fn vx_deserialize_name<N: VxName>(self, n: N) -> (r: Result<Self::Value>)
            ensures r is Ok ==> self.of_name(n.text()) == Some(r->Ok_0), r is Ok <==> self.of_name(n.text()) is Some;
        fn vx_deserialize_index<I: VxIndex>(self, i: I) -> (r: Result<Self::Value>)
            ensures r is Ok ==> self.of_index(i.index()) == Some(r->Ok_0), r is Ok <==> self.of_index(i.index()) is Some;
    }
    pub trait MapAccess<'de> { type Error;
        fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>>;
        fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value>;
        fn size_hint(&self) -> Option<usize>; }
    pub trait SeqAccess<'de> { type Error;
        fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>>;
        fn size_hint(&self) -> Option<usize>; }
    pub trait EnumAccess<'de>: Sized { type Error; type Variant;
        fn variant_seed<V>(self, seed: V) -> Result<(V::Value, Self::Variant)> where V: DeserializeSeed<'de>; }
    pub trait VariantAccess<'de>: Sized { type Error;
        fn unit_variant(self) -> Result<()>;
        fn newtype_variant_seed<T>(self, seed: T) -> Result<T::Value> where T: DeserializeSeed<'de>;
        fn tuple_variant<V>(self, len: usize, visitor: V) -> Result<V::Value> where V: Visitor<'de>;
        fn struct_variant<V>(self, fields: &'static [&'static str], visitor: V) -> Result<V::Value> where V: Visitor<'de>; }
    pub trait Deserializer<'de>: Sized { type Error;
        fn deserialize_bool<V>(self, visitor: V) -> Result<V::Value> where V: Visitor<'de>;
        fn deserialize_u8<V>(self, visitor: V) -> Result<V::Value> where V: Visitor<'de>;
        fn deserialize_char<V>(self, visitor: V) -> Result<V::Value> where V: Visitor<'de>;
        fn deserialize_unit<V>(self, visitor: V) -> Result<V::Value> where V: Visitor<'de>;
        fn deserialize_unit_struct<V>(self, name: &'static str, visitor: V) -> Result<V::Value> where V: Visitor<'de>;
        fn deserialize_i8<V>(self, visitor: V) -> Result<V::Value> where V: Visitor<'de>;
        fn deserialize_i16<V>(self, visitor: V) -> Result<V::Value> where V: Visitor<'de>;
        fn deserialize_i32<V>(self, visitor: V) -> Result<V::Value> where V: Visitor<'de>;
        fn deserialize_i64<V>(self, visitor: V) -> Result<V::Value> where V: Visitor<'de>;
        fn deserialize_u16<V>(self, visitor: V) -> Result<V::Value> where V: Visitor<'de>;
        fn deserialize_u32<V>(self, visitor: V) -> Result<V::Value> where V: Visitor<'de>;
        fn deserialize_u64<V>(self, visitor: V) -> Result<V::Value> where V: Visitor<'de>;
        fn deserialize_f32<V>(self, visitor: V) -> Result<V::Value> where V: Visitor<'de>;
        fn deserialize_f64<V>(self, visitor: V) -> Result<V::Value> where V: Visitor<'de>;
        fn deserialize_str<V>(self, visitor: V) -> Result<V::Value> where V: Visitor<'de>;
        fn deserialize_string<V>(self, visitor: V) -> Result<V::Value> where V: Visitor<'de>;
        fn deserialize_option<V>(self, visitor: V) -> Result<V::Value> where V: Visitor<'de>;
        fn deserialize_newtype_struct<V>(self, name: &'static str, visitor: V) -> Result<V::Value> where V: Visitor<'de>;
        fn deserialize_seq<V>(self, visitor: V) -> Result<V::Value> where V: Visitor<'de>;
        fn deserialize_map<V>(self, visitor: V) -> Result<V::Value> where V: Visitor<'de>;
        fn deserialize_tuple<V>(self, len: usize, visitor: V) -> Result<V::Value> where V: Visitor<'de>;
        fn deserialize_tuple_struct<V>(self, name: &'static str, len: usize, visitor: V) -> Result<V::Value> where V: Visitor<'de>;
        fn deserialize_struct<V>(self, name: &'static str, fields: &'static [&'static str], visitor: V) -> Result<V::Value> where V: Visitor<'de>;
        fn deserialize_enum<V>(self, name: &'static str, variants: &'static [&'static str], visitor: V) -> Result<V::Value> where V: Visitor<'de>;
        fn deserialize_any<V>(self, visitor: V) -> Result<V::Value> where V: Visitor<'de>;
        fn deserialize_bytes<V>(self, visitor: V) -> Result<V::Value> where V: Visitor<'de>;
        fn deserialize_byte_buf<V>(self, visitor: V) -> Result<V::Value> where V: Visitor<'de>;
        fn deserialize_identifier<V>(self, visitor: V) -> Result<V::Value> where V: Visitor<'de>;
        fn deserialize_ignored_any<V>(self, visitor: V) -> Result<V::Value> where V: Visitor<'de>;
    }
    }
}
use de::EnumAccess;
pub trait Deserialize<'de>: Sized {
    spec fn dec(s: Seq<u8>) -> Dec<Self>;
    fn deserialize<'a, R: Read>(de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<Self>)
        ensures decoded(Self::dec(old(de).rem()), r, final(de).rem(), old(de).reliable()), final(de).reliable() == old(de).reliable();
}
impl<R: Read, Mode> Deserializer<R, Mode> {
    pub open spec fn rem(&self) -> Seq<u8> { self.rdr.rem() }
    pub open spec fn reliable(&self) -> bool { self.rdr.reliable() }
}
impl<'a, R: Read, Mode> SeqAccess<'a, R, Mode> {
    /// nothing has been read yet, and no size is promised that could be allocated up front
    pub open spec fn fresh(&self) -> bool { !self.is_list && self.total_len == self.len }
}
// ---- specification of the scalar decoders
pub open spec fn after_scalar<V>(o: Option<V>, s: Seq<u8>, n: int) -> Dec<V> { match o { Some(v) => Some((v, s.skip(n))), None => None } }
pub open spec fn d_byte<'de, V: Visitor<'de>>(v: V, s: Seq<u8>, f: spec_fn(u8) -> Option<Ev>) -> Dec<V::Value> {
    if s.len() < 1 { None } else { match f(s[0]) { Some(e) => after_scalar(v.on(e), s, 1), None => None } }
}
pub open spec fn d_int<'de, V: Visitor<'de>>(v: V, s: Seq<u8>, lo: int, hi: int, f: spec_fn(int) -> Ev) -> Dec<V::Value> {
    match dec_int(s) { Some((n, k)) => if lo <= n <= hi { after_scalar(v.on(f(n)), s, k as int) } else { None }, None => None }
}
pub open spec fn d_string<'de, V: Visitor<'de>>(v: V, s: Seq<u8>) -> Dec<V::Value> {
    match dec_bytes(s) { Some((b, k)) => match utf8(b) { Some(t) => after_scalar(v.on(Ev::Str(t)), s, k as int), None => None }, None => None }
}
pub open spec fn d_option<'de, V: Visitor<'de>>(v: V, s: Seq<u8>) -> Dec<V::Value> {
    if s.len() < 1 { None } else if s[0] == 0 { after_scalar(v.on(Ev::None), s, 1) } else if s[0] == 1 { v.on_some(s.skip(1)) } else { None }
}
pub open spec fn d_seq<'de, V: Visitor<'de>>(v: V, s: Seq<u8>) -> Dec<V::Value> {
    match dec_nat0(s) { Some((n, k)) => if n <= usize::MAX { v.on_seq(n, s.skip(k as int)) } else { None }, None => None }
}
pub open spec fn d_map<'de, V: Visitor<'de>>(v: V, s: Seq<u8>) -> Dec<V::Value> {
    match dec_nat0(s) { Some((n, k)) => if n <= usize::MAX { v.on_map(n, s.skip(k as int)) } else { None }, None => None }
}
pub open spec fn d_enum<'de, V: Visitor<'de>>(v: V, name: Seq<char>, labels: Seq<&'static str>, s: Seq<u8>) -> Dec<V::Value> {
    if name == "Polyvar"@ { if s.len() < 4 { None } else { v.on_polyvar((unle(s.take(4)) / 2) as u32, labels, s.skip(4)) } }
    else if s.len() < 1 { None } else { v.on_enum(s[0], s.skip(1)) }
}
/// the first ASCII label with this hash
pub open spec fn first_match(labels: Seq<&'static str>, h: u32, i: int) -> bool {
    &&& 0 <= i < labels.len() && is_ascii(labels[i]@) && caml_hash(labels[i]@) == h
    &&& forall|j: int| 0 <= j < i ==> !(is_ascii(#[trigger] labels[j]@) && caml_hash(labels[j]@) == h)
}
pub open spec fn no_match(labels: Seq<&'static str>, h: u32) -> bool {
    forall|j: int| 0 <= j < labels.len() ==> !(is_ascii(#[trigger] labels[j]@) && caml_hash(labels[j]@) == h)
}
//@fn Deserializer::deserialize_bool
    ensures decoded(d_byte(visitor, old(self).rem(), |b: u8| if b == 0 { Some(Ev::Bool(false)) } else if b == 1 { Some(Ev::Bool(true)) } else { None }), r, final(self).rem(), old(self).reliable()), final(self).reliable() == old(self).reliable(),
//@entry
    broadcast use skip_skip, skip_none;
//@end
//@fn Deserializer::deserialize_u8
    ensures decoded(d_byte(visitor, old(self).rem(), |b: u8| Some(Ev::U8(b))), r, final(self).rem(), old(self).reliable()), final(self).reliable() == old(self).reliable(),
//@entry
    broadcast use skip_skip, skip_none;
//@end
//@fn Deserializer::deserialize_char
    ensures decoded(d_byte(visitor, old(self).rem(), |b: u8| Some(Ev::Char(b as char))), r, final(self).rem(), old(self).reliable()), final(self).reliable() == old(self).reliable(),
//@entry
    broadcast use skip_skip, skip_none;
//@end
//@fn Deserializer::deserialize_unit
    ensures decoded(d_byte(visitor, old(self).rem(), |b: u8| if b == 0 { Some(Ev::Unit) } else { None }), r, final(self).rem(), old(self).reliable()), final(self).reliable() == old(self).reliable(),
//@entry
    broadcast use skip_skip, skip_none;
//@end
//@fn Deserializer::deserialize_unit_struct
    ensures decoded(d_byte(visitor, old(self).rem(), |b: u8| if b == 0 { Some(Ev::Unit) } else { None }), r, final(self).rem(), old(self).reliable()), final(self).reliable() == old(self).reliable(),
//@entry
    broadcast use skip_skip, skip_none;
//@end
//@fn Deserializer::deserialize_i8
    ensures decoded(d_int(visitor, old(self).rem(), i8::MIN as int, i8::MAX as int, |n: int| Ev::I8(n as i8)), r, final(self).rem(), old(self).reliable()), final(self).reliable() == old(self).reliable(),
//@entry
    broadcast use skip_skip, skip_none;
//@end
//@fn Deserializer::deserialize_i16
    ensures decoded(d_int(visitor, old(self).rem(), i16::MIN as int, i16::MAX as int, |n: int| Ev::I16(n as i16)), r, final(self).rem(), old(self).reliable()), final(self).reliable() == old(self).reliable(),
//@entry
    broadcast use skip_skip, skip_none;
//@end
//@fn Deserializer::deserialize_i32
    ensures decoded(d_int(visitor, old(self).rem(), i32::MIN as int, i32::MAX as int, |n: int| Ev::I32(n as i32)), r, final(self).rem(), old(self).reliable()), final(self).reliable() == old(self).reliable(),
//@entry
    broadcast use skip_skip, skip_none;
//@end
//@fn Deserializer::deserialize_i64
    ensures decoded(d_int(visitor, old(self).rem(), i64::MIN as int, i64::MAX as int, |n: int| Ev::I64(n as i64)), r, final(self).rem(), old(self).reliable()), final(self).reliable() == old(self).reliable(),
//@entry
    broadcast use skip_skip, skip_none;
//@end
//@fn Deserializer::deserialize_u16
    ensures decoded(d_int(visitor, old(self).rem(), u16::MIN as int, u16::MAX as int, |n: int| Ev::U16(n as u16)), r, final(self).rem(), old(self).reliable()), final(self).reliable() == old(self).reliable(),
//@entry
    broadcast use skip_skip, skip_none;
//@end
//@fn Deserializer::deserialize_u32
    ensures decoded(d_int(visitor, old(self).rem(), u32::MIN as int, u32::MAX as int, |n: int| Ev::U32(n as u32)), r, final(self).rem(), old(self).reliable()), final(self).reliable() == old(self).reliable(),
//@entry
    broadcast use skip_skip, skip_none;
//@end
//@fn Deserializer::deserialize_u64
    ensures decoded(d_int(visitor, old(self).rem(), i64::MIN as int, i64::MAX as int, |n: int| Ev::U64((n % 0x1_0000_0000_0000_0000) as u64)), r, final(self).rem(), old(self).reliable()), final(self).reliable() == old(self).reliable(),
//@entry
    broadcast use skip_skip, skip_none;
    proof { lemma_i64_as_u64(); }
//@end
//@fn Deserializer::deserialize_f32
    ensures decoded((if old(self).rem().len() < 4 { None } else { after_scalar(visitor.on(Ev::F32(f32_of(unle(old(self).rem().take(4))))), old(self).rem(), 4) }), r, final(self).rem(), old(self).reliable()), final(self).reliable() == old(self).reliable(),
//@entry
    broadcast use skip_skip, skip_none;
//@end
//@fn Deserializer::deserialize_f64
    ensures decoded((if old(self).rem().len() < 8 { None } else { after_scalar(visitor.on(Ev::F64(f64_of(unle(old(self).rem().take(8))))), old(self).rem(), 8) }), r, final(self).rem(), old(self).reliable()), final(self).reliable() == old(self).reliable(),
//@entry
    broadcast use skip_skip, skip_none;
//@end
//@fn Deserializer::deserialize_str
    ensures decoded(d_string(visitor, old(self).rem()), r, final(self).rem(), old(self).reliable()), final(self).reliable() == old(self).reliable(),
//@entry
    broadcast use skip_skip, skip_none;
//@end
//@fn Deserializer::deserialize_string
    ensures decoded(d_string(visitor, old(self).rem()), r, final(self).rem(), old(self).reliable()), final(self).reliable() == old(self).reliable(),
//@entry
    broadcast use skip_skip, skip_none;
//@end
//@fn Deserializer::deserialize_option
    ensures decoded(d_option(visitor, old(self).rem()), r, final(self).rem(), old(self).reliable()), final(self).reliable() == old(self).reliable(),
//@entry
    broadcast use skip_skip, skip_none;
//@end
//@fn Deserializer::deserialize_newtype_struct
    ensures decoded(visitor.on_newtype(old(self).rem()), r, final(self).rem(), old(self).reliable()), final(self).reliable() == old(self).reliable(),
//@entry
    broadcast use skip_skip, skip_none;
//@end
//@fn Deserializer::deserialize_seq
    ensures decoded(d_seq(visitor, old(self).rem()), r, final(self).rem(), old(self).reliable()), final(self).reliable() == old(self).reliable(),
//@entry
    broadcast use skip_skip, skip_none;
    broadcast use unle_bound;
//@end
//@fn Deserializer::deserialize_tuple
    ensures decoded(visitor.on_seq(len as int, old(self).rem()), r, final(self).rem(), old(self).reliable()), final(self).reliable() == old(self).reliable(),
//@entry
    broadcast use skip_skip, skip_none;
//@end
//@fn Deserializer::deserialize_tuple_struct
    ensures decoded(visitor.on_seq(len as int, old(self).rem()), r, final(self).rem(), old(self).reliable()), final(self).reliable() == old(self).reliable(),
//@entry
    broadcast use skip_skip, skip_none;
//@end
//@fn Deserializer::deserialize_struct
    ensures decoded(visitor.on_seq(fields@.len() as int, old(self).rem()), r, final(self).rem(), old(self).reliable()), final(self).reliable() == old(self).reliable(),
//@entry
    broadcast use skip_skip, skip_none;
//@end
//@fn Deserializer::deserialize_enum
    ensures decoded(d_enum(visitor, name@, variants@, old(self).rem()), r, final(self).rem(), old(self).reliable()), final(self).reliable() == old(self).reliable(),
//@entry
    broadcast use skip_skip, skip_none;
//@end
//@fn Deserializer::deserialize_any
    ensures r is Err, final(self).rem() == old(self).rem(),
//@end
//@fn Deserializer::deserialize_bytes
    ensures r is Err, final(self).rem() == old(self).rem(),
//@end
//@fn Deserializer::deserialize_byte_buf
    ensures r is Err, final(self).rem() == old(self).rem(),
//@end
//@fn Deserializer::deserialize_identifier
    ensures r is Err, final(self).rem() == old(self).rem(),
//@end
//@fn Deserializer::deserialize_ignored_any
    ensures r is Err, final(self).rem() == old(self).rem(),
//@end
//@fn Deserializer::deserialize_map
    ensures decoded(d_map(visitor, old(self).rem()), r, final(self).rem(), old(self).reliable()), final(self).reliable() == old(self).reliable(),
//@entry
    broadcast use skip_skip, skip_none;
    broadcast use unle_bound;
//@end
//@fn MapAccess::new
    ensures *r.de == *old(de), *final(r.de) == *final(de), r.field_names == field_names, r.unnamed == 0,
//@end
//@fn MapAccess::unnamed
    ensures *r.de == *old(de), *final(r.de) == *final(de), r.field_names@.len() == 0, r.unnamed == len,
//@end
//@fn MapAcc::next_key_seed
    ensures
        *final(final(self).de) == *final(old(self).de), *final(self).de == *old(self).de,
        ({ let (o, n) = (old(self).field_names@, final(self).field_names@);
            if o.len() > 0 { n == o.drop_last() && final(self).unnamed == old(self).unnamed
                && (r is Ok <==> seed.of_name(o.last()@) is Some) && (r is Ok ==> r->Ok_0 == seed.of_name(o.last()@)) }
            else if old(self).unnamed > 0 { n == o && final(self).unnamed == old(self).unnamed - 1
                && (r is Ok <==> seed.of_name(""@) is Some) && (r is Ok ==> r->Ok_0 == seed.of_name(""@)) }
            else { n == o && final(self).unnamed == 0 && r is Ok && r->Ok_0 is None } }),
//@end
//@fn MapAcc::next_value_seed
    ensures
        *final(final(self).de) == *final(old(self).de), final(self).field_names == old(self).field_names, final(self).unnamed == old(self).unnamed,
        decoded(seed.dec(old(self).de.rem()), r, final(self).de.rem(), old(self).de.reliable()), final(self).de.reliable() == old(self).de.reliable(),
//@end
//@fn MapAcc::size_hint
    ensures r is Some, self.field_names@.len() + self.unnamed <= usize::MAX ==> r == Some((self.field_names@.len() + self.unnamed) as usize),
//@end
//@fn SeqAccess::new
    ensures *r.de == *old(de), *final(r.de) == *final(de), r.len == len, r.total_len == len, !r.is_list,
//@end
//@fn SeqAccess::new_list
    ensures *r.de == *old(de), *final(r.de) == *final(de), r.len == len, r.total_len == len, r.is_list,
//@end
//@fn Enum::new
    ensures *r.de == *old(de), *final(r.de) == *final(de), r.index == index,
//@end
//@fn PolyvarEnum::new
    ensures *r.de == *old(de), *final(r.de) == *final(de), r.hash == hash, r.variants == variants,
//@end
//@fn SeqAcc::next_element_seed
    ensures
        *final(final(self).de) == *final(old(self).de), final(self).total_len == old(self).total_len, final(self).is_list == old(self).is_list,
        final(self).de.reliable() == old(self).de.reliable(),
        old(self).len == 0 ==> r is Ok && r->Ok_0 is None && final(self).de.rem() == old(self).de.rem() && final(self).len == 0,
        old(self).len > 0 ==> final(self).len == old(self).len - 1 && (r is Ok ==> r->Ok_0 is Some)
            && (r is Ok ==> seed.dec(old(self).de.rem()) == Some((r->Ok_0->Some_0, final(self).de.rem())))
            && (old(self).de.reliable() ==> (r is Ok <==> seed.dec(old(self).de.rem()) is Some)),
//@end
//@fn SeqAcc::size_hint
    ensures !self.is_list ==> r is None, self.is_list ==> r == Some(self.total_len),
//@end
//@fn EnumAcc::variant_seed
    ensures
        r is Ok <==> seed.of_index(self.index as int) is Some,
        r is Ok ==> seed.of_index(self.index as int) == Some(r->Ok_0.0) && r->Ok_0.1.index == self.index
            && *r->Ok_0.1.de == *old(self.de) && *final(r->Ok_0.1.de) == *final(self.de),
        r is Err ==> *final(self.de) == *old(self.de),
//@end
//@fn PolyAcc::variant_seed
    ensures
        no_match(self.variants@, self.hash) ==> r is Err && r->Err_0 is UnknownPolyvarTag,
        forall|i: int| #[trigger] first_match(self.variants@, self.hash, i) ==> {
            &&& r is Ok <==> seed.of_index(i) is Some
            &&& r is Ok ==> seed.of_index(i) == Some(r->Ok_0.0)
                && *r->Ok_0.1.de == *old(self.de) && *final(r->Ok_0.1.de) == *final(self.de)
        },
        r is Err ==> *final(self.de) == *old(self.de),
//@loop 0
    invariant
        vx_i0 <= vx_s0@.len(), vx_s0@ == self.variants@,
        vx_a0 is None ==> forall|j: int| 0 <= j < vx_i0 ==> !(is_ascii(#[trigger] vx_s0@[j]@) && caml_hash(vx_s0@[j]@) == self.hash),
        vx_a0 is Some ==> first_match(vx_s0@, self.hash, vx_a0->Some_0 as int),
    decreases vx_s0@.len() - vx_i0
//@end
//@fn VarAcc::unit_variant
    ensures r is Ok, *final(self.de) == *old(self.de),
//@end
//@fn VarAcc::newtype_variant_seed
    ensures decoded(seed.dec(old(self.de).rem()), r, final(self.de).rem(), old(self.de).reliable()), final(self.de).reliable() == old(self.de).reliable(),
//@end
//@fn VarAcc::tuple_variant
    ensures decoded(visitor.on_seq(len as int, old(self.de).rem()), r, final(self.de).rem(), old(self.de).reliable()), final(self.de).reliable() == old(self.de).reliable(),
//@end
//@fn VarAcc::struct_variant
    ensures decoded(visitor.on_seq(fields@.len() as int, old(self.de).rem()), r, final(self.de).rem(), old(self.de).reliable()), final(self.de).reliable() == old(self.de).reliable(),
//@end
//@fn Deserializer::from_reader
    ensures r.rem() == rdr.rem(), r.reliable() == rdr.reliable(),
//@end
//@fn from_reader
    ensures
        r is Ok ==> T::dec(rdr.rem()) is Some && T::dec(rdr.rem())->Some_0.0 == r->Ok_0,
        rdr.reliable() ==> (r is Ok <==> T::dec(rdr.rem()) is Some),
//@end
//@fn from_reader_strict
    ensures
        r is Ok ==> T::dec(rdr.rem()) == Some((r->Ok_0, Seq::<u8>::empty())),
        rdr.reliable() ==> (r is Ok <==> T::dec(rdr.rem()) is Some && T::dec(rdr.rem())->Some_0.1.len() == 0),
        rdr.reliable() && T::dec(rdr.rem()) is Some && T::dec(rdr.rem())->Some_0.1.len() > 0 ==> r->Err_0 is StreamNotFullyConsumed,
//@entry
    broadcast use len0;
//@end
pub broadcast proof fn len0(s: Seq<u8>) requires #[trigger] s.len() == 0 ensures s == Seq::<u8>::empty() { assert(s =~= Seq::<u8>::empty()); }
pub proof fn lemma_i64_as_u64()
    ensures forall|n: i64| #[trigger] (n as u64) as int == (n as int) % 0x1_0000_0000_0000_0000
{
    assert forall|n: i64| #[trigger] (n as u64) as int == (n as int) % 0x1_0000_0000_0000_0000 by {
        assert(n >= 0 ==> (n as u64) as i128 == n as i128) by (bit_vector);
        assert(n < 0 ==> (n as u64) as i128 == (n as i128) + 0x1_0000_0000_0000_0000i128) by (bit_vector);
    }
}

//@include part_comp.rs
//@rw iter
//@rw result_map
//@rw str_match
//@sub pub ( crate ) struct =>> pub struct
//@sub U8Deserializer < Self :: Error > =>> u8
//@sub U16Deserializer < Self :: Error > =>> u16
//@sub U32Deserializer < Self :: Error > =>> u32
//@sub U64Deserializer < Self :: Error > =>> u64
//@sub seed . deserialize ( name . into_deserializer ( ) ) =>> seed . vx_deserialize_name ( name )
//@sub seed . deserialize ( "" . into_deserializer ( ) ) =>> seed . vx_deserialize_name ( "" )
//@sub . into_deserializer ( ) =>>
//@sub seed . deserialize ( de ) =>> seed . vx_deserialize_index ( de )
//@sub visitor . visit_enum ( PolyvarEnum =>> visitor . vx_visit_polyvar ( PolyvarEnum
//@sub v . is_ascii ( ) =>> vx_is_ascii ( v )
//@sub value == =>> value ==
//@emit protocol/bin-prot/src/de.rs struct:StronglyTyped
//@emit protocol/bin-prot/src/de.rs struct:Deserializer
//@emit protocol/bin-prot/src/de.rs impl:impl<R:Read>Deserializer<R,StronglyTyped> only=from_reader
//@emit protocol/bin-prot/src/de.rs fn:from_reader
//@emit protocol/bin-prot/src/de.rs fn:from_reader_strict
//@emit protocol/bin-prot/src/de.rs impl:de::Deserializer<'de>for&'amutDeserializer<R,StronglyTyped>
//@emit protocol/bin-prot/src/de.rs struct:PolyvarEnum
//@emit protocol/bin-prot/src/de.rs impl:PolyvarEnum<'a,R,Mode>
//@emit protocol/bin-prot/src/de.rs macro:impl_polyvar_enum_access(StronglyTyped) as=PolyAcc
//@emit protocol/bin-prot/src/de.rs struct:Enum
//@emit protocol/bin-prot/src/de.rs impl:Mode>Enum<'a,R,Mode>
//@emit protocol/bin-prot/src/de.rs macro:impl_enum_access(StronglyTyped) as=EnumAcc
//@emit protocol/bin-prot/src/de.rs macro:impl_variant_access(StronglyTyped;Enum) as=VarAcc
//@emit protocol/bin-prot/src/de.rs macro:impl_variant_access(StronglyTyped;PolyvarEnum) as=VarAcc
//@emit protocol/bin-prot/src/de.rs struct:SeqAccess
//@emit protocol/bin-prot/src/de.rs impl:SeqAccess<'a,R,Mode>
//@emit protocol/bin-prot/src/de.rs macro:impl_seq_access(StronglyTyped) as=SeqAcc
//@emit protocol/bin-prot/src/de.rs struct:MapAccess
//@emit protocol/bin-prot/src/de.rs impl:MapAccess<'a,R,Mode>
//@emit protocol/bin-prot/src/de.rs macro:impl_map_access(StronglyTyped) as=MapAcc
} // verus!
fn main() {}
