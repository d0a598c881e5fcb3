// written by tools/gencomp.py
// ---- C06 as one statement over the contracts: for every type put together from the formers below, decoding what the encoder
// writes gives the value back and stops exactly behind it. `dec` is what the verified decoder does for the type (the `deserialize`
// bodies and the visitors of compound types are checked here against the contracts of de.rs, the way serde's own and derived
// implementations use them), `enc` is what part_ser.rs proves the encoder appends for the calls serde makes for the type.
// Trait resolution is the induction: `rt` of a compound type uses `rt` of its parts.
use core::marker::PhantomData;
use de::DeserializeSeed;
use de::SeqAccess as _;
pub trait Wire<'de>: Deserialize<'de> {
    /// the values the encoder accepts
    spec fn ok(&self) -> bool;
    spec fn enc(&self) -> Seq<u8>;
    proof fn rt(&self, rest: Seq<u8>) requires self.ok() ensures Self::dec(self.enc() + rest) == Some((*self, rest));
}
pub proof fn cat_skip(a: Seq<u8>, b: Seq<u8>)
    ensures (a + b).skip(a.len() as int) == b, a.len() > 0 ==> (a + b)[0] == a[0], (a + b).len() == a.len() + b.len()
{ assert((a + b).skip(a.len() as int) =~= b); }
pub proof fn cat3(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures (a + b) + c == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
/// IEEE bit patterns and values, UTF-8 bytes and text, texts and Strings correspond one to one
pub axiom fn f32_same(f: f32) ensures f32_of(f32_bits(f)) == f, 0 <= f32_bits(f) < 0x1_0000_0000;
pub axiom fn f64_same(f: f64) ensures f64_of(f64_bits(f)) == f, 0 <= f64_bits(f) < 0x1_0000_0000_0000_0000;
pub uninterp spec fn str_bytes(s: Seq<char>) -> Seq<u8>;
pub axiom fn utf8_same(s: Seq<char>) ensures utf8(str_bytes(s)) == Some(s);
pub uninterp spec fn string_of(s: Seq<char>) -> String;
pub axiom fn string_same(s: String) ensures string_of(s@) == s;
pub uninterp spec fn vec_of<T>(s: Seq<T>) -> Vec<T>;
pub axiom fn vec_same<T>(v: Vec<T>) ensures vec_of(v@) == v;
pub struct Vi8;
impl<'de> Visitor<'de> for Vi8 {
    type Value = i8;
    open spec fn on(self, e: Ev) -> Option<i8> { match e { Ev::I8(x) => Some(x), _ => None } }
    open spec fn on_some(self, s: Seq<u8>) -> Dec<i8> { None }
    open spec fn on_newtype(self, s: Seq<u8>) -> Dec<i8> { None }
    open spec fn on_seq(self, n: int, s: Seq<u8>) -> Dec<i8> { None }
    open spec fn on_map(self, n: int, s: Seq<u8>) -> Dec<i8> { None }
    open spec fn on_enum(self, i: u8, s: Seq<u8>) -> Dec<i8> { None }
    open spec fn on_polyvar(self, h: u32, labels: Seq<&'static str>, s: Seq<u8>) -> Dec<i8> { None }
    #[verifier::external_body] fn visit_bool(self, v: bool) -> (r: Result<i8>) { unimplemented!() }
    #[verifier::external_body] fn visit_i8(self, v: i8) -> (r: Result<i8>) { unimplemented!() }
    #[verifier::external_body] fn visit_i16(self, v: i16) -> (r: Result<i8>) { unimplemented!() }
    #[verifier::external_body] fn visit_i32(self, v: i32) -> (r: Result<i8>) { unimplemented!() }
    #[verifier::external_body] fn visit_i64(self, v: i64) -> (r: Result<i8>) { unimplemented!() }
    #[verifier::external_body] fn visit_u8(self, v: u8) -> (r: Result<i8>) { unimplemented!() }
    #[verifier::external_body] fn visit_u16(self, v: u16) -> (r: Result<i8>) { unimplemented!() }
    #[verifier::external_body] fn visit_u32(self, v: u32) -> (r: Result<i8>) { unimplemented!() }
    #[verifier::external_body] fn visit_u64(self, v: u64) -> (r: Result<i8>) { unimplemented!() }
    #[verifier::external_body] fn visit_f32(self, v: f32) -> (r: Result<i8>) { unimplemented!() }
    #[verifier::external_body] fn visit_f64(self, v: f64) -> (r: Result<i8>) { unimplemented!() }
    #[verifier::external_body] fn visit_char(self, v: char) -> (r: Result<i8>) { unimplemented!() }
    #[verifier::external_body] fn visit_string(self, v: String) -> (r: Result<i8>) { unimplemented!() }
    #[verifier::external_body] fn visit_none(self) -> (r: Result<i8>) { unimplemented!() }
    #[verifier::external_body] fn visit_unit(self) -> (r: Result<i8>) { unimplemented!() }
    #[verifier::external_body] fn visit_some<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<i8>) { unimplemented!() }
    #[verifier::external_body] fn visit_newtype_struct<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<i8>) { unimplemented!() }
    #[verifier::external_body] fn visit_seq<'a, R: Read>(self, a: SeqAccess<'a, R, StronglyTyped>) -> (r: Result<i8>) { unimplemented!() }
    #[verifier::external_body] fn visit_map<'a, R: Read>(self, a: MapAccess<'a, R, StronglyTyped>) -> (r: Result<i8>) { unimplemented!() }
    #[verifier::external_body] fn visit_enum<'a, R: Read>(self, a: Enum<'a, R, StronglyTyped>) -> (r: Result<i8>) { unimplemented!() }
    #[verifier::external_body] fn vx_visit_polyvar<'a, R: Read>(self, a: PolyvarEnum<'a, R, StronglyTyped>) -> (r: Result<i8>) { unimplemented!() }
}
impl<'de> Deserialize<'de> for i8 {
    open spec fn dec(s: Seq<u8>) -> Dec<i8> { d_int(Vi8, s, i8::MIN as int, i8::MAX as int, |n: int| Ev::I8(n as i8)) }
    fn deserialize<'a, R: Read>(de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<i8>) { de::Deserializer::deserialize_i8(de, Vi8) }
}
impl<'de> Wire<'de> for i8 {
    open spec fn ok(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { enc_int(*self as int) }
    proof fn rt(&self, rest: Seq<u8>) { int_roundtrip(*self as int, rest); cat_skip(enc_int(*self as int), rest); }
}
pub struct Vi16;
impl<'de> Visitor<'de> for Vi16 {
    type Value = i16;
    open spec fn on(self, e: Ev) -> Option<i16> { match e { Ev::I16(x) => Some(x), _ => None } }
    open spec fn on_some(self, s: Seq<u8>) -> Dec<i16> { None }
    open spec fn on_newtype(self, s: Seq<u8>) -> Dec<i16> { None }
    open spec fn on_seq(self, n: int, s: Seq<u8>) -> Dec<i16> { None }
    open spec fn on_map(self, n: int, s: Seq<u8>) -> Dec<i16> { None }
    open spec fn on_enum(self, i: u8, s: Seq<u8>) -> Dec<i16> { None }
    open spec fn on_polyvar(self, h: u32, labels: Seq<&'static str>, s: Seq<u8>) -> Dec<i16> { None }
    #[verifier::external_body] fn visit_bool(self, v: bool) -> (r: Result<i16>) { unimplemented!() }
    #[verifier::external_body] fn visit_i8(self, v: i8) -> (r: Result<i16>) { unimplemented!() }
    #[verifier::external_body] fn visit_i16(self, v: i16) -> (r: Result<i16>) { unimplemented!() }
    #[verifier::external_body] fn visit_i32(self, v: i32) -> (r: Result<i16>) { unimplemented!() }
    #[verifier::external_body] fn visit_i64(self, v: i64) -> (r: Result<i16>) { unimplemented!() }
    #[verifier::external_body] fn visit_u8(self, v: u8) -> (r: Result<i16>) { unimplemented!() }
    #[verifier::external_body] fn visit_u16(self, v: u16) -> (r: Result<i16>) { unimplemented!() }
    #[verifier::external_body] fn visit_u32(self, v: u32) -> (r: Result<i16>) { unimplemented!() }
    #[verifier::external_body] fn visit_u64(self, v: u64) -> (r: Result<i16>) { unimplemented!() }
    #[verifier::external_body] fn visit_f32(self, v: f32) -> (r: Result<i16>) { unimplemented!() }
    #[verifier::external_body] fn visit_f64(self, v: f64) -> (r: Result<i16>) { unimplemented!() }
    #[verifier::external_body] fn visit_char(self, v: char) -> (r: Result<i16>) { unimplemented!() }
    #[verifier::external_body] fn visit_string(self, v: String) -> (r: Result<i16>) { unimplemented!() }
    #[verifier::external_body] fn visit_none(self) -> (r: Result<i16>) { unimplemented!() }
    #[verifier::external_body] fn visit_unit(self) -> (r: Result<i16>) { unimplemented!() }
    #[verifier::external_body] fn visit_some<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<i16>) { unimplemented!() }
    #[verifier::external_body] fn visit_newtype_struct<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<i16>) { unimplemented!() }
    #[verifier::external_body] fn visit_seq<'a, R: Read>(self, a: SeqAccess<'a, R, StronglyTyped>) -> (r: Result<i16>) { unimplemented!() }
    #[verifier::external_body] fn visit_map<'a, R: Read>(self, a: MapAccess<'a, R, StronglyTyped>) -> (r: Result<i16>) { unimplemented!() }
    #[verifier::external_body] fn visit_enum<'a, R: Read>(self, a: Enum<'a, R, StronglyTyped>) -> (r: Result<i16>) { unimplemented!() }
    #[verifier::external_body] fn vx_visit_polyvar<'a, R: Read>(self, a: PolyvarEnum<'a, R, StronglyTyped>) -> (r: Result<i16>) { unimplemented!() }
}
impl<'de> Deserialize<'de> for i16 {
    open spec fn dec(s: Seq<u8>) -> Dec<i16> { d_int(Vi16, s, i16::MIN as int, i16::MAX as int, |n: int| Ev::I16(n as i16)) }
    fn deserialize<'a, R: Read>(de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<i16>) { de::Deserializer::deserialize_i16(de, Vi16) }
}
impl<'de> Wire<'de> for i16 {
    open spec fn ok(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { enc_int(*self as int) }
    proof fn rt(&self, rest: Seq<u8>) { int_roundtrip(*self as int, rest); cat_skip(enc_int(*self as int), rest); }
}
pub struct Vi32;
impl<'de> Visitor<'de> for Vi32 {
    type Value = i32;
    open spec fn on(self, e: Ev) -> Option<i32> { match e { Ev::I32(x) => Some(x), _ => None } }
    open spec fn on_some(self, s: Seq<u8>) -> Dec<i32> { None }
    open spec fn on_newtype(self, s: Seq<u8>) -> Dec<i32> { None }
    open spec fn on_seq(self, n: int, s: Seq<u8>) -> Dec<i32> { None }
    open spec fn on_map(self, n: int, s: Seq<u8>) -> Dec<i32> { None }
    open spec fn on_enum(self, i: u8, s: Seq<u8>) -> Dec<i32> { None }
    open spec fn on_polyvar(self, h: u32, labels: Seq<&'static str>, s: Seq<u8>) -> Dec<i32> { None }
    #[verifier::external_body] fn visit_bool(self, v: bool) -> (r: Result<i32>) { unimplemented!() }
    #[verifier::external_body] fn visit_i8(self, v: i8) -> (r: Result<i32>) { unimplemented!() }
    #[verifier::external_body] fn visit_i16(self, v: i16) -> (r: Result<i32>) { unimplemented!() }
    #[verifier::external_body] fn visit_i32(self, v: i32) -> (r: Result<i32>) { unimplemented!() }
    #[verifier::external_body] fn visit_i64(self, v: i64) -> (r: Result<i32>) { unimplemented!() }
    #[verifier::external_body] fn visit_u8(self, v: u8) -> (r: Result<i32>) { unimplemented!() }
    #[verifier::external_body] fn visit_u16(self, v: u16) -> (r: Result<i32>) { unimplemented!() }
    #[verifier::external_body] fn visit_u32(self, v: u32) -> (r: Result<i32>) { unimplemented!() }
    #[verifier::external_body] fn visit_u64(self, v: u64) -> (r: Result<i32>) { unimplemented!() }
    #[verifier::external_body] fn visit_f32(self, v: f32) -> (r: Result<i32>) { unimplemented!() }
    #[verifier::external_body] fn visit_f64(self, v: f64) -> (r: Result<i32>) { unimplemented!() }
    #[verifier::external_body] fn visit_char(self, v: char) -> (r: Result<i32>) { unimplemented!() }
    #[verifier::external_body] fn visit_string(self, v: String) -> (r: Result<i32>) { unimplemented!() }
    #[verifier::external_body] fn visit_none(self) -> (r: Result<i32>) { unimplemented!() }
    #[verifier::external_body] fn visit_unit(self) -> (r: Result<i32>) { unimplemented!() }
    #[verifier::external_body] fn visit_some<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<i32>) { unimplemented!() }
    #[verifier::external_body] fn visit_newtype_struct<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<i32>) { unimplemented!() }
    #[verifier::external_body] fn visit_seq<'a, R: Read>(self, a: SeqAccess<'a, R, StronglyTyped>) -> (r: Result<i32>) { unimplemented!() }
    #[verifier::external_body] fn visit_map<'a, R: Read>(self, a: MapAccess<'a, R, StronglyTyped>) -> (r: Result<i32>) { unimplemented!() }
    #[verifier::external_body] fn visit_enum<'a, R: Read>(self, a: Enum<'a, R, StronglyTyped>) -> (r: Result<i32>) { unimplemented!() }
    #[verifier::external_body] fn vx_visit_polyvar<'a, R: Read>(self, a: PolyvarEnum<'a, R, StronglyTyped>) -> (r: Result<i32>) { unimplemented!() }
}
impl<'de> Deserialize<'de> for i32 {
    open spec fn dec(s: Seq<u8>) -> Dec<i32> { d_int(Vi32, s, i32::MIN as int, i32::MAX as int, |n: int| Ev::I32(n as i32)) }
    fn deserialize<'a, R: Read>(de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<i32>) { de::Deserializer::deserialize_i32(de, Vi32) }
}
impl<'de> Wire<'de> for i32 {
    open spec fn ok(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { enc_int(*self as int) }
    proof fn rt(&self, rest: Seq<u8>) { int_roundtrip(*self as int, rest); cat_skip(enc_int(*self as int), rest); }
}
pub struct Vi64;
impl<'de> Visitor<'de> for Vi64 {
    type Value = i64;
    open spec fn on(self, e: Ev) -> Option<i64> { match e { Ev::I64(x) => Some(x), _ => None } }
    open spec fn on_some(self, s: Seq<u8>) -> Dec<i64> { None }
    open spec fn on_newtype(self, s: Seq<u8>) -> Dec<i64> { None }
    open spec fn on_seq(self, n: int, s: Seq<u8>) -> Dec<i64> { None }
    open spec fn on_map(self, n: int, s: Seq<u8>) -> Dec<i64> { None }
    open spec fn on_enum(self, i: u8, s: Seq<u8>) -> Dec<i64> { None }
    open spec fn on_polyvar(self, h: u32, labels: Seq<&'static str>, s: Seq<u8>) -> Dec<i64> { None }
    #[verifier::external_body] fn visit_bool(self, v: bool) -> (r: Result<i64>) { unimplemented!() }
    #[verifier::external_body] fn visit_i8(self, v: i8) -> (r: Result<i64>) { unimplemented!() }
    #[verifier::external_body] fn visit_i16(self, v: i16) -> (r: Result<i64>) { unimplemented!() }
    #[verifier::external_body] fn visit_i32(self, v: i32) -> (r: Result<i64>) { unimplemented!() }
    #[verifier::external_body] fn visit_i64(self, v: i64) -> (r: Result<i64>) { unimplemented!() }
    #[verifier::external_body] fn visit_u8(self, v: u8) -> (r: Result<i64>) { unimplemented!() }
    #[verifier::external_body] fn visit_u16(self, v: u16) -> (r: Result<i64>) { unimplemented!() }
    #[verifier::external_body] fn visit_u32(self, v: u32) -> (r: Result<i64>) { unimplemented!() }
    #[verifier::external_body] fn visit_u64(self, v: u64) -> (r: Result<i64>) { unimplemented!() }
    #[verifier::external_body] fn visit_f32(self, v: f32) -> (r: Result<i64>) { unimplemented!() }
    #[verifier::external_body] fn visit_f64(self, v: f64) -> (r: Result<i64>) { unimplemented!() }
    #[verifier::external_body] fn visit_char(self, v: char) -> (r: Result<i64>) { unimplemented!() }
    #[verifier::external_body] fn visit_string(self, v: String) -> (r: Result<i64>) { unimplemented!() }
    #[verifier::external_body] fn visit_none(self) -> (r: Result<i64>) { unimplemented!() }
    #[verifier::external_body] fn visit_unit(self) -> (r: Result<i64>) { unimplemented!() }
    #[verifier::external_body] fn visit_some<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<i64>) { unimplemented!() }
    #[verifier::external_body] fn visit_newtype_struct<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<i64>) { unimplemented!() }
    #[verifier::external_body] fn visit_seq<'a, R: Read>(self, a: SeqAccess<'a, R, StronglyTyped>) -> (r: Result<i64>) { unimplemented!() }
    #[verifier::external_body] fn visit_map<'a, R: Read>(self, a: MapAccess<'a, R, StronglyTyped>) -> (r: Result<i64>) { unimplemented!() }
    #[verifier::external_body] fn visit_enum<'a, R: Read>(self, a: Enum<'a, R, StronglyTyped>) -> (r: Result<i64>) { unimplemented!() }
    #[verifier::external_body] fn vx_visit_polyvar<'a, R: Read>(self, a: PolyvarEnum<'a, R, StronglyTyped>) -> (r: Result<i64>) { unimplemented!() }
}
impl<'de> Deserialize<'de> for i64 {
    open spec fn dec(s: Seq<u8>) -> Dec<i64> { d_int(Vi64, s, i64::MIN as int, i64::MAX as int, |n: int| Ev::I64(n as i64)) }
    fn deserialize<'a, R: Read>(de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<i64>) { de::Deserializer::deserialize_i64(de, Vi64) }
}
impl<'de> Wire<'de> for i64 {
    open spec fn ok(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { enc_int(*self as int) }
    proof fn rt(&self, rest: Seq<u8>) { int_roundtrip(*self as int, rest); cat_skip(enc_int(*self as int), rest); }
}
pub struct Vu16;
impl<'de> Visitor<'de> for Vu16 {
    type Value = u16;
    open spec fn on(self, e: Ev) -> Option<u16> { match e { Ev::U16(x) => Some(x), _ => None } }
    open spec fn on_some(self, s: Seq<u8>) -> Dec<u16> { None }
    open spec fn on_newtype(self, s: Seq<u8>) -> Dec<u16> { None }
    open spec fn on_seq(self, n: int, s: Seq<u8>) -> Dec<u16> { None }
    open spec fn on_map(self, n: int, s: Seq<u8>) -> Dec<u16> { None }
    open spec fn on_enum(self, i: u8, s: Seq<u8>) -> Dec<u16> { None }
    open spec fn on_polyvar(self, h: u32, labels: Seq<&'static str>, s: Seq<u8>) -> Dec<u16> { None }
    #[verifier::external_body] fn visit_bool(self, v: bool) -> (r: Result<u16>) { unimplemented!() }
    #[verifier::external_body] fn visit_i8(self, v: i8) -> (r: Result<u16>) { unimplemented!() }
    #[verifier::external_body] fn visit_i16(self, v: i16) -> (r: Result<u16>) { unimplemented!() }
    #[verifier::external_body] fn visit_i32(self, v: i32) -> (r: Result<u16>) { unimplemented!() }
    #[verifier::external_body] fn visit_i64(self, v: i64) -> (r: Result<u16>) { unimplemented!() }
    #[verifier::external_body] fn visit_u8(self, v: u8) -> (r: Result<u16>) { unimplemented!() }
    #[verifier::external_body] fn visit_u16(self, v: u16) -> (r: Result<u16>) { unimplemented!() }
    #[verifier::external_body] fn visit_u32(self, v: u32) -> (r: Result<u16>) { unimplemented!() }
    #[verifier::external_body] fn visit_u64(self, v: u64) -> (r: Result<u16>) { unimplemented!() }
    #[verifier::external_body] fn visit_f32(self, v: f32) -> (r: Result<u16>) { unimplemented!() }
    #[verifier::external_body] fn visit_f64(self, v: f64) -> (r: Result<u16>) { unimplemented!() }
    #[verifier::external_body] fn visit_char(self, v: char) -> (r: Result<u16>) { unimplemented!() }
    #[verifier::external_body] fn visit_string(self, v: String) -> (r: Result<u16>) { unimplemented!() }
    #[verifier::external_body] fn visit_none(self) -> (r: Result<u16>) { unimplemented!() }
    #[verifier::external_body] fn visit_unit(self) -> (r: Result<u16>) { unimplemented!() }
    #[verifier::external_body] fn visit_some<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<u16>) { unimplemented!() }
    #[verifier::external_body] fn visit_newtype_struct<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<u16>) { unimplemented!() }
    #[verifier::external_body] fn visit_seq<'a, R: Read>(self, a: SeqAccess<'a, R, StronglyTyped>) -> (r: Result<u16>) { unimplemented!() }
    #[verifier::external_body] fn visit_map<'a, R: Read>(self, a: MapAccess<'a, R, StronglyTyped>) -> (r: Result<u16>) { unimplemented!() }
    #[verifier::external_body] fn visit_enum<'a, R: Read>(self, a: Enum<'a, R, StronglyTyped>) -> (r: Result<u16>) { unimplemented!() }
    #[verifier::external_body] fn vx_visit_polyvar<'a, R: Read>(self, a: PolyvarEnum<'a, R, StronglyTyped>) -> (r: Result<u16>) { unimplemented!() }
}
impl<'de> Deserialize<'de> for u16 {
    open spec fn dec(s: Seq<u8>) -> Dec<u16> { d_int(Vu16, s, u16::MIN as int, u16::MAX as int, |n: int| Ev::U16(n as u16)) }
    fn deserialize<'a, R: Read>(de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<u16>) { de::Deserializer::deserialize_u16(de, Vu16) }
}
impl<'de> Wire<'de> for u16 {
    open spec fn ok(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { enc_int(*self as int) }
    proof fn rt(&self, rest: Seq<u8>) { int_roundtrip(*self as int, rest); cat_skip(enc_int(*self as int), rest); }
}
pub struct Vu32;
impl<'de> Visitor<'de> for Vu32 {
    type Value = u32;
    open spec fn on(self, e: Ev) -> Option<u32> { match e { Ev::U32(x) => Some(x), _ => None } }
    open spec fn on_some(self, s: Seq<u8>) -> Dec<u32> { None }
    open spec fn on_newtype(self, s: Seq<u8>) -> Dec<u32> { None }
    open spec fn on_seq(self, n: int, s: Seq<u8>) -> Dec<u32> { None }
    open spec fn on_map(self, n: int, s: Seq<u8>) -> Dec<u32> { None }
    open spec fn on_enum(self, i: u8, s: Seq<u8>) -> Dec<u32> { None }
    open spec fn on_polyvar(self, h: u32, labels: Seq<&'static str>, s: Seq<u8>) -> Dec<u32> { None }
    #[verifier::external_body] fn visit_bool(self, v: bool) -> (r: Result<u32>) { unimplemented!() }
    #[verifier::external_body] fn visit_i8(self, v: i8) -> (r: Result<u32>) { unimplemented!() }
    #[verifier::external_body] fn visit_i16(self, v: i16) -> (r: Result<u32>) { unimplemented!() }
    #[verifier::external_body] fn visit_i32(self, v: i32) -> (r: Result<u32>) { unimplemented!() }
    #[verifier::external_body] fn visit_i64(self, v: i64) -> (r: Result<u32>) { unimplemented!() }
    #[verifier::external_body] fn visit_u8(self, v: u8) -> (r: Result<u32>) { unimplemented!() }
    #[verifier::external_body] fn visit_u16(self, v: u16) -> (r: Result<u32>) { unimplemented!() }
    #[verifier::external_body] fn visit_u32(self, v: u32) -> (r: Result<u32>) { unimplemented!() }
    #[verifier::external_body] fn visit_u64(self, v: u64) -> (r: Result<u32>) { unimplemented!() }
    #[verifier::external_body] fn visit_f32(self, v: f32) -> (r: Result<u32>) { unimplemented!() }
    #[verifier::external_body] fn visit_f64(self, v: f64) -> (r: Result<u32>) { unimplemented!() }
    #[verifier::external_body] fn visit_char(self, v: char) -> (r: Result<u32>) { unimplemented!() }
    #[verifier::external_body] fn visit_string(self, v: String) -> (r: Result<u32>) { unimplemented!() }
    #[verifier::external_body] fn visit_none(self) -> (r: Result<u32>) { unimplemented!() }
    #[verifier::external_body] fn visit_unit(self) -> (r: Result<u32>) { unimplemented!() }
    #[verifier::external_body] fn visit_some<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<u32>) { unimplemented!() }
    #[verifier::external_body] fn visit_newtype_struct<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<u32>) { unimplemented!() }
    #[verifier::external_body] fn visit_seq<'a, R: Read>(self, a: SeqAccess<'a, R, StronglyTyped>) -> (r: Result<u32>) { unimplemented!() }
    #[verifier::external_body] fn visit_map<'a, R: Read>(self, a: MapAccess<'a, R, StronglyTyped>) -> (r: Result<u32>) { unimplemented!() }
    #[verifier::external_body] fn visit_enum<'a, R: Read>(self, a: Enum<'a, R, StronglyTyped>) -> (r: Result<u32>) { unimplemented!() }
    #[verifier::external_body] fn vx_visit_polyvar<'a, R: Read>(self, a: PolyvarEnum<'a, R, StronglyTyped>) -> (r: Result<u32>) { unimplemented!() }
}
impl<'de> Deserialize<'de> for u32 {
    open spec fn dec(s: Seq<u8>) -> Dec<u32> { d_int(Vu32, s, u32::MIN as int, u32::MAX as int, |n: int| Ev::U32(n as u32)) }
    fn deserialize<'a, R: Read>(de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<u32>) { de::Deserializer::deserialize_u32(de, Vu32) }
}
impl<'de> Wire<'de> for u32 {
    open spec fn ok(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { enc_int(*self as int) }
    proof fn rt(&self, rest: Seq<u8>) { int_roundtrip(*self as int, rest); cat_skip(enc_int(*self as int), rest); }
}
pub struct Vu64;
impl<'de> Visitor<'de> for Vu64 {
    type Value = u64;
    open spec fn on(self, e: Ev) -> Option<u64> { match e { Ev::U64(x) => Some(x), _ => None } }
    open spec fn on_some(self, s: Seq<u8>) -> Dec<u64> { None }
    open spec fn on_newtype(self, s: Seq<u8>) -> Dec<u64> { None }
    open spec fn on_seq(self, n: int, s: Seq<u8>) -> Dec<u64> { None }
    open spec fn on_map(self, n: int, s: Seq<u8>) -> Dec<u64> { None }
    open spec fn on_enum(self, i: u8, s: Seq<u8>) -> Dec<u64> { None }
    open spec fn on_polyvar(self, h: u32, labels: Seq<&'static str>, s: Seq<u8>) -> Dec<u64> { None }
    #[verifier::external_body] fn visit_bool(self, v: bool) -> (r: Result<u64>) { unimplemented!() }
    #[verifier::external_body] fn visit_i8(self, v: i8) -> (r: Result<u64>) { unimplemented!() }
    #[verifier::external_body] fn visit_i16(self, v: i16) -> (r: Result<u64>) { unimplemented!() }
    #[verifier::external_body] fn visit_i32(self, v: i32) -> (r: Result<u64>) { unimplemented!() }
    #[verifier::external_body] fn visit_i64(self, v: i64) -> (r: Result<u64>) { unimplemented!() }
    #[verifier::external_body] fn visit_u8(self, v: u8) -> (r: Result<u64>) { unimplemented!() }
    #[verifier::external_body] fn visit_u16(self, v: u16) -> (r: Result<u64>) { unimplemented!() }
    #[verifier::external_body] fn visit_u32(self, v: u32) -> (r: Result<u64>) { unimplemented!() }
    #[verifier::external_body] fn visit_u64(self, v: u64) -> (r: Result<u64>) { unimplemented!() }
    #[verifier::external_body] fn visit_f32(self, v: f32) -> (r: Result<u64>) { unimplemented!() }
    #[verifier::external_body] fn visit_f64(self, v: f64) -> (r: Result<u64>) { unimplemented!() }
    #[verifier::external_body] fn visit_char(self, v: char) -> (r: Result<u64>) { unimplemented!() }
    #[verifier::external_body] fn visit_string(self, v: String) -> (r: Result<u64>) { unimplemented!() }
    #[verifier::external_body] fn visit_none(self) -> (r: Result<u64>) { unimplemented!() }
    #[verifier::external_body] fn visit_unit(self) -> (r: Result<u64>) { unimplemented!() }
    #[verifier::external_body] fn visit_some<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<u64>) { unimplemented!() }
    #[verifier::external_body] fn visit_newtype_struct<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<u64>) { unimplemented!() }
    #[verifier::external_body] fn visit_seq<'a, R: Read>(self, a: SeqAccess<'a, R, StronglyTyped>) -> (r: Result<u64>) { unimplemented!() }
    #[verifier::external_body] fn visit_map<'a, R: Read>(self, a: MapAccess<'a, R, StronglyTyped>) -> (r: Result<u64>) { unimplemented!() }
    #[verifier::external_body] fn visit_enum<'a, R: Read>(self, a: Enum<'a, R, StronglyTyped>) -> (r: Result<u64>) { unimplemented!() }
    #[verifier::external_body] fn vx_visit_polyvar<'a, R: Read>(self, a: PolyvarEnum<'a, R, StronglyTyped>) -> (r: Result<u64>) { unimplemented!() }
}
impl<'de> Deserialize<'de> for u64 {
    open spec fn dec(s: Seq<u8>) -> Dec<u64> { d_int(Vu64, s, i64::MIN as int, i64::MAX as int, |n: int| Ev::U64((n % 0x1_0000_0000_0000_0000) as u64)) }
    fn deserialize<'a, R: Read>(de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<u64>) { de::Deserializer::deserialize_u64(de, Vu64) }
}
impl<'de> Wire<'de> for u64 {
    open spec fn ok(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { enc_int(signed(*self as int, 0x1_0000_0000_0000_0000)) }
    proof fn rt(&self, rest: Seq<u8>) { let n = signed(*self as int, 0x1_0000_0000_0000_0000); int_roundtrip(n, rest); cat_skip(enc_int(n), rest); assert(n % 0x1_0000_0000_0000_0000 == *self as int) by (nonlinear_arith) requires n == *self as int || n == *self as int - 0x1_0000_0000_0000_0000, 0 <= *self as int, (*self as int) < 0x1_0000_0000_0000_0000; }
}
pub struct VBool;
impl<'de> Visitor<'de> for VBool {
    type Value = bool;
    open spec fn on(self, e: Ev) -> Option<bool> { match e { Ev::Bool(x) => Some(x), _ => None } }
    open spec fn on_some(self, s: Seq<u8>) -> Dec<bool> { None }
    open spec fn on_newtype(self, s: Seq<u8>) -> Dec<bool> { None }
    open spec fn on_seq(self, n: int, s: Seq<u8>) -> Dec<bool> { None }
    open spec fn on_map(self, n: int, s: Seq<u8>) -> Dec<bool> { None }
    open spec fn on_enum(self, i: u8, s: Seq<u8>) -> Dec<bool> { None }
    open spec fn on_polyvar(self, h: u32, labels: Seq<&'static str>, s: Seq<u8>) -> Dec<bool> { None }
    #[verifier::external_body] fn visit_bool(self, v: bool) -> (r: Result<bool>) { unimplemented!() }
    #[verifier::external_body] fn visit_i8(self, v: i8) -> (r: Result<bool>) { unimplemented!() }
    #[verifier::external_body] fn visit_i16(self, v: i16) -> (r: Result<bool>) { unimplemented!() }
    #[verifier::external_body] fn visit_i32(self, v: i32) -> (r: Result<bool>) { unimplemented!() }
    #[verifier::external_body] fn visit_i64(self, v: i64) -> (r: Result<bool>) { unimplemented!() }
    #[verifier::external_body] fn visit_u8(self, v: u8) -> (r: Result<bool>) { unimplemented!() }
    #[verifier::external_body] fn visit_u16(self, v: u16) -> (r: Result<bool>) { unimplemented!() }
    #[verifier::external_body] fn visit_u32(self, v: u32) -> (r: Result<bool>) { unimplemented!() }
    #[verifier::external_body] fn visit_u64(self, v: u64) -> (r: Result<bool>) { unimplemented!() }
    #[verifier::external_body] fn visit_f32(self, v: f32) -> (r: Result<bool>) { unimplemented!() }
    #[verifier::external_body] fn visit_f64(self, v: f64) -> (r: Result<bool>) { unimplemented!() }
    #[verifier::external_body] fn visit_char(self, v: char) -> (r: Result<bool>) { unimplemented!() }
    #[verifier::external_body] fn visit_string(self, v: String) -> (r: Result<bool>) { unimplemented!() }
    #[verifier::external_body] fn visit_none(self) -> (r: Result<bool>) { unimplemented!() }
    #[verifier::external_body] fn visit_unit(self) -> (r: Result<bool>) { unimplemented!() }
    #[verifier::external_body] fn visit_some<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<bool>) { unimplemented!() }
    #[verifier::external_body] fn visit_newtype_struct<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<bool>) { unimplemented!() }
    #[verifier::external_body] fn visit_seq<'a, R: Read>(self, a: SeqAccess<'a, R, StronglyTyped>) -> (r: Result<bool>) { unimplemented!() }
    #[verifier::external_body] fn visit_map<'a, R: Read>(self, a: MapAccess<'a, R, StronglyTyped>) -> (r: Result<bool>) { unimplemented!() }
    #[verifier::external_body] fn visit_enum<'a, R: Read>(self, a: Enum<'a, R, StronglyTyped>) -> (r: Result<bool>) { unimplemented!() }
    #[verifier::external_body] fn vx_visit_polyvar<'a, R: Read>(self, a: PolyvarEnum<'a, R, StronglyTyped>) -> (r: Result<bool>) { unimplemented!() }
}
impl<'de> Deserialize<'de> for bool {
    open spec fn dec(s: Seq<u8>) -> Dec<bool> { d_byte(VBool, s, |b: u8| if b == 0 { Some(Ev::Bool(false)) } else if b == 1 { Some(Ev::Bool(true)) } else { None }) }
    fn deserialize<'a, R: Read>(de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<bool>) { de::Deserializer::deserialize_bool(de, VBool) }
}
impl<'de> Wire<'de> for bool {
    open spec fn ok(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { seq![if *self { 1u8 } else { 0u8 }] }
    proof fn rt(&self, rest: Seq<u8>) { let e = self.enc(); cat_skip(e, rest); }
}
pub struct VUnit;
impl<'de> Visitor<'de> for VUnit {
    type Value = ();
    open spec fn on(self, e: Ev) -> Option<()> { match e { Ev::Unit => Some(()), _ => None } }
    open spec fn on_some(self, s: Seq<u8>) -> Dec<()> { None }
    open spec fn on_newtype(self, s: Seq<u8>) -> Dec<()> { None }
    open spec fn on_seq(self, n: int, s: Seq<u8>) -> Dec<()> { None }
    open spec fn on_map(self, n: int, s: Seq<u8>) -> Dec<()> { None }
    open spec fn on_enum(self, i: u8, s: Seq<u8>) -> Dec<()> { None }
    open spec fn on_polyvar(self, h: u32, labels: Seq<&'static str>, s: Seq<u8>) -> Dec<()> { None }
    #[verifier::external_body] fn visit_bool(self, v: bool) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn visit_i8(self, v: i8) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn visit_i16(self, v: i16) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn visit_i32(self, v: i32) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn visit_i64(self, v: i64) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn visit_u8(self, v: u8) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn visit_u16(self, v: u16) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn visit_u32(self, v: u32) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn visit_u64(self, v: u64) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn visit_f32(self, v: f32) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn visit_f64(self, v: f64) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn visit_char(self, v: char) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn visit_string(self, v: String) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn visit_none(self) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn visit_unit(self) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn visit_some<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn visit_newtype_struct<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn visit_seq<'a, R: Read>(self, a: SeqAccess<'a, R, StronglyTyped>) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn visit_map<'a, R: Read>(self, a: MapAccess<'a, R, StronglyTyped>) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn visit_enum<'a, R: Read>(self, a: Enum<'a, R, StronglyTyped>) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn vx_visit_polyvar<'a, R: Read>(self, a: PolyvarEnum<'a, R, StronglyTyped>) -> (r: Result<()>) { unimplemented!() }
}
impl<'de> Deserialize<'de> for () {
    open spec fn dec(s: Seq<u8>) -> Dec<()> { d_byte(VUnit, s, |b: u8| if b == 0 { Some(Ev::Unit) } else { None }) }
    fn deserialize<'a, R: Read>(de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<()>) { de::Deserializer::deserialize_unit(de, VUnit) }
}
impl<'de> Wire<'de> for () {
    open spec fn ok(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { seq![0u8] }
    proof fn rt(&self, rest: Seq<u8>) { let e = self.enc(); cat_skip(e, rest); }
}
pub struct VU8;
impl<'de> Visitor<'de> for VU8 {
    type Value = u8;
    open spec fn on(self, e: Ev) -> Option<u8> { match e { Ev::U8(x) => Some(x), _ => None } }
    open spec fn on_some(self, s: Seq<u8>) -> Dec<u8> { None }
    open spec fn on_newtype(self, s: Seq<u8>) -> Dec<u8> { None }
    open spec fn on_seq(self, n: int, s: Seq<u8>) -> Dec<u8> { None }
    open spec fn on_map(self, n: int, s: Seq<u8>) -> Dec<u8> { None }
    open spec fn on_enum(self, i: u8, s: Seq<u8>) -> Dec<u8> { None }
    open spec fn on_polyvar(self, h: u32, labels: Seq<&'static str>, s: Seq<u8>) -> Dec<u8> { None }
    #[verifier::external_body] fn visit_bool(self, v: bool) -> (r: Result<u8>) { unimplemented!() }
    #[verifier::external_body] fn visit_i8(self, v: i8) -> (r: Result<u8>) { unimplemented!() }
    #[verifier::external_body] fn visit_i16(self, v: i16) -> (r: Result<u8>) { unimplemented!() }
    #[verifier::external_body] fn visit_i32(self, v: i32) -> (r: Result<u8>) { unimplemented!() }
    #[verifier::external_body] fn visit_i64(self, v: i64) -> (r: Result<u8>) { unimplemented!() }
    #[verifier::external_body] fn visit_u8(self, v: u8) -> (r: Result<u8>) { unimplemented!() }
    #[verifier::external_body] fn visit_u16(self, v: u16) -> (r: Result<u8>) { unimplemented!() }
    #[verifier::external_body] fn visit_u32(self, v: u32) -> (r: Result<u8>) { unimplemented!() }
    #[verifier::external_body] fn visit_u64(self, v: u64) -> (r: Result<u8>) { unimplemented!() }
    #[verifier::external_body] fn visit_f32(self, v: f32) -> (r: Result<u8>) { unimplemented!() }
    #[verifier::external_body] fn visit_f64(self, v: f64) -> (r: Result<u8>) { unimplemented!() }
    #[verifier::external_body] fn visit_char(self, v: char) -> (r: Result<u8>) { unimplemented!() }
    #[verifier::external_body] fn visit_string(self, v: String) -> (r: Result<u8>) { unimplemented!() }
    #[verifier::external_body] fn visit_none(self) -> (r: Result<u8>) { unimplemented!() }
    #[verifier::external_body] fn visit_unit(self) -> (r: Result<u8>) { unimplemented!() }
    #[verifier::external_body] fn visit_some<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<u8>) { unimplemented!() }
    #[verifier::external_body] fn visit_newtype_struct<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<u8>) { unimplemented!() }
    #[verifier::external_body] fn visit_seq<'a, R: Read>(self, a: SeqAccess<'a, R, StronglyTyped>) -> (r: Result<u8>) { unimplemented!() }
    #[verifier::external_body] fn visit_map<'a, R: Read>(self, a: MapAccess<'a, R, StronglyTyped>) -> (r: Result<u8>) { unimplemented!() }
    #[verifier::external_body] fn visit_enum<'a, R: Read>(self, a: Enum<'a, R, StronglyTyped>) -> (r: Result<u8>) { unimplemented!() }
    #[verifier::external_body] fn vx_visit_polyvar<'a, R: Read>(self, a: PolyvarEnum<'a, R, StronglyTyped>) -> (r: Result<u8>) { unimplemented!() }
}
impl<'de> Deserialize<'de> for u8 {
    open spec fn dec(s: Seq<u8>) -> Dec<u8> { d_byte(VU8, s, |b: u8| Some(Ev::U8(b))) }
    fn deserialize<'a, R: Read>(de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<u8>) { de::Deserializer::deserialize_u8(de, VU8) }
}
impl<'de> Wire<'de> for u8 {
    open spec fn ok(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { seq![*self] }
    proof fn rt(&self, rest: Seq<u8>) { let e = self.enc(); cat_skip(e, rest); }
}
pub struct VChar;
impl<'de> Visitor<'de> for VChar {
    type Value = char;
    open spec fn on(self, e: Ev) -> Option<char> { match e { Ev::Char(x) => Some(x), _ => None } }
    open spec fn on_some(self, s: Seq<u8>) -> Dec<char> { None }
    open spec fn on_newtype(self, s: Seq<u8>) -> Dec<char> { None }
    open spec fn on_seq(self, n: int, s: Seq<u8>) -> Dec<char> { None }
    open spec fn on_map(self, n: int, s: Seq<u8>) -> Dec<char> { None }
    open spec fn on_enum(self, i: u8, s: Seq<u8>) -> Dec<char> { None }
    open spec fn on_polyvar(self, h: u32, labels: Seq<&'static str>, s: Seq<u8>) -> Dec<char> { None }
    #[verifier::external_body] fn visit_bool(self, v: bool) -> (r: Result<char>) { unimplemented!() }
    #[verifier::external_body] fn visit_i8(self, v: i8) -> (r: Result<char>) { unimplemented!() }
    #[verifier::external_body] fn visit_i16(self, v: i16) -> (r: Result<char>) { unimplemented!() }
    #[verifier::external_body] fn visit_i32(self, v: i32) -> (r: Result<char>) { unimplemented!() }
    #[verifier::external_body] fn visit_i64(self, v: i64) -> (r: Result<char>) { unimplemented!() }
    #[verifier::external_body] fn visit_u8(self, v: u8) -> (r: Result<char>) { unimplemented!() }
    #[verifier::external_body] fn visit_u16(self, v: u16) -> (r: Result<char>) { unimplemented!() }
    #[verifier::external_body] fn visit_u32(self, v: u32) -> (r: Result<char>) { unimplemented!() }
    #[verifier::external_body] fn visit_u64(self, v: u64) -> (r: Result<char>) { unimplemented!() }
    #[verifier::external_body] fn visit_f32(self, v: f32) -> (r: Result<char>) { unimplemented!() }
    #[verifier::external_body] fn visit_f64(self, v: f64) -> (r: Result<char>) { unimplemented!() }
    #[verifier::external_body] fn visit_char(self, v: char) -> (r: Result<char>) { unimplemented!() }
    #[verifier::external_body] fn visit_string(self, v: String) -> (r: Result<char>) { unimplemented!() }
    #[verifier::external_body] fn visit_none(self) -> (r: Result<char>) { unimplemented!() }
    #[verifier::external_body] fn visit_unit(self) -> (r: Result<char>) { unimplemented!() }
    #[verifier::external_body] fn visit_some<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<char>) { unimplemented!() }
    #[verifier::external_body] fn visit_newtype_struct<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<char>) { unimplemented!() }
    #[verifier::external_body] fn visit_seq<'a, R: Read>(self, a: SeqAccess<'a, R, StronglyTyped>) -> (r: Result<char>) { unimplemented!() }
    #[verifier::external_body] fn visit_map<'a, R: Read>(self, a: MapAccess<'a, R, StronglyTyped>) -> (r: Result<char>) { unimplemented!() }
    #[verifier::external_body] fn visit_enum<'a, R: Read>(self, a: Enum<'a, R, StronglyTyped>) -> (r: Result<char>) { unimplemented!() }
    #[verifier::external_body] fn vx_visit_polyvar<'a, R: Read>(self, a: PolyvarEnum<'a, R, StronglyTyped>) -> (r: Result<char>) { unimplemented!() }
}
impl<'de> Deserialize<'de> for char {
    open spec fn dec(s: Seq<u8>) -> Dec<char> { d_byte(VChar, s, |b: u8| Some(Ev::Char(b as char))) }
    fn deserialize<'a, R: Read>(de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<char>) { de::Deserializer::deserialize_char(de, VChar) }
}
impl<'de> Wire<'de> for char {
    open spec fn ok(&self) -> bool { (*self as u32) < 256 }
    open spec fn enc(&self) -> Seq<u8> { seq![*self as u8] }
    proof fn rt(&self, rest: Seq<u8>) { let e = self.enc(); cat_skip(e, rest); }
}
pub struct Vf32;
impl<'de> Visitor<'de> for Vf32 {
    type Value = f32;
    open spec fn on(self, e: Ev) -> Option<f32> { match e { Ev::F32(x) => Some(x), _ => None } }
    open spec fn on_some(self, s: Seq<u8>) -> Dec<f32> { None }
    open spec fn on_newtype(self, s: Seq<u8>) -> Dec<f32> { None }
    open spec fn on_seq(self, n: int, s: Seq<u8>) -> Dec<f32> { None }
    open spec fn on_map(self, n: int, s: Seq<u8>) -> Dec<f32> { None }
    open spec fn on_enum(self, i: u8, s: Seq<u8>) -> Dec<f32> { None }
    open spec fn on_polyvar(self, h: u32, labels: Seq<&'static str>, s: Seq<u8>) -> Dec<f32> { None }
    #[verifier::external_body] fn visit_bool(self, v: bool) -> (r: Result<f32>) { unimplemented!() }
    #[verifier::external_body] fn visit_i8(self, v: i8) -> (r: Result<f32>) { unimplemented!() }
    #[verifier::external_body] fn visit_i16(self, v: i16) -> (r: Result<f32>) { unimplemented!() }
    #[verifier::external_body] fn visit_i32(self, v: i32) -> (r: Result<f32>) { unimplemented!() }
    #[verifier::external_body] fn visit_i64(self, v: i64) -> (r: Result<f32>) { unimplemented!() }
    #[verifier::external_body] fn visit_u8(self, v: u8) -> (r: Result<f32>) { unimplemented!() }
    #[verifier::external_body] fn visit_u16(self, v: u16) -> (r: Result<f32>) { unimplemented!() }
    #[verifier::external_body] fn visit_u32(self, v: u32) -> (r: Result<f32>) { unimplemented!() }
    #[verifier::external_body] fn visit_u64(self, v: u64) -> (r: Result<f32>) { unimplemented!() }
    #[verifier::external_body] fn visit_f32(self, v: f32) -> (r: Result<f32>) { unimplemented!() }
    #[verifier::external_body] fn visit_f64(self, v: f64) -> (r: Result<f32>) { unimplemented!() }
    #[verifier::external_body] fn visit_char(self, v: char) -> (r: Result<f32>) { unimplemented!() }
    #[verifier::external_body] fn visit_string(self, v: String) -> (r: Result<f32>) { unimplemented!() }
    #[verifier::external_body] fn visit_none(self) -> (r: Result<f32>) { unimplemented!() }
    #[verifier::external_body] fn visit_unit(self) -> (r: Result<f32>) { unimplemented!() }
    #[verifier::external_body] fn visit_some<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<f32>) { unimplemented!() }
    #[verifier::external_body] fn visit_newtype_struct<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<f32>) { unimplemented!() }
    #[verifier::external_body] fn visit_seq<'a, R: Read>(self, a: SeqAccess<'a, R, StronglyTyped>) -> (r: Result<f32>) { unimplemented!() }
    #[verifier::external_body] fn visit_map<'a, R: Read>(self, a: MapAccess<'a, R, StronglyTyped>) -> (r: Result<f32>) { unimplemented!() }
    #[verifier::external_body] fn visit_enum<'a, R: Read>(self, a: Enum<'a, R, StronglyTyped>) -> (r: Result<f32>) { unimplemented!() }
    #[verifier::external_body] fn vx_visit_polyvar<'a, R: Read>(self, a: PolyvarEnum<'a, R, StronglyTyped>) -> (r: Result<f32>) { unimplemented!() }
}
impl<'de> Deserialize<'de> for f32 {
    open spec fn dec(s: Seq<u8>) -> Dec<f32> { if s.len() < 4 { None } else { after_scalar(Vf32.on(Ev::F32(f32_of(unle(s.take(4))))), s, 4) } }
    fn deserialize<'a, R: Read>(de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<f32>) { de::Deserializer::deserialize_f32(de, Vf32) }
}
impl<'de> Wire<'de> for f32 {
    open spec fn ok(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { le(f32_bits(*self), 4) }
    proof fn rt(&self, rest: Seq<u8>) { broadcast use le_len; let b = f32_bits(*self); let e = le(b, 4); pow256_vals(); unle_le(b, 4); cat_skip(e, rest); assert((e + rest).take(4) =~= e); f32_same(*self); vstd::arithmetic::div_mod::lemma_small_mod(b as nat, pow256(4) as nat); }
}
pub struct Vf64;
impl<'de> Visitor<'de> for Vf64 {
    type Value = f64;
    open spec fn on(self, e: Ev) -> Option<f64> { match e { Ev::F64(x) => Some(x), _ => None } }
    open spec fn on_some(self, s: Seq<u8>) -> Dec<f64> { None }
    open spec fn on_newtype(self, s: Seq<u8>) -> Dec<f64> { None }
    open spec fn on_seq(self, n: int, s: Seq<u8>) -> Dec<f64> { None }
    open spec fn on_map(self, n: int, s: Seq<u8>) -> Dec<f64> { None }
    open spec fn on_enum(self, i: u8, s: Seq<u8>) -> Dec<f64> { None }
    open spec fn on_polyvar(self, h: u32, labels: Seq<&'static str>, s: Seq<u8>) -> Dec<f64> { None }
    #[verifier::external_body] fn visit_bool(self, v: bool) -> (r: Result<f64>) { unimplemented!() }
    #[verifier::external_body] fn visit_i8(self, v: i8) -> (r: Result<f64>) { unimplemented!() }
    #[verifier::external_body] fn visit_i16(self, v: i16) -> (r: Result<f64>) { unimplemented!() }
    #[verifier::external_body] fn visit_i32(self, v: i32) -> (r: Result<f64>) { unimplemented!() }
    #[verifier::external_body] fn visit_i64(self, v: i64) -> (r: Result<f64>) { unimplemented!() }
    #[verifier::external_body] fn visit_u8(self, v: u8) -> (r: Result<f64>) { unimplemented!() }
    #[verifier::external_body] fn visit_u16(self, v: u16) -> (r: Result<f64>) { unimplemented!() }
    #[verifier::external_body] fn visit_u32(self, v: u32) -> (r: Result<f64>) { unimplemented!() }
    #[verifier::external_body] fn visit_u64(self, v: u64) -> (r: Result<f64>) { unimplemented!() }
    #[verifier::external_body] fn visit_f32(self, v: f32) -> (r: Result<f64>) { unimplemented!() }
    #[verifier::external_body] fn visit_f64(self, v: f64) -> (r: Result<f64>) { unimplemented!() }
    #[verifier::external_body] fn visit_char(self, v: char) -> (r: Result<f64>) { unimplemented!() }
    #[verifier::external_body] fn visit_string(self, v: String) -> (r: Result<f64>) { unimplemented!() }
    #[verifier::external_body] fn visit_none(self) -> (r: Result<f64>) { unimplemented!() }
    #[verifier::external_body] fn visit_unit(self) -> (r: Result<f64>) { unimplemented!() }
    #[verifier::external_body] fn visit_some<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<f64>) { unimplemented!() }
    #[verifier::external_body] fn visit_newtype_struct<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<f64>) { unimplemented!() }
    #[verifier::external_body] fn visit_seq<'a, R: Read>(self, a: SeqAccess<'a, R, StronglyTyped>) -> (r: Result<f64>) { unimplemented!() }
    #[verifier::external_body] fn visit_map<'a, R: Read>(self, a: MapAccess<'a, R, StronglyTyped>) -> (r: Result<f64>) { unimplemented!() }
    #[verifier::external_body] fn visit_enum<'a, R: Read>(self, a: Enum<'a, R, StronglyTyped>) -> (r: Result<f64>) { unimplemented!() }
    #[verifier::external_body] fn vx_visit_polyvar<'a, R: Read>(self, a: PolyvarEnum<'a, R, StronglyTyped>) -> (r: Result<f64>) { unimplemented!() }
}
impl<'de> Deserialize<'de> for f64 {
    open spec fn dec(s: Seq<u8>) -> Dec<f64> { if s.len() < 8 { None } else { after_scalar(Vf64.on(Ev::F64(f64_of(unle(s.take(8))))), s, 8) } }
    fn deserialize<'a, R: Read>(de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<f64>) { de::Deserializer::deserialize_f64(de, Vf64) }
}
impl<'de> Wire<'de> for f64 {
    open spec fn ok(&self) -> bool { true }
    open spec fn enc(&self) -> Seq<u8> { le(f64_bits(*self), 8) }
    proof fn rt(&self, rest: Seq<u8>) { broadcast use le_len; let b = f64_bits(*self); let e = le(b, 8); pow256_vals(); unle_le(b, 8); cat_skip(e, rest); assert((e + rest).take(8) =~= e); f64_same(*self); vstd::arithmetic::div_mod::lemma_small_mod(b as nat, pow256(8) as nat); }
}
pub struct VString;
impl<'de> Visitor<'de> for VString {
    type Value = String;
    open spec fn on(self, e: Ev) -> Option<String> { match e { Ev::Str(x) => Some(string_of(x)), _ => None } }
    open spec fn on_some(self, s: Seq<u8>) -> Dec<String> { None }
    open spec fn on_newtype(self, s: Seq<u8>) -> Dec<String> { None }
    open spec fn on_seq(self, n: int, s: Seq<u8>) -> Dec<String> { None }
    open spec fn on_map(self, n: int, s: Seq<u8>) -> Dec<String> { None }
    open spec fn on_enum(self, i: u8, s: Seq<u8>) -> Dec<String> { None }
    open spec fn on_polyvar(self, h: u32, labels: Seq<&'static str>, s: Seq<u8>) -> Dec<String> { None }
    #[verifier::external_body] fn visit_bool(self, v: bool) -> (r: Result<String>) { unimplemented!() }
    #[verifier::external_body] fn visit_i8(self, v: i8) -> (r: Result<String>) { unimplemented!() }
    #[verifier::external_body] fn visit_i16(self, v: i16) -> (r: Result<String>) { unimplemented!() }
    #[verifier::external_body] fn visit_i32(self, v: i32) -> (r: Result<String>) { unimplemented!() }
    #[verifier::external_body] fn visit_i64(self, v: i64) -> (r: Result<String>) { unimplemented!() }
    #[verifier::external_body] fn visit_u8(self, v: u8) -> (r: Result<String>) { unimplemented!() }
    #[verifier::external_body] fn visit_u16(self, v: u16) -> (r: Result<String>) { unimplemented!() }
    #[verifier::external_body] fn visit_u32(self, v: u32) -> (r: Result<String>) { unimplemented!() }
    #[verifier::external_body] fn visit_u64(self, v: u64) -> (r: Result<String>) { unimplemented!() }
    #[verifier::external_body] fn visit_f32(self, v: f32) -> (r: Result<String>) { unimplemented!() }
    #[verifier::external_body] fn visit_f64(self, v: f64) -> (r: Result<String>) { unimplemented!() }
    #[verifier::external_body] fn visit_char(self, v: char) -> (r: Result<String>) { unimplemented!() }
    #[verifier::external_body] fn visit_string(self, v: String) -> (r: Result<String>) { unimplemented!() }
    #[verifier::external_body] fn visit_none(self) -> (r: Result<String>) { unimplemented!() }
    #[verifier::external_body] fn visit_unit(self) -> (r: Result<String>) { unimplemented!() }
    #[verifier::external_body] fn visit_some<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<String>) { unimplemented!() }
    #[verifier::external_body] fn visit_newtype_struct<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<String>) { unimplemented!() }
    #[verifier::external_body] fn visit_seq<'a, R: Read>(self, a: SeqAccess<'a, R, StronglyTyped>) -> (r: Result<String>) { unimplemented!() }
    #[verifier::external_body] fn visit_map<'a, R: Read>(self, a: MapAccess<'a, R, StronglyTyped>) -> (r: Result<String>) { unimplemented!() }
    #[verifier::external_body] fn visit_enum<'a, R: Read>(self, a: Enum<'a, R, StronglyTyped>) -> (r: Result<String>) { unimplemented!() }
    #[verifier::external_body] fn vx_visit_polyvar<'a, R: Read>(self, a: PolyvarEnum<'a, R, StronglyTyped>) -> (r: Result<String>) { unimplemented!() }
}
impl<'de> Deserialize<'de> for String {
    open spec fn dec(s: Seq<u8>) -> Dec<String> { d_string(VString, s) }
    fn deserialize<'a, R: Read>(de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<String>) { de::Deserializer::deserialize_string(de, VString) }
}
impl<'de> Wire<'de> for String {
    open spec fn ok(&self) -> bool { str_bytes(self@).len() <= u64::MAX }
    open spec fn enc(&self) -> Seq<u8> { enc_nat0(str_bytes(self@).len() as int) + str_bytes(self@) }
    proof fn rt(&self, rest: Seq<u8>) { let b = str_bytes(self@); bytes_roundtrip(b, rest); cat_skip(self.enc(), rest); utf8_same(self@); string_same(*self); }
}
pub struct OptV<T> { pub t: PhantomData<T> }
impl<'de, T: Deserialize<'de>> Visitor<'de> for OptV<T> {
    type Value = Option<T>;
    open spec fn on(self, e: Ev) -> Option<Option<T>> { match e { Ev::None => Some(None), _ => None } }
    open spec fn on_some(self, s: Seq<u8>) -> Dec<Option<T>> { match T::dec(s) { Some((x, t)) => Some((Some(x), t)), None => None } }
    open spec fn on_newtype(self, s: Seq<u8>) -> Dec<Option<T>> { None }
    open spec fn on_seq(self, n: int, s: Seq<u8>) -> Dec<Option<T>> { None }
    open spec fn on_map(self, n: int, s: Seq<u8>) -> Dec<Option<T>> { None }
    open spec fn on_enum(self, i: u8, s: Seq<u8>) -> Dec<Option<T>> { None }
    open spec fn on_polyvar(self, h: u32, labels: Seq<&'static str>, s: Seq<u8>) -> Dec<Option<T>> { None }
    #[verifier::external_body] fn visit_bool(self, v: bool) -> (r: Result<Option<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_i8(self, v: i8) -> (r: Result<Option<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_i16(self, v: i16) -> (r: Result<Option<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_i32(self, v: i32) -> (r: Result<Option<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_i64(self, v: i64) -> (r: Result<Option<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_u8(self, v: u8) -> (r: Result<Option<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_u16(self, v: u16) -> (r: Result<Option<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_u32(self, v: u32) -> (r: Result<Option<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_u64(self, v: u64) -> (r: Result<Option<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_f32(self, v: f32) -> (r: Result<Option<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_f64(self, v: f64) -> (r: Result<Option<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_char(self, v: char) -> (r: Result<Option<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_string(self, v: String) -> (r: Result<Option<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_none(self) -> (r: Result<Option<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_unit(self) -> (r: Result<Option<T>>) { unimplemented!() }
    fn visit_some<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<Option<T>>) { match T::deserialize(de) { Ok(x) => Ok(Some(x)), Err(e) => Err(e) } }
    #[verifier::external_body] fn visit_newtype_struct<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<Option<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_seq<'a, R: Read>(self, a: SeqAccess<'a, R, StronglyTyped>) -> (r: Result<Option<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_map<'a, R: Read>(self, a: MapAccess<'a, R, StronglyTyped>) -> (r: Result<Option<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_enum<'a, R: Read>(self, a: Enum<'a, R, StronglyTyped>) -> (r: Result<Option<T>>) { unimplemented!() }
    #[verifier::external_body] fn vx_visit_polyvar<'a, R: Read>(self, a: PolyvarEnum<'a, R, StronglyTyped>) -> (r: Result<Option<T>>) { unimplemented!() }
}
impl<'de, T: Deserialize<'de>> Deserialize<'de> for Option<T> {
    open spec fn dec(s: Seq<u8>) -> Dec<Option<T>> { d_option(OptV::<T> { t: PhantomData }, s) }
    fn deserialize<'a, R: Read>(de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<Option<T>>) { de::Deserializer::deserialize_option(de, OptV::<T> { t: PhantomData }) }
}
impl<'de, T: Wire<'de>> Wire<'de> for Option<T> {
    open spec fn ok(&self) -> bool { self is Some ==> self->Some_0.ok() }
    open spec fn enc(&self) -> Seq<u8> { match *self { None => seq![0u8], Some(x) => seq![1u8] + x.enc() } }
    proof fn rt(&self, rest: Seq<u8>) { match *self { None => { cat_skip(seq![0u8], rest); } Some(x) => { cat3(seq![1u8], x.enc(), rest); cat_skip(seq![1u8], x.enc() + rest); x.rt(rest); } } }
}
/// a newtype struct
pub struct Newtype<T>(pub T);
pub struct NewV<T> { pub t: PhantomData<T> }
impl<'de, T: Deserialize<'de>> Visitor<'de> for NewV<T> {
    type Value = Newtype<T>;
    open spec fn on(self, e: Ev) -> Option<Newtype<T>> { None }
    open spec fn on_some(self, s: Seq<u8>) -> Dec<Newtype<T>> { None }
    open spec fn on_newtype(self, s: Seq<u8>) -> Dec<Newtype<T>> { match T::dec(s) { Some((x, t)) => Some((Newtype(x), t)), None => None } }
    open spec fn on_seq(self, n: int, s: Seq<u8>) -> Dec<Newtype<T>> { None }
    open spec fn on_map(self, n: int, s: Seq<u8>) -> Dec<Newtype<T>> { None }
    open spec fn on_enum(self, i: u8, s: Seq<u8>) -> Dec<Newtype<T>> { None }
    open spec fn on_polyvar(self, h: u32, labels: Seq<&'static str>, s: Seq<u8>) -> Dec<Newtype<T>> { None }
    #[verifier::external_body] fn visit_bool(self, v: bool) -> (r: Result<Newtype<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_i8(self, v: i8) -> (r: Result<Newtype<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_i16(self, v: i16) -> (r: Result<Newtype<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_i32(self, v: i32) -> (r: Result<Newtype<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_i64(self, v: i64) -> (r: Result<Newtype<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_u8(self, v: u8) -> (r: Result<Newtype<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_u16(self, v: u16) -> (r: Result<Newtype<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_u32(self, v: u32) -> (r: Result<Newtype<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_u64(self, v: u64) -> (r: Result<Newtype<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_f32(self, v: f32) -> (r: Result<Newtype<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_f64(self, v: f64) -> (r: Result<Newtype<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_char(self, v: char) -> (r: Result<Newtype<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_string(self, v: String) -> (r: Result<Newtype<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_none(self) -> (r: Result<Newtype<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_unit(self) -> (r: Result<Newtype<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_some<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<Newtype<T>>) { unimplemented!() }
    fn visit_newtype_struct<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<Newtype<T>>) { match T::deserialize(de) { Ok(x) => Ok(Newtype(x)), Err(e) => Err(e) } }
    #[verifier::external_body] fn visit_seq<'a, R: Read>(self, a: SeqAccess<'a, R, StronglyTyped>) -> (r: Result<Newtype<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_map<'a, R: Read>(self, a: MapAccess<'a, R, StronglyTyped>) -> (r: Result<Newtype<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_enum<'a, R: Read>(self, a: Enum<'a, R, StronglyTyped>) -> (r: Result<Newtype<T>>) { unimplemented!() }
    #[verifier::external_body] fn vx_visit_polyvar<'a, R: Read>(self, a: PolyvarEnum<'a, R, StronglyTyped>) -> (r: Result<Newtype<T>>) { unimplemented!() }
}
impl<'de, T: Deserialize<'de>> Deserialize<'de> for Newtype<T> {
    open spec fn dec(s: Seq<u8>) -> Dec<Newtype<T>> { NewV::<T> { t: PhantomData }.on_newtype(s) }
    fn deserialize<'a, R: Read>(de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<Newtype<T>>) { de::Deserializer::deserialize_newtype_struct(de, "", NewV::<T> { t: PhantomData }) }
}
impl<'de, T: Wire<'de>> Wire<'de> for Newtype<T> {
    open spec fn ok(&self) -> bool { self.0.ok() }
    open spec fn enc(&self) -> Seq<u8> { self.0.enc() }
    proof fn rt(&self, rest: Seq<u8>) { self.0.rt(rest); }
}
/// PhantomData<T> as a seed
pub struct Of<T> { pub t: PhantomData<T> }
impl<'de, T: Deserialize<'de>> DeserializeSeed<'de> for Of<T> {
    type Value = T;
    open spec fn dec(self, s: Seq<u8>) -> Dec<T> { T::dec(s) }
    open spec fn of_index(self, i: int) -> Option<T> { None }
    open spec fn of_name(self, n: Seq<char>) -> Option<T> { None }
    fn deserialize<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<T>) { T::deserialize(de) }
    #[verifier::external_body] fn vx_deserialize_name<N: VxName>(self, n: N) -> (r: Result<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_deserialize_index<I: VxIndex>(self, i: I) -> (r: Result<T>) { unimplemented!() }
}
/// n elements one behind the other
pub open spec fn elems<'de, T: Deserialize<'de>>(n: nat, s: Seq<u8>) -> Dec<Seq<T>> decreases n {
    if n == 0 { Some((Seq::empty(), s)) }
    else { match elems::<T>((n - 1) as nat, s) { None => None, Some((xs, t)) => match T::dec(t) { None => None, Some((x, u)) => Some((xs.push(x), u)) } } }
}
pub proof fn elems_none<'de, T: Deserialize<'de>>(m: nat, n: nat, s: Seq<u8>)
    requires n <= m, elems::<T>(n, s) is None
    ensures elems::<T>(m, s) is None
    decreases m
{ if n < m { elems_none::<T>((m - 1) as nat, n, s); } }
pub open spec fn encs<'de, T: Wire<'de>>(xs: Seq<T>) -> Seq<u8> decreases xs.len() {
    if xs.len() == 0 { Seq::empty() } else { encs(xs.drop_last()) + xs.last().enc() }
}
pub proof fn elems_rt<'de, T: Wire<'de>>(xs: Seq<T>, rest: Seq<u8>)
    requires forall|i: int| 0 <= i < xs.len() ==> (#[trigger] xs[i]).ok()
    ensures elems::<T>(xs.len(), encs(xs) + rest) == Some((xs, rest))
    decreases xs.len()
{
    if xs.len() == 0 { assert(encs(xs) + rest =~= rest); assert(xs =~= Seq::<T>::empty()); }
    else {
        let (h, x) = (xs.drop_last(), xs.last());
        assert forall|i: int| 0 <= i < h.len() implies (#[trigger] h[i]).ok() by { assert(h[i] == xs[i]); }
        elems_rt(h, x.enc() + rest); x.rt(rest); cat3(encs(h), x.enc(), rest);
        assert(h.push(x) =~= xs);
    }
}
pub struct VecV<T> { pub t: PhantomData<T> }
impl<'de, T: Deserialize<'de>> Visitor<'de> for VecV<T> {
    type Value = Vec<T>;
    open spec fn on(self, e: Ev) -> Option<Vec<T>> { None }
    open spec fn on_some(self, s: Seq<u8>) -> Dec<Vec<T>> { None }
    open spec fn on_newtype(self, s: Seq<u8>) -> Dec<Vec<T>> { None }
    open spec fn on_seq(self, n: int, s: Seq<u8>) -> Dec<Vec<T>> { match elems::<T>(n as nat, s) { Some((xs, t)) => Some((vec_of(xs), t)), None => None } }
    open spec fn on_map(self, n: int, s: Seq<u8>) -> Dec<Vec<T>> { None }
    open spec fn on_enum(self, i: u8, s: Seq<u8>) -> Dec<Vec<T>> { None }
    open spec fn on_polyvar(self, h: u32, labels: Seq<&'static str>, s: Seq<u8>) -> Dec<Vec<T>> { None }
    #[verifier::external_body] fn visit_bool(self, v: bool) -> (r: Result<Vec<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_i8(self, v: i8) -> (r: Result<Vec<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_i16(self, v: i16) -> (r: Result<Vec<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_i32(self, v: i32) -> (r: Result<Vec<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_i64(self, v: i64) -> (r: Result<Vec<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_u8(self, v: u8) -> (r: Result<Vec<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_u16(self, v: u16) -> (r: Result<Vec<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_u32(self, v: u32) -> (r: Result<Vec<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_u64(self, v: u64) -> (r: Result<Vec<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_f32(self, v: f32) -> (r: Result<Vec<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_f64(self, v: f64) -> (r: Result<Vec<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_char(self, v: char) -> (r: Result<Vec<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_string(self, v: String) -> (r: Result<Vec<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_none(self) -> (r: Result<Vec<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_unit(self) -> (r: Result<Vec<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_some<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<Vec<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_newtype_struct<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<Vec<T>>) { unimplemented!() }
    #[verifier::loop_isolation(false)] fn visit_seq<'a, R: Read>(self, a: SeqAccess<'a, R, StronglyTyped>) -> (r: Result<Vec<T>>) { let mut a = a; let ghost a0 = a; let mut v: Vec<T> = Vec::new();
        loop
            invariant a.de.reliable() == a0.de.reliable(), *final(a.de) == *final(a0.de), v@.len() + a.len == a0.len,
                elems::<T>(v@.len(), a0.de.rem()) == Some((v@, a.de.rem())),
            decreases a.len
        {
            proof { if a.len > 0 && T::dec(a.de.rem()) is None { elems_none::<T>(a0.len as nat, (v@.len() + 1) as nat, a0.de.rem()); } }
            match a.next_element_seed(Of::<T> { t: PhantomData }) {
                Ok(Some(x)) => { v.push(x); }
                Ok(None) => { proof { vec_same(v); } return Ok(v); }
                Err(e) => { return Err(e); }
            }
        } }
    #[verifier::external_body] fn visit_map<'a, R: Read>(self, a: MapAccess<'a, R, StronglyTyped>) -> (r: Result<Vec<T>>) { unimplemented!() }
    #[verifier::external_body] fn visit_enum<'a, R: Read>(self, a: Enum<'a, R, StronglyTyped>) -> (r: Result<Vec<T>>) { unimplemented!() }
    #[verifier::external_body] fn vx_visit_polyvar<'a, R: Read>(self, a: PolyvarEnum<'a, R, StronglyTyped>) -> (r: Result<Vec<T>>) { unimplemented!() }
}
impl<'de, T: Deserialize<'de>> Deserialize<'de> for Vec<T> {
    open spec fn dec(s: Seq<u8>) -> Dec<Vec<T>> { d_seq(VecV::<T> { t: PhantomData }, s) }
    fn deserialize<'a, R: Read>(de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<Vec<T>>) { de::Deserializer::deserialize_seq(de, VecV::<T> { t: PhantomData }) }
}
impl<'de, T: Wire<'de>> Wire<'de> for Vec<T> {
    open spec fn ok(&self) -> bool { self@.len() <= usize::MAX && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).ok() }
    open spec fn enc(&self) -> Seq<u8> { enc_nat0(self@.len() as int) + encs(self@) }
    proof fn rt(&self, rest: Seq<u8>) { let e = enc_nat0(self@.len() as int); cat3(e, encs(self@), rest); nat0_roundtrip(self@.len() as int, encs(self@) + rest); cat_skip(e, encs(self@) + rest); elems_rt(self@, rest); vec_same(*self); }
}
/// two fields one behind the other; a reader that has fewer or more than two fields to give is refused or left at the second
pub open spec fn two<'de, A: Deserialize<'de>, B: Deserialize<'de>>(s: Seq<u8>) -> Dec<(A, B)> {
    match A::dec(s) { None => None, Some((a, t)) => match B::dec(t) { None => None, Some((b, u)) => Some(((a, b), u)) } }
}
pub proof fn two_rt<'de, A: Wire<'de>, B: Wire<'de>>(a: A, b: B, rest: Seq<u8>)
    requires a.ok(), b.ok()
    ensures two::<A, B>(a.enc() + b.enc() + rest) == Some(((a, b), rest))
{ cat3(a.enc(), b.enc(), rest); a.rt(b.enc() + rest); b.rt(rest); }
pub struct PairV<A, B> { pub t: PhantomData<(A, B)> }
impl<'de, A: Deserialize<'de>, B: Deserialize<'de>> Visitor<'de> for PairV<A, B> {
    type Value = (A, B);
    open spec fn on(self, e: Ev) -> Option<(A, B)> { None }
    open spec fn on_some(self, s: Seq<u8>) -> Dec<(A, B)> { None }
    open spec fn on_newtype(self, s: Seq<u8>) -> Dec<(A, B)> { None }
    open spec fn on_seq(self, n: int, s: Seq<u8>) -> Dec<(A, B)> { if n >= 2 { two::<A, B>(s) } else { None } }
    open spec fn on_map(self, n: int, s: Seq<u8>) -> Dec<(A, B)> { None }
    open spec fn on_enum(self, i: u8, s: Seq<u8>) -> Dec<(A, B)> { None }
    open spec fn on_polyvar(self, h: u32, labels: Seq<&'static str>, s: Seq<u8>) -> Dec<(A, B)> { None }
    #[verifier::external_body] fn visit_bool(self, v: bool) -> (r: Result<(A, B)>) { unimplemented!() }
    #[verifier::external_body] fn visit_i8(self, v: i8) -> (r: Result<(A, B)>) { unimplemented!() }
    #[verifier::external_body] fn visit_i16(self, v: i16) -> (r: Result<(A, B)>) { unimplemented!() }
    #[verifier::external_body] fn visit_i32(self, v: i32) -> (r: Result<(A, B)>) { unimplemented!() }
    #[verifier::external_body] fn visit_i64(self, v: i64) -> (r: Result<(A, B)>) { unimplemented!() }
    #[verifier::external_body] fn visit_u8(self, v: u8) -> (r: Result<(A, B)>) { unimplemented!() }
    #[verifier::external_body] fn visit_u16(self, v: u16) -> (r: Result<(A, B)>) { unimplemented!() }
    #[verifier::external_body] fn visit_u32(self, v: u32) -> (r: Result<(A, B)>) { unimplemented!() }
    #[verifier::external_body] fn visit_u64(self, v: u64) -> (r: Result<(A, B)>) { unimplemented!() }
    #[verifier::external_body] fn visit_f32(self, v: f32) -> (r: Result<(A, B)>) { unimplemented!() }
    #[verifier::external_body] fn visit_f64(self, v: f64) -> (r: Result<(A, B)>) { unimplemented!() }
    #[verifier::external_body] fn visit_char(self, v: char) -> (r: Result<(A, B)>) { unimplemented!() }
    #[verifier::external_body] fn visit_string(self, v: String) -> (r: Result<(A, B)>) { unimplemented!() }
    #[verifier::external_body] fn visit_none(self) -> (r: Result<(A, B)>) { unimplemented!() }
    #[verifier::external_body] fn visit_unit(self) -> (r: Result<(A, B)>) { unimplemented!() }
    #[verifier::external_body] fn visit_some<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<(A, B)>) { unimplemented!() }
    #[verifier::external_body] fn visit_newtype_struct<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<(A, B)>) { unimplemented!() }
    fn visit_seq<'a, R: Read>(self, a: SeqAccess<'a, R, StronglyTyped>) -> (r: Result<(A, B)>) { let mut a = a; let ghost a0 = a;
        let x = match a.next_element_seed(Of::<A> { t: PhantomData }) { Ok(Some(x)) => x, Ok(None) => { return Err(Error::EndOfStream); } Err(e) => { return Err(e); } };
        let y = match a.next_element_seed(Of::<B> { t: PhantomData }) { Ok(Some(y)) => y, Ok(None) => { return Err(Error::EndOfStream); } Err(e) => { return Err(e); } };
        Ok((x, y)) }
    #[verifier::external_body] fn visit_map<'a, R: Read>(self, a: MapAccess<'a, R, StronglyTyped>) -> (r: Result<(A, B)>) { unimplemented!() }
    #[verifier::external_body] fn visit_enum<'a, R: Read>(self, a: Enum<'a, R, StronglyTyped>) -> (r: Result<(A, B)>) { unimplemented!() }
    #[verifier::external_body] fn vx_visit_polyvar<'a, R: Read>(self, a: PolyvarEnum<'a, R, StronglyTyped>) -> (r: Result<(A, B)>) { unimplemented!() }
}
impl<'de, A: Deserialize<'de>, B: Deserialize<'de>> Deserialize<'de> for (A, B) {
    open spec fn dec(s: Seq<u8>) -> Dec<(A, B)> { two::<A, B>(s) }
    fn deserialize<'a, R: Read>(de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<(A, B)>) { de::Deserializer::deserialize_tuple(de, 2, PairV::<A, B> { t: PhantomData }) }
}
impl<'de, A: Wire<'de>, B: Wire<'de>> Wire<'de> for (A, B) {
    open spec fn ok(&self) -> bool { self.0.ok() && self.1.ok() }
    open spec fn enc(&self) -> Seq<u8> { self.0.enc() + self.1.enc() }
    proof fn rt(&self, rest: Seq<u8>) { two_rt(self.0, self.1, rest); }
}
/// a struct with two named fields
pub struct Fields<A, B> { pub a: A, pub b: B }
pub struct FieldsV<A, B> { pub t: PhantomData<(A, B)> }
impl<'de, A: Deserialize<'de>, B: Deserialize<'de>> Visitor<'de> for FieldsV<A, B> {
    type Value = Fields<A, B>;
    open spec fn on(self, e: Ev) -> Option<Fields<A, B>> { None }
    open spec fn on_some(self, s: Seq<u8>) -> Dec<Fields<A, B>> { None }
    open spec fn on_newtype(self, s: Seq<u8>) -> Dec<Fields<A, B>> { None }
    open spec fn on_seq(self, n: int, s: Seq<u8>) -> Dec<Fields<A, B>> { if n >= 2 { match two::<A, B>(s) { Some(((a, b), t)) => Some((Fields { a, b }, t)), None => None } } else { None } }
    open spec fn on_map(self, n: int, s: Seq<u8>) -> Dec<Fields<A, B>> { None }
    open spec fn on_enum(self, i: u8, s: Seq<u8>) -> Dec<Fields<A, B>> { None }
    open spec fn on_polyvar(self, h: u32, labels: Seq<&'static str>, s: Seq<u8>) -> Dec<Fields<A, B>> { None }
    #[verifier::external_body] fn visit_bool(self, v: bool) -> (r: Result<Fields<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_i8(self, v: i8) -> (r: Result<Fields<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_i16(self, v: i16) -> (r: Result<Fields<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_i32(self, v: i32) -> (r: Result<Fields<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_i64(self, v: i64) -> (r: Result<Fields<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_u8(self, v: u8) -> (r: Result<Fields<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_u16(self, v: u16) -> (r: Result<Fields<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_u32(self, v: u32) -> (r: Result<Fields<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_u64(self, v: u64) -> (r: Result<Fields<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_f32(self, v: f32) -> (r: Result<Fields<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_f64(self, v: f64) -> (r: Result<Fields<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_char(self, v: char) -> (r: Result<Fields<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_string(self, v: String) -> (r: Result<Fields<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_none(self) -> (r: Result<Fields<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_unit(self) -> (r: Result<Fields<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_some<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<Fields<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_newtype_struct<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<Fields<A, B>>) { unimplemented!() }
    fn visit_seq<'a, R: Read>(self, a: SeqAccess<'a, R, StronglyTyped>) -> (r: Result<Fields<A, B>>) { let mut a = a; let ghost a0 = a;
        let x = match a.next_element_seed(Of::<A> { t: PhantomData }) { Ok(Some(x)) => x, Ok(None) => { return Err(Error::EndOfStream); } Err(e) => { return Err(e); } };
        let y = match a.next_element_seed(Of::<B> { t: PhantomData }) { Ok(Some(y)) => y, Ok(None) => { return Err(Error::EndOfStream); } Err(e) => { return Err(e); } };
        Ok(Fields { a: x, b: y }) }
    #[verifier::external_body] fn visit_map<'a, R: Read>(self, a: MapAccess<'a, R, StronglyTyped>) -> (r: Result<Fields<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_enum<'a, R: Read>(self, a: Enum<'a, R, StronglyTyped>) -> (r: Result<Fields<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn vx_visit_polyvar<'a, R: Read>(self, a: PolyvarEnum<'a, R, StronglyTyped>) -> (r: Result<Fields<A, B>>) { unimplemented!() }
}
impl<'de, A: Deserialize<'de>, B: Deserialize<'de>> Deserialize<'de> for Fields<A, B> {
    open spec fn dec(s: Seq<u8>) -> Dec<Fields<A, B>> { match two::<A, B>(s) { Some(((a, b), t)) => Some((Fields { a, b }, t)), None => None } }
    fn deserialize<'a, R: Read>(de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<Fields<A, B>>) { de::Deserializer::deserialize_struct(de, "Fields", &["a", "b"], FieldsV::<A, B> { t: PhantomData }) }
}
impl<'de, A: Wire<'de>, B: Wire<'de>> Wire<'de> for Fields<A, B> {
    open spec fn ok(&self) -> bool { self.a.ok() && self.b.ok() }
    open spec fn enc(&self) -> Seq<u8> { self.a.enc() + self.b.enc() }
    proof fn rt(&self, rest: Seq<u8>) { two_rt(self.a, self.b, rest); }
}
/// an enum with a variant of each kind
pub enum Kinds<A, B> { Bare, New(A), Tup(A, B), Rec { a: A, b: B } }
pub struct KindV<A, B> { pub t: PhantomData<(A, B)> }
/// the derived visitor of variant numbers
pub struct Nr;
impl<'de> DeserializeSeed<'de> for Nr {
    type Value = u64;
    open spec fn dec(self, s: Seq<u8>) -> Dec<u64> { None }
    open spec fn of_index(self, i: int) -> Option<u64> { if 0 <= i < 4 { Some(i as u64) } else { None } }
    open spec fn of_name(self, n: Seq<char>) -> Option<u64> { None }
    #[verifier::external_body] fn deserialize<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<u64>) { unimplemented!() }
    #[verifier::external_body] fn vx_deserialize_name<N: VxName>(self, n: N) -> (r: Result<u64>) { unimplemented!() }
    #[verifier::external_body] fn vx_deserialize_index<I: VxIndex>(self, i: I) -> (r: Result<u64>) { unimplemented!() }
}
impl<'de, A: Deserialize<'de>, B: Deserialize<'de>> Visitor<'de> for KindV<A, B> {
    type Value = Kinds<A, B>;
    open spec fn on(self, e: Ev) -> Option<Kinds<A, B>> { None }
    open spec fn on_some(self, s: Seq<u8>) -> Dec<Kinds<A, B>> { None }
    open spec fn on_newtype(self, s: Seq<u8>) -> Dec<Kinds<A, B>> { None }
    open spec fn on_seq(self, n: int, s: Seq<u8>) -> Dec<Kinds<A, B>> { None }
    open spec fn on_map(self, n: int, s: Seq<u8>) -> Dec<Kinds<A, B>> { None }
    open spec fn on_enum(self, i: u8, s: Seq<u8>) -> Dec<Kinds<A, B>> { if i == 0 { Some((Kinds::Bare, s)) }
        else if i == 1 { match A::dec(s) { Some((a, t)) => Some((Kinds::New(a), t)), None => None } }
        else if i == 2 { match two::<A, B>(s) { Some(((a, b), t)) => Some((Kinds::Tup(a, b), t)), None => None } }
        else if i == 3 { match two::<A, B>(s) { Some(((a, b), t)) => Some((Kinds::Rec { a, b }, t)), None => None } }
        else { None } }
    open spec fn on_polyvar(self, h: u32, labels: Seq<&'static str>, s: Seq<u8>) -> Dec<Kinds<A, B>> { None }
    #[verifier::external_body] fn visit_bool(self, v: bool) -> (r: Result<Kinds<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_i8(self, v: i8) -> (r: Result<Kinds<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_i16(self, v: i16) -> (r: Result<Kinds<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_i32(self, v: i32) -> (r: Result<Kinds<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_i64(self, v: i64) -> (r: Result<Kinds<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_u8(self, v: u8) -> (r: Result<Kinds<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_u16(self, v: u16) -> (r: Result<Kinds<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_u32(self, v: u32) -> (r: Result<Kinds<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_u64(self, v: u64) -> (r: Result<Kinds<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_f32(self, v: f32) -> (r: Result<Kinds<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_f64(self, v: f64) -> (r: Result<Kinds<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_char(self, v: char) -> (r: Result<Kinds<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_string(self, v: String) -> (r: Result<Kinds<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_none(self) -> (r: Result<Kinds<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_unit(self) -> (r: Result<Kinds<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_some<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<Kinds<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_newtype_struct<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<Kinds<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_seq<'a, R: Read>(self, a: SeqAccess<'a, R, StronglyTyped>) -> (r: Result<Kinds<A, B>>) { unimplemented!() }
    #[verifier::external_body] fn visit_map<'a, R: Read>(self, a: MapAccess<'a, R, StronglyTyped>) -> (r: Result<Kinds<A, B>>) { unimplemented!() }
    fn visit_enum<'a, R: Read>(self, a: Enum<'a, R, StronglyTyped>) -> (r: Result<Kinds<A, B>>) { match EnumAccess::variant_seed(a, Nr) {
            Err(e) => Err(e),
            Ok((0, v)) => match de::VariantAccess::unit_variant(v) { Ok(()) => Ok(Kinds::Bare), Err(e) => Err(e) },
            Ok((1, v)) => match de::VariantAccess::newtype_variant_seed(v, Of::<A> { t: PhantomData }) { Ok(a) => Ok(Kinds::New(a)), Err(e) => Err(e) },
            Ok((2, v)) => match de::VariantAccess::tuple_variant(v, 2, PairV::<A, B> { t: PhantomData }) { Ok((a, b)) => Ok(Kinds::Tup(a, b)), Err(e) => Err(e) },
            Ok((_, v)) => match de::VariantAccess::struct_variant(v, &["a", "b"], FieldsV::<A, B> { t: PhantomData }) { Ok(f) => Ok(Kinds::Rec { a: f.a, b: f.b }), Err(e) => Err(e) },
        } }
    #[verifier::external_body] fn vx_visit_polyvar<'a, R: Read>(self, a: PolyvarEnum<'a, R, StronglyTyped>) -> (r: Result<Kinds<A, B>>) { unimplemented!() }
}
impl<'de, A: Deserialize<'de>, B: Deserialize<'de>> Deserialize<'de> for Kinds<A, B> {
    open spec fn dec(s: Seq<u8>) -> Dec<Kinds<A, B>> { if s.len() < 1 { None } else { KindV::<A, B> { t: PhantomData }.on_enum(s[0], s.skip(1)) } }
    fn deserialize<'a, R: Read>(de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<Kinds<A, B>>) { proof { reveal_strlit("Kinds"); reveal_strlit("Polyvar"); assert("Kinds"@.len() == 5); assert("Polyvar"@.len() == 7); } de::Deserializer::deserialize_enum(de, "Kinds", &["Bare", "New", "Tup", "Rec"], KindV::<A, B> { t: PhantomData }) }
}
impl<'de, A: Wire<'de>, B: Wire<'de>> Wire<'de> for Kinds<A, B> {
    open spec fn ok(&self) -> bool { match *self { Kinds::Bare => true, Kinds::New(a) => a.ok(), Kinds::Tup(a, b) => a.ok() && b.ok(), Kinds::Rec { a, b } => a.ok() && b.ok() } }
    open spec fn enc(&self) -> Seq<u8> { match *self { Kinds::Bare => seq![0u8], Kinds::New(a) => seq![1u8] + a.enc(), Kinds::Tup(a, b) => seq![2u8] + (a.enc() + b.enc()), Kinds::Rec { a, b } => seq![3u8] + (a.enc() + b.enc()) } }
    proof fn rt(&self, rest: Seq<u8>) { let h = seq![self.enc()[0]]; let c = self.enc().skip(1);
        match *self {
            Kinds::Bare => { assert(c =~= Seq::<u8>::empty()); cat_skip(seq![0u8], rest); }
            Kinds::New(a) => { cat3(seq![1u8], a.enc(), rest); cat_skip(seq![1u8], a.enc() + rest); a.rt(rest); }
            Kinds::Tup(a, b) => { let c = a.enc() + b.enc(); cat3(seq![2u8], c, rest); cat_skip(seq![2u8], c + rest); two_rt(a, b, rest); }
            Kinds::Rec { a, b } => { let c = a.enc() + b.enc(); cat3(seq![3u8], c, rest); cat_skip(seq![3u8], c + rest); two_rt(a, b, rest); }
        } }
}
/// the strict and the plain entry point on the encoding of any such value (C06, C09)
pub fn client_round_trip<'de, R: Read, T: Wire<'de>>(rdr: R, Ghost(v): Ghost<T>, Ghost(rest): Ghost<Seq<u8>>) -> (r: Result<T>)
    requires v.ok(), rdr.reliable(), rdr.rem() == v.enc() + rest
    ensures r == Ok::<T, Error>(v)
{ proof { v.rt(rest); } from_reader(rdr) }
pub fn client_strict<'de, R: Read, T: Wire<'de>>(rdr: R, Ghost(v): Ghost<T>, Ghost(rest): Ghost<Seq<u8>>) -> (r: Result<T>)
    requires v.ok(), rdr.reliable(), rdr.rem() == v.enc() + rest
    ensures rest.len() == 0 ==> r == Ok::<T, Error>(v), rest.len() > 0 ==> r is Err && r->Err_0 is StreamNotFullyConsumed
{ proof { v.rt(rest); } from_reader_strict(rdr) }

