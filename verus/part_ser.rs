//@nosub
/// the byte string the OCaml-compatible hash of a label depends on (see c_hash)
pub uninterp spec fn caml_hash(label: Seq<char>) -> u32;
#[verifier::external_body]
pub fn caml_hash_variant(label: &str) -> (r: u32) ensures r == caml_hash(label@) { unimplemented!() }
pub uninterp spec fn str_bytes(s: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub fn vx_str_len(s: &str) -> (r: usize) ensures r == str_bytes(s@).len() { unimplemented!() }
#[verifier::external_body]
pub fn vx_as_bytes(s: &str) -> (r: &[u8]) ensures r@ == str_bytes(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_streq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
impl From<io::Error> for Error {
    #[verifier::external_body]
    fn from(e: io::Error) -> (r: Self) ensures r is Io { Error::Io(e) }
}
#[verifier::external_body]
pub fn vx_into_error(e: io::Error) -> (r: Error) ensures r is Io { unimplemented!() }
pub type Result<A> = core::result::Result<A, Error>;
//@emit protocol/bin-prot/src/error.rs enum:Error

/// what a Serialize implementation relies on: the value's encoding is a function of the value alone and is appended
pub trait Serialize {
    spec fn enc(&self) -> Seq<u8>;
    fn serialize<W: Write>(&self, s: &mut Serializer<W>) -> (r: Result<()>)
        ensures r is Ok ==> final(s).out() == old(s).out() + self.enc();
}
pub open spec fn enc_variant(name: Seq<char>, variant: Seq<char>, index: u32) -> Seq<u8> {
    if name == "Polyvar"@ { enc_tag(caml_hash(variant) as int) }
    else if name == "PolyvarTag"@ { enc_tag(index as int) }
    else { seq![index as u8] }
}
pub open spec fn variant_ok(name: Seq<char>, index: u32) -> bool {
    name == "Polyvar"@ || name == "PolyvarTag"@ || index < 256
}
pub mod ser {
    use vstd::prelude::*;
    use super::Serialize;
    verus! {
    pub trait Serializer: Sized {
        type Ok; type Error; type SerializeSeq; type SerializeTuple; type SerializeTupleStruct; type SerializeTupleVariant; type SerializeMap; type SerializeStruct; type SerializeStructVariant;
        fn serialize_bool(self, v: bool) -> super::Result<()>;
        fn serialize_i8(self, v: i8) -> super::Result<()>;
        fn serialize_i16(self, v: i16) -> super::Result<()>;
        fn serialize_i32(self, v: i32) -> super::Result<()>;
        fn serialize_i64(self, v: i64) -> super::Result<()>;
        fn serialize_u8(self, v: u8) -> super::Result<()>;
        fn serialize_u16(self, v: u16) -> super::Result<()>;
        fn serialize_u32(self, v: u32) -> super::Result<()>;
        fn serialize_u64(self, v: u64) -> super::Result<()>;
        fn serialize_f32(self, v: f32) -> super::Result<()>;
        fn serialize_f64(self, v: f64) -> super::Result<()>;
        fn serialize_char(self, v: char) -> super::Result<()>;
        fn serialize_str(self, v: &str) -> super::Result<()>;
        fn serialize_bytes(self, v: &[u8]) -> super::Result<()>;
        fn serialize_none(self) -> super::Result<()>;
        fn serialize_some<T: ?Sized + Serialize>(self, value: &T) -> super::Result<()>;
        fn serialize_unit(self) -> super::Result<()>;
        fn serialize_unit_struct(self, name: &'static str) -> super::Result<()>;
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, name: &'static str, value: &T) -> super::Result<()>;
        fn serialize_seq(self, len: Option<usize>) -> super::Result<Self::SerializeSeq>;
        fn serialize_tuple(self, len: usize) -> super::Result<Self::SerializeTuple>;
        fn serialize_tuple_struct(self, name: &'static str, len: usize) -> super::Result<Self::SerializeTupleStruct>;
        fn serialize_struct(self, name: &'static str, len: usize) -> super::Result<Self::SerializeStruct>;
        fn serialize_unit_variant(self, name: &'static str, variant_index: u32, variant: &'static str) -> super::Result<()>;
        fn serialize_tuple_variant(self, name: &'static str, variant_index: u32, variant: &'static str, len: usize) -> super::Result<Self::SerializeTupleVariant>;
        fn serialize_struct_variant(self, name: &'static str, variant_index: u32, variant: &'static str, len: usize) -> super::Result<Self::SerializeStructVariant>;
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, name: &'static str, variant_index: u32, variant: &'static str, value: &T) -> super::Result<()>;
    }
    pub trait SerializeSeq { type Ok; type Error; fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> super::Result<()>; fn end(self) -> super::Result<()>; }
    pub trait SerializeTuple { type Ok; type Error; fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> super::Result<()>; fn end(self) -> super::Result<()>; }
    pub trait SerializeTupleStruct { type Ok; type Error; fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> super::Result<()>; fn end(self) -> super::Result<()>; }
    pub trait SerializeTupleVariant { type Ok; type Error; fn serialize_field<T: ?Sized + Serialize>(&mut self, value: &T) -> super::Result<()>; fn end(self) -> super::Result<()>; }
    pub trait SerializeStruct { type Ok; type Error; fn serialize_field<T: ?Sized + Serialize>(&mut self, key: &'static str, value: &T) -> super::Result<()>; fn end(self) -> super::Result<()>; }
    pub trait SerializeStructVariant { type Ok; type Error; fn serialize_field<T: ?Sized + Serialize>(&mut self, key: &'static str, value: &T) -> super::Result<()>; fn end(self) -> super::Result<()>; }
    }
}
impl<W: Write> Serializer<W> { pub open spec fn out(&self) -> Seq<u8> { self.writer.out() } }

//@fn Serializer::write
    ensures r is Ok ==> final(self).out() == old(self).out() + buf@,
//@end
//@fn Serializer::write_byte
    ensures r is Ok ==> final(self).out() == old(self).out() + seq![b],
//@end
//@fn Serializer::write_variant_index_or_tag
    ensures
        r is Ok ==> variant_ok(name@, index) && final(self).out() == old(self).out() + enc_variant(name@, variant@, index),
        !variant_ok(name@, index) ==> r is Err && r->Err_0 is VariantIndexTooLarge && final(self).out() == old(self).out(),
//@end
//@fn check_variant_index
    ensures index < 256 ==> r is Ok && r->Ok_0 == index, index >= 256 ==> r is Err && r->Err_0 is VariantIndexTooLarge,
//@end
//@fn Serializer::serialize_i8
    ensures r is Ok ==> final(self).out() == old(self).out() + enc_int(v as int),
//@end
//@fn Serializer::serialize_i16
    ensures r is Ok ==> final(self).out() == old(self).out() + enc_int(v as int),
//@end
//@fn Serializer::serialize_i32
    ensures r is Ok ==> final(self).out() == old(self).out() + enc_int(v as int),
//@end
//@fn Serializer::serialize_i64
    ensures r is Ok ==> final(self).out() == old(self).out() + enc_int(v as int),
//@end
//@fn Serializer::serialize_u16
    ensures r is Ok ==> final(self).out() == old(self).out() + enc_int(v as int),
//@end
//@fn Serializer::serialize_u32
    ensures r is Ok ==> final(self).out() == old(self).out() + enc_int(v as int),
//@end
//@fn Serializer::serialize_u64
    ensures r is Ok ==> final(self).out() == old(self).out() + enc_int(signed(v as int, 0x1_0000_0000_0000_0000)),
//@entry
    proof { lemma_u64_as_i64(v); }
//@end
//@fn Serializer::serialize_bool
    ensures r is Ok ==> final(self).out() == old(self).out() + seq![if v { 1u8 } else { 0u8 }],
//@end
//@fn Serializer::serialize_u8
    ensures r is Ok ==> final(self).out() == old(self).out() + seq![v],
//@end
//@fn Serializer::serialize_f32
    ensures r is Ok ==> final(self).out() == old(self).out() + le(f32_bits(v), 4),
//@end
//@fn Serializer::serialize_f64
    ensures r is Ok ==> final(self).out() == old(self).out() + le(f64_bits(v), 8),
//@end
//@fn Serializer::serialize_char
    ensures r is Ok ==> final(self).out() == old(self).out() + seq![v as u8],
        (v as u32) >= 256 ==> r is Err,
//@end
//@fn Serializer::serialize_str
    ensures r is Ok ==> final(self).out() == old(self).out() + (enc_nat0(str_bytes(v@).len() as int) + str_bytes(v@)),
//@entry
    broadcast use cat_assoc, cat_none;
//@end
//@fn Serializer::serialize_bytes
    ensures r is Ok ==> final(self).out() == old(self).out() + v@,
//@end
//@fn Serializer::serialize_none
    ensures r is Ok ==> final(self).out() == old(self).out() + seq![0u8],
//@end
//@fn Serializer::serialize_some
    ensures r is Ok ==> final(self).out() == old(self).out() + (seq![1u8] + value.enc()),
//@entry
    broadcast use cat_assoc, cat_none;
//@end
//@fn Serializer::serialize_unit
    ensures r is Ok ==> final(self).out() == old(self).out() + seq![0u8],
//@end
//@fn Serializer::serialize_unit_struct
    ensures r is Ok ==> final(self).out() == old(self).out() + seq![0u8],
//@end
//@fn Serializer::serialize_newtype_struct
    ensures r is Ok ==> final(self).out() == old(self).out() + value.enc(),
//@end
//@fn Serializer::serialize_seq
    ensures r is Ok ==> (*r->Ok_0).out() == old(self).out() + enc_nat0(len->Some_0 as int) && *final(self) == *final(r->Ok_0),
        len is None ==> r is Err,
//@end
//@fn Serializer::serialize_tuple
    ensures r is Ok ==> (*r->Ok_0).out() == old(self).out() + Seq::<u8>::empty() && *final(self) == *final(r->Ok_0),
//@entry
    broadcast use cat_assoc, cat_none;
//@end
//@fn Serializer::serialize_tuple_struct
    ensures r is Ok ==> (*r->Ok_0).out() == old(self).out() + Seq::<u8>::empty() && *final(self) == *final(r->Ok_0),
//@entry
    broadcast use cat_assoc, cat_none;
//@end
//@fn Serializer::serialize_struct
    ensures r is Ok ==> (*r->Ok_0).out() == old(self).out() + Seq::<u8>::empty() && *final(self) == *final(r->Ok_0),
//@entry
    broadcast use cat_assoc, cat_none;
//@end
//@fn Serializer::serialize_unit_variant
    ensures r is Ok ==> final(self).out() == old(self).out() + enc_variant(name@, variant@, variant_index),
        !variant_ok(name@, variant_index) ==> r is Err,
//@end
//@fn Serializer::serialize_newtype_variant
    ensures r is Ok ==> final(self).out() == old(self).out() + (enc_variant(name@, variant@, variant_index) + value.enc()),
        !variant_ok(name@, variant_index) ==> r is Err,
//@entry
    broadcast use cat_assoc, cat_none;
//@end
//@fn Serializer::serialize_tuple_variant
    ensures r is Ok ==> (*r->Ok_0).out() == old(self).out() + enc_variant(name@, variant@, variant_index) && *final(self) == *final(r->Ok_0),
        !variant_ok(name@, variant_index) ==> r is Err,
//@end
//@fn Serializer::serialize_struct_variant
    ensures r is Ok ==> (*r->Ok_0).out() == old(self).out() + enc_variant(name@, variant@, variant_index) && *final(self) == *final(r->Ok_0),
        !variant_ok(name@, variant_index) ==> r is Err,
//@end
//@fn Seq::serialize_element
    ensures r is Ok ==> final(self).out() == old(self).out() + value.enc() && *final(*final(self)) == *final(*old(self)),
//@end
//@fn Seq::end
    ensures r is Ok, *final(self) == *old(self),
//@end
//@fn Tuple::serialize_element
    ensures r is Ok ==> final(self).out() == old(self).out() + value.enc() && *final(*final(self)) == *final(*old(self)),
//@end
//@fn Tuple::end
    ensures r is Ok, *final(self) == *old(self),
//@end
//@fn TupleStruct::serialize_field
    ensures r is Ok ==> final(self).out() == old(self).out() + value.enc() && *final(*final(self)) == *final(*old(self)),
//@end
//@fn TupleStruct::end
    ensures r is Ok, *final(self) == *old(self),
//@end
//@fn Struct::serialize_field
    ensures r is Ok ==> final(self).out() == old(self).out() + value.enc() && *final(*final(self)) == *final(*old(self)),
//@end
//@fn Struct::end
    ensures r is Ok, *final(self) == *old(self),
//@end
//@fn TupleVariant::serialize_field
    ensures r is Ok ==> final(self).out() == old(self).out() + value.enc() && *final(*final(self)) == *final(*old(self)),
//@end
//@fn TupleVariant::end
    ensures r is Ok, *final(self) == *old(self),
//@end
//@fn StructVariant::serialize_field
    ensures r is Ok ==> final(self).out() == old(self).out() + value.enc() && *final(*final(self)) == *final(*old(self)),
//@end
//@fn StructVariant::end
    ensures r is Ok, *final(self) == *old(self),
//@end
pub proof fn lemma_u64_as_i64(v: u64)
    ensures #[verifier::truncate] ((v as i64)) as int == signed(v as int, 0x1_0000_0000_0000_0000)
{
    assert(v < 0x8000_0000_0000_0000u64 ==> (v as i64) as i128 == v as i128) by (bit_vector);
    assert(v >= 0x8000_0000_0000_0000u64 ==> (v as i64) as i128 == (v as i128) - 0x1_0000_0000_0000_0000i128) by (bit_vector);
}
pub broadcast proof fn cat_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures #[trigger] ((a + b) + c) == a + (b + c)
{ assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn cat_none(a: Seq<u8>)
    ensures #[trigger] (a + Seq::<u8>::empty()) == a
{ assert(a + Seq::<u8>::empty() =~= a); }
//@fn Serializer::serialize_map
//@skip
//@end
//@fn Serializer::new
    ensures r.writer == writer,
//@end
//@sub std :: io :: Write =>> Write
//@sub v . len ( ) as u64 =>> vx_str_len ( v ) as u64
//@sub v . as_bytes ( ) =>> vx_as_bytes ( v )
//@sub name == "Polyvar" =>> vx_streq ( name , "Polyvar" )
//@sub name == POLYVAR_TAG =>> vx_streq ( name , POLYVAR_TAG )
//@sub index . try_into ( ) =>> vx_u8_try_from ( index )
//@sub const POLYVAR_TAG : & str =>> const POLYVAR_TAG : & 'static str
//@emit protocol/bin-prot/src/ser.rs const:POLYVAR_TAG
//@emit protocol/bin-prot/src/ser.rs struct:Serializer
//@emit protocol/bin-prot/src/ser.rs impl:impl<W>Serializer<W>
//@emit protocol/bin-prot/src/ser.rs fn:check_variant_index
//@emit protocol/bin-prot/src/ser.rs impl:ser::Serializerfor
//@emit protocol/bin-prot/src/ser.rs impl:ser::SerializeSeqfor as=Seq
//@emit protocol/bin-prot/src/ser.rs impl:ser::SerializeTuplefor as=Tuple
//@emit protocol/bin-prot/src/ser.rs impl:ser::SerializeTupleStructfor as=TupleStruct
//@emit protocol/bin-prot/src/ser.rs impl:ser::SerializeStructfor as=Struct
//@emit protocol/bin-prot/src/ser.rs impl:ser::SerializeTupleVariantfor as=TupleVariant
//@emit protocol/bin-prot/src/ser.rs impl:ser::SerializeStructVariantfor as=StructVariant
