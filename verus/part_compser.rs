// written by tools/gencomp.py
// ---- the calls serde's own and derived implementations make for the type formers of part_comp.rs, checked against the contracts of
// ser.rs: `enc` is, text for text, the encoding that part_comp.rs proves to decode to the value
pub struct Newtype<T>(pub T);
pub struct Fields<A, B> { pub a: A, pub b: B }
pub enum Kinds<A, B> { Bare, New(A), Tup(A, B), Rec { a: A, b: B } }
pub open spec fn encs<T: Serialize>(xs: Seq<T>) -> Seq<u8> decreases xs.len() {
    if xs.len() == 0 { Seq::empty() } else { encs(xs.drop_last()) + xs.last().enc() }
}
impl Serialize for i8 {
    open spec fn enc(&self) -> Seq<u8> { enc_int(*self as int) }
    fn serialize<W: Write>(&self, s: &mut Serializer<W>) -> (r: Result<()>) { ser::Serializer::serialize_i8(s, *self) }
}
impl Serialize for i16 {
    open spec fn enc(&self) -> Seq<u8> { enc_int(*self as int) }
    fn serialize<W: Write>(&self, s: &mut Serializer<W>) -> (r: Result<()>) { ser::Serializer::serialize_i16(s, *self) }
}
impl Serialize for i32 {
    open spec fn enc(&self) -> Seq<u8> { enc_int(*self as int) }
    fn serialize<W: Write>(&self, s: &mut Serializer<W>) -> (r: Result<()>) { ser::Serializer::serialize_i32(s, *self) }
}
impl Serialize for i64 {
    open spec fn enc(&self) -> Seq<u8> { enc_int(*self as int) }
    fn serialize<W: Write>(&self, s: &mut Serializer<W>) -> (r: Result<()>) { ser::Serializer::serialize_i64(s, *self) }
}
impl Serialize for u16 {
    open spec fn enc(&self) -> Seq<u8> { enc_int(*self as int) }
    fn serialize<W: Write>(&self, s: &mut Serializer<W>) -> (r: Result<()>) { ser::Serializer::serialize_u16(s, *self) }
}
impl Serialize for u32 {
    open spec fn enc(&self) -> Seq<u8> { enc_int(*self as int) }
    fn serialize<W: Write>(&self, s: &mut Serializer<W>) -> (r: Result<()>) { ser::Serializer::serialize_u32(s, *self) }
}
impl Serialize for u64 {
    open spec fn enc(&self) -> Seq<u8> { enc_int(signed(*self as int, 0x1_0000_0000_0000_0000)) }
    fn serialize<W: Write>(&self, s: &mut Serializer<W>) -> (r: Result<()>) { ser::Serializer::serialize_u64(s, *self) }
}
impl Serialize for bool {
    open spec fn enc(&self) -> Seq<u8> { seq![if *self { 1u8 } else { 0u8 }] }
    fn serialize<W: Write>(&self, s: &mut Serializer<W>) -> (r: Result<()>) { ser::Serializer::serialize_bool(s, *self) }
}
impl Serialize for () {
    open spec fn enc(&self) -> Seq<u8> { seq![0u8] }
    fn serialize<W: Write>(&self, s: &mut Serializer<W>) -> (r: Result<()>) { ser::Serializer::serialize_unit(s) }
}
impl Serialize for u8 {
    open spec fn enc(&self) -> Seq<u8> { seq![*self] }
    fn serialize<W: Write>(&self, s: &mut Serializer<W>) -> (r: Result<()>) { ser::Serializer::serialize_u8(s, *self) }
}
impl Serialize for char {
    open spec fn enc(&self) -> Seq<u8> { seq![*self as u8] }
    fn serialize<W: Write>(&self, s: &mut Serializer<W>) -> (r: Result<()>) { ser::Serializer::serialize_char(s, *self) }
}
impl Serialize for f32 {
    open spec fn enc(&self) -> Seq<u8> { le(f32_bits(*self), 4) }
    fn serialize<W: Write>(&self, s: &mut Serializer<W>) -> (r: Result<()>) { ser::Serializer::serialize_f32(s, *self) }
}
impl Serialize for f64 {
    open spec fn enc(&self) -> Seq<u8> { le(f64_bits(*self), 8) }
    fn serialize<W: Write>(&self, s: &mut Serializer<W>) -> (r: Result<()>) { ser::Serializer::serialize_f64(s, *self) }
}
impl Serialize for String {
    open spec fn enc(&self) -> Seq<u8> { enc_nat0(str_bytes(self@).len() as int) + str_bytes(self@) }
    fn serialize<W: Write>(&self, s: &mut Serializer<W>) -> (r: Result<()>) { ser::Serializer::serialize_str(s, self.as_str()) }
}
impl<T: Serialize> Serialize for Option<T> {
    open spec fn enc(&self) -> Seq<u8> { match *self { None => seq![0u8], Some(x) => seq![1u8] + x.enc() } }
    fn serialize<W: Write>(&self, s: &mut Serializer<W>) -> (r: Result<()>) { broadcast use cat_none; match self { None => ser::Serializer::serialize_none(s), Some(x) => ser::Serializer::serialize_some(s, x) } }
}
impl<T: Serialize> Serialize for Newtype<T> {
    open spec fn enc(&self) -> Seq<u8> { self.0.enc() }
    fn serialize<W: Write>(&self, s: &mut Serializer<W>) -> (r: Result<()>) { ser::Serializer::serialize_newtype_struct(s, "", &self.0) }
}
impl<T: Serialize> Serialize for Vec<T> {
    open spec fn enc(&self) -> Seq<u8> { enc_nat0(self@.len() as int) + encs(self@) }
    fn serialize<W: Write>(&self, s: &mut Serializer<W>) -> (r: Result<()>) { broadcast use {cat_assoc, cat_none};
        let ghost s0 = *s;
        let mut q = match ser::Serializer::serialize_seq(s, Some(self.len())) { Ok(q) => q, Err(e) => { return Err(e); } };
        let mut i = 0;
        while i < self.len()
            invariant i <= self@.len(), (*q).out() == s0.out() + (enc_nat0(self@.len() as int) + encs(self@.take(i as int))), *final(q) == *final(s),
            decreases self@.len() - i
        {
            proof { assert(self@.take(i + 1).drop_last() =~= self@.take(i as int)); assert(self@.take(i + 1).last() == self@[i as int]); }
            match ser::SerializeSeq::serialize_element(&mut q, &self[i]) { Ok(_) => {} Err(e) => { return Err(e); } }
            i += 1;
        }
        proof { assert(self@.take(i as int) =~= self@); }
        ser::SerializeSeq::end(q) }
}
impl<A: Serialize, B: Serialize> Serialize for (A, B) {
    open spec fn enc(&self) -> Seq<u8> { self.0.enc() + self.1.enc() }
    fn serialize<W: Write>(&self, s: &mut Serializer<W>) -> (r: Result<()>) { broadcast use {cat_assoc, cat_none};
        let mut q = match ser::Serializer::serialize_tuple(s, 2) { Ok(q) => q, Err(e) => { return Err(e); } };
        match ser::SerializeTuple::serialize_element(&mut q, &self.0) { Ok(_) => {} Err(e) => { return Err(e); } }
        match ser::SerializeTuple::serialize_element(&mut q, &self.1) { Ok(_) => {} Err(e) => { return Err(e); } }
        ser::SerializeTuple::end(q) }
}
impl<A: Serialize, B: Serialize> Serialize for Fields<A, B> {
    open spec fn enc(&self) -> Seq<u8> { self.a.enc() + self.b.enc() }
    fn serialize<W: Write>(&self, s: &mut Serializer<W>) -> (r: Result<()>) { broadcast use {cat_assoc, cat_none};
        let mut q = match ser::Serializer::serialize_struct(s, "Fields", 2) { Ok(q) => q, Err(e) => { return Err(e); } };
        match ser::SerializeStruct::serialize_field(&mut q, "a", &self.a) { Ok(_) => {} Err(e) => { return Err(e); } }
        match ser::SerializeStruct::serialize_field(&mut q, "b", &self.b) { Ok(_) => {} Err(e) => { return Err(e); } }
        ser::SerializeStruct::end(q) }
}
impl<A: Serialize, B: Serialize> Serialize for Kinds<A, B> {
    open spec fn enc(&self) -> Seq<u8> { match *self { Kinds::Bare => seq![0u8], Kinds::New(a) => seq![1u8] + a.enc(), Kinds::Tup(a, b) => seq![2u8] + (a.enc() + b.enc()), Kinds::Rec { a, b } => seq![3u8] + (a.enc() + b.enc()) } }
    fn serialize<W: Write>(&self, s: &mut Serializer<W>) -> (r: Result<()>) { broadcast use {cat_assoc, cat_none};
        proof { reveal_strlit("Kinds"); reveal_strlit("Polyvar"); reveal_strlit("PolyvarTag"); assert("Kinds"@.len() == 5); assert("Polyvar"@.len() == 7); assert("PolyvarTag"@.len() == 10); }
        match self {
            Kinds::Bare => ser::Serializer::serialize_unit_variant(s, "Kinds", 0, "Bare"),
            Kinds::New(a) => ser::Serializer::serialize_newtype_variant(s, "Kinds", 1, "New", a),
            Kinds::Tup(a, b) => {
                let mut q = match ser::Serializer::serialize_tuple_variant(s, "Kinds", 2, "Tup", 2) { Ok(q) => q, Err(e) => { return Err(e); } };
                match ser::SerializeTupleVariant::serialize_field(&mut q, a) { Ok(_) => {} Err(e) => { return Err(e); } }
                match ser::SerializeTupleVariant::serialize_field(&mut q, b) { Ok(_) => {} Err(e) => { return Err(e); } }
                ser::SerializeTupleVariant::end(q)
            }
            Kinds::Rec { a, b } => {
                let mut q = match ser::Serializer::serialize_struct_variant(s, "Kinds", 3, "Rec", 2) { Ok(q) => q, Err(e) => { return Err(e); } };
                match ser::SerializeStructVariant::serialize_field(&mut q, "a", a) { Ok(_) => {} Err(e) => { return Err(e); } }
                match ser::SerializeStructVariant::serialize_field(&mut q, "b", b) { Ok(_) => {} Err(e) => { return Err(e); } }
                ser::SerializeStructVariant::end(q)
            }
        } }
}
