SC="bool:bool:Bool i8:i8:I8 i16:i16:I16 i32:i32:I32 i64:i64:I64 u8:u8:U8 u16:u16:U16 u32:u32:U32 u64:u64:U64 f32:f32:F32 f64:f64:F64 char:char:Char string:String:Str".split()
def ev(V,T,**o):
    g=o.get('g',''); gp=o.get('gp',''); w=o.get('w','')
    gi="<'de>" if not gp else f"<'de, {gp}>"
    s=f"impl{gi} Visitor<'de> for {V}{g} {w}{{\n    type Value = {T};\n"
    s+=f"    open spec fn on(self, e: Ev) -> Option<{T}> {{ {o.get('on','None')} }}\n"
    for n,a in (('some','s: Seq<u8>'),('newtype','s: Seq<u8>'),('seq','n: int, s: Seq<u8>'),('map','n: int, s: Seq<u8>'),('enum','i: u8, s: Seq<u8>'),('polyvar',"h: u32, labels: Seq<&'static str>, s: Seq<u8>")):
        s+=f"    open spec fn on_{n}(self, {a}) -> Dec<{T}> {{ {o.get('on_'+n,'None')} }}\n"
    for x in SC:
        n,t,_=x.split(':'); s+=f"    #[verifier::external_body] fn visit_{n}(self, v: {t}) -> (r: Result<{T}>) {{ unimplemented!() }}\n"
    for n in ('none','unit'): s+=f"    #[verifier::external_body] fn visit_{n}(self) -> (r: Result<{T}>) {{ unimplemented!() }}\n"
    for n,k,a in (('visit_some','de',"&'a mut Deserializer<R, StronglyTyped>"),('visit_newtype_struct','de',"&'a mut Deserializer<R, StronglyTyped>"),('visit_seq','a',"SeqAccess<'a, R, StronglyTyped>"),('visit_map','a',"MapAccess<'a, R, StronglyTyped>"),('visit_enum','a',"Enum<'a, R, StronglyTyped>"),('vx_visit_polyvar','a',"PolyvarEnum<'a, R, StronglyTyped>")):
        b=o.get(n)
        s+=f"    {'' if b else '#[verifier::external_body] '}{o.get(n+'_attr','')}fn {n}<'a, R: Read>(self, {k}: {a}) -> (r: Result<{T}>) {{ {b or 'unimplemented!()'} }}\n"
    return s+"}\n"
def de(T,dec,body,gp='',proof=''):
    gi="<'de>" if not gp else f"<'de, {gp}>"
    return f"impl{gi} Deserialize<'de> for {T} {{\n    open spec fn dec(s: Seq<u8>) -> Dec<{T}> {{ {dec} }}\n    fn deserialize<'a, R: Read>(de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<{T}>) {{ {proof}{body} }}\n}}\n"
WIRES=[]
def wire(T,enc,rt,ok='true',gp=''):
    WIRES.append((T,enc,gp))
    gi="<'de>" if not gp else f"<'de, {gp}>"
    return f"impl{gi} Wire<'de> for {T} {{\n    open spec fn ok(&self) -> bool {{ {ok} }}\n    open spec fn enc(&self) -> Seq<u8> {{ {enc} }}\n    proof fn rt(&self, rest: Seq<u8>) {{ {rt} }}\n}}\n"
o="""\
// written by tools/gencomp.py
// ---- C06 as one statement over the contracts: for every type put together from the formers below, decoding what the encoder
// writes gives the value back and stops exactly behind it. `dec` is what the verified decoder does for the type (the `deserialize`
// bodies and the visitors of compound types are checked here against the contracts of de.rs, the way serde's own and derived
// implementations use them), `enc` is what part_ser.rs proves the encoder appends for the calls serde makes for the type.
// Trait resolution is the induction: `rt` of a compound type uses `rt` of its parts.
use core::marker::PhantomData;
use de::DeserializeSeed;
use de::SeqAccess as _;
pub trait Wire<'de>: Deserialize<'de> {
    /// the values the encoder accepts
    spec fn ok(&self) -> bool;
    spec fn enc(&self) -> Seq<u8>;
    proof fn rt(&self, rest: Seq<u8>) requires self.ok() ensures Self::dec(self.enc() + rest) == Some((*self, rest));
}
pub proof fn cat_skip(a: Seq<u8>, b: Seq<u8>)
    ensures (a + b).skip(a.len() as int) == b, a.len() > 0 ==> (a + b)[0] == a[0], (a + b).len() == a.len() + b.len()
{ assert((a + b).skip(a.len() as int) =~= b); }
pub proof fn cat3(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures (a + b) + c == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
/// IEEE bit patterns and values, UTF-8 bytes and text, texts and Strings correspond one to one
pub axiom fn f32_same(f: f32) ensures f32_of(f32_bits(f)) == f, 0 <= f32_bits(f) < 0x1_0000_0000;
pub axiom fn f64_same(f: f64) ensures f64_of(f64_bits(f)) == f, 0 <= f64_bits(f) < 0x1_0000_0000_0000_0000;
pub uninterp spec fn str_bytes(s: Seq<char>) -> Seq<u8>;
pub axiom fn utf8_same(s: Seq<char>) ensures utf8(str_bytes(s)) == Some(s);
pub uninterp spec fn string_of(s: Seq<char>) -> String;
pub axiom fn string_same(s: String) ensures string_of(s@) == s;
pub uninterp spec fn vec_of<T>(s: Seq<T>) -> Vec<T>;
pub axiom fn vec_same<T>(v: Vec<T>) ensures vec_of(v@) == v;
"""
def scalar(V,T,pat,val='x'):
    global o
    o+=f"pub struct {V};\n"+ev(V,T,on=f"match e {{ {pat} => Some({val}), _ => None }}")
for t in "i8 i16 i32 i64 u16 u32".split():
    V="V"+t; scalar(V,t,f"Ev::{t.upper()}(x)")
    o+=de(t,f"d_int({V}, s, {t}::MIN as int, {t}::MAX as int, |n: int| Ev::{t.upper()}(n as {t}))",f"de::Deserializer::deserialize_{t}(de, {V})")
    o+=wire(t,"enc_int(*self as int)","int_roundtrip(*self as int, rest); cat_skip(enc_int(*self as int), rest);")
M="0x1_0000_0000_0000_0000"
scalar("Vu64","u64","Ev::U64(x)")
o+=de("u64",f"d_int(Vu64, s, i64::MIN as int, i64::MAX as int, |n: int| Ev::U64((n % {M}) as u64))","de::Deserializer::deserialize_u64(de, Vu64)")
o+=wire("u64",f"enc_int(signed(*self as int, {M}))",f"let n = signed(*self as int, {M}); int_roundtrip(n, rest); cat_skip(enc_int(n), rest); assert(n % {M} == *self as int) by (nonlinear_arith) requires n == *self as int || n == *self as int - {M}, 0 <= *self as int, (*self as int) < {M};")
for V,T,pat,val,m,b,enc,ok in (("VBool","bool","Ev::Bool(x)","x","bool","if b == 0 { Some(Ev::Bool(false)) } else if b == 1 { Some(Ev::Bool(true)) } else { None }","if *self { 1u8 } else { 0u8 }","true"),
  ("VUnit","()","Ev::Unit","()","unit","if b == 0 { Some(Ev::Unit) } else { None }","0u8","true"),
  ("VU8","u8","Ev::U8(x)","x","u8","Some(Ev::U8(b))","*self","true"),
  ("VChar","char","Ev::Char(x)","x","char","Some(Ev::Char(b as char))","*self as u8","(*self as u32) < 256")):
    scalar(V,T,pat,val)
    o+=de(T,f"d_byte({V}, s, |b: u8| {b})",f"de::Deserializer::deserialize_{m}(de, {V})")
    o+=wire(T,f"seq![{enc}]","let e = self.enc(); cat_skip(e, rest);",ok)
for T,n in (("f32",4),("f64",8)):
    V="V"+T; scalar(V,T,f"Ev::{T.upper()}(x)")
    o+=de(T,f"if s.len() < {n} {{ None }} else {{ after_scalar({V}.on(Ev::{T.upper()}({T}_of(unle(s.take({n}))))), s, {n}) }}",f"de::Deserializer::deserialize_{T}(de, {V})")
    o+=wire(T,f"le({T}_bits(*self), {n})",f"broadcast use le_len; let b = {T}_bits(*self); let e = le(b, {n}); pow256_vals(); unle_le(b, {n}); cat_skip(e, rest); assert((e + rest).take({n}) =~= e); {T}_same(*self); vstd::arithmetic::div_mod::lemma_small_mod(b as nat, pow256({n}) as nat);")
scalar("VString","String","Ev::Str(x)","string_of(x)")
o+=de("String","d_string(VString, s)","de::Deserializer::deserialize_string(de, VString)")
o+=wire("String","enc_nat0(str_bytes(self@).len() as int) + str_bytes(self@)","let b = str_bytes(self@); bytes_roundtrip(b, rest); cat_skip(self.enc(), rest); utf8_same(self@); string_same(*self);","str_bytes(self@).len() <= u64::MAX")
# option
TD="T: Deserialize<'de>"; TW="T: Wire<'de>"
o+="pub struct OptV<T> { pub t: PhantomData<T> }\n"+ev("OptV","Option<T>",g="<T>",gp=TD,on="match e { Ev::None => Some(None), _ => None }",
  on_some="match T::dec(s) { Some((x, t)) => Some((Some(x), t)), None => None }",
  visit_some="match T::deserialize(de) { Ok(x) => Ok(Some(x)), Err(e) => Err(e) }")
o+=de("Option<T>","d_option(OptV::<T> { t: PhantomData }, s)","de::Deserializer::deserialize_option(de, OptV::<T> { t: PhantomData })",TD)
o+=wire("Option<T>","match *self { None => seq![0u8], Some(x) => seq![1u8] + x.enc() }","match *self { None => { cat_skip(seq![0u8], rest); } Some(x) => { cat3(seq![1u8], x.enc(), rest); cat_skip(seq![1u8], x.enc() + rest); x.rt(rest); } }","self is Some ==> self->Some_0.ok()",TW)
# newtype
o+="/// a newtype struct\npub struct Newtype<T>(pub T);\npub struct NewV<T> { pub t: PhantomData<T> }\n"+ev("NewV","Newtype<T>",g="<T>",gp=TD,
  on_newtype="match T::dec(s) { Some((x, t)) => Some((Newtype(x), t)), None => None }",
  visit_newtype_struct="match T::deserialize(de) { Ok(x) => Ok(Newtype(x)), Err(e) => Err(e) }")
o+=de("Newtype<T>","NewV::<T> { t: PhantomData }.on_newtype(s)",'de::Deserializer::deserialize_newtype_struct(de, "", NewV::<T> { t: PhantomData })',TD)
o+=wire("Newtype<T>","self.0.enc()","self.0.rt(rest);","self.0.ok()",TW)
# seeds
o+="""/// PhantomData<T> as a seed
pub struct Of<T> { pub t: PhantomData<T> }
impl<'de, T: Deserialize<'de>> DeserializeSeed<'de> for Of<T> {
    type Value = T;
    open spec fn dec(self, s: Seq<u8>) -> Dec<T> { T::dec(s) }
    open spec fn of_index(self, i: int) -> Option<T> { None }
    open spec fn of_name(self, n: Seq<char>) -> Option<T> { None }
    fn deserialize<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<T>) { T::deserialize(de) }
    #[verifier::external_body] fn vx_deserialize_name<N: VxName>(self, n: N) -> (r: Result<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_deserialize_index<I: VxIndex>(self, i: I) -> (r: Result<T>) { unimplemented!() }
}
/// n elements one behind the other
pub open spec fn elems<'de, T: Deserialize<'de>>(n: nat, s: Seq<u8>) -> Dec<Seq<T>> decreases n {
    if n == 0 { Some((Seq::empty(), s)) }
    else { match elems::<T>((n - 1) as nat, s) { None => None, Some((xs, t)) => match T::dec(t) { None => None, Some((x, u)) => Some((xs.push(x), u)) } } }
}
pub proof fn elems_none<'de, T: Deserialize<'de>>(m: nat, n: nat, s: Seq<u8>)
    requires n <= m, elems::<T>(n, s) is None
    ensures elems::<T>(m, s) is None
    decreases m
{ if n < m { elems_none::<T>((m - 1) as nat, n, s); } }
pub open spec fn encs<'de, T: Wire<'de>>(xs: Seq<T>) -> Seq<u8> decreases xs.len() {
    if xs.len() == 0 { Seq::empty() } else { encs(xs.drop_last()) + xs.last().enc() }
}
pub proof fn elems_rt<'de, T: Wire<'de>>(xs: Seq<T>, rest: Seq<u8>)
    requires forall|i: int| 0 <= i < xs.len() ==> (#[trigger] xs[i]).ok()
    ensures elems::<T>(xs.len(), encs(xs) + rest) == Some((xs, rest))
    decreases xs.len()
{
    if xs.len() == 0 { assert(encs(xs) + rest =~= rest); assert(xs =~= Seq::<T>::empty()); }
    else {
        let (h, x) = (xs.drop_last(), xs.last());
        assert forall|i: int| 0 <= i < h.len() implies (#[trigger] h[i]).ok() by { assert(h[i] == xs[i]); }
        elems_rt(h, x.enc() + rest); x.rt(rest); cat3(encs(h), x.enc(), rest);
        assert(h.push(x) =~= xs);
    }
}
"""
LOOP="""let mut a = a; let ghost a0 = a; let mut v: Vec<T> = Vec::new();
        loop
            invariant a.de.reliable() == a0.de.reliable(), *final(a.de) == *final(a0.de), v@.len() + a.len == a0.len,
                elems::<T>(v@.len(), a0.de.rem()) == Some((v@, a.de.rem())),
            decreases a.len
        {
            proof { if a.len > 0 && T::dec(a.de.rem()) is None { elems_none::<T>(a0.len as nat, (v@.len() + 1) as nat, a0.de.rem()); } }
            match a.next_element_seed(Of::<T> { t: PhantomData }) {
                Ok(Some(x)) => { v.push(x); }
                Ok(None) => { proof { vec_same(v); } return Ok(v); }
                Err(e) => { return Err(e); }
            }
        }"""
o+="pub struct VecV<T> { pub t: PhantomData<T> }\n"+ev("VecV","Vec<T>",g="<T>",gp=TD,
  on_seq="match elems::<T>(n as nat, s) { Some((xs, t)) => Some((vec_of(xs), t)), None => None }",
  visit_seq=LOOP, visit_seq_attr="#[verifier::loop_isolation(false)] ")
o+=de("Vec<T>","d_seq(VecV::<T> { t: PhantomData }, s)","de::Deserializer::deserialize_seq(de, VecV::<T> { t: PhantomData })",TD)
o+=wire("Vec<T>","enc_nat0(self@.len() as int) + encs(self@)","let e = enc_nat0(self@.len() as int); cat3(e, encs(self@), rest); nat0_roundtrip(self@.len() as int, encs(self@) + rest); cat_skip(e, encs(self@) + rest); elems_rt(self@, rest); vec_same(*self);","self@.len() <= usize::MAX && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).ok()",TW)
# pair: tuple, struct, tuple struct, and the content of a tuple variant
AB="A: Deserialize<'de>, B: Deserialize<'de>"; ABW="A: Wire<'de>, B: Wire<'de>"
o+="""/// two fields one behind the other; a reader that has fewer or more than two fields to give is refused or left at the second
pub open spec fn two<'de, A: Deserialize<'de>, B: Deserialize<'de>>(s: Seq<u8>) -> Dec<(A, B)> {
    match A::dec(s) { None => None, Some((a, t)) => match B::dec(t) { None => None, Some((b, u)) => Some(((a, b), u)) } }
}
pub proof fn two_rt<'de, A: Wire<'de>, B: Wire<'de>>(a: A, b: B, rest: Seq<u8>)
    requires a.ok(), b.ok()
    ensures two::<A, B>(a.enc() + b.enc() + rest) == Some(((a, b), rest))
{ cat3(a.enc(), b.enc(), rest); a.rt(b.enc() + rest); b.rt(rest); }
"""
TWO="""let mut a = a; let ghost a0 = a;
        let x = match a.next_element_seed(Of::<A> { t: PhantomData }) { Ok(Some(x)) => x, Ok(None) => { return Err(Error::EndOfStream); } Err(e) => { return Err(e); } };
        let y = match a.next_element_seed(Of::<B> { t: PhantomData }) { Ok(Some(y)) => y, Ok(None) => { return Err(Error::EndOfStream); } Err(e) => { return Err(e); } };
        Ok((x, y))"""
o+="pub struct PairV<A, B> { pub t: PhantomData<(A, B)> }\n"+ev("PairV","(A, B)",g="<A, B>",gp=AB,on_seq="if n >= 2 { two::<A, B>(s) } else { None }",visit_seq=TWO)
o+=de("(A, B)","two::<A, B>(s)","de::Deserializer::deserialize_tuple(de, 2, PairV::<A, B> { t: PhantomData })",AB)
o+=wire("(A, B)","self.0.enc() + self.1.enc()","two_rt(self.0, self.1, rest);","self.0.ok() && self.1.ok()",ABW)
o+="/// a struct with two named fields\npub struct Fields<A, B> { pub a: A, pub b: B }\npub struct FieldsV<A, B> { pub t: PhantomData<(A, B)> }\n"
o+=ev("FieldsV","Fields<A, B>",g="<A, B>",gp=AB,on_seq="if n >= 2 { match two::<A, B>(s) { Some(((a, b), t)) => Some((Fields { a, b }, t)), None => None } } else { None }",visit_seq=TWO.replace("Ok((x, y))","Ok(Fields { a: x, b: y })"))
o+=de("Fields<A, B>","match two::<A, B>(s) { Some(((a, b), t)) => Some((Fields { a, b }, t)), None => None }",'de::Deserializer::deserialize_struct(de, "Fields", &["a", "b"], FieldsV::<A, B> { t: PhantomData })',AB)
o+=wire("Fields<A, B>","self.a.enc() + self.b.enc()","two_rt(self.a, self.b, rest);","self.a.ok() && self.b.ok()",ABW)
# enum
o+="""/// an enum with a variant of each kind
pub enum Kinds<A, B> { Bare, New(A), Tup(A, B), Rec { a: A, b: B } }
pub struct KindV<A, B> { pub t: PhantomData<(A, B)> }
/// the derived visitor of variant numbers
pub struct Nr;
impl<'de> DeserializeSeed<'de> for Nr {
    type Value = u64;
    open spec fn dec(self, s: Seq<u8>) -> Dec<u64> { None }
    open spec fn of_index(self, i: int) -> Option<u64> { if 0 <= i < 4 { Some(i as u64) } else { None } }
    open spec fn of_name(self, n: Seq<char>) -> Option<u64> { None }
    #[verifier::external_body] fn deserialize<'a, R: Read>(self, de: &'a mut Deserializer<R, StronglyTyped>) -> (r: Result<u64>) { unimplemented!() }
    #[verifier::external_body] fn vx_deserialize_name<N: VxName>(self, n: N) -> (r: Result<u64>) { unimplemented!() }
    #[verifier::external_body] fn vx_deserialize_index<I: VxIndex>(self, i: I) -> (r: Result<u64>) { unimplemented!() }
}
"""
o+=ev("KindV","Kinds<A, B>",g="<A, B>",gp=AB,
  on_enum="""if i == 0 { Some((Kinds::Bare, s)) }
        else if i == 1 { match A::dec(s) { Some((a, t)) => Some((Kinds::New(a), t)), None => None } }
        else if i == 2 { match two::<A, B>(s) { Some(((a, b), t)) => Some((Kinds::Tup(a, b), t)), None => None } }
        else if i == 3 { match two::<A, B>(s) { Some(((a, b), t)) => Some((Kinds::Rec { a, b }, t)), None => None } }
        else { None }""",
  visit_enum="""match EnumAccess::variant_seed(a, Nr) {
            Err(e) => Err(e),
            Ok((0, v)) => match de::VariantAccess::unit_variant(v) { Ok(()) => Ok(Kinds::Bare), Err(e) => Err(e) },
            Ok((1, v)) => match de::VariantAccess::newtype_variant_seed(v, Of::<A> { t: PhantomData }) { Ok(a) => Ok(Kinds::New(a)), Err(e) => Err(e) },
            Ok((2, v)) => match de::VariantAccess::tuple_variant(v, 2, PairV::<A, B> { t: PhantomData }) { Ok((a, b)) => Ok(Kinds::Tup(a, b)), Err(e) => Err(e) },
            Ok((_, v)) => match de::VariantAccess::struct_variant(v, &["a", "b"], FieldsV::<A, B> { t: PhantomData }) { Ok(f) => Ok(Kinds::Rec { a: f.a, b: f.b }), Err(e) => Err(e) },
        }""")
o+=de("Kinds<A, B>","if s.len() < 1 { None } else { KindV::<A, B> { t: PhantomData }.on_enum(s[0], s.skip(1)) }",'de::Deserializer::deserialize_enum(de, "Kinds", &["Bare", "New", "Tup", "Rec"], KindV::<A, B> { t: PhantomData })',AB,proof='proof { reveal_strlit("Kinds"); reveal_strlit("Polyvar"); assert("Kinds"@.len() == 5); assert("Polyvar"@.len() == 7); } ')
o+=wire("Kinds<A, B>","match *self { Kinds::Bare => seq![0u8], Kinds::New(a) => seq![1u8] + a.enc(), Kinds::Tup(a, b) => seq![2u8] + (a.enc() + b.enc()), Kinds::Rec { a, b } => seq![3u8] + (a.enc() + b.enc()) }",
 """let h = seq![self.enc()[0]]; let c = self.enc().skip(1);
        match *self {
            Kinds::Bare => { assert(c =~= Seq::<u8>::empty()); cat_skip(seq![0u8], rest); }
            Kinds::New(a) => { cat3(seq![1u8], a.enc(), rest); cat_skip(seq![1u8], a.enc() + rest); a.rt(rest); }
            Kinds::Tup(a, b) => { let c = a.enc() + b.enc(); cat3(seq![2u8], c, rest); cat_skip(seq![2u8], c + rest); two_rt(a, b, rest); }
            Kinds::Rec { a, b } => { let c = a.enc() + b.enc(); cat3(seq![3u8], c, rest); cat_skip(seq![3u8], c + rest); two_rt(a, b, rest); }
        }""","match *self { Kinds::Bare => true, Kinds::New(a) => a.ok(), Kinds::Tup(a, b) => a.ok() && b.ok(), Kinds::Rec { a, b } => a.ok() && b.ok() }",ABW)
o+="""/// the strict and the plain entry point on the encoding of any such value (C06, C09)
pub fn client_round_trip<'de, R: Read, T: Wire<'de>>(rdr: R, Ghost(v): Ghost<T>, Ghost(rest): Ghost<Seq<u8>>) -> (r: Result<T>)
    requires v.ok(), rdr.reliable(), rdr.rem() == v.enc() + rest
    ensures r == Ok::<T, Error>(v)
{ proof { v.rt(rest); } from_reader(rdr) }
pub fn client_strict<'de, R: Read, T: Wire<'de>>(rdr: R, Ghost(v): Ghost<T>, Ghost(rest): Ghost<Seq<u8>>) -> (r: Result<T>)
    requires v.ok(), rdr.reliable(), rdr.rem() == v.enc() + rest
    ensures rest.len() == 0 ==> r == Ok::<T, Error>(v), rest.len() > 0 ==> r is Err && r->Err_0 is StreamNotFullyConsumed
{ proof { v.rt(rest); } from_reader_strict(rdr) }

"""
import sys
open(sys.argv[1],'w').write(o)
TYPES=''.join(l+'\n' for l in o.split('\n') if l.startswith(('pub struct Newtype','pub struct Fields<','pub enum Kinds')))
q='''// written by tools/gencomp.py
// ---- the calls serde's own and derived implementations make for the type formers of part_comp.rs, checked against the contracts of
// ser.rs: `enc` is, text for text, the encoding that part_comp.rs proves to decode to the value
'''+TYPES+'''pub open spec fn encs<T: Serialize>(xs: Seq<T>) -> Seq<u8> decreases xs.len() {
    if xs.len() == 0 { Seq::empty() } else { encs(xs.drop_last()) + xs.last().enc() }
}
'''
BODY={'bool':'ser::Serializer::serialize_bool(s, *self)','()':'ser::Serializer::serialize_unit(s)','u8':'ser::Serializer::serialize_u8(s, *self)','char':'ser::Serializer::serialize_char(s, *self)',
 'String':'ser::Serializer::serialize_str(s, self.as_str())',
 'Option<T>':'broadcast use cat_none; match self { None => ser::Serializer::serialize_none(s), Some(x) => ser::Serializer::serialize_some(s, x) }',
 'Newtype<T>':'ser::Serializer::serialize_newtype_struct(s, "", &self.0)',
 'Vec<T>':'''broadcast use {cat_assoc, cat_none};
        let ghost s0 = *s;
        let mut q = match ser::Serializer::serialize_seq(s, Some(self.len())) { Ok(q) => q, Err(e) => { return Err(e); } };
        let mut i = 0;
        while i < self.len()
            invariant i <= self@.len(), (*q).out() == s0.out() + (enc_nat0(self@.len() as int) + encs(self@.take(i as int))), *final(q) == *final(s),
            decreases self@.len() - i
        {
            proof { assert(self@.take(i + 1).drop_last() =~= self@.take(i as int)); assert(self@.take(i + 1).last() == self@[i as int]); }
            match ser::SerializeSeq::serialize_element(&mut q, &self[i]) { Ok(_) => {} Err(e) => { return Err(e); } }
            i += 1;
        }
        proof { assert(self@.take(i as int) =~= self@); }
        ser::SerializeSeq::end(q)''',
 '(A, B)':'''broadcast use {cat_assoc, cat_none};
        let mut q = match ser::Serializer::serialize_tuple(s, 2) { Ok(q) => q, Err(e) => { return Err(e); } };
        match ser::SerializeTuple::serialize_element(&mut q, &self.0) { Ok(_) => {} Err(e) => { return Err(e); } }
        match ser::SerializeTuple::serialize_element(&mut q, &self.1) { Ok(_) => {} Err(e) => { return Err(e); } }
        ser::SerializeTuple::end(q)''',
 'Fields<A, B>':'''broadcast use {cat_assoc, cat_none};
        let mut q = match ser::Serializer::serialize_struct(s, "Fields", 2) { Ok(q) => q, Err(e) => { return Err(e); } };
        match ser::SerializeStruct::serialize_field(&mut q, "a", &self.a) { Ok(_) => {} Err(e) => { return Err(e); } }
        match ser::SerializeStruct::serialize_field(&mut q, "b", &self.b) { Ok(_) => {} Err(e) => { return Err(e); } }
        ser::SerializeStruct::end(q)''',
 'Kinds<A, B>':'''broadcast use {cat_assoc, cat_none};
        proof { reveal_strlit("Kinds"); reveal_strlit("Polyvar"); reveal_strlit("PolyvarTag"); assert("Kinds"@.len() == 5); assert("Polyvar"@.len() == 7); assert("PolyvarTag"@.len() == 10); }
        match self {
            Kinds::Bare => ser::Serializer::serialize_unit_variant(s, "Kinds", 0, "Bare"),
            Kinds::New(a) => ser::Serializer::serialize_newtype_variant(s, "Kinds", 1, "New", a),
            Kinds::Tup(a, b) => {
                let mut q = match ser::Serializer::serialize_tuple_variant(s, "Kinds", 2, "Tup", 2) { Ok(q) => q, Err(e) => { return Err(e); } };
                match ser::SerializeTupleVariant::serialize_field(&mut q, a) { Ok(_) => {} Err(e) => { return Err(e); } }
                match ser::SerializeTupleVariant::serialize_field(&mut q, b) { Ok(_) => {} Err(e) => { return Err(e); } }
                ser::SerializeTupleVariant::end(q)
            }
            Kinds::Rec { a, b } => {
                let mut q = match ser::Serializer::serialize_struct_variant(s, "Kinds", 3, "Rec", 2) { Ok(q) => q, Err(e) => { return Err(e); } };
                match ser::SerializeStructVariant::serialize_field(&mut q, "a", a) { Ok(_) => {} Err(e) => { return Err(e); } }
                match ser::SerializeStructVariant::serialize_field(&mut q, "b", b) { Ok(_) => {} Err(e) => { return Err(e); } }
                ser::SerializeStructVariant::end(q)
            }
        }'''}
for T,enc,gp in WIRES:
    gi='<'+gp.replace("Wire<'de>","Serialize")+'>' if gp else ''
    b=BODY.get(T) or f'ser::Serializer::serialize_{T}(s, *self)'
    q+=f'impl{gi} Serialize for {T} {{\n    open spec fn enc(&self) -> Seq<u8> {{ {enc} }}\n    fn serialize<W: Write>(&self, s: &mut Serializer<W>) -> (r: Result<()>) {{ {b} }}\n}}\n'
open(sys.argv[2],'w').write(q)
