//! Values of arbitrary shape driven through the public serde interface of bin-prot, together with an
//! independent statement of the wire format (refenc / refdec).
use crate::rng::Rng;
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Unit, UnitStruct, Bool, I8, I16, I32, I64, U8, U16, U32, U64, F32, F64, Char, Str, BorrowedStr,
    Opt(Box<Ty>), Newtype(Box<Ty>), Seq(Box<Ty>), Tuple(Vec<Ty>), TupleStruct(Vec<Ty>), Struct(Vec<Ty>),
    Enum(Vec<Var>), Poly(usize, Vec<Var>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Var { Unit, Newtype(Ty), Tuple(Vec<Ty>), Struct(Vec<Ty>) }
#[derive(Clone, Debug)]
pub enum Val {
    Unit, Bool(bool), Int(i128), F32(u32), F64(u64), Char(char), Str(String), None, Some(Box<Val>), New(Box<Val>), Seq(Vec<Val>), Var(u32, Box<Val>),
}
impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        use Val::*;
        match (self, o) {
            (Unit, Unit) | (None, None) => true,
            (Bool(a), Bool(b)) => a == b, (Int(a), Int(b)) => a == b, (F32(a), F32(b)) => a == b, (F64(a), F64(b)) => a == b,
            (Char(a), Char(b)) => a == b, (Str(a), Str(b)) => a == b, (Some(a), Some(b)) => a == b, (New(a), New(b)) => a == b,
            (Seq(a), Seq(b)) => a == b, (Var(i, a), Var(j, b)) => i == j && a == b, _ => false,
        }
    }
}

pub const FIELDS: [&str; 9] = ["f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8"];
pub fn vnames() -> &'static [&'static str] {
    thread_local!(static N: &'static [&'static str] = Box::leak((0..300).map(|i| -> &'static str { Box::leak(format!("V{i}").into_boxed_str()) }).collect::<Vec<_>>().into_boxed_slice()));
    N.with(|n| *n)
}
/// label sets for polymorphic variants; every label that is used has an OCaml hash below 2^31
pub const LABELS: [&[&str]; 6] = [
    &["One", "Two", "Abc", "Z", "Foo", "x_1"],
    &["A", "B", "C", "D", "E", "F"],
    &["\u{e9}t\u{e9}", "One", "\u{3b1}", "Two", "Yes", "No"],
    &["Some", "None", "Ok", "Err", "Add", "Sub"],
    &["~~~~", "zzzz", "a", "aa", "aaa", "aaaa"],
    &["Both", "Left", "\u{df}", "Rite", "Mid", "End"],
];
/// the OCaml runtime's hash of a variant name
pub fn ocaml_hash(s: &str) -> u32 {
    let mut a: u128 = 0;
    for b in s.bytes() { a = (a * 223 + b as u128) & 0x7fff_ffff; }
    a as u32
}

// ------------------------------------------------------------------ independent wire format
pub fn ref_int(n: i64, o: &mut Vec<u8>) {
    if (0..0x80).contains(&n) { o.push(n as u8) }
    else if (-0x80..0).contains(&n) { o.push(0xff); o.push(n as i8 as u8) }
    else if (-0x8000..0x8000).contains(&n) { o.push(0xfe); o.extend_from_slice(&(n as i16).to_le_bytes()) }
    else if (-0x8000_0000..0x8000_0000).contains(&n) { o.push(0xfd); o.extend_from_slice(&(n as i32).to_le_bytes()) }
    else { o.push(0xfc); o.extend_from_slice(&n.to_le_bytes()) }
}
pub fn ref_nat0(n: u64, o: &mut Vec<u8>) {
    if n < 0x80 { o.push(n as u8) }
    else if n < 0x1_0000 { o.push(0xfe); o.extend_from_slice(&(n as u16).to_le_bytes()) }
    else if n < 0x1_0000_0000 { o.push(0xfd); o.extend_from_slice(&(n as u32).to_le_bytes()) }
    else { o.push(0xfc); o.extend_from_slice(&n.to_le_bytes()) }
}
pub fn refenc(t: &Ty, v: &Val, o: &mut Vec<u8>) {
    match (t, v) {
        (Ty::Unit, _) | (Ty::UnitStruct, _) => o.push(0),
        (Ty::Bool, Val::Bool(b)) => o.push(*b as u8),
        (Ty::U8, Val::Int(n)) => o.push(*n as u8),
        (Ty::U64, Val::Int(n)) => ref_int(*n as u64 as i64, o),
        (_, Val::Int(n)) => ref_int(*n as i64, o),
        (Ty::F32, Val::F32(b)) => o.extend_from_slice(&b.to_le_bytes()),
        (Ty::F64, Val::F64(b)) => o.extend_from_slice(&b.to_le_bytes()),
        (Ty::Char, Val::Char(c)) => o.push(*c as u32 as u8),
        (Ty::Str, Val::Str(s)) | (Ty::BorrowedStr, Val::Str(s)) => { ref_nat0(s.len() as u64, o); o.extend_from_slice(s.as_bytes()) }
        (Ty::Opt(_), Val::None) => o.push(0),
        (Ty::Opt(t), Val::Some(v)) => { o.push(1); refenc(t, v, o) }
        (Ty::Newtype(t), Val::New(v)) => refenc(t, v, o),
        (Ty::Seq(t), Val::Seq(vs)) => { ref_nat0(vs.len() as u64, o); for v in vs { refenc(t, v, o) } }
        (Ty::Tuple(ts), Val::Seq(vs)) | (Ty::TupleStruct(ts), Val::Seq(vs)) | (Ty::Struct(ts), Val::Seq(vs)) => { for (t, v) in ts.iter().zip(vs) { refenc(t, v, o) } }
        (Ty::Enum(vars), Val::Var(i, v)) => { o.push(*i as u8); refvar(&vars[*i as usize], v, o) }
        (Ty::Poly(l, vars), Val::Var(i, v)) => { o.extend_from_slice(&(ocaml_hash(LABELS[*l][*i as usize]) << 1 | 1).to_le_bytes()); refvar(&vars[*i as usize], v, o) }
        _ => panic!("bad case {t:?} {v:?}"),
    }
}
fn refvar(t: &Var, v: &Val, o: &mut Vec<u8>) {
    match (t, v) {
        (Var::Unit, _) => {}
        (Var::Newtype(t), v) => refenc(t, v, o),
        (Var::Tuple(ts), Val::Seq(vs)) | (Var::Struct(ts), Val::Seq(vs)) => { for (t, v) in ts.iter().zip(vs) { refenc(t, v, o) } }
        _ => panic!(),
    }
}
/// None: the bytes are not the encoding of any value of this type
pub fn refdec(t: &Ty, s: &[u8], p: &mut usize) -> Option<Val> {
    fn take<'a>(s: &'a [u8], p: &mut usize, n: u64) -> Option<&'a [u8]> { if ((s.len() - *p) as u64) < n { None } else { let r = &s[*p..*p + n as usize]; *p += n as usize; Some(r) } }
    fn arr<const N: usize>(s: &[u8], p: &mut usize) -> Option<[u8; N]> { let mut a = [0; N]; a.copy_from_slice(take(s, p, N as u64)?); Some(a) }
    fn int(s: &[u8], p: &mut usize) -> Option<i64> {
        let [b] = arr::<1>(s, p)?;
        Some(match b {
            0..=0x7f => b as i64,
            0xff => i8::from_le_bytes(arr(s, p)?) as i64,
            0xfe => i16::from_le_bytes(arr(s, p)?) as i64,
            0xfd => i32::from_le_bytes(arr(s, p)?) as i64,
            0xfc => i64::from_le_bytes(arr(s, p)?),
            _ => return None,
        })
    }
    fn nat0(s: &[u8], p: &mut usize) -> Option<u64> {
        let [b] = arr::<1>(s, p)?;
        Some(match b {
            0..=0x7f => b as u64,
            0xfe => u16::from_le_bytes(arr(s, p)?) as u64,
            0xfd => u32::from_le_bytes(arr(s, p)?) as u64,
            0xfc => u64::from_le_bytes(arr(s, p)?),
            _ => return None,
        })
    }
    fn many(ts: &[Ty], s: &[u8], p: &mut usize) -> Option<Val> { let mut v = vec![]; for t in ts { v.push(refdec(t, s, p)?); } Some(Val::Seq(v)) }
    fn var(t: &Var, s: &[u8], p: &mut usize) -> Option<Val> { match t { Var::Unit => Some(Val::Unit), Var::Newtype(t) => refdec(t, s, p), Var::Tuple(ts) | Var::Struct(ts) => many(ts, s, p) } }
    let rng = |lo: i64, hi: i64, n: i64| if n < lo || n > hi { None } else { Some(Val::Int(n as i128)) };
    match t {
        Ty::Unit | Ty::UnitStruct => if arr::<1>(s, p)? == [0] { Some(Val::Unit) } else { None },
        Ty::Bool => match arr::<1>(s, p)? { [0] => Some(Val::Bool(false)), [1] => Some(Val::Bool(true)), _ => None },
        Ty::I8 => rng(-0x80, 0x7f, int(s, p)?),
        Ty::I16 => rng(-0x8000, 0x7fff, int(s, p)?),
        Ty::I32 => rng(-0x8000_0000, 0x7fff_ffff, int(s, p)?),
        Ty::I64 => rng(i64::MIN, i64::MAX, int(s, p)?),
        Ty::U8 => Some(Val::Int(arr::<1>(s, p)?[0] as i128)),
        Ty::U16 => rng(0, 0xffff, int(s, p)?),
        Ty::U32 => rng(0, 0xffff_ffff, int(s, p)?),
        Ty::U64 => Some(Val::Int(int(s, p)? as u64 as i128)),
        Ty::F32 => Some(Val::F32(u32::from_le_bytes(arr(s, p)?))),
        Ty::F64 => Some(Val::F64(u64::from_le_bytes(arr(s, p)?))),
        Ty::Char => Some(Val::Char(arr::<1>(s, p)?[0] as char)),
        Ty::Str | Ty::BorrowedStr => { let n = nat0(s, p)?; Some(Val::Str(std::str::from_utf8(take(s, p, n)?).ok()?.to_string())) }
        Ty::Opt(t) => match arr::<1>(s, p)? { [0] => Some(Val::None), [1] => Some(Val::Some(Box::new(refdec(t, s, p)?))), _ => None },
        Ty::Newtype(t) => Some(Val::New(Box::new(refdec(t, s, p)?))),
        Ty::Seq(t) => { let n = nat0(s, p)?; let mut v = vec![]; let mut i = 0; while i < n { v.push(refdec(t, s, p)?); i += 1; } Some(Val::Seq(v)) }
        Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts) => many(ts, s, p),
        Ty::Enum(vars) => { let [i] = arr::<1>(s, p)?; let v = vars.get(i as usize)?; Some(Val::Var(i as u32, Box::new(var(v, s, p)?))) }
        Ty::Poly(l, vars) => {
            let h = u32::from_le_bytes(arr(s, p)?) >> 1;
            let i = (0..vars.len()).find(|i| LABELS[*l][*i].is_ascii() && ocaml_hash(LABELS[*l][*i]) == h)?;
            Some(Val::Var(i as u32, Box::new(var(&vars[i], s, p)?)))
        }
    }
}

// ------------------------------------------------------------------ through serde
pub struct Dv<'a>(pub &'a Ty, pub &'a Val);
impl<'a> Serialize for Dv<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match (self.0, self.1) {
            (Ty::Unit, _) => s.serialize_unit(),
            (Ty::UnitStruct, _) => s.serialize_unit_struct("U"),
            (Ty::Bool, Val::Bool(b)) => s.serialize_bool(*b),
            (Ty::I8, Val::Int(n)) => s.serialize_i8(*n as i8), (Ty::I16, Val::Int(n)) => s.serialize_i16(*n as i16),
            (Ty::I32, Val::Int(n)) => s.serialize_i32(*n as i32), (Ty::I64, Val::Int(n)) => s.serialize_i64(*n as i64),
            (Ty::U8, Val::Int(n)) => s.serialize_u8(*n as u8), (Ty::U16, Val::Int(n)) => s.serialize_u16(*n as u16),
            (Ty::U32, Val::Int(n)) => s.serialize_u32(*n as u32), (Ty::U64, Val::Int(n)) => s.serialize_u64(*n as u64),
            (Ty::F32, Val::F32(b)) => s.serialize_f32(f32::from_bits(*b)), (Ty::F64, Val::F64(b)) => s.serialize_f64(f64::from_bits(*b)),
            (Ty::Char, Val::Char(c)) => s.serialize_char(*c),
            (Ty::Str, Val::Str(x)) | (Ty::BorrowedStr, Val::Str(x)) => s.serialize_str(x),
            (Ty::Opt(_), Val::None) => s.serialize_none(),
            (Ty::Opt(t), Val::Some(v)) => s.serialize_some(&Dv(t, v)),
            (Ty::Newtype(t), Val::New(v)) => s.serialize_newtype_struct("N", &Dv(t, v)),
            (Ty::Seq(t), Val::Seq(vs)) => { let mut q = s.serialize_seq(Some(vs.len()))?; for v in vs { q.serialize_element(&Dv(t, v))?; } q.end() }
            (Ty::Tuple(ts), Val::Seq(vs)) => { let mut q = s.serialize_tuple(vs.len())?; for (t, v) in ts.iter().zip(vs) { q.serialize_element(&Dv(t, v))?; } q.end() }
            (Ty::TupleStruct(ts), Val::Seq(vs)) => { let mut q = s.serialize_tuple_struct("T", vs.len())?; for (t, v) in ts.iter().zip(vs) { q.serialize_field(&Dv(t, v))?; } q.end() }
            (Ty::Struct(ts), Val::Seq(vs)) => { let mut q = s.serialize_struct("S", vs.len())?; for (i, (t, v)) in ts.iter().zip(vs).enumerate() { q.serialize_field(FIELDS[i], &Dv(t, v))?; } q.end() }
            (Ty::Enum(vars), Val::Var(i, v)) => ser_var(s, "E", *i, vnames()[*i as usize], &vars[*i as usize], v),
            (Ty::Poly(l, vars), Val::Var(i, v)) => ser_var(s, "Polyvar", *i, LABELS[*l][*i as usize], &vars[*i as usize], v),
            _ => panic!("bad case"),
        }
    }
}
fn ser_var<S: Serializer>(s: S, n: &'static str, i: u32, l: &'static str, t: &Var, v: &Val) -> Result<S::Ok, S::Error> {
    match (t, v) {
        (Var::Unit, _) => s.serialize_unit_variant(n, i, l),
        (Var::Newtype(t), v) => s.serialize_newtype_variant(n, i, l, &Dv(t, v)),
        (Var::Tuple(ts), Val::Seq(vs)) => { let mut q = s.serialize_tuple_variant(n, i, l, vs.len())?; for (t, v) in ts.iter().zip(vs) { q.serialize_field(&Dv(t, v))?; } q.end() }
        (Var::Struct(ts), Val::Seq(vs)) => { let mut q = s.serialize_struct_variant(n, i, l, vs.len())?; for (k, (t, v)) in ts.iter().zip(vs).enumerate() { q.serialize_field(FIELDS[k], &Dv(t, v))?; } q.end() }
        _ => panic!(),
    }
}
#[derive(Clone, Copy)]
pub struct Ds<'t>(pub &'t Ty);
impl<'de, 't> DeserializeSeed<'de> for Ds<'t> {
    type Value = Val;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> {
        let n = |ts: &[Ty]| ts.len();
        match self.0 {
            Ty::Unit => d.deserialize_unit(V(self.0)), Ty::UnitStruct => d.deserialize_unit_struct("U", V(self.0)),
            Ty::Bool => d.deserialize_bool(V(self.0)),
            Ty::I8 => d.deserialize_i8(V(self.0)), Ty::I16 => d.deserialize_i16(V(self.0)), Ty::I32 => d.deserialize_i32(V(self.0)), Ty::I64 => d.deserialize_i64(V(self.0)),
            Ty::U8 => d.deserialize_u8(V(self.0)), Ty::U16 => d.deserialize_u16(V(self.0)), Ty::U32 => d.deserialize_u32(V(self.0)), Ty::U64 => d.deserialize_u64(V(self.0)),
            Ty::F32 => d.deserialize_f32(V(self.0)), Ty::F64 => d.deserialize_f64(V(self.0)), Ty::Char => d.deserialize_char(V(self.0)),
            Ty::Str => d.deserialize_string(V(self.0)), Ty::BorrowedStr => d.deserialize_str(V(self.0)),
            Ty::Opt(_) => d.deserialize_option(V(self.0)), Ty::Newtype(_) => d.deserialize_newtype_struct("N", V(self.0)),
            Ty::Seq(_) => d.deserialize_seq(V(self.0)),
            Ty::Tuple(ts) => d.deserialize_tuple(n(ts), V(self.0)), Ty::TupleStruct(ts) => d.deserialize_tuple_struct("T", n(ts), V(self.0)),
            Ty::Struct(ts) => d.deserialize_struct("S", &FIELDS[..n(ts)], V(self.0)),
            Ty::Enum(vs) => d.deserialize_enum("E", &vnames()[..vs.len()], V(self.0)),
            Ty::Poly(l, vs) => d.deserialize_enum("Polyvar", &LABELS[*l][..vs.len()], V(self.0)),
        }
    }
}
struct V<'t>(&'t Ty);
struct Many<'t>(&'t [Ty]);
impl<'de, 't> Visitor<'de> for Many<'t> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("fields") }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        let mut v = vec![];
        for t in self.0 { match a.next_element_seed(Ds(t))? { Some(x) => v.push(x), None => return Err(de::Error::invalid_length(v.len(), &"more")) } }
        Ok(Val::Seq(v))
    }
}
struct Ix(usize);
impl<'de> DeserializeSeed<'de> for Ix {
    type Value = u32;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<u32, D::Error> {
        // what derived code does: ask for an identifier, accept any unsigned number that is a variant
        struct X(usize);
        impl<'de> Visitor<'de> for X { type Value = u32;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("variant") }
            fn visit_u64<E: de::Error>(self, n: u64) -> Result<u32, E> { if (n as usize) < self.0 { Ok(n as u32) } else { Err(E::invalid_value(de::Unexpected::Unsigned(n), &"variant index")) } } }
        d.deserialize_identifier(X(self.0))
    }
}
impl<'de, 't> Visitor<'de> for V<'t> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:?}", self.0) }
    fn visit_bool<E: de::Error>(self, b: bool) -> Result<Val, E> { if *self.0 == Ty::Bool { Ok(Val::Bool(b)) } else { Err(E::custom("visit_bool")) } }
    fn visit_i8<E: de::Error>(self, b: i8) -> Result<Val, E> { if *self.0 == Ty::I8 { Ok(Val::Int(b as i128)) } else { Err(E::custom("visit_i8")) } }
    fn visit_i16<E: de::Error>(self, b: i16) -> Result<Val, E> { if *self.0 == Ty::I16 { Ok(Val::Int(b as i128)) } else { Err(E::custom("visit_i16")) } }
    fn visit_i32<E: de::Error>(self, b: i32) -> Result<Val, E> { if *self.0 == Ty::I32 { Ok(Val::Int(b as i128)) } else { Err(E::custom("visit_i32")) } }
    fn visit_i64<E: de::Error>(self, b: i64) -> Result<Val, E> { Ok(Val::Int(b as i128)) }
    fn visit_u8<E: de::Error>(self, b: u8) -> Result<Val, E> { if *self.0 == Ty::U8 { Ok(Val::Int(b as i128)) } else { Err(E::custom("visit_u8")) } }
    fn visit_u16<E: de::Error>(self, b: u16) -> Result<Val, E> { if *self.0 == Ty::U16 { Ok(Val::Int(b as i128)) } else { Err(E::custom("visit_u16")) } }
    fn visit_u32<E: de::Error>(self, b: u32) -> Result<Val, E> { if *self.0 == Ty::U32 { Ok(Val::Int(b as i128)) } else { Err(E::custom("visit_u32")) } }
    fn visit_u64<E: de::Error>(self, b: u64) -> Result<Val, E> { Ok(Val::Int(b as i128)) }
    fn visit_f32<E: de::Error>(self, b: f32) -> Result<Val, E> { Ok(Val::F32(b.to_bits())) }
    fn visit_f64<E: de::Error>(self, b: f64) -> Result<Val, E> { Ok(Val::F64(b.to_bits())) }
    fn visit_char<E: de::Error>(self, b: char) -> Result<Val, E> { Ok(Val::Char(b)) }
    fn visit_str<E: de::Error>(self, b: &str) -> Result<Val, E> { Ok(Val::Str(b.to_string())) }
    fn visit_none<E: de::Error>(self) -> Result<Val, E> { Ok(Val::None) }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> { match self.0 { Ty::Opt(t) => Ok(Val::Some(Box::new(Ds(t).deserialize(d)?))), _ => Err(de::Error::custom("visit_some")) } }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> { Ok(Val::Unit) }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Val, D::Error> { match self.0 { Ty::Newtype(t) => Ok(Val::New(Box::new(Ds(t).deserialize(d)?))), _ => Err(de::Error::custom("visit_newtype")) } }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match self.0 {
            Ty::Seq(t) => {
                // as serde's own collections do: trust the hint for up to 1 MiB worth of elements
                let cap = a.size_hint().unwrap_or(0).min(1 << 15);
                let mut v = Vec::with_capacity(cap);
                while let Some(x) = a.next_element_seed(Ds(t))? { v.push(x); }
                Ok(Val::Seq(v))
            }
            Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts) => Many(ts).visit_seq(a),
            _ => Err(de::Error::custom("visit_seq")),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        let vars = match self.0 { Ty::Enum(v) | Ty::Poly(_, v) => v, _ => return Err(de::Error::custom("visit_enum")) };
        let (i, acc) = a.variant_seed(Ix(vars.len()))?;
        let b = match &vars[i as usize] {
            Var::Unit => { acc.unit_variant()?; Val::Unit }
            Var::Newtype(t) => acc.newtype_variant_seed(Ds(t))?,
            Var::Tuple(ts) => acc.tuple_variant(ts.len(), Many(ts))?,
            Var::Struct(ts) => acc.struct_variant(&FIELDS[..ts.len()], Many(ts))?,
        };
        Ok(Val::Var(i, Box::new(b)))
    }
}
thread_local!(static CUR: RefCell<Ty> = RefCell::new(Ty::Unit));
/// a type whose shape is set at run time, for the functions that want `T: Deserialize`
#[derive(Debug, PartialEq)]
pub struct DynT(pub Val);
pub fn set_ty(t: &Ty) { CUR.with(|c| *c.borrow_mut() = t.clone()); }
impl<'de> Deserialize<'de> for DynT {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let t = CUR.with(|c| c.borrow().clone()); Ds(&t).deserialize(d).map(DynT) }
}

// ------------------------------------------------------------------ generators
#[derive(Clone, Copy, PartialEq)]
pub enum Mix { All, Ints, Scalars, Strings, Enums, Poly }
pub fn gen_ty(r: &mut Rng, m: Mix, depth: u32) -> Ty {
    let leaf = |r: &mut Rng| -> Ty {
        let ints = [Ty::I8, Ty::I16, Ty::I32, Ty::I64, Ty::U16, Ty::U32, Ty::U64, Ty::U8];
        let scal = [Ty::Unit, Ty::UnitStruct, Ty::Bool, Ty::F32, Ty::F64, Ty::Char, Ty::U8];
        let strs = [Ty::Str, Ty::BorrowedStr];
        match m {
            Mix::Ints => r.pick(&ints).clone(), Mix::Scalars => r.pick(&scal).clone(), Mix::Strings => r.pick(&strs).clone(),
            _ => match r.below(5) { 0 | 1 => r.pick(&ints).clone(), 2 => r.pick(&strs).clone(), _ => r.pick(&scal).clone() },
        }
    };
    if depth == 0 { return leaf(r); }
    let sub = |r: &mut Rng| gen_ty(r, m, depth - 1);
    fn many(r: &mut Rng, f: &dyn Fn(&mut Rng) -> Ty, lo: u64, hi: u64) -> Vec<Ty> { let n = lo + r.below(hi - lo + 1); (0..n).map(|_| f(r)).collect() }
    let var = |r: &mut Rng| -> Var { match r.below(4) { 0 => Var::Unit, 1 => Var::Newtype(sub(r)), 2 => Var::Tuple(many(r, &sub, 2, 4)), _ => Var::Struct(many(r, &sub, 1, 4)) } };
    let pick = match m { Mix::Enums => 7 + r.below(2), Mix::Poly => 9, _ => r.below(11) };
    match pick {
        0 => Ty::Opt(Box::new(sub(r))), 1 => Ty::Newtype(Box::new(sub(r))), 2 => Ty::Seq(Box::new(sub(r))),
        3 if r.one_in(9) => { let e = [Ty::U8, Ty::Bool, Ty::Str, Ty::I32]; let n = 1 + r.size(20, 400); Ty::Tuple((0..n).map(|_| r.pick(&e).clone()).collect()) } 3 => Ty::Tuple(many(r, &sub, 1, 5)), 4 => Ty::TupleStruct(many(r, &sub, 2, 4)), 5 | 6 => Ty::Struct(many(r, &sub, 1, 7)),
        7 | 8 => { let n = match r.below(12) { 0 => 256, 1 => 129, _ => 1 + r.size(6, 255) }; if n > 6 { Ty::Enum((0..n).map(|i| if i % 3 == 0 { Var::Newtype(Ty::I32) } else { Var::Unit }).collect()) } else { Ty::Enum((0..n).map(|_| var(r)).collect()) } }
        9 => { let l = r.below(LABELS.len() as u64) as usize; let n = 3 + r.below(4); Ty::Poly(l, (0..n).map(|_| var(r)).collect()) }
        _ => leaf(r),
    }
}
/// a long chain of containers around a leaf
pub fn gen_chain(r: &mut Rng, m: Mix) -> Ty {
    let mut t = gen_ty(r, m, 0);
    for _ in 0..r.size(40, 150) {
        t = match r.below(5) { 0 => Ty::Opt(Box::new(t)), 1 => Ty::Newtype(Box::new(t)), 2 => Ty::Seq(Box::new(t)), 3 => Ty::Tuple(vec![t, Ty::U8]), _ => Ty::Enum(vec![Var::Unit, Var::Newtype(t)]) };
    }
    t
}
/// zero-width elements make a list of any length fit into no bytes at all
pub fn min_width(t: &Ty) -> usize {
    match t {
        Ty::Newtype(t) => min_width(t), Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts) => ts.iter().map(min_width).sum(),
        Ty::F32 => 4, Ty::F64 => 8, Ty::Poly(..) => 4, _ => 1,
    }
}
pub fn gen_str(r: &mut Rng) -> String {
    if r.one_in(12) { if let Some(s) = r.dict_str() { return match r.below(3) { 0 => s.chars().rev().collect(), 1 => format!("{s}{}", r.below(10)), _ => s }; } }
    let n = match r.below(10) { 0 => 0, 1 => 126 + r.below(5), 2 => 1000 + r.below(10), 3 if r.one_in(8) => 65533 + r.below(6), _ => r.size(12, 1 << 20) };
    let ascii = r.bool();
    let mut s = String::new();
    while (s.len() as u64) < n {
        let c = if ascii { (r.below(128) as u8) as char } else { loop { let m = match r.below(3) { 0 => 0x100, 1 => 0x1_0000, _ => 0x11_0000 }; if let Some(c) = char::from_u32(r.below(m) as u32) { break c; } } };
        s.push(c);
    }
    // a run of one character at an end, or one character in the middle
    if r.one_in(8) {
        let c = r.dict_char();
        let k = 1 + if r.bool() { 0 } else { r.size(80, 1 << 14) as usize };
        let run: String = std::iter::repeat(c).take(k).collect();
        s = match r.below(4) { 0 => run + &s, 1 => s + &run, 2 => run, _ => { let m = s.char_indices().nth(s.chars().count() / 2).map_or(0, |x| x.0); format!("{}{}{}", &s[..m], c, &s[m..]) } };
    }
    s
}
pub fn gen_val(r: &mut Rng, t: &Ty, budget: &mut i64) -> Val {
    *budget -= 1;
    let many = |r: &mut Rng, ts: &[Ty], b: &mut i64| Val::Seq(ts.iter().map(|t| gen_val(r, t, b)).collect());
    match t {
        Ty::Unit | Ty::UnitStruct => Val::Unit, Ty::Bool => Val::Bool(r.bool()),
        Ty::I8 => Val::Int(r.edge_u64() as i8 as i128), Ty::I16 => Val::Int(r.edge_u64() as i16 as i128), Ty::I32 => Val::Int(r.edge_u64() as i32 as i128), Ty::I64 => Val::Int(r.edge_u64() as i64 as i128),
        Ty::U8 => Val::Int(r.edge_u64() as u8 as i128), Ty::U16 => Val::Int(r.edge_u64() as u16 as i128), Ty::U32 => Val::Int(r.edge_u64() as u32 as i128), Ty::U64 => Val::Int(r.edge_u64() as i128),
        Ty::F32 => Val::F32(match r.below(4) { 0 => 0x7fc0_0001, 1 => 0x8000_0000, _ => r.next() as u32 }), Ty::F64 => Val::F64(match r.below(4) { 0 => 0x7ff8_0000_0000_0001, 1 => 1 << 63, _ => r.next() }),
        Ty::Char => Val::Char((r.next() as u8) as char),
        Ty::Str | Ty::BorrowedStr => Val::Str(gen_str(r)),
        Ty::Opt(t) => if *budget < 0 || r.bool() { Val::None } else { Val::Some(Box::new(gen_val(r, t, budget))) },
        Ty::Newtype(t) => Val::New(Box::new(gen_val(r, t, budget))),
        Ty::Seq(t) => { let n = if *budget < 0 { 0 } else { match r.below(16) { 0 => 0, 1 => 127 + r.below(4), 2 if r.one_in(30) => 65534 + r.below(4), _ => r.size(5, 1 << 17) } };
            let n = if n > 5 && (matches!(**t, Ty::Seq(_) | Ty::Enum(_) | Ty::Poly(..) | Ty::Struct(_) | Ty::Tuple(_) | Ty::TupleStruct(_))) { if n <= 300 && *budget > 60 { n } else { n % 5 } } else { n };
            Val::Seq((0..n).map(|_| gen_val(r, t, budget)).collect()) }
        Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts) => many(r, ts, budget),
        Ty::Enum(vs) => { let i = r.below(vs.len() as u64) as usize; gen_variant(r, i, &vs[i], budget) }
        Ty::Poly(l, vs) => { let ok: Vec<usize> = (0..vs.len()).filter(|i| LABELS[*l][*i].is_ascii()).collect(); let i = *r.pick(&ok); gen_variant(r, i, &vs[i], budget) }
    }
}
fn gen_variant(r: &mut Rng, i: usize, v: &Var, b: &mut i64) -> Val {
    let x = match v { Var::Unit => Val::Unit, Var::Newtype(t) => gen_val(r, t, b), Var::Tuple(ts) | Var::Struct(ts) => Val::Seq(ts.iter().map(|t| gen_val(r, t, b)).collect()) };
    Val::Var(i as u32, Box::new(x))
}
