use crate::dynty::*;
use crate::g_prim::{En, Named};
use crate::harness::*;
use crate::io::*;
use crate::rng::Rng;
use bin_prot::{caml_hash_variant, from_reader, from_reader_strict, to_writer, ReadBinProtExt, WriteBinProtExt};
use serde::de::DeserializeSeed;
use serde::{Deserialize, Serialize};
macro_rules! want { ($c:expr, $($f:tt)*) => { if !$c { return Broken(format!($($f)*)) } } }

fn enc(t: &Ty, v: &Val) -> Result<Vec<u8>, String> { let mut o = vec![]; to_writer(&mut o, &Dv(t, v)).map_err(|e| format!("to_writer failed on {v:?}: {e:?}"))?; Ok(o) }
fn mk(r: &mut Rng, m: Mix, depth: u32) -> (Ty, Val, Vec<u8>) { let t = if m == Mix::All && r.one_in(25) { gen_chain(r, m) } else { gen_ty(r, m, depth) }; let v = gen_val(r, &t, &mut 120); let mut w = vec![]; refenc(&t, &v, &mut w); (t, v, w) }
fn depth(r: &mut Rng) -> u32 { 1 + r.below(4) as u32 }
fn cut(s: String) -> String { s.chars().take(160).collect() }

fn round_mix(r: &mut Rng, m: Mix) -> Out {
    let d = depth(r);
    let (t, v, w) = mk(r, m, d);
    let g = match enc(&t, &v) { Ok(g) => g, Err(e) => return Broken(e) };
    want!(g == w, "{v:?} of type {t:?} wrote {} expected {}", hex(&g), hex(&w));
    set_ty(&t);
    let b: Result<DynT, _> = from_reader_strict(&w[..]);
    want!(matches!(&b, Ok(DynT(x)) if *x == v), "{v:?} of type {t:?} encodes to {} which decodes to {b:?}", hex(&w));
    // the deserializer stops exactly at the end of the value
    let mut two = w.clone(); two.extend_from_slice(&w); two.push(0x77);
    let mut de = bin_prot::Deserializer::from_reader(&two[..]);
    for k in 0..2 { let b = Ds(&t).deserialize(&mut de); want!(matches!(&b, Ok(x) if *x == v), "value {k} of two concatenated {v:?} decodes to {b:?}"); }
    let b = Ds(&Ty::U8).deserialize(&mut de);
    want!(matches!(b, Ok(Val::Int(0x77))), "after two {t:?} the next byte reads as {b:?}");
    Held(w.len() > 1, cut(format!("{v:?}")))
}
pub fn round_all(_: u64, r: &mut Rng) -> Out { round_mix(r, Mix::All) }
pub fn round_enum(_: u64, r: &mut Rng) -> Out { round_mix(r, Mix::Enums) }
pub fn round_poly(_: u64, r: &mut Rng) -> Out { round_mix(r, Mix::Poly) }

fn mutate(r: &mut Rng, w: &[u8]) -> Vec<u8> {
    let mut b = w.to_vec();
    for _ in 0..1 + r.below(3) {
        let n = b.len() as u64;
        match r.below(6) {
            0 if n > 0 => { let i = r.below(n) as usize; b[i] = r.next() as u8; }
            1 if n > 0 => { let i = r.below(n) as usize; b.truncate(i); }
            2 => { let i = r.below(n + 1) as usize; b.insert(i, *r.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff])); }
            3 if n > 0 => { let i = r.below(n) as usize; b.remove(i); }
            4 if n > 0 => { let i = r.below(n) as usize; b[i] ^= 1 << r.below(8); }
            _ if n > 0 => { let i = r.below(n) as usize; b[i] = *r.pick(&[0u8, 1, 2, 3, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff]); }
            _ => {}
        }
    }
    b
}
fn has_zero_width_list(t: &Ty) -> bool {
    fn v(x: &Var) -> bool { match x { Var::Unit => false, Var::Newtype(t) => has_zero_width_list(t), Var::Tuple(ts) | Var::Struct(ts) => ts.iter().any(has_zero_width_list) } }
    match t { Ty::Seq(e) => min_width(e) == 0 || has_zero_width_list(e), Ty::Opt(t) | Ty::Newtype(t) => has_zero_width_list(t), Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts) => ts.iter().any(has_zero_width_list), Ty::Enum(vs) | Ty::Poly(_, vs) => vs.iter().any(v), _ => false }
}
/// malformed inputs: accepted exactly when the reference accepts, with the same value
pub fn mutated(_: u64, r: &mut Rng) -> Out {
    let d = depth(r);
    let (t, _, w) = mk(r, Mix::All, d);
    if has_zero_width_list(&t) || w.len() > 20000 { return Held(false, "skipped".into()); }
    set_ty(&t);
    for _ in 0..8 {
        let b = mutate(r, &w);
        let mut p = 0; let want = refdec(&t, &b, &mut p);
        let g: Result<DynT, _> = from_reader(&b[..]);
        want!(g.as_ref().ok().map(|x| &x.0) == want.as_ref(), "{} as {t:?} gives {g:?}, expected {want:?}", hex(&b));
    }
    Held(true, cut(format!("{t:?}")))
}
fn gen_en(r: &mut Rng, d: u32) -> En { match r.below(4) { 0 => En::A, 1 => En::B(r.edge_u64() as i64), 2 => En::C(r.next() as u8, gen_str(r)), _ => En::D { x: r.next() as f64, y: if d > 0 && r.bool() { Some(Box::new(gen_en(r, d - 1))) } else { None } } } }
fn en_bytes(e: &En, o: &mut Vec<u8>) {
    match e {
        En::A => o.push(0), En::B(n) => { o.push(1); ref_int(*n, o) }
        En::C(b, s) => { o.push(2); o.push(*b); ref_nat0(s.len() as u64, o); o.extend_from_slice(s.as_bytes()) }
        En::D { x, y } => { o.push(3); o.extend_from_slice(&x.to_le_bytes()); match y { None => o.push(0), Some(e) => { o.push(1); en_bytes(e, o) } } }
    }
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct NoFields {}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct NoItems();
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct JustUnit;
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct One(u8);
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
enum Bare { T(), S {}, U, N(()), M(NoItems), L(u8, NoFields, u8) }
/// shapes with nothing, or one thing, in them
fn empty_shapes() -> Result<(), String> {
    fn one<T: Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(v: T, w: &[u8]) -> Result<(), String> {
        let mut o = vec![]; let g = to_writer(&mut o, &v);
        if g.is_err() || o != w { return Err(format!("{v:?} wrote {} ({g:?}), expected {}", hex(&o), hex(w))) }
        let b: Result<T, _> = from_reader_strict(w);
        if !matches!(&b, Ok(x) if *x == v) { return Err(format!("{} decodes to {b:?}, expected {v:?}", hex(w))) }
        Ok(())
    }
    one(NoFields {}, &[])?; one(NoItems(), &[])?; one(JustUnit, &[0])?; one(One(9), &[9])?; one((), &[0])?; one((NoItems(), NoFields {}), &[])?; one((7u8,), &[7])?; one([1u8, 2, 3], &[1, 2, 3])?; one::<[u8; 0]>([], &[])?;
    one(vec![JustUnit, JustUnit], &[2, 0, 0])?; one(Some(NoItems()), &[1])?; one(None::<NoItems>, &[0])?; one(Some(None::<u8>), &[1, 0])?; one(Some(()), &[1, 0])?;
    one(Bare::T(), &[0])?; one(Bare::S {}, &[1])?; one(Bare::U, &[2])?; one(Bare::N(()), &[3, 0])?; one(Bare::M(NoItems()), &[4])?; one(Bare::L(1, NoFields {}, 2), &[5, 1, 2])?;
    one(Vec::<Vec<u8>>::new(), &[0])?; one(vec![Vec::<u8>::new(), vec![5]], &[2, 0, 1, 5])
}
/// the same through derived implementations
pub fn derived(i: u64, r: &mut Rng) -> Out {
    if i == 0 { if let Err(m) = empty_shapes() { return Broken(m) } }
    if i < 40 {
        // a sequence of a length its owner does not know beforehand
        struct Unk(Vec<u8>);
        impl Serialize for Unk { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { use serde::ser::SerializeSeq; let mut q = s.serialize_seq(None)?; for x in &self.0 { q.serialize_element(x)?; } q.end() } }
        let v: Vec<u8> = (0..i * 7 % 300).map(|_| r.next() as u8).collect();
        let mut w = vec![]; ref_nat0(v.len() as u64, &mut w); w.extend_from_slice(&v);
        let mut o = vec![]; let g = to_writer(&mut o, &Unk(v));
        want!(g.is_err() || o == w, "a sequence of {} bytes without announced length wrote {}", i * 7 % 300, hex(&o));
    }
    let n = Named { a: r.edge_u64() as i32, b: if r.bool() { Some(gen_str(r)) } else { None }, c: (0..r.size(6, 1 << 16)).map(|_| (r.next() as u8, r.bool())).collect(), d: gen_en(r, 3) };
    let mut w = vec![]; ref_int(n.a as i64, &mut w);
    match &n.b { None => w.push(0), Some(s) => { w.push(1); ref_nat0(s.len() as u64, &mut w); w.extend_from_slice(s.as_bytes()) } }
    ref_nat0(n.c.len() as u64, &mut w); for (a, b) in &n.c { w.push(*a); w.push(*b as u8) }
    en_bytes(&n.d, &mut w);
    let mut o = vec![];
    want!(to_writer(&mut o, &n).is_ok() && o == w, "{n:?} wrote {} expected {}", hex(&o), hex(&w));
    let b: Result<Named, _> = from_reader_strict(&w[..]);
    want!(matches!(&b, Ok(x) if *x == n), "{n:?} decodes to {b:?}");
    let mut o2 = vec![]; to_writer(&mut o2, &vec![n.clone(), n.clone()]).unwrap();
    want!(o2 == [&[2u8][..], &w[..], &w[..]].concat(), "a list of two wrote {}", hex(&o2));
    Held(true, cut(format!("{n:?}")))
}
/// enums of up to 256 variants use exactly the one index byte; larger indices are refused
pub fn big_enums(i: u64, r: &mut Rng) -> Out {
    let idx = if i < 300 { i as u32 } else { match r.below(3) { 0 => r.dict_num() as u32, 1 => r.edge_u64() as u32, _ => (r.next() as u32) & 0xff00_00ff } };
    struct Big(u32);
    impl Serialize for Big { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { match self.0 % 3 { 0 => s.serialize_unit_variant("E", self.0, vnames()[self.0.min(299) as usize]), 1 => s.serialize_newtype_variant("E", self.0, vnames()[self.0.min(299) as usize], &7u8), _ => { use serde::ser::SerializeTupleVariant; let mut q = s.serialize_tuple_variant("E", self.0, vnames()[self.0.min(299) as usize], 2)?; q.serialize_field(&7u8)?; q.serialize_field(&true)?; q.end() } } } }
    let mut o = vec![];
    let g = to_writer(&mut o, &Big(idx));
    if idx > 255 { want!(g.is_err(), "variant {idx} is written as {}", hex(&o)); return Held(true, format!("variant {idx} refused")); }
    let w: Vec<u8> = match idx % 3 { 0 => vec![idx as u8], 1 => vec![idx as u8, 7], _ => vec![idx as u8, 7, 1] };
    want!(g.is_ok() && o == w, "variant {idx} wrote {}", hex(&o));
    let t = Ty::Enum((0..256).map(|k| match k % 3 { 0 => Var::Unit, 1 => Var::Newtype(Ty::U8), _ => Var::Tuple(vec![Ty::U8, Ty::Bool]) }).collect());
    set_ty(&t);
    let b: Result<DynT, _> = from_reader_strict(&w[..]);
    want!(matches!(&b, Ok(DynT(Val::Var(k, _))) if *k == idx), "variant {idx} decodes to {b:?}");
    Held(true, format!("variant {idx}"))
}

// ---------------------------------------------------------------- C07 hostile
const ROOM: usize = 24 << 20;
fn hostile_one(t: &Ty, b: &[u8]) -> Result<(), String> {
    set_ty(t);
    let (g, peak) = peak_of(|| caught(|| { let _ = from_reader::<_, DynT>(b); let _ = from_reader_strict::<_, DynT>(b); }));
    if let Err(m) = g { return Err(format!("decoding {} as {t:?} panicked: {m}", hex(b))); }
    if peak > ROOM + 4000 * b.len() { return Err(format!("decoding {} ({} bytes) as {t:?} allocated {peak} bytes", hex(b), b.len())); }
    Ok(())
}
fn hostile_bytes(r: &mut Rng) -> Vec<u8> {
    let n = r.size(40, 3000);
    let mut b = vec![];
    for _ in 0..n { match r.below(5) { 0 => b.push(r.next() as u8), 1 => b.push(*r.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff])), 2 => { let v = r.edge_u64(); ref_nat0(v, &mut b) } 3 => b.push(r.below(4) as u8), _ => { let v = r.edge_u64() as i64; ref_int(v, &mut b) } } }
    b
}
pub fn hostile_random(_: u64, r: &mut Rng) -> Out {
    let d = depth(r);
    let t = gen_ty(r, Mix::All, d);
    if has_zero_width_list(&t) { return Held(false, "skipped".into()); }
    for _ in 0..6 { let b = hostile_bytes(r); if let Err(m) = hostile_one(&t, &b) { return Broken(m); } }
    Held(true, cut(format!("{t:?}")))
}
pub fn hostile_mutated(_: u64, r: &mut Rng) -> Out {
    let d = depth(r);
    let (t, _, w) = mk(r, Mix::All, d);
    if has_zero_width_list(&t) || w.len() > 5000 { return Held(false, "skipped".into()); }
    for _ in 0..6 { let b = mutate(r, &w); if let Err(m) = hostile_one(&t, &b) { return Broken(m); } }
    Held(true, cut(format!("{t:?}")))
}
/// a length prefix at every position where one occurs, claiming everything from nothing to 2^64-1
pub fn hostile_lengths(_: u64, r: &mut Rng) -> Out {
    let e = match r.below(4) { 0 => Ty::U8, 1 => Ty::I64, 2 => Ty::Str, _ => Ty::Seq(Box::new(Ty::U8)) };
    let t = match r.below(5) { 0 => Ty::Str, 1 => Ty::Seq(Box::new(e)), 2 => Ty::Opt(Box::new(Ty::Seq(Box::new(e)))), 3 => Ty::Tuple(vec![Ty::BorrowedStr, Ty::U8]), _ => Ty::Seq(Box::new(Ty::Tuple(vec![e, Ty::Str]))) };
    let claim = r.edge_u64();
    let mut b = vec![]; if matches!(t, Ty::Opt(_)) { b.push(1); }
    ref_nat0(claim, &mut b);
    b.extend(hostile_bytes(r));
    if let Err(m) = hostile_one(&t, &b) { return Broken(m); }
    // library entry points that do not go through a user type
    let (g, peak) = peak_of(|| caught(|| { let mut s = &b[..]; let _ = s.bin_read_string(); let mut s = &b[..]; let _ = s.bin_read_bytes(); let mut s = &b[..]; let _ = s.bin_read_nat0::<usize>(); let mut s = &b[..]; let _ = s.bin_read_integer::<i64>(); let mut s = &b[..]; let _ = s.bin_read_polyvar_tag();
        let _ = from_reader::<_, Vec<u8>>(&b[..]); let _ = from_reader::<_, Vec<String>>(&b[..]); let _ = from_reader::<_, Vec<Vec<u64>>>(&b[..]); let _ = from_reader::<_, Vec<Named>>(&b[..]); let _ = from_reader::<_, bin_prot::Value>(&b[..]); let _ = from_reader::<_, &str>(&b[..]); let _ = from_reader::<_, serde::de::IgnoredAny>(&b[..]);
        let _ = from_reader::<_, std::collections::BTreeMap<String, u8>>(&b[..]); let _ = from_reader::<_, std::collections::HashMap<String, Vec<u64>>>(&b[..]); }));
    want!(g.is_ok(), "reading {} panicked: {}", hex(&b), g.unwrap_err());
    want!(peak < ROOM + 4000 * b.len(), "reading {} allocated {peak} bytes", hex(&b));
    Held(true, format!("{t:?} claiming {claim}"))
}

// ---------------------------------------------------------------- C08
pub fn short_writes(_: u64, r: &mut Rng) -> Out {
    let d = depth(r);
    let (t, v, w) = mk(r, Mix::All, d);
    let mut s = Short::new(Rng(r.next()), *Rng(r.next()).pick(&[1u64, 2, 3, 5, 64])); s.interrupts = r.bool();
    let g = to_writer(&mut s, &Dv(&t, &v));
    want!(g.is_ok(), "writing {v:?} to a sink that accepts a few bytes at a time fails: {g:?}");
    want!(s.out == w, "writing {v:?} to a sink that accepts a few bytes at a time leaves {} not {}", hex(&s.out), hex(&w));
    // the primitives, one by one
    let n = r.edge_u64();
    macro_rules! prim { ($f:ident, $a:expr, $w:expr) => {{ let mut s = Short::new(Rng(r.next()), 1); let g = s.$f($a); want!(g.is_ok(), "{} fails on a one-byte sink", stringify!($f)); let w: Vec<u8> = $w; want!(s.out == w, "{} on a one-byte sink leaves {} not {}", stringify!($f), hex(&s.out), hex(&w)); }} }
    prim!(bin_write_integer, n as i64, { let mut o = vec![]; ref_int(n as i64, &mut o); o });
    prim!(bin_write_nat0, n, { let mut o = vec![]; ref_nat0(n, &mut o); o });
    prim!(bin_write_float64, &f64::from_bits(n), n.to_le_bytes().to_vec());
    prim!(bin_write_float32, &f32::from_bits(n as u32), (n as u32).to_le_bytes().to_vec());
    prim!(bin_write_polyvar_tag, n as u32 & 0x7fff_ffff, ((n as u32) << 1 | 1).to_le_bytes().to_vec());
    Held(w.len() > 1, cut(format!("{v:?}")))
}
pub fn frag_reads(_: u64, r: &mut Rng) -> Out {
    let d = depth(r);
    let (t, v, w) = mk(r, Mix::All, d);
    set_ty(&t);
    let mut f = Frag::new(&w, Rng(r.next()), *Rng(r.next()).pick(&[1u64, 2, 7, 100])); f.interrupts = true;
    let b: Result<DynT, _> = from_reader_strict(f);
    want!(matches!(&b, Ok(DynT(x)) if *x == v), "{v:?} from a fragmenting reader decodes to {b:?}");
    let n = r.edge_u64();
    macro_rules! prim { ($f:ident, $t:ty, $b:expr, $w:expr) => {{ let b: Vec<u8> = $b; let mut f = Frag::new(&b, Rng(r.next()), 1); f.interrupts = true; let g: Result<$t, _> = f.$f(); want!(matches!(&g, Ok(x) if *x == $w), "{} from a one-byte reader gives {g:?}", stringify!($f)); }} }
    prim!(bin_read_integer, i64, { let mut o = vec![]; ref_int(n as i64, &mut o); o }, n as i64);
    prim!(bin_read_nat0, u64, { let mut o = vec![]; ref_nat0(n, &mut o); o }, n);
    prim!(bin_read_polyvar_tag, u32, (((n as u32) & 0x7fff_ffff) << 1 | 1).to_le_bytes().to_vec(), n as u32 & 0x7fff_ffff);
    let s = gen_str(r);
    prim!(bin_read_string, String, { let mut o = vec![]; ref_nat0(s.len() as u64, &mut o); o.extend_from_slice(s.as_bytes()); o }, s);
    Held(w.len() > 1, cut(format!("{v:?}")))
}
pub fn failing_io(_: u64, r: &mut Rng) -> Out {
    let d = depth(r);
    let (t, v, w) = mk(r, Mix::All, d);
    if w.is_empty() { return Held(false, "empty".into()); }
    let at = r.below(w.len() as u64) as usize;
    let mut s = Short::new(Rng(r.next()), 9); s.fail_at = Some(at);
    let g = to_writer(&mut s, &Dv(&t, &v));
    want!(g.is_err(), "a sink that fails after {at} of {} bytes is not reported ({v:?})", w.len());
    want!(s.out == w[..at], "before the failure at {at} the sink received {} not {}", hex(&s.out), hex(&w[..at]));
    set_ty(&t);
    let mut f = Frag::new(&w, Rng(r.next()), 5); f.fail_at = Some(at);
    let b: Result<DynT, _> = from_reader(f);
    want!(b.is_err(), "a reader that fails after {at} of {} bytes is not reported: {b:?}", w.len());
    let b: Result<DynT, _> = from_reader(&w[..at]);
    want!(b.is_err(), "{at} of {} bytes of {v:?} decode to {b:?}", w.len());
    Held(true, format!("fails at {at} of {}", w.len()))
}

// ---------------------------------------------------------------- C09
pub fn strict(_: u64, r: &mut Rng) -> Out {
    let d = r.below(4) as u32;
    let (t, v, w) = mk(r, Mix::All, d);
    let extra = match r.below(6) { 0 | 1 => 0, 2 => 1, 3 => 8192 - 3 + r.below(6), 4 => 20000, _ => 1 + r.size(30, 1 << 20) } as usize;
    let mut b = w.clone(); for _ in 0..extra { b.push(r.next() as u8); }
    set_ty(&t);
    let mode = r.below(4);
    let frag = |data, seed, max| { let mut f = Frag::new(data, Rng(seed), max); f.interrupts = true; f };
    let seed = r.next();
    let g: Result<DynT, _> = match mode { 0 => from_reader_strict(&b[..]), 1 => from_reader_strict(frag(&b, seed, 1)), 2 => from_reader_strict(frag(&b, seed, 1 + w.len() as u64)), _ => from_reader_strict(Exact { a: &w, b: &b[w.len()..], st: 0 }) };
    if extra == 0 { want!(matches!(&g, Ok(DynT(x)) if *x == v), "strict decoding of exactly {v:?} gives {g:?} (reader {mode})"); }
    else { want!(g.is_err(), "{extra} trailing bytes after {v:?} are not noticed (reader {mode})"); }
    let g: Result<DynT, _> = from_reader(&b[..]);
    want!(matches!(&g, Ok(DynT(x)) if *x == v), "non-strict decoding with {extra} trailing bytes gives {g:?}");
    // an IO error while looking for the end is an error, never a success
    let mut f = Frag::new(&b, Rng(seed), 3); f.fail_at = Some(w.len());
    let g: Result<DynT, _> = from_reader_strict(f);
    want!(g.is_err(), "a reader failing right after the value is taken for the end of input");
    Held(extra > 0, format!("{extra} trailing bytes, reader {mode}, {}", cut(format!("{v:?}"))))
}
/// hands out the value in one read and the rest in the next ones
struct Exact<'a> { a: &'a [u8], b: &'a [u8], st: usize }
impl<'a> std::io::Read for Exact<'a> {
    fn read(&mut self, o: &mut [u8]) -> std::io::Result<usize> {
        let s = if self.st == 0 && !self.a.is_empty() { &mut self.a } else { self.st = 1; &mut self.b };
        let n = s.len().min(o.len()); o[..n].copy_from_slice(&s[..n]); *s = &s[n..];
        if self.a.is_empty() { self.st = 1; }
        Ok(n)
    }
}

// ---------------------------------------------------------------- C10
const ALPHA: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_'";
pub fn hash_labels(i: u64, r: &mut Rng) -> Out {
    // all labels of one and two characters first, then random ones whose hash stays below 2^31 on the way
    let s: String = if i < 64 { (ALPHA[i as usize] as char).to_string() } else if i < 64 + 64 * 64 { let k = i - 64; [ALPHA[(k / 64) as usize], ALPHA[(k % 64) as usize]].iter().map(|b| *b as char).collect() } else { (0..1 + r.below(4)).map(|_| if r.bool() { *r.pick(ALPHA) as char } else { r.below(128) as u8 as char }).collect() };
    let h = caml_hash_variant(&s);
    want!(h == ocaml_hash(&s), "caml_hash_variant({s:?}) = {h}, the OCaml runtime gives {}", ocaml_hash(&s));
    let mut o = vec![];
    let k = o.bin_write_polyvar_tag(h);
    want!(matches!(k, Ok(4)) && o == (h << 1 | 1).to_le_bytes(), "tag of {s:?} written as {}", hex(&o));
    let mut q = &o[..]; let g = q.bin_read_polyvar_tag(); want!(matches!(g, Ok(x) if x == h) && q.is_empty(), "tag of {s:?} reads back as {g:?}");
    Held(true, format!("{s:?} {h}"))
}
pub fn tags(_: u64, r: &mut Rng) -> Out {
    let h = match r.below(3) { 0 => r.below(1 << 31), 1 => if r.bool() { r.below(300) } else { r.dict_num() & 0x7fff_ffff }, _ => (1u64 << r.below(32)).wrapping_sub(1 + r.below(3)) & 0x7fff_ffff } as u32;
    let mut o = vec![]; let k = o.bin_write_polyvar_tag(h);
    want!(matches!(k, Ok(4)) && o == (h << 1 | 1).to_le_bytes(), "tag {h} written as {}", hex(&o));
    let mut q = &o[..]; let g = q.bin_read_polyvar_tag(); want!(matches!(g, Ok(x) if x == h) && q.is_empty(), "tag {h} reads back as {g:?}");
    for n in 0..4 { let mut q = &o[..n]; want!(q.bin_read_polyvar_tag().is_err(), "{n} bytes read as a tag"); }
    Held(true, format!("{h}"))
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(rename = "Polyvar")]
pub enum Pv { One, Two(i32), Abc(u8, String), #[serde(rename = "\u{e9}")] Odd, Z { a: bool, b: Option<u16> }, Last(Box<Pv>) }
fn gen_pv(r: &mut Rng, d: u32) -> Pv { match r.below(if d > 0 { 5 } else { 4 }) { 0 => Pv::One, 1 => Pv::Two(r.edge_u64() as i32), 2 => Pv::Abc(r.next() as u8, gen_str(r)), 3 => Pv::Z { a: r.bool(), b: if r.bool() { Some(r.next() as u16) } else { None } }, _ => Pv::Last(Box::new(gen_pv(r, d - 1))) } }
fn pv_bytes(p: &Pv, o: &mut Vec<u8>) {
    let tag = |s: &str, o: &mut Vec<u8>| o.extend_from_slice(&(ocaml_hash(s) << 1 | 1).to_le_bytes());
    match p {
        Pv::One => tag("One", o), Pv::Two(n) => { tag("Two", o); ref_int(*n as i64, o) }
        Pv::Abc(a, s) => { tag("Abc", o); o.push(*a); ref_nat0(s.len() as u64, o); o.extend_from_slice(s.as_bytes()) }
        Pv::Odd => unreachable!(),
        Pv::Z { a, b } => { tag("Z", o); o.push(*a as u8); match b { None => o.push(0), Some(x) => { o.push(1); ref_int(*x as i64, o) } } }
        Pv::Last(p) => { tag("Last", o); pv_bytes(p, o) }
    }
}
pub fn poly_derived(_: u64, r: &mut Rng) -> Out {
    let p = gen_pv(r, 3);
    let mut w = vec![]; pv_bytes(&p, &mut w);
    let mut o = vec![];
    let g = to_writer(&mut o, &p);
    want!(g.is_ok() && o == w, "{p:?} wrote {} expected {}", hex(&o), hex(&w));
    let b: Result<Pv, _> = from_reader_strict(&w[..]);
    want!(matches!(&b, Ok(x) if *x == p), "{p:?} decodes to {b:?}");
    // a tag that names no variant is an error
    let bad = r.next() as u32;
    let known = ["One", "Two", "Abc", "Z", "Last"].iter().any(|s| ocaml_hash(s) == bad >> 1);
    if !known { let mut b = bad.to_le_bytes().to_vec(); b.extend_from_slice(&w); let g: Result<Pv, _> = from_reader(&b[..]); want!(g.is_err(), "unknown tag {bad:#x} decodes to {g:?}"); }
    Held(true, cut(format!("{p:?}")))
}
pub fn poly_many(i: u64, r: &mut Rng) -> Out {
    let i = if i < 300 { i } else { r.below(300) } as usize; let n = r.edge_u64() as u16;
    let (l, v) = crate::many::many(i, n);
    let mut w = (ocaml_hash(l) << 1 | 1).to_le_bytes().to_vec();
    match i % 3 { 0 => {} 1 => ref_int(n as i64, &mut w), _ => w.extend_from_slice(&[(n % 2) as u8, n as u8]) }
    let mut o = vec![]; let g = to_writer(&mut o, &v);
    want!(g.is_ok() && o == w, "{v:?} wrote {} expected {}", hex(&o), hex(&w));
    let b: Result<crate::many::Many, _> = from_reader_strict(&w[..]);
    want!(matches!(&b, Ok(x) if *x == v), "{v:?}, variant {i} of 300, decodes to {b:?}");
    Held(true, format!("{v:?}"))
}
pub fn poly_unknown(_: u64, r: &mut Rng) -> Out {
    let l = r.below(LABELS.len() as u64) as usize;
    let t = Ty::Poly(l, vec![Var::Unit; 6]);
    set_ty(&t);
    let h = if r.bool() { ocaml_hash(LABELS[r.below(LABELS.len() as u64) as usize][r.below(6) as usize]) } else { r.next() as u32 >> 1 };
    let raw = h << 1 | 1;
    let mut p = 0; let w = refdec(&t, &raw.to_le_bytes(), &mut p);
    let g: Result<DynT, _> = from_reader_strict(&raw.to_le_bytes()[..]);
    want!(g.as_ref().ok().map(|x| &x.0) == w.as_ref(), "tag {raw:#x} among {:?} gives {g:?}, expected {w:?}", LABELS[l]);
    Held(w.is_some(), format!("{raw:#x} among {:?}", LABELS[l]))
}
