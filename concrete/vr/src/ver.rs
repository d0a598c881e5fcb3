use crate::harness::{hex, Broken, Held, Out};
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use versioned::Versioned;
type Ver1<T, const A: u16> = Versioned<T, A>;
type Ver2<T, const A: u16, const B: u16> = Versioned<Versioned<T, A>, B>;
type Ver3<T, const A: u16, const B: u16, const C: u16> = Versioned<Versioned<Versioned<T, A>, B>, C>;
type Ver4<T, const A: u16, const B: u16, const C: u16, const D: u16> = Versioned<Versioned<Versioned<Versioned<T, A>, B>, C>, D>;
macro_rules! need { ($c:expr, $($t:tt)*) => { if !$c { return Broken(format!($($t)*)) } } }
fn wrap_t<T: Clone + PartialEq + std::fmt::Debug + Default, const A: u16, const B: u16, const C: u16, const D: u16>(t: T) -> Out {
    let n = Ver1::<T, A>::new(t.clone());
    need!(n.version == A && n.version() == A && n.t == t && n.clone().inner() == t, "new::<{A}>({t:?}) gives {n:?}");
    let d = Ver1::<T, A>::default();
    need!(d.version == A && d.t == T::default(), "default::<{A}> gives {d:?}");
    let d2 = Ver2::<T, A, B>::default();
    need!(d2.version == B && d2.t.version == A && d2.t.t == T::default(), "default of two levels gives {d2:?}");
    let a: Ver1<T, A> = t.clone().into();
    need!(a.version == A && a.t == t, "from::<{A}>({t:?}) gives {a:?}");
    let b: Ver2<T, A, B> = t.clone().into();
    need!(b.version == B && b.t.version == A && b.t.t == t, "two levels <{A},{B}> of {t:?}: {b:?}");
    let c: Ver3<T, A, B, C> = t.clone().into();
    need!(c.version == C && c.t.version == B && c.t.t.version == A && c.t.t.t == t, "three levels <{A},{B},{C}> of {t:?}: {c:?}");
    let e: Ver4<T, A, B, C, D> = t.clone().into();
    need!(e.version == D && e.t.version == C && e.t.t.version == B && e.t.t.t.version == A && e.t.t.t.t == t, "four levels <{A},{B},{C},{D}> of {t:?}: {e:?}");
    let (x,): (T,) = a.into(); need!(x == t, "unwrapping one level of {t:?} gives {x:?}");
    let (x,): (T,) = b.into(); need!(x == t, "unwrapping two levels of {t:?} gives {x:?}");
    let (x,): (T,) = c.into(); need!(x == t, "unwrapping three levels of {t:?} gives {x:?}");
    let (x,): (T,) = e.into(); need!(x == t, "unwrapping four levels of {t:?} gives {x:?}");
    // a wrapper read from elsewhere keeps what it says
    let o = Ver1::<T, A> { version: B, t: t.clone() };
    need!(o.version() == B && o.clone() == o && (o == Ver1::<T, A>::new(t.clone())) == (A == B), "a wrapper of version {B} is taken for one of version {A}");
    Held(true, format!("{t:?} <{A},{B},{C},{D}>"))
}
macro_rules! some_versions { ($i:expr, $f:ident, $t:expr) => { match $i % 8 {
    0 => $f::<_, 1, 1, 1, 1>($t), 1 => $f::<_, 1, 2, 3, 4>($t), 2 => $f::<_, 0, 127, 128, 255>($t), 3 => $f::<_, 256, 65535, 32767, 32768>($t),
    4 => $f::<_, 65535, 0, 1, 65534>($t), 5 => $f::<_, 4, 3, 2, 1>($t), 6 => $f::<_, 200, 129, 126, 2>($t), _ => $f::<_, 7, 0, 7, 0>($t) } } }
pub fn wrap(i: u64, r: &mut Rng) -> Out {
    match i % 4 {
        0 => some_versions!(i / 4, wrap_t, r.edge_u64()),
        1 => some_versions!(i / 4, wrap_t, r.next().to_string()),
        2 => some_versions!(i / 4, wrap_t, (0..r.below(4)).map(|_| r.next() as i32).collect::<Vec<i32>>()),
        _ => some_versions!(i / 4, wrap_t, if r.bool() { Some((r.bool(), r.next() as u16)) } else { None }),
    }
}
fn enc(v: i128, o: &mut Vec<u8>) {
    if (0..128).contains(&v) { o.push(v as u8) }
    else if (-128..0).contains(&v) { o.push(0xff); o.push(v as i8 as u8) }
    else if (-32768..32768).contains(&v) { o.push(0xfe); o.extend((v as i16).to_le_bytes()) }
    else if (-(1i128 << 31)..1 << 31).contains(&v) { o.push(0xfd); o.extend((v as i32).to_le_bytes()) }
    else { o.push(0xfc); o.extend((v as i64).to_le_bytes()) }
}
fn enc_t<T: Clone + PartialEq + std::fmt::Debug + Serialize + for<'d> Deserialize<'d>, const A: u16, const B: u16, const C: u16, const D: u16>(p: (T, Vec<u8>, Vec<u8>)) -> Out {
    let (t, body, tail) = p;
    let e: Ver3<T, A, B, C> = t.clone().into();
    let mut want = vec![];
    for v in [C, B, A] { enc(v as i128, &mut want); }
    want.extend(&body);
    let mut got = vec![];
    if let Err(x) = bin_prot::to_writer(&mut got, &e) { return Broken(format!("encoding {e:?}: {x}")) }
    need!(got == want, "{e:?} is written {} and not {}", hex(&got), hex(&want));
    // decoding keeps the versions that were read, whatever the type says
    let mut input = vec![];
    for v in [D, C, B] { enc(v as i128, &mut input); }
    input.extend(&body); let n = input.len(); input.extend(&tail);
    let mut s = &input[..n];
    match bin_prot::from_reader_strict::<_, Ver3<T, A, B, C>>(&mut s) {
        Ok(v) => need!(v.version == D && v.t.version == C && v.t.t.version == B && v.t.t.t == t, "{} is read as {v:?}", hex(&input)),
        Err(x) => return Broken(format!("{} is not read: {x}", hex(&input[..n]))),
    }
    for cut in 0..n {
        need!(bin_prot::from_reader::<_, Ver3<T, A, B, C>>(&input[..cut]).is_err(), "{} is read although it is incomplete", hex(&input[..cut]));
    }
    Held(true, format!("{e:?}"))
}
pub fn encode(i: u64, r: &mut Rng) -> Out {
    let tail = (0..r.below(4)).map(|_| r.next() as u8).collect::<Vec<u8>>();
    match i % 3 {
        0 => { let v = r.edge_u64() as i64; let mut b = vec![]; enc(v as i128, &mut b); some_versions!(i / 3, enc_t, (v, b, tail)) }
        1 => { let s: String = (0..r.below(20)).map(|_| (b'a' + r.below(26) as u8) as char).collect(); let mut b = vec![s.len() as u8]; b.extend(s.as_bytes()); some_versions!(i / 3, enc_t, (s, b, tail)) }
        _ => { let v = if r.bool() { Some(r.bool()) } else { None }; let b = match v { None => vec![0], Some(x) => vec![1, x as u8] }; some_versions!(i / 3, enc_t, (v, b, tail)) }
    }
}
// ---- the conversion macros
#[derive(Debug, Clone, PartialEq)] struct P(u64);
versioned::impl_from_versioned!(P);
#[derive(Debug, Clone, PartialEq)] struct N(u64);
type NV = Versioned<u64, 11>;
versioned::impl_from_for_newtype!(N, NV);
#[derive(Debug, Clone, PartialEq)] struct N2(u64);
type NV2 = Versioned<Versioned<u64, 11>, 12>;
versioned::impl_from_for_newtype!(N2, NV2);
// original <-> proxy <-> json, the proxy marks what went through it
#[derive(Debug, Clone, PartialEq)] struct Orig(u64);
#[derive(Debug, Clone, PartialEq)] struct Json(u64);
#[derive(Debug, Clone, PartialEq)] struct Px(u64);
impl From<Orig> for Px { fn from(v: Orig) -> Px { Px(v.0 ^ 0xff) } }
impl From<Px> for Orig { fn from(v: Px) -> Orig { Orig(v.0 ^ 0xff) } }
impl From<Json> for Px { fn from(v: Json) -> Px { Px(v.0.rotate_left(8)) } }
impl From<Px> for Json { fn from(v: Px) -> Json { Json(v.0.rotate_right(8)) } }
versioned::impl_from_with_proxy!(Orig, Px, Json);
#[derive(Debug, Clone, PartialEq)] struct Orig2(u64);
impl From<Orig2> for Px { fn from(v: Orig2) -> Px { Px(v.0 ^ 0xf0) } }
impl From<Px> for Orig2 { fn from(v: Px) -> Orig2 { Orig2(v.0 ^ 0xf0) } }
type PxV = Versioned<Versioned<Px, 21>, 22>;
versioned::impl_from_for_versioned_with_proxy!(Orig2, Px, PxV);
#[derive(Debug, Clone, PartialEq)] struct Orig3(u64);
impl From<Orig3> for Px { fn from(v: Orig3) -> Px { Px(v.0 ^ 0x0f) } }
impl From<Px> for Orig3 { fn from(v: Px) -> Orig3 { Orig3(v.0 ^ 0x0f) } }
#[derive(Debug, Clone, PartialEq)] struct Gen<T>(T);
impl From<Px> for Gen<Px> { fn from(v: Px) -> Gen<Px> { Gen(v) } }
impl From<Gen<Px>> for (Px,) { fn from(v: Gen<Px>) -> (Px,) { (v.0,) } }
type GenPx = Gen<Px>;
versioned::impl_from_for_generic_with_proxy!(Orig3, Px, GenPx);
pub fn macros(_: u64, r: &mut Rng) -> Out {
    let v = r.next();
    need!(P::from(Versioned::<P, 3>::new(P(v))) == P(v), "impl_from_versioned, one level, {v}");
    need!(P::from(Versioned::<Versioned<P, 3>, 4>::new(Versioned::new(P(v)))) == P(v), "impl_from_versioned, two levels, {v}");
    let w: NV = N(v).into();
    need!(w.version == 11 && w.t == v && N::from(w.clone()) == N(v), "impl_from_for_newtype: {v} becomes {w:?}");
    let w: NV2 = N2(v).into();
    need!(w.version == 12 && w.t.version == 11 && w.t.t == v && N2::from(w.clone()) == N2(v), "impl_from_for_newtype, two levels: {v} becomes {w:?}");
    let j: Json = Orig(v).into();
    need!(j == Json((v ^ 0xff).rotate_right(8)) && Orig::from(j.clone()) == Orig(v), "impl_from_with_proxy: {v} becomes {j:?}");
    let w: PxV = Orig2(v).into();
    need!(w.version == 22 && w.t.version == 21 && w.t.t == Px(v ^ 0xf0) && Orig2::from(w.clone()) == Orig2(v), "impl_from_for_versioned_with_proxy: {v} becomes {w:?}");
    let g: GenPx = Orig3(v).into();
    need!(g == Gen(Px(v ^ 0x0f)) && Orig3::from(g.clone()) == Orig3(v), "impl_from_for_generic_with_proxy: {v} becomes {g:?}");
    Held(true, format!("{v}"))
}
