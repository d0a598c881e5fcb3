use crate::dynty::*;
use crate::harness::*;
use crate::rng::Rng;
use bin_prot::{from_reader, from_reader_strict, to_writer, ReadBinProtExt, WriteBinProtExt};
use serde::{Deserialize, Serialize};

fn enc<T: Serialize>(v: &T) -> Result<Vec<u8>, String> { let mut o = vec![]; to_writer(&mut o, v).map_err(|e| format!("to_writer failed: {e:?}"))?; Ok(o) }
macro_rules! tri { ($e:expr) => { match $e { Ok(x) => x, Err(m) => return Broken(m) } } }
macro_rules! want { ($c:expr, $($f:tt)*) => { if !$c { return Broken(format!($($f)*)) } } }

fn one_int_enc(n: i64) -> Result<(), String> {
    let mut want = vec![];
    ref_int(n, &mut want);
    let chk = |got: Vec<u8>, how: &str| if got != want { Err(format!("{how}({n}) wrote {} but the canonical encoding is {}", hex(&got), hex(&want))) } else { Ok(()) };
    let mut o = vec![];
    let k = o.bin_write_integer(n).map_err(|e| e.to_string())?;
    if k != o.len() { return Err(format!("bin_write_integer({n}) reported {k} bytes but wrote {}", o.len())); }
    chk(o, "bin_write_integer")?;
    chk(enc(&n)?, "i64")?;
    if let Ok(x) = i8::try_from(n) { chk(enc(&x)?, "i8")?; }
    if let Ok(x) = i16::try_from(n) { chk(enc(&x)?, "i16")?; let mut o = vec![]; o.bin_write_integer(x).unwrap(); chk(o, "bin_write_integer::<i16>")?; }
    if let Ok(x) = i32::try_from(n) { chk(enc(&x)?, "i32")?; let mut o = vec![]; o.bin_write_integer(x).unwrap(); chk(o, "bin_write_integer::<i32>")?; }
    if let Ok(x) = u8::try_from(n) { let mut o = vec![]; o.bin_write_integer(x).unwrap(); chk(o, "bin_write_integer::<u8>")?; }
    if let Ok(x) = u16::try_from(n) { chk(enc(&x)?, "u16")?; }
    if let Ok(x) = u32::try_from(n) { chk(enc(&x)?, "u32")?; }
    chk(enc(&(n as u64))?, "u64 of the same 64 bits")?;
    #[derive(Serialize)] struct W(#[serde(with = "W8")] i64);
    #[allow(non_snake_case)] mod W8 { pub fn serialize<S: serde::Serializer>(n: &i64, s: S) -> Result<S::Ok, S::Error> { bin_prot::integers::integer::serialize(n, s) } }
    chk(enc(&W(n))?, "integers::integer::serialize")?;
    // prefix-free, so also correct when embedded
    let mut w2 = want.clone(); ref_int(n, &mut w2);
    let two = enc(&(n, n))?;
    if two != w2 { return Err(format!("({n},{n}) wrote {}", hex(&two))); }
    Ok(())
}
pub fn int_enc_exh(i: u64, _r: &mut Rng) -> Out {
    // every i16-sized value, 256 a case, plus the neighbourhood of every power of two
    let base = -40960 + (i as i64) * 256;
    if base > 40960 {
        let k = (base as u64 / 256) % 64;
        for d in -130..130i64 { for s in [1i64, -1] { let n = (1i64.wrapping_shl(k as u32)).wrapping_mul(s).wrapping_add(d); tri!(one_int_enc(n)); } }
        return Held(true, format!("integers within 130 of +-2^{k}"));
    }
    for n in base..base + 256 { tri!(one_int_enc(n)); }
    Held(true, format!("integers {base}..{}", base + 256))
}
pub fn int_enc_rnd(_: u64, r: &mut Rng) -> Out { let n = r.edge_u64() as i64; tri!(one_int_enc(n)); Held(true, format!("{n}")) }

fn dec_all(bytes: &[u8]) -> Result<(), String> {
    let mut p = 0;
    let full = refdec(&Ty::I64, bytes, &mut p);
    let used = p;
    macro_rules! one { ($t:ty, $ty:expr) => {{
        let mut q = 0;
        let want = refdec(&$ty, bytes, &mut q);
        let mut s = bytes;
        let got = s.bin_read_integer::<$t>();
        if stringify!($t) != "u8" && stringify!($t) != "u64" {
            match (&want, &got) {
                (Some(Val::Int(w)), Ok(g)) if *w == *g as i128 => { if bytes.len() - s.len() != q { return Err(format!("bin_read_integer::<{}>({}) consumed {} bytes, not {q}", stringify!($t), hex(bytes), bytes.len() - s.len())); } }
                (None, Err(_)) => {}
                _ => return Err(format!("bin_read_integer::<{}>({}) gave {got:?}, expected {want:?}", stringify!($t), hex(bytes))),
            }
        }
        let got: Result<$t, _> = from_reader(bytes);
        match (&want, &got) {
            (Some(Val::Int(w)), Ok(g)) if *w == *g as i128 => {}
            (None, Err(_)) => {}
            _ => return Err(format!("from_reader::<{}>({}) gave {got:?}, expected {want:?}", stringify!($t), hex(bytes))),
        }
        // consumption is visible to whatever follows
        if let Some(Val::Int(w)) = want { let mut b2 = bytes[..q].to_vec(); b2.push(0xa5);
            let got: Result<($t, u8), _> = from_reader_strict(&b2[..]);
            match &got { Ok((g, 0xa5)) if *g as i128 == w => {}, _ => return Err(format!("from_reader_strict::<({}, u8)>({}) gave {got:?}", stringify!($t), hex(&b2))) } }
    }} }
    one!(i8, Ty::I8); one!(i16, Ty::I16); one!(i32, Ty::I32); one!(i64, Ty::I64);
    one!(u16, Ty::U16); one!(u32, Ty::U32); one!(u64, Ty::U64); one!(u8, Ty::U8);
    // u8 and u64 through the extension trait: checked conversion of the signed value
    let mut s = bytes;
    let got = s.bin_read_integer::<u8>();
    let w = match &full { Some(Val::Int(n)) => u8::try_from(*n).ok(), _ => None };
    if got.as_ref().ok() != w.as_ref() { return Err(format!("bin_read_integer::<u8>({}) gave {got:?}, expected {w:?}", hex(bytes))); }
    let mut s = bytes;
    let got = s.bin_read_integer::<u64>();
    let w = match &full { Some(Val::Int(n)) => u64::try_from(*n).ok(), _ => None };
    if got.as_ref().ok() != w.as_ref() { return Err(format!("bin_read_integer::<u64>({}) gave {got:?}, expected {w:?}", hex(bytes))); }
    let _ = used;
    // #[serde(with = "integer")] behind any front end that has bytes to offer
    macro_rules! with { ($($t:ty),*) => { $( {
        let d: serde::de::value::BytesDeserializer<serde::de::value::Error> = serde::de::value::BytesDeserializer::new(bytes);
        let got: Result<$t, _> = bin_prot::integers::integer::deserialize(d);
        let w = match &full { Some(Val::Int(n)) => <$t>::try_from(*n).ok(), _ => None };
        if got.as_ref().ok() != w.as_ref() { return Err(format!("integers::integer::deserialize::<{}>({}) gave {got:?}, expected {w:?}", stringify!($t), hex(bytes))); }
    } )* } }
    with!(i8, i16, i32, i64, u8, u16, u32, u64);
    Ok(())
}
fn lead_payload(i: u64, r: &mut Rng) -> Vec<u8> {
    let lead = (i % 256) as u8;
    let mut b = vec![lead];
    let n = match r.below(6) { 0 => r.below(10), _ => 12 };
    let v = r.edge_u64();
    b.extend_from_slice(&v.to_le_bytes());
    while (b.len() as u64) < n + 1 { b.push(r.next() as u8); }
    b.truncate(n as usize + 1);
    b
}
pub fn int_dec_lead(i: u64, r: &mut Rng) -> Out { let b = lead_payload(i, r); tri!(dec_all(&b)); Held(true, hex(&b)) }
pub fn int_dec_exh16(i: u64, _: &mut Rng) -> Out {
    // all one and two byte inputs, then all 16 bit payloads of 0xfe
    if i < 256 { for x in 0..256u64 { tri!(dec_all(&[i as u8, x as u8])); } tri!(dec_all(&[i as u8])); return Held(true, format!("all inputs starting {i:02x} of length <= 2")); }
    for x in 0..256u64 { tri!(dec_all(&[0xfe, (i & 255) as u8, x as u8])); }
    Held(true, format!("fe {:02x} **", i & 255))
}
pub fn int_round(_: u64, r: &mut Rng) -> Out {
    let n = r.edge_u64();
    macro_rules! rt { ($($t:ty),*) => { $( { let v = n as $t; let b = tri!(enc(&v)); let g: Result<$t, _> = from_reader_strict(&b[..]); match &g { Ok(x) if *x == v => {}, _ => return Broken(format!("{} {v} encodes to {} which decodes to {g:?}", stringify!($t), hex(&b))) } } )* } }
    rt!(i8, i16, i32, i64, u8, u16, u32, u64);
    Held(true, format!("{n:#x} through every integer type"))
}

// ---------------------------------------------------------------- nat0
fn one_nat0(n: u64) -> Result<(), String> {
    let mut want = vec![];
    ref_nat0(n, &mut want);
    let mut o = vec![];
    let k = o.bin_write_nat0(n).map_err(|e| e.to_string())?;
    if o != want { return Err(format!("bin_write_nat0({n}) wrote {} expected {}", hex(&o), hex(&want))); }
    if k != o.len() { return Err(format!("bin_write_nat0({n}) reported {k} bytes but wrote {}", o.len())); }
    let mut s = &o[..];
    match s.bin_read_nat0::<u64>() { Ok(m) if m == n && s.is_empty() => {}, e => return Err(format!("bin_read_nat0({}) gave {e:?} leaving {}", hex(&o), s.len())) }
    #[derive(Serialize)] struct W(#[serde(serialize_with = "bin_prot::integers::nat0::serialize")] u64);
    let g = enc(&W(n))?;
    if g != want { return Err(format!("integers::nat0::serialize({n}) wrote {}", hex(&g))); }
    macro_rules! narrow { ($($t:ty),*) => { $( { let mut s = &o[..]; let g = s.bin_read_nat0::<$t>(); let w = <$t>::try_from(n).ok(); if g.as_ref().ok() != w.as_ref() { return Err(format!("bin_read_nat0::<{}>({}) gave {g:?}, expected {w:?}", stringify!($t), hex(&o))); } if let Some(w) = w { if stringify!($t) != "usize" { narrow_write(w as u64, &o)?; } } } )* } }
    narrow!(u8, u16, u32, u64, usize);
    Ok(())
}
fn narrow_write(n: u64, want: &[u8]) -> Result<(), String> {
    let mut a: Vec<Vec<u8>> = vec![];
    if let Ok(x) = u8::try_from(n) { let mut o = vec![]; o.bin_write_nat0(x).unwrap(); a.push(o); }
    if let Ok(x) = u16::try_from(n) { let mut o = vec![]; o.bin_write_nat0(x).unwrap(); a.push(o); }
    if let Ok(x) = u32::try_from(n) { let mut o = vec![]; o.bin_write_nat0(x).unwrap(); a.push(o); }
    for o in a { if o != want { return Err(format!("bin_write_nat0({n}) of a narrower type wrote {} not {}", hex(&o), hex(want))); } }
    Ok(())
}
pub fn nat0_exh(i: u64, _: &mut Rng) -> Out {
    let b = i * 256;
    if b > 70000 { let k = i % 64; for d in 0..260u64 { tri!(one_nat0((1u64 << k).wrapping_add(d).wrapping_sub(130))); } return Held(true, format!("sizes within 130 of 2^{k}")); }
    for n in b..b + 256 { tri!(one_nat0(n)); }
    Held(true, format!("sizes {b}..{}", b + 256))
}
pub fn nat0_rnd(_: u64, r: &mut Rng) -> Out { let n = r.edge_u64(); tri!(one_nat0(n)); Held(true, format!("{n}")) }
pub fn nat0_dec(i: u64, r: &mut Rng) -> Out {
    let b = lead_payload(i, r);
    // reference via an empty-element list: refdec of a string gives the same prefix
    let mut s = &b[..];
    let got = s.bin_read_nat0::<u64>();
    let need = match b[0] { 0..=0x7f => 0, 0xfe => 2, 0xfd => 4, 0xfc => 8, _ => 99 };
    let want = if need == 99 || b.len() < 1 + need { None } else if need == 0 { Some(b[0] as u64) } else { let mut v = 0u64; for k in (0..need).rev() { v = v << 8 | b[1 + k] as u64; } Some(v) };
    want!(got.as_ref().ok() == want.as_ref(), "bin_read_nat0::<u64>({}) gave {got:?}, expected {want:?}", hex(&b));
    if want.is_some() { want!(b.len() - s.len() == 1 + need, "bin_read_nat0({}) consumed {}", hex(&b), b.len() - s.len()); }
    macro_rules! nw { ($($t:ty),*) => { $( { let mut s = &b[..]; let g = s.bin_read_nat0::<$t>(); let w = want.and_then(|v| <$t>::try_from(v).ok()); want!(g.as_ref().ok() == w.as_ref(), "bin_read_nat0::<{}>({}) gave {g:?} expected {w:?}", stringify!($t), hex(&b)); } )* } }
    nw!(u8, u16, u32, usize);
    macro_rules! with { ($($t:ty),*) => { $( {
        let d: serde::de::value::BytesDeserializer<serde::de::value::Error> = serde::de::value::BytesDeserializer::new(&b);
        let g: Result<$t, _> = bin_prot::integers::nat0::deserialize(d);
        let w = want.and_then(|v| <$t>::try_from(v).ok());
        want!(g.as_ref().ok() == w.as_ref(), "integers::nat0::deserialize::<{}>({}) gave {g:?} expected {w:?}", stringify!($t), hex(&b));
    } )* } }
    with!(u8, u16, u32, u64, usize);
    Held(true, hex(&b))
}
pub fn nat0_len(i: u64, r: &mut Rng) -> Out {
    // list and string lengths as they appear in real encodings
    let n = match i % 4 { 0 => i % 400, 1 => 65530 + i % 12, 2 => *r.pick(&[0u64, 1, 127, 128, 129, 255, 256, 32767, 32768, 65535, 65536, 70000]), _ => r.size(3000, 1 << 21) };
    let v: Vec<u8> = vec![7; n as usize];
    let mut want = vec![]; ref_nat0(n, &mut want); want.extend_from_slice(&v);
    let g = tri!(enc(&v));
    want!(g == want, "a list of {n} bytes encodes with prefix {}", hex(&g));
    let back: Result<Vec<u8>, _> = from_reader_strict(&g[..]);
    want!(matches!(&back, Ok(x) if *x == v), "a list of {n} bytes does not decode back: {:?}", back.map(|v| v.len()));
    let s: String = "x".repeat(n as usize);
    let g = tri!(enc(&s));
    let mut want = vec![]; ref_nat0(n, &mut want); want.extend_from_slice(s.as_bytes());
    want!(g == want, "a string of {n} bytes encodes with prefix {}", hex(&g));
    Held(true, format!("length {n}"))
}

// ---------------------------------------------------------------- scalars
pub fn scalars_exh(i: u64, _: &mut Rng) -> Out {
    let b = (i % 256) as u8;
    for t in [Ty::Unit, Ty::UnitStruct, Ty::Bool, Ty::Char, Ty::U8, Ty::Opt(Box::new(Ty::U8)), Ty::Opt(Box::new(Ty::Bool))] {
        for tail in [vec![], vec![0], vec![1], vec![2], vec![0xff]] {
            let mut s = vec![b]; s.extend(tail);
            let mut p = 0; let w = refdec(&t, &s, &mut p);
            set_ty(&t);
            let g: Result<DynT, _> = from_reader(&s[..]);
            want!(g.as_ref().ok().map(|x| &x.0) == w.as_ref(), "decoding {} as {t:?} gave {g:?}, expected {w:?}", hex(&s));
            set_ty(&Ty::Tuple(vec![t.clone(), Ty::U8]));
            if let Some(w) = &w { s.truncate(p); s.push(0x5a); let g: Result<DynT, _> = from_reader_strict(&s[..]); want!(matches!(&g, Ok(DynT(Val::Seq(v))) if v[0] == *w && v[1] == Val::Int(0x5a)), "decoding {} as ({t:?}, u8) gave {g:?}", hex(&s));
                let mut o = vec![]; want!(to_writer(&mut o, &Dv(&t, w)).is_ok(), "encode failed"); want!(o == s[..p], "{w:?} encodes to {}", hex(&o)); }
        }
    }
    macro_rules! ext { ($f:ident, $w:expr) => {{ let a = [b]; let mut s = &a[..]; let g = s.$f().ok(); want!(g == $w, "{}({b:02x}) gave {g:?}", stringify!($f)); let mut e = &a[..0]; want!(e.$f().is_err(), "{} of nothing succeeds", stringify!($f)); }} }
    ext!(bin_read_unit, if b == 0 { Some(()) } else { None });
    ext!(bin_read_bool, match b { 0 => Some(false), 1 => Some(true), _ => None });
    ext!(bin_read_char, Some(b as char));
    ext!(bin_read_variant_index, Some(b));
    let mut o = vec![]; let k = o.bin_write_char(b as char); want!(o == [b] && matches!(k, Ok(1)), "bin_write_char({b:02x}) wrote {}", hex(&o));
    let mut o = vec![]; let k = o.bin_write_variant_index(b); want!(o == [b] && matches!(k, Ok(1)), "bin_write_variant_index({b:02x}) wrote {}", hex(&o));
    let mut o = vec![]; want!(o.bin_write_bool(b & 1 == 1).is_ok() && o == [b & 1], "bin_write_bool wrote {}", hex(&o));
    let mut o = vec![]; want!(o.bin_write_unit().is_ok() && o == [0], "bin_write_unit wrote {}", hex(&o));
    Held(true, format!("every scalar type on a first byte of {b:02x}"))
}
pub fn chars(i: u64, r: &mut Rng) -> Out {
    let c = loop { let x = if i < 700 { i as u32 } else { r.below(0x11_0000) as u32 }; if let Some(c) = char::from_u32(x) { break c } else { return Held(false, "surrogate".into()) } };
    let mut o = vec![];
    let g = to_writer(&mut o, &c);
    if (c as u32) < 256 {
        want!(g.is_ok() && o == [c as u32 as u8], "char {c:?} wrote {} ({g:?})", hex(&o));
        let b: Result<char, _> = from_reader_strict(&o[..]);
        want!(matches!(b, Ok(x) if x == c), "char {c:?} decodes to {b:?}");
    } else {
        want!(g.is_err(), "char {c:?} does not fit one byte but is written as {}", hex(&o));
        let mut o = vec![]; want!(o.bin_write_char(c).is_err() && o.is_empty(), "bin_write_char({c:?}) wrote {}", hex(&o));
    }
    Held(true, format!("{c:?}"))
}
pub fn floats(_: u64, r: &mut Rng) -> Out {
    let x = match r.below(4) { 0 => r.next(), 1 => f64::to_bits(r.next() as f64), 2 => 0x7ff0_0000_0000_0000 | r.below(1 << 52) | (r.below(2) << 63), _ => if r.bool() { f64::to_bits(1.0 / (1 + r.below(1000)) as f64) } else if r.bool() { r.dict_num() } else { f64::to_bits(r.dict_num() as i64 as f64) } };
    let f = f64::from_bits(x);
    let g = tri!(enc(&f));
    want!(g == x.to_le_bytes(), "f64 {x:#x} wrote {}", hex(&g));
    let b: Result<f64, _> = from_reader_strict(&g[..]);
    want!(matches!(b, Ok(y) if y.to_bits() == x), "f64 {x:#x} decodes to {b:?}");
    let mut o = vec![]; let k = o.bin_write_float64(&f); want!(matches!(k, Ok(8)) && o == g, "bin_write_float64 wrote {} and reported {k:?}", hex(&o));
    let y = (x >> 13) as u32 ^ x as u32;
    let f = f32::from_bits(y);
    let g = tri!(enc(&f));
    want!(g == y.to_le_bytes(), "f32 {y:#x} wrote {}", hex(&g));
    let b: Result<f32, _> = from_reader_strict(&g[..]);
    want!(matches!(b, Ok(z) if z.to_bits() == y), "f32 {y:#x} decodes to {b:?}");
    let mut o = vec![]; let k = o.bin_write_float32(&f); want!(matches!(k, Ok(4)) && o == g, "bin_write_float32 wrote {} and reported {k:?}", hex(&o));
    for n in 0..8 { let b: Result<f64, _> = from_reader(&x.to_le_bytes()[..n]); want!(b.is_err(), "{n} bytes decode as an f64"); }
    for n in 0..4 { let b: Result<f32, _> = from_reader(&y.to_le_bytes()[..n]); want!(b.is_err(), "{n} bytes decode as an f32"); }
    Held(true, format!("{x:#x} {y:#x}"))
}
pub fn opts(_: u64, r: &mut Rng) -> Out {
    let mut t = gen_ty(r, Mix::Scalars, 0);
    for _ in 0..1 + r.below(3) { t = Ty::Opt(Box::new(t)); }
    let v = gen_val(r, &t, &mut 50);
    let mut w = vec![]; refenc(&t, &v, &mut w);
    let g = tri!(enc(&Dv(&t, &v)));
    want!(g == w, "{v:?} wrote {} expected {}", hex(&g), hex(&w));
    set_ty(&t);
    let b: Result<DynT, _> = from_reader_strict(&g[..]);
    want!(matches!(&b, Ok(DynT(x)) if *x == v), "{v:?} decodes to {b:?}");
    Held(true, format!("{v:?}"))
}

// ---------------------------------------------------------------- strings
pub fn str_round(_: u64, r: &mut Rng) -> Out {
    let s = gen_str(r);
    let g = tri!(enc(&s));
    let mut w = vec![]; ref_nat0(s.len() as u64, &mut w); w.extend_from_slice(s.as_bytes());
    want!(g == w, "string of {} bytes wrote {} expected {}", s.len(), hex(&g), hex(&w));
    let b: Result<String, _> = from_reader_strict(&g[..]);
    want!(matches!(&b, Ok(x) if *x == s), "string {s:?} decodes to {b:?}");
    let mut q = &g[..]; want!(matches!(q.bin_read_string(), Ok(x) if x == s) && q.is_empty(), "bin_read_string differs");
    let mut q = &g[..]; want!(matches!(q.bin_read_bytes(), Ok(x) if x == s.as_bytes()) && q.is_empty(), "bin_read_bytes differs");
    // every truncation is an error
    let step = 1 + g.len() / 40;
    for n in (0..g.len()).step_by(step).chain(g.len().saturating_sub(3)..g.len()) {
        let b: Result<String, _> = from_reader(&g[..n]);
        want!(b.is_err(), "the first {n} of {} bytes of a string decode to {b:?}", g.len());
        let mut q = &g[..n]; want!(q.bin_read_string().is_err(), "bin_read_string of a truncated string succeeds");
        let mut q = &g[..n]; want!(q.bin_read_bytes().is_err(), "bin_read_bytes of a truncated string succeeds");
    }
    let t: Result<(String, u8), _> = from_reader_strict(&[&g[..], &[9]].concat()[..]);
    want!(matches!(&t, Ok((x, 9)) if *x == s), "(string, u8) decodes to {t:?}");
    Held(!s.is_empty(), format!("{} bytes {:?}", s.len(), s.chars().take(12).collect::<String>()))
}
pub fn str_bytes(_: u64, r: &mut Rng) -> Out {
    // arbitrary payloads: valid UTF-8 or an error, never anything else
    let n = r.size(8, 1 << 16);
    let mut p: Vec<u8> = (0..n).map(|_| match r.below(4) { 0 => r.below(128) as u8, 1 => 0xc0 | r.below(64) as u8, 2 => 0x80 | r.below(64) as u8, _ => *r.pick(&[0xf0u8, 0xe0, 0xed, 0xa0, 0x9f, 0x98, 0x80, 0xff, 0xc0, 0xf4, 0x90]) }).collect();
    if r.one_in(3) { let s = gen_str(r); let cut = (r.below(4) as usize).min(s.len()); p = s.as_bytes()[..s.len() - cut].to_vec(); }
    // a run of one byte before or after it
    if r.one_in(4) {
        let x = if r.bool() { *r.pick(&[0u8, b' ', b'\n', b'a', 0x7f, 0x80, 0xbf, 0xc3, 0xff]) } else { r.dict_num() as u8 };
        let run = vec![x; 1 + r.size(160, 1 << 14) as usize];
        p = if r.bool() { [p, run].concat() } else { [run, p].concat() };
    }
    let mut b = vec![]; ref_nat0(p.len() as u64, &mut b); b.extend_from_slice(&p);
    let g: Result<String, _> = from_reader_strict(&b[..]);
    let w = String::from_utf8(p.clone()).ok();
    want!(g.as_ref().ok() == w.as_ref(), "payload {} decodes to {g:?}", hex(&p));
    let mut q = &b[..]; let g = q.bin_read_string(); want!(g.as_ref().ok() == w.as_ref(), "bin_read_string {} gives {g:?}", hex(&p));
    let mut q = &b[..]; let g = q.bin_read_bytes(); want!(matches!(&g, Ok(x) if *x == p), "bin_read_bytes {} gives {g:?}", hex(&p));
    Held(true, hex(&p))
}
pub fn str_lens(i: u64, r: &mut Rng) -> Out {
    // claimed length against what is there
    let have = r.size(20, 1 << 18);
    let claim = match i % 3 { 0 => have + 1 + r.below(5), 1 => r.edge_u64(), _ => have.saturating_sub(r.below(3)) };
    let mut b = vec![]; ref_nat0(claim, &mut b); b.extend(std::iter::repeat(b'q').take(have as usize));
    let (g, peak) = peak_of(|| from_reader::<_, String>(&b[..]));
    want!(peak < (1 << 20) + 8 * have as usize, "a string claiming {claim} bytes with {have} present allocates {peak} bytes");
    if claim <= have { want!(matches!(&g, Ok(x) if x.len() as u64 == claim), "claim {claim} have {have} gives {g:?}"); } else { want!(g.is_err(), "a string claiming {claim} bytes with {have} present gives {g:?}"); }
    Held(true, format!("claims {claim}, has {have}"))
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub struct Named { pub a: i32, pub b: Option<String>, pub c: Vec<(u8, bool)>, pub d: En }
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub enum En { A, B(i64), C(u8, String), D { x: f64, y: Option<Box<En>> } }
