//! text forms of amounts, hashes, field elements, memos, signatures, characters and tagged enums
use crate::harness::*;
use crate::json::{b58, hexs};
use crate::rng::Rng;
use mina_crypto::hash::*;
use mina_crypto::hex::HexEncodable;
use mina_rs_base::numbers;
use mina_rs_base::types::{Amount, BodyReference, VrfOutputTruncated};
use mina_rs_base::user_commands::memo::SignedCommandMemo;
use mina_serialization_types::common::{ByteVecJson, DecimalJson, U32Json, U64Json};
use mina_serialization_types::json::*;
use mina_serialization_types::v1::HashV1;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::str::FromStr;
macro_rules! want { ($c:expr, $($f:tt)*) => { if !$c { return Err(format!($($f)*)) } } }
type R = Result<(), String>;
fn out(w: String, r: Result<R, String>) -> Out { match r { Err(p) => Broken(format!("{w}: panics ({p})")), Ok(Err(e)) => Broken(format!("{w}: {e}")), Ok(Ok(())) => Held(true, w.chars().take(120).collect()) } }
fn read<T: DeserializeOwned>(v: &Value) -> Result<T, String> { serde_json::from_value(v.clone()).map_err(|e| e.to_string()) }
fn show<T: Serialize>(t: &T) -> Result<Value, String> { serde_json::to_value(t).map_err(|e| format!("is not written: {e}")) }
/// every byte of the text written is UTF-8
fn text_of<T: Serialize>(t: &T) -> Result<String, String> {
    let b = serde_json::to_vec(t).map_err(|e| format!("is not written: {e}"))?;
    serde_json::from_slice(&b).map_err(|e| format!("is written as {b:?}, which is no JSON string: {e}"))
}
/// what an amount text denotes: Ok(n), or Err(true) when it denotes nothing, Err(false) when readers may differ on the form
fn amount_of(s: &str) -> Result<u64, bool> {
    let lax = s.starts_with('+') && s.len() > 1; let t = if lax { &s[1..] } else { s };
    let (q, r) = match t.split_once('.') { Some((q, r)) => (q, Some(r)), None => (t, None) };
    let dig = |x: &str| x.bytes().all(|c| c.is_ascii_digit());
    if q.is_empty() || !dig(q) || !r.map_or(true, |r| dig(r) && r.len() <= 9) { return Err(true) }
    let v = num::BigUint::from_str(&format!("{q}{:0<9}", r.unwrap_or(""))).unwrap();
    let n: u64 = v.try_into().map_err(|_| true)?;
    if lax || r == Some("") { Err(false) } else { Ok(n) }
}
fn lax_value(s: &str) -> Option<u64> { amount_of(s.trim_start_matches('+').trim_end_matches('.')).ok() }
fn digits(r: &mut Rng, n: u64) -> String { (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect() }
fn amount_text(r: &mut Rng) -> String {
    let mut s = match r.below(4) { 0 => { let n = r.edge_u64(); format!("{}.{:09}", n / 1_000_000_000, n % 1_000_000_000) } 1 => { let k = r.below(9); (18446744073u64 - 4 + k).to_string() } _ => { let n = r.below(13); digits(r, n) } };
    if !s.contains('.') && r.below(4) != 0 { let n = r.below(12); let d = digits(r, n); s.push('.'); s.push_str(if r.one_in(6) { ["709551615", "709551616", "0000000001", "999999999"][r.below(4) as usize] } else { &d }); }
    if r.one_in(3) { let c = *r.pick(&['+', '-', ' ', '.', 'e', '_', '٣', '0', '9']); let k = r.below(s.chars().count() as u64 + 1) as usize; s = s.chars().take(k).chain([c]).chain(s.chars().skip(k)).collect(); }
    s
}
pub fn amounts(_: u64, r: &mut Rng) -> Out {
    let (n, s) = (r.edge_u64(), amount_text(r));
    out(format!("amount {n}, text {s:?}"), caught(|| {
        let t = Amount(n).to_string();
        want!(amount_of(&t) == Ok(n) && t.len() > 10 && t.as_bytes()[t.len() - 10] == b'.', "Amount({n}) is shown as {t}");
        want!(Amount::from_str(&t) == Ok(Amount(n)), "Amount({n}) is shown as {t}, which reads back as {:?}", Amount::from_str(&t));
        let t = text_of(&DecimalJson(n))?;
        want!(amount_of(&t) == Ok(n), "DecimalJson({n}) is written as {t}");
        want!(read::<DecimalJson>(&json!(t)) == Ok(DecimalJson(n)), "DecimalJson({n}) is written as {t}, which reads back as {:?}", read::<DecimalJson>(&json!(t)));
        let got = [("Amount", Amount::from_str(&s).ok().map(|a| a.0)), ("DecimalJson", read::<DecimalJson>(&json!(s)).ok().map(|a| a.0))];
        for (w, g) in got { match amount_of(&s) {
            Ok(v) => want!(g == Some(v), "{w} reads {g:?}, the text denotes {v}"),
            Err(true) => want!(g.is_none(), "{w} reads {g:?}, the text denotes no amount"),
            Err(false) => want!(g.is_none() || g == lax_value(&s), "{w} reads {g:?}, at most {:?} is meant", lax_value(&s)),
        } }
        want!(text_of(&U64Json(n))? == n.to_string() && read::<U64Json>(&json!(n.to_string())) == Ok(U64Json(n)), "U64Json({n}) is written as {:?}", text_of(&U64Json(n)));
        want!(text_of(&U32Json(n as u32))? == (n as u32).to_string(), "U32Json is written as {:?}", text_of(&U32Json(n as u32)));
        let g = read::<U32Json>(&json!(n.to_string())).ok().map(|x| x.0); want!(g == u32::try_from(n).ok(), "U32Json reads {g:?} from {n}");
        if !(s.strip_prefix('+').unwrap_or(&s).bytes().all(|c| c.is_ascii_digit()) && s.len() > 0) { want!(read::<U64Json>(&json!(s)).is_err() && read::<U32Json>(&json!(s)).is_err(), "an integer is read from {s:?}") }
        want!(read::<U64Json>(&json!(n)).is_err() || read::<U64Json>(&json!(n)) == Ok(U64Json(n)), "U64Json reads another number from the JSON number {n}");
        Ok(())
    }))
}
fn bytes(r: &mut Rng, n: u64) -> Vec<u8> { (0..n).map(|_| if r.one_in(4) { *r.pick(&[0, 1, 127, 128, 253, 254, 255]) } else { r.next() as u8 }).collect() }
/// a change of one character, or another spelling of the payload
fn spoil(r: &mut Rng, ver: u8, pay: &[u8], text: &str) -> (String, &'static str) {
    match r.below(4) {
        0 => { let mut c: Vec<char> = text.chars().collect(); let k = r.below(c.len() as u64) as usize; let n = *r.pick(&['1', '2', 'z', 'A', '0', 'l', 'é', ' ']); if c[k] == n { c.remove(k); } else { c[k] = n; } (c.into_iter().collect(), "a changed character") }
        1 => (b58(ver.wrapping_add(1 + r.below(255) as u8), pay), "the version byte of another kind"),
        2 => { let n = r.below(pay.len() as u64) as usize; (b58(ver, &pay[..n]), "a shorter payload") }
        _ => { let mut p = pay.to_vec(); let k = 1 + r.below(3); p.extend(bytes(r, k)); (b58(ver, &p), "a longer payload") }
    }
}
fn one_hash<const V: u8, T: FromStr + ToString + PartialEq + std::fmt::Debug + From<HashV1> + Clone>(ver: u8, name: &str, r: &mut Rng) -> Out where HashV1: From<T> {
    let raw: [u8; 32] = bytes(r, 32).try_into().unwrap();
    let mut pay = vec![1u8]; pay.extend(raw); let text = b58(ver, &pay); let (bad, how) = spoil(r, ver, &pay, &text);
    out(format!("{name} {}", hexs(&raw)), caught(|| {
        let v: HashV1 = versioned::Versioned::new(raw); let t = T::from(v.clone());
        want!(HashV1::from(t.clone()) == v, "another hash once converted to {name} and back");
        want!(t.to_string() == text, "is shown as {} instead of {text}", t.to_string());
        match T::from_str(&text) { Ok(x) => want!(x == t, "{text} reads back as {x:?}"), Err(_) => return Err(format!("{text} is refused")) }
        let j: HashV1Json<V> = v.clone().into();
        want!(text_of(&j)? == text && read::<HashV1Json<V>>(&json!(text)) == Ok(j.clone()), "the JSON form is {:?} instead of {text}", text_of(&j));
        want!(T::from_str(&bad).is_err() && read::<HashV1Json<V>>(&json!(bad)).is_err(), "a hash is read from {bad} ({how})");
        Ok(())
    }))
}
pub fn hashes(_: u64, r: &mut Rng) -> Out {
    match r.below(9) {
        0 => one_hash::<5, LedgerHash>(5, "LedgerHash", r),
        1 => one_hash::<5, ChainHash>(5, "ChainHash", r),
        2 => one_hash::<0x0c, CoinBaseHash>(0x0c, "CoinBaseHash", r),
        3 => one_hash::<0x0d, EpochSeed>(0x0d, "EpochSeed", r),
        4 => one_hash::<0x10, StateHash>(0x10, "StateHash", r),
        5 => one_hash::<0x11, StateBodyHash>(0x11, "StateBodyHash", r),
        6 => one_hash::<0x15, VrfOutputHash>(0x15, "VrfOutputHash", r),
        _ => {
            let pend = r.bool(); let ver = if pend { 0x0f } else { 0x0e }; let b = { let n = if r.bool() { 32 } else { r.below(60) }; bytes(r, n) };
            let text = b58(ver, &b); let (bad, how) = { let mut x = spoil(r, ver, &b, &text); for _ in 0..9 { if x.1.contains("payload") || b.is_empty() { x = (b58(ver ^ 1, &b), "the version byte of the other kind") } } x };
            out(format!("auxiliary hash {}", hexs(&b)), caught(|| {
                let (t, x, e) = if pend { (PendingCoinbaseAuxHash(b.clone()).to_string(), PendingCoinbaseAuxHash::from_str(&text).map(|h| h.0), PendingCoinbaseAuxHash::from_str(&bad).is_err()) } else { (AuxHash(b.clone()).to_string(), AuxHash::from_str(&text).map(|h| h.0), AuxHash::from_str(&bad).is_err()) };
                want!(t == text, "is shown as {t} instead of {text}");
                want!(x.as_ref().ok() == Some(&b), "{text} reads back as {x:?}"); want!(e, "a hash is read from {bad} ({how})");
                Ok(())
            }))
        }
    }
}
pub fn hexes(_: u64, r: &mut Rng) -> Out {
    let raw: [u8; 32] = bytes(r, 32).try_into().unwrap(); let up = r.bool();
    let body = { let s = hexs(&raw); if up { s.to_uppercase() } else { s } };
    let text = format!("{}{body}", r.pick(&["", "0x", "\\x"]));
    let bad = match r.below(6) { 0 => body[..r.below(64) as usize].to_string(), 1 => format!("{body}{}", &body[..1 + r.below(40) as usize]), 2 => format!("0X{body}"), 3 => format!("x{body}"), 4 => { let k = r.below(64) as usize; format!("{}g{}", &body[..k], &body[k + 1..]) } _ => format!("0x0x{body}") };
    let many: Vec<[u8; 32]> = (0..r.below(4)).map(|_| bytes(r, 32).try_into().unwrap()).collect(); let cut = 1 + r.below(63) as usize;
    out(format!("hex {text}, malformed {bad}"), caught(|| {
        let f = FieldElementJson(raw);
        want!(f.to_hex_string() == hexs(&raw), "the hex string is {}", f.to_hex_string());
        want!(text_of(&f)? == format!("0x{}", hexs(&raw)), "the JSON form is {:?}", text_of(&f));
        want!(FieldElementJson::try_from_hex_str(&text) == Ok(f.clone()) && read::<FieldElementJson>(&json!(text)) == Ok(f.clone()), "reads as {:?}", FieldElementJson::try_from_hex_str(&text));
        want!(numbers::BigInt256::try_from_hex(&text) == Ok(numbers::BigInt256(raw)) && numbers::BigInt256(raw).to_hex_string() == hexs(&raw), "BigInt256 reads it as {:?}", numbers::BigInt256::try_from_hex(&text));
        want!(FieldElementJson::try_from_hex_str(&bad).is_err() && read::<FieldElementJson>(&json!(bad)).is_err() && numbers::BigInt256::try_from_hex(&bad).is_err(), "a field element is read from the malformed text");
        want!(BodyReference::from_hex(&body).map(|b| b.0) == Ok(raw), "BodyReference reads it as {:?}", BodyReference::from_hex(&body));
        want!(BodyReference::from_hex(&bad).is_err(), "a body reference is read from the malformed text");
        use mina_rs_base::protocol_state_proof::FieldElementVec;
        let v = FieldElementVec(many.iter().map(|b| numbers::BigInt256(*b)).collect()); let s: String = many.iter().map(|b| hexs(b)).collect();
        want!(v.to_hex_string() == s, "the hex of {v:?} is {}", v.to_hex_string());
        want!(FieldElementVec::try_from_hex(&s) == Ok(v.clone()) && FieldElementVec::try_from_hex(&format!("0x{s}")) == Ok(v.clone()), "{s} reads as {:?}", FieldElementVec::try_from_hex(&s));
        if !s.is_empty() { want!(FieldElementVec::try_from_hex(&s[..s.len() - cut]).is_err(), "elements are read from {}", &s[..s.len() - cut]) }
        Ok(())
    }))
}
pub fn memos(_: u64, r: &mut Rng) -> Out {
    let n = r.below(40); let text: String = if r.bool() { digits(r, n) } else { let mut s: String = (0..n).map(|_| *r.pick(&['a', 'é', '\0', '字', '~', ' '])).collect(); while s.len() > 32 && r.bool() { s.pop(); } s };
    let raw = { let n = if r.bool() { 34 } else { r.below(60) }; bytes(r, n) }; let t58 = b58(0x14, &raw);
    let vrf = { let n = if r.bool() { 32 } else { r.below(250) }; bytes(r, n) };
    let pay = { let mut p = vec![vrf.len() as u8]; p.extend(&vrf); p }; let v58 = b58(0x15, &pay);
    let sig: [[u8; 32]; 2] = [bytes(r, 32).try_into().unwrap(), bytes(r, 32).try_into().unwrap()]; let spay = { let mut p = vec![1u8]; p.extend(sig[0]); p.extend(sig[1]); p }; let s58 = b58(0x9a, &spay); let (sbad, how) = spoil(r, 0x9a, &spay, &s58);
    let other = 1 + r.below(255) as u8;
    out(format!("memo {text:?}, bytes {}", hexs(&raw)), caught(|| {
        match SignedCommandMemo::try_from_text(&text) {
            Err(_) => want!(text.len() > 32, "a text of {} bytes is refused", text.len()),
            Ok(m) => {
                let mut w = vec![1, text.len() as u8]; w.extend(text.as_bytes()); w.resize(34, 0);
                want!(text.len() <= 32, "a text of {} bytes makes a memo", text.len());
                want!(m.0 == w && m.to_text() == text, "the memo of the text is {:?}, read back {:?}", m.0, m.to_text());
            }
        }
        let m = SignedCommandMemo(raw.clone()); let t = m.to_text();
        let want: Vec<u8> = raw.iter().skip(2).take(*raw.get(1).unwrap_or(&0) as usize).copied().collect();
        want!(t == String::from_utf8_lossy(&want), "the text of memo {raw:?} is {t:?}");
        want!(m.to_string() == t58 && SignedCommandMemo::from_str(&t58).ok() == Some(m.clone()), "memo {raw:?} is shown as {m}, expected {t58}");
        want!(SignedCommandMemo::from_str(&b58(0x14u8.wrapping_add(other), &raw)).is_err(), "a memo is read from the text of another kind");
        let j = VrfOutputTruncatedBase58Json(vrf.clone());
        want!(text_of(&j)? == v58 && read::<VrfOutputTruncatedBase58Json>(&json!(v58)) == Ok(j.clone()), "VRF output {vrf:?} is written {:?}", text_of(&j));
        want!(read::<VrfOutputTruncatedBase58Json>(&json!(b58(0x15u8.wrapping_add(other), &pay))).is_err(), "a VRF output is read from the text of another kind");
        let o = VrfOutputTruncated(vrf.clone()); let t = o.to_string();
        want!(t.bytes().all(|c| c.is_ascii_alphanumeric() || b"-_=".contains(&c)) && VrfOutputTruncated::from_str(&t).ok() == Some(o.clone()), "VRF output {vrf:?} is shown as {t}, which reads as {:?}", VrfOutputTruncated::from_str(&t));
        let s = SignatureJson((sig[0], sig[1]).into());
        want!(text_of(&s)? == s58 && read::<SignatureJson>(&json!(s58)) == Ok(s.clone()), "signature {} is written {:?}", hexs(&spay), text_of(&s));
        want!(read::<SignatureJson>(&json!(sbad)).is_err(), "a signature is read from {sbad} ({how})");
        Ok(())
    }))
}
pub fn chars(i: u64, r: &mut Rng) -> Out {
    let b = if i < 256 { i as u8 } else { r.next() as u8 };
    let s = match r.below(5) { 0 => String::new(), 1 => "ab".into(), 2 => "字".into(), 3 => "\u{100}".into(), _ => { let n = r.below(20); digits(r, n) + "é" } };
    out(format!("char {b}, text {s:?}"), caught(|| {
        let t = text_of(&CharJson(b))?;
        want!(b > 127 || t.as_bytes() == [b], "CharJson({b}) is written as {t:?}");
        want!(read::<CharJson>(&json!(t)) == Ok(CharJson(b)), "CharJson({b}) is written as {t:?}, which reads as {:?}", read::<CharJson>(&json!(t)));
        let c = numbers::Char(b); want!(c.to_string() == t && numbers::Char::from_str(&t).ok() == Some(c.clone()), "Char({b}) is shown as {:?}", c.to_string());
        let bad = s.chars().count() != 1 || s.chars().next().map_or(true, |c| c as u32 > 255);
        want!(!bad || read::<CharJson>(&json!(s)).is_err() && numbers::Char::from_str(&s).is_err(), "a character is read from {s:?}");
        let v = ByteVecJson(s.as_bytes().to_vec()); let t = text_of(&v)?;
        want!(t == s && read::<ByteVecJson>(&json!(s)) == Ok(v), "the bytes of {s:?} are written as {t:?}");
        Ok(())
    }))
}
fn val(r: &mut Rng, d: u32) -> Value {
    match r.below(if d == 0 { 5 } else { 7 }) { 0 => Value::Null, 1 => json!(r.edge_u64()), 2 => json!(*r.pick(&["Finite", "Infinite", "One", "Two", "Three", "Pos", "Neg", "Shifted_value", "Prechallenge", "Applied", "Zero", "Signed_command", "Payment", "Set_delegate", "", "x"])), 3 => json!(r.bool()), 4 => json!("0x00"),
        5 => Value::Array((0..r.below(4)).map(|_| val(r, d - 1)).collect()), _ => json!({ "Finite": val(r, d - 1) }) }
}
/// malformed documents for every tagged enum: refused or read, never a panic, and what is read is written back to itself
fn tagged<T: DeserializeOwned + Serialize>(v: &Value, name: &str) -> R {
    if !v.is_array() || v.as_array().unwrap().is_empty() { want!(read::<T>(v).is_err(), "{name} is read from {v}") }
    if let Ok(t) = read::<T>(v) { let w = show(&t)?; let again = read::<T>(&w).and_then(|t| show(&t)); want!(again == Ok(w.clone()), "{name} read from {v} is written as {w}, which reads as {again:?}") }
    Ok(())
}
pub fn enums(_: u64, r: &mut Rng) -> Out {
    let v = if r.one_in(3) { val(r, 3) } else { Value::Array((0..r.below(4)).map(|i| if i == 0 { json!(*r.pick(&["Finite", "Infinite", "One", "Two", "Pos", "Neg", "Shifted_value", "Applied", "Failed", "Zero", "Signed_command", "Payment", "Set_delegate"])) } else { val(r, 2) }).collect()) };
    let (x, y): ([u8; 32], [u8; 32]) = (bytes(r, 32).try_into().unwrap(), bytes(r, 32).try_into().unwrap()); let b = r.bool();
    out(format!("document {v}"), caught(|| {
        tagged::<ECPointJson>(&v, "ECPointJson")?; tagged::<SgnTypeJson>(&v, "SgnTypeJson")?; tagged::<ShiftedValueJson>(&v, "ShiftedValueJson")?; tagged::<UserCommandJson>(&v, "UserCommandJson")?;
        tagged::<StakeDelegationJson>(&v, "StakeDelegationJson")?; tagged::<TransactionStatusJson>(&v, "TransactionStatusJson")?; tagged::<CoinBaseJson>(&v, "CoinBaseJson")?; tagged::<SignedCommandPayloadBodyJson>(&v, "SignedCommandPayloadBodyJson")?;
        tagged::<OneORTwoJson>(&v, "OneORTwoJson")?; tagged::<InternalCommandBalanceDataJson>(&v, "InternalCommandBalanceDataJson")?;
        let p = ECPointJson::Finite(FiniteECPointJson(FieldElementJson(x), FieldElementJson(y)));
        let w = json!(["Finite", [format!("0x{}", hexs(&x)), format!("0x{}", hexs(&y))]]);
        want!(show(&p)? == w && read::<ECPointJson>(&w) == Ok(p.clone()), "the point is written as {:?}, expected {w}", show(&p));
        want!(show(&ECPointJson::Infinite)? == json!(["Infinite"]) && read::<ECPointJson>(&json!(["Infinite"])) == Ok(ECPointJson::Infinite), "infinity is written as {:?}", show(&ECPointJson::Infinite));
        let s = if b { SgnTypeJson::Pos } else { SgnTypeJson::Neg }; let w = json!([if b { "Pos" } else { "Neg" }]);
        want!(show(&s)? == w && read::<SgnTypeJson>(&w) == Ok(s.clone()), "the sign is written as {:?}, expected {w}", show(&s));
        Ok(())
    }))
}
/// inputs recorded in known_findings.json: exit 1 while they still fail
pub fn known(case: &str) -> i32 {
    match case { "bytevec" => match serde_json::to_vec(&ByteVecJson(vec![0xff, 0x80])) { Ok(b) if std::str::from_utf8(&b).is_err() => 1, _ => 0 }, _ => 0 }
}
