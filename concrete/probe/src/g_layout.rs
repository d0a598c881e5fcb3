//! layouts: generated together with their JSON, their expected parse, and a reference interpreter
use crate::dynty::{ref_int, ref_nat0};
use crate::harness::*;
use crate::rng::Rng;
use bin_prot::value::layout::{BinProtRule, Layout};
use bin_prot::{from_reader, to_writer, Deserializer, Value};
use serde::Deserialize;
use serde_json::{json, Value as J};
macro_rules! want { ($c:expr, $($f:tt)*) => { if !$c { return Broken(format!($($f)*)) } } }

#[derive(Clone, Debug)]
pub enum L {
    Unit, Bool, Str, Char, Float, Int(&'static str, &'static str),
    Opt(Box<L>), List(Box<L>), Tup(Vec<L>), Rec(Vec<(String, L)>), Sum(Vec<(String, Vec<L>)>), SumI(Vec<(i32, String, Vec<L>)>), Poly(Vec<(String, u32, Vec<L>)>),
    Ref(String, Box<L>), Vecs(&'static str, usize, Box<L>), Big(&'static str),
    // parsed but not decodable
    Nat0, Bigstring, Hash(Box<L>, Box<L>), FVec(usize, Box<L>), TVar(String), SelfRef(Vec<L>), TAbs(Vec<String>, Box<L>), TClos(Vec<(String, L)>, Box<L>), Custom(Vec<L>), Unres(Vec<L>, String), PolyInh(Box<L>),
}
const INTS: [(&str, &str); 4] = [("Int", "Int"), ("Int32", "Int32"), ("Int64", "Int64"), ("Native_int", "NativeInt")];
const VECS: [(&str, usize); 6] = [("Pickles_type.Vector.Vector2", 2), ("Pickles_types.Vector.Vector2", 2), ("Pickles_types.Vector.Vector4", 4), ("Pickles_types.Vector.Vector8", 8), ("Pickles_types.Vector.Vector17", 17), ("Pickles_types.Vector.Vector18", 18)];
const BIGS: [&str; 10] = ["Ledger_hash0", "State_hash", "Pending_coinbase.Stack_hash", "State_body_hash", "Pending_coinbase.Hash_builder", "Snark_params.Make_inner_curve_scalar", "Snark_params.Tick", "Epoch_seed", "Zexe_backend.Zexe_backend_common.Stable.Field", "Pending_coinbase.Coinbase_stack"];

pub fn name(r: &mut Rng) -> String { if r.one_in(25) { if let Some(s) = r.dict_str() { return s } } let n = r.size(6, 3000); (0..n).map(|_| if r.one_in(9) { *r.pick(&['\u{e9}', '"', '\\', '\u{4e2d}']) } else { (b'a' + r.below(26) as u8) as char }).collect() }
pub fn gen(r: &mut Rng, d: u32, decodable: bool) -> L {
    let leaf = |r: &mut Rng| match r.below(8) { 0 => L::Unit, 1 => L::Bool, 2 => L::Str, 3 => L::Char, 4 => L::Float, _ => { let i = r.pick(&INTS); L::Int(i.0, i.1) } };
    if d == 0 { return leaf(r); }
    let sub = |r: &mut Rng| gen(r, d - 1, decodable);
    let many = |r: &mut Rng, lo: u64, hi: u64| { let n = lo + r.below(hi - lo + 1); (0..n).map(|_| gen(r, d - 1, decodable)).collect::<Vec<_>>() };
    if !decodable && r.one_in(3) {
        return match r.below(11) {
            0 => L::Nat0, 1 => L::Bigstring, 2 => L::Hash(Box::new(sub(r)), Box::new(sub(r))), 3 => L::FVec(r.below(1 << 40) as usize, Box::new(sub(r))), 4 => L::TVar(name(r)),
            5 => L::SelfRef(many(r, 0, 3)), 6 => L::TAbs((0..r.below(3)).map(|_| name(r)).collect(), Box::new(sub(r))), 7 => L::TClos((0..r.below(3)).map(|_| (name(r), sub(r))).collect(), Box::new(sub(r))),
            8 => L::Custom(many(r, 0, 3)), 9 => L::Unres(many(r, 0, 2), name(r)), _ => L::PolyInh(Box::new(sub(r))),
        };
    }
    match r.below(12) {
        0 => L::Opt(Box::new(sub(r))), 1 => L::List(Box::new(sub(r))), 2 if r.one_in(12) => L::Tup((0..r.size(40, 600)).map(|_| leaf(r)).collect()), 2 => L::Tup(many(r, 0, 4)), 3 if r.one_in(12) => L::Rec((0..r.size(40, 600)).map(|_| (name(r), leaf(r))).collect()), 3 | 4 => L::Rec((0..r.below(6)).map(|_| (name(r), sub(r))).collect()),
        5 if r.one_in(3) => { let mut ix: Vec<i32> = vec![]; let n = 1 + r.below(5) as usize; while ix.len() < n { let x = if !decodable && r.one_in(3) { *r.pick(&[-1, 256, 257, i32::MIN, i32::MAX, 0, 1]) } else if r.bool() { r.below(6) as i32 } else { r.below(256) as i32 }; if !decodable || !ix.contains(&x) { ix.push(x) } } L::SumI(ix.into_iter().map(|i| (i, name(r), many(r, 0, 3))).collect()) }
        5 | 6 => { let n = if r.one_in(20) { 256 } else { 1 + r.below(5) }; if n == 256 { L::Sum((0..256).map(|i| (format!("K{i}"), vec![])).collect()) } else { if r.one_in(15) { let n = 1 + r.size(30, 255); L::Sum((0..n).map(|_| (name(r), if r.bool() { vec![] } else { vec![leaf(r)] })).collect()) } else { L::Sum((0..n).map(|_| (name(r), many(r, 0, 3))).collect()) } } }
        7 => { let mut h: Vec<u32> = vec![]; let hn = if r.one_in(15) { 1 + r.size(20, 300) } else { 4 } as usize; while h.len() < hn { let x = match r.below(4) { 0 => r.below(1 << 31), 3 => r.edge_u64() & 0x7fff_ffff, 1 => r.below(6), _ => 250 + r.below(1 + hn as u64 * 3) } as u32; if !h.contains(&x) { h.push(x) } } L::Poly(h.into_iter().map(|x| (name(r), x, many(r, 0, 3))).collect()) }
        8 => L::Ref(name(r), Box::new(sub(r))), 9 => { let v = *r.pick(&VECS); L::Vecs(v.0, v.1, Box::new(if d > 1 { gen(r, 1, decodable) } else { sub(r) })) } 10 => L::Big(*r.pick(&BIGS)),
        _ => leaf(r),
    }
}
/// a long chain of containers around a leaf
fn chain(r: &mut Rng) -> L {
    let mut l = gen(r, 0, true);
    for _ in 0..r.size(20, 40) { l = match r.below(6) { 0 => L::Opt(Box::new(l)), 1 => L::List(Box::new(l)), 2 => L::Tup(vec![l]), 3 => L::Rec(vec![(name(r), l), (name(r), L::Bool)]), 4 => L::Sum(vec![("a".into(), vec![]), ("b".into(), vec![l])]), _ => L::Ref(name(r), Box::new(l)) }; }
    l
}
pub fn js(l: &L) -> J {
    let a = |v: &[L]| J::Array(v.iter().map(js).collect());
    let refd = |p: &str, r: J| json!(["Reference", ["Resolved", {"source_type_decl": "t", "source_module_path": p, "bin_io_derived": true, "ref_rule": r}]]);
    match l {
        L::Unit => json!(["Unit"]), L::Bool => json!(["Bool"]), L::Str => json!(["String"]), L::Char => json!(["Char"]), L::Float => json!(["Float"]), L::Int(n, _) => json!([n]), L::Nat0 => json!(["Nat0"]), L::Bigstring => json!(["Bigstring"]),
        L::Opt(x) => json!(["Option", js(x)]), L::List(x) => json!(["List", js(x)]), L::Tup(v) => json!(["Tuple", a(v)]),
        L::Rec(f) => json!(["Record", f.iter().map(|(n, l)| json!({"field_name": n, "field_rule": js(l)})).collect::<Vec<_>>()]),
        L::Sum(s) => json!(["Sum", s.iter().enumerate().map(|(i, (n, v))| json!({"ctor_name": n, "index": i, "ctor_args": a(v)})).collect::<Vec<_>>()]),
        L::SumI(s) => json!(["Sum", s.iter().map(|(i, n, v)| json!({"ctor_name": n, "index": i, "ctor_args": a(v)})).collect::<Vec<_>>()]),
        L::Poly(s) => json!(["Polyvar", s.iter().map(|(n, h, v)| json!(["Tagged", {"polyvar_name": n, "hash": h, "polyvar_args": a(v)}])).collect::<Vec<_>>()]),
        L::Ref(p, x) => refd(p, js(x)), L::Vecs(p, _, x) => refd(p, json!(["Custom", [js(x)]])), L::Big(p) => refd(p, json!(["Custom", []])),
        L::Hash(k, v) => json!(["Hashtable", {"key_rule": js(k), "value_rule": js(v)}]), L::FVec(n, x) => json!(["Vec", n, js(x)]), L::TVar(s) => json!(["Type_var", s]), L::SelfRef(v) => json!(["Self_reference", a(v)]),
        L::TAbs(n, x) => json!(["Type_abstraction", n, js(x)]), L::TClos(n, x) => json!(["Type_closure", n.iter().map(|(n, l)| json!([n, js(l)])).collect::<Vec<_>>(), js(x)]), L::Custom(v) => json!(["Custom", a(v)]),
        L::Unres(v, s) => json!(["Reference", ["Unresolved", {"params": a(v), "layout_id": s}]]), L::PolyInh(x) => json!(["Polyvar", [["Inherited", js(x)]]]),
    }
}
/// what the parsed rule shows of itself through its derived Serialize
fn shown(l: &L) -> J {
    let a = |v: &[L]| J::Array(v.iter().map(shown).collect());
    let refd = |p: &str, r: J| json!({"Reference": {"Resolved": {"source_type_decl": "t", "source_module_path": p, "bin_io_derived": true, "ref_rule": r}}});
    match l {
        L::Unit => json!("Unit"), L::Bool => json!("Bool"), L::Str => json!("String"), L::Char => json!("Char"), L::Float => json!("Float"), L::Int(_, n) => json!(n), L::Nat0 => json!("Nat0"), L::Bigstring => json!("Bigstring"),
        L::Opt(x) => json!({"Option": shown(x)}), L::List(x) => json!({"List": shown(x)}), L::Tup(v) => json!({"Tuple": a(v)}),
        L::Rec(f) => json!({"Record": f.iter().map(|(n, l)| json!({"field_name": n, "field_rule": shown(l)})).collect::<Vec<_>>()}),
        L::Sum(s) => json!({"Sum": s.iter().enumerate().map(|(i, (n, v))| json!({"ctor_name": n, "index": i, "ctor_args": a(v)})).collect::<Vec<_>>()}),
        L::SumI(s) => json!({"Sum": s.iter().map(|(i, n, v)| json!({"ctor_name": n, "index": i, "ctor_args": a(v)})).collect::<Vec<_>>()}),
        L::Poly(s) => json!({"Polyvar": s.iter().map(|(n, h, v)| json!({"Tagged": {"polyvar_name": n, "hash": h, "polyvar_args": a(v)}})).collect::<Vec<_>>()}),
        L::Ref(p, x) => refd(p, shown(x)), L::Vecs(p, _, x) => refd(p, json!({"Custom": [shown(x)]})), L::Big(p) => refd(p, json!({"Custom": []})),
        L::Hash(k, v) => json!({"Hashtable": {"key_rule": shown(k), "value_rule": shown(v)}}), L::FVec(n, x) => json!({"Vec": [n, shown(x)]}), L::TVar(s) => json!({"TypeVar": s}), L::SelfRef(v) => json!({"SelfReference": a(v)}),
        L::TAbs(n, x) => json!({"TypeAbstraction": [n, shown(x)]}), L::TClos(n, x) => json!({"TypeClosure": [n.iter().map(|(n, l)| json!([n, shown(l)])).collect::<Vec<_>>(), shown(x)]}), L::Custom(v) => json!({"Custom": a(v)}),
        L::Unres(v, s) => json!({"Reference": {"Unresolved": {"params": a(v), "layout_id": s}}}), L::PolyInh(x) => json!({"Polyvar": [{"Inherited": shown(x)}]}),
    }
}
fn rule(l: &L) -> Result<BinProtRule, String> { serde_json::from_value(js(l)).map_err(|e| format!("the layout {} does not parse: {e}", js(l))) }

/// a value of the layout and its bytes
fn sample(r: &mut Rng, l: &L, o: &mut Vec<u8>, budget: &mut i64) -> Value {
    *budget -= 1;
    match l {
        L::Unit => { o.push(0); Value::Unit } L::Bool => { let b = r.bool(); o.push(b as u8); Value::Bool(b) }
        L::Str => { let n = if *budget < 0 { 0 } else if r.one_in(20) { 126 + r.below(4) } else { r.size(6, 1 << 17) }; ref_nat0(n, o); Value::List((0..n).map(|_| { let c = r.next() as u8; o.push(c); Value::Char(c) }).collect()) }
        L::Char => { let c = r.next() as u8; o.push(c); Value::Char(c) }
        L::Float => { let x = r.next(); o.extend_from_slice(&x.to_le_bytes()); Value::Float(f64::from_bits(x)) }
        L::Int(..) => { let n = r.edge_u64() as i64; ref_int(n, o); Value::Int(n) }
        L::Opt(x) => if *budget < 0 || r.bool() { o.push(0); Value::Option(None) } else { o.push(1); Value::Option(Some(Box::new(sample(r, x, o, budget)))) },
        L::List(x) => { let n = if *budget < 0 { 0 } else if r.one_in(30) { 127 + r.below(3) } else { let n = r.size(4, 1 << 17); if n > 600 && !matches!(**x, L::Unit | L::Bool | L::Char | L::Int(..)) || n > 5 && *budget < 30 { n % 5 } else { n } }; ref_nat0(n, o); Value::List((0..n).map(|_| sample(r, x, o, budget)).collect()) }
        L::Tup(v) => Value::Tuple(v.iter().map(|x| sample(r, x, o, budget)).collect()),
        L::Rec(f) => Value::Record(f.iter().map(|(n, x)| (n.clone(), sample(r, x, o, budget))).collect()),
        L::Sum(s) => { let i = r.below(s.len() as u64) as usize; o.push(i as u8); Value::Sum { name: s[i].0.clone(), index: i as u8, value: Box::new(Value::Tuple(s[i].1.iter().map(|x| sample(r, x, o, budget)).collect())) } }
        L::SumI(s) => { let i = r.below(s.len() as u64) as usize; o.push(s[i].0 as u8); Value::Sum { name: s[i].1.clone(), index: s[i].0 as u8, value: Box::new(Value::Tuple(s[i].2.iter().map(|x| sample(r, x, o, budget)).collect())) } }
        L::Poly(s) => { let i = r.below(s.len() as u64) as usize; o.extend_from_slice(&(s[i].1 << 1 | 1).to_le_bytes()); Value::Polyvar { name: s[i].0.clone(), tag: s[i].1, value: Box::new(Value::Tuple(s[i].2.iter().map(|x| sample(r, x, o, budget)).collect())) } }
        L::Ref(_, x) => sample(r, x, o, budget),
        L::Vecs(_, n, x) => { let mut v: Vec<Value> = (0..*n).map(|_| sample(r, x, o, budget)).collect(); o.push(0); v.push(Value::Unit); Value::Tuple(v) }
        L::Big(_) => Value::Tuple((0..32).map(|_| { let c = r.next() as u8; o.push(c); Value::Char(c) }).collect()),
        _ => unreachable!(),
    }
}
/// reference interpreter
fn interp(l: &L, s: &[u8], p: &mut usize) -> Option<Value> {
    fn b(s: &[u8], p: &mut usize) -> Option<u8> { let x = *s.get(*p)?; *p += 1; Some(x) }
    fn le(s: &[u8], p: &mut usize, n: usize) -> Option<u64> { if s.len() - *p < n { return None } let mut v = 0; for k in (0..n).rev() { v = v << 8 | s[*p + k] as u64 } *p += n; Some(v) }
    fn int(s: &[u8], p: &mut usize) -> Option<i64> { Some(match b(s, p)? { x @ 0..=0x7f => x as i64, 0xff => le(s, p, 1)? as i8 as i64, 0xfe => le(s, p, 2)? as i16 as i64, 0xfd => le(s, p, 4)? as i32 as i64, 0xfc => le(s, p, 8)? as i64, _ => return None }) }
    fn nat(s: &[u8], p: &mut usize) -> Option<u64> { Some(match b(s, p)? { x @ 0..=0x7f => x as u64, 0xfe => le(s, p, 2)?, 0xfd => le(s, p, 4)?, 0xfc => le(s, p, 8)?, _ => return None }) }
    fn tup(v: &[L], s: &[u8], p: &mut usize) -> Option<Value> { let mut o = vec![]; for x in v { o.push(interp(x, s, p)?) } Some(Value::Tuple(o)) }
    Some(match l {
        L::Unit => if b(s, p)? == 0 { Value::Unit } else { return None }, L::Bool => match b(s, p)? { 0 => Value::Bool(false), 1 => Value::Bool(true), _ => return None },
        L::Str => { let n = nat(s, p)?; if ((s.len() - *p) as u64) < n { return None } let v = s[*p..*p + n as usize].iter().map(|c| Value::Char(*c)).collect(); *p += n as usize; Value::List(v) }
        L::Char => Value::Char(b(s, p)?), L::Float => Value::Float(f64::from_bits(le(s, p, 8)?)), L::Int(..) => Value::Int(int(s, p)?),
        L::Opt(x) => match b(s, p)? { 0 => Value::Option(None), 1 => Value::Option(Some(Box::new(interp(x, s, p)?))), _ => return None },
        L::List(x) => { let n = nat(s, p)?; let mut o = vec![]; for _ in 0..n { o.push(interp(x, s, p)?) } Value::List(o) }
        L::Tup(v) => tup(v, s, p)?, L::Rec(f) => { let mut o = vec![]; for (n, x) in f { o.push((n.clone(), interp(x, s, p)?)) } Value::Record(o) }
        L::Sum(v) => { let i = b(s, p)?; let (n, a) = v.get(i as usize)?; Value::Sum { name: n.clone(), index: i, value: Box::new(tup(a, s, p)?) } }
        L::SumI(v) => { let i = b(s, p)?; let (_, n, a) = v.iter().find(|x| x.0 == i as i32)?; Value::Sum { name: n.clone(), index: i, value: Box::new(tup(a, s, p)?) } }
        L::Poly(v) => { let t = (le(s, p, 4)? >> 1) as u32; let (n, _, a) = v.iter().find(|x| x.1 == t)?; Value::Polyvar { name: n.clone(), tag: t, value: Box::new(tup(a, s, p)?) } }
        L::Ref(_, x) => interp(x, s, p)?,
        L::Vecs(_, n, x) => { let mut o = vec![]; for _ in 0..*n { o.push(interp(x, s, p)?) } if b(s, p)? != 0 { return None } o.push(Value::Unit); Value::Tuple(o) }
        L::Big(_) => { let mut o = vec![]; for _ in 0..32 { o.push(Value::Char(b(s, p)?)) } Value::Tuple(o) }
        // rules that are not supported are refused
        _ => return None,
    })
}
fn same(a: &Value, b: &Value) -> bool {
    use Value::*;
    match (a, b) {
        (Float(x), Float(y)) => x.to_bits() == y.to_bits(), (Option(None), Option(None)) => true, (Option(Some(x)), Option(Some(y))) => same(x, y),
        (Record(x), Record(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.0 == q.0 && same(&p.1, &q.1)),
        (Tuple(x), Tuple(y)) | (List(x), List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (Sum { name: n, index: i, value: v }, Sum { name: m, index: j, value: w }) => n == m && i == j && same(v, w),
        (Polyvar { name: n, tag: i, value: v }, Polyvar { name: m, tag: j, value: w }) => n == m && i == j && same(v, w),
        (Option(_), _) | (Record(_), _) | (Tuple(_), _) | (List(_), _) | (Sum { .. }, _) | (Polyvar { .. }, _) => false,
        _ => a == b,
    }
}
fn zero_width(l: &L) -> bool { match l { L::Tup(v) => v.iter().all(zero_width), L::Rec(f) => f.iter().all(|x| zero_width(&x.1)), L::Ref(_, x) => zero_width(x), _ => false } }
fn zw_list(l: &L) -> bool { match l { L::List(x) => zero_width(x) || zw_list(x), L::Opt(x) | L::Ref(_, x) | L::Vecs(_, _, x) => zw_list(x), L::Tup(v) => v.iter().any(zw_list), L::Rec(f) => f.iter().any(|x| zw_list(&x.1)), L::Sum(s) => s.iter().any(|x| x.1.iter().any(zw_list)), L::Poly(s) => s.iter().any(|x| x.2.iter().any(zw_list)), L::SumI(s) => s.iter().any(|x| x.2.iter().any(zw_list)), _ => false } }
fn cut(s: String) -> String { s.chars().take(200).collect() }
fn loose(l: &BinProtRule, b: &[u8]) -> (Result<Value, bin_prot::error::Error>, Option<u8>) {
    let mut de = Deserializer::from_reader(b).with_layout(l);
    let v = Value::deserialize(&mut de);
    let mut nx = [0u8; 1];
    let n = std::io::Read::read(&mut de.rdr, &mut nx).unwrap_or(0);
    (v, if n == 1 { Some(nx[0]) } else { None })
}
pub fn round(_: u64, r: &mut Rng) -> Out {
    let d = 1 + r.below(4) as u32;
    let l = if r.one_in(25) { chain(r) } else { gen(r, d, true) };
    let mut b = vec![];
    let v = sample(r, &l, &mut b, &mut 150);
    let rl = match rule(&l) { Ok(x) => x, Err(m) => return Broken(m) };
    let mut b2 = b.clone(); b2.push(0xd7);
    let (g, next) = loose(&rl, &b2);
    want!(matches!(&g, Ok(x) if same(x, &v)), "{} under layout {l:?} decodes to {g:?}, expected {v:?}", hex(&b));
    want!(next == Some(0xd7), "decoding {} under layout {l:?} does not stop at its end", hex(&b));
    let mut o = vec![];
    let e = to_writer(&mut o, &v);
    want!(e.is_ok() && o == b, "{v:?} is written back as {} instead of {}", hex(&o), hex(&b));
    Held(b.len() > 1, cut(format!("{l:?}")))
}
pub fn mutated(_: u64, r: &mut Rng) -> Out {
    let d = 1 + r.below(3) as u32;
    let l = gen(r, d, true);
    if zw_list(&l) { return Held(false, "skipped".into()); }
    let mut b = vec![];
    sample(r, &l, &mut b, &mut 60);
    let rl = match rule(&l) { Ok(x) => x, Err(m) => return Broken(m) };
    for _ in 0..6 {
        let mut c = b.clone();
        for _ in 0..1 + r.below(2) { if c.is_empty() { break } let i = r.below(c.len() as u64) as usize; match r.below(4) { 0 => c[i] = r.next() as u8, 1 => c.truncate(i), 2 => c[i] = *r.pick(&[0u8, 1, 2, 3, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff]), _ => c.insert(i, r.below(3) as u8) } }
        let mut p = 0; let w = interp(&l, &c, &mut p);
        let (g, _) = loose(&rl, &c);
        want!(match (&g, &w) { (Ok(a), Some(b)) => same(a, b), (Err(_), None) => true, _ => false }, "{} under layout {l:?} gives {g:?}, expected {w:?}", hex(&c));
    }
    Held(true, cut(format!("{l:?}")))
}
/// values the decoder does not produce but a user can build: their encoding is fixed by their kind
pub fn value_enc(_: u64, r: &mut Rng) -> Out {
    fn go(r: &mut Rng, d: u32, o: &mut Vec<u8>) -> Value {
        match r.below(if d == 0 { 7 } else { 13 }) {
            0 => { o.push(0); Value::Unit } 1 => { let n = r.edge_u64() as u32; ref_nat0(n as u64, o); Value::Nat0(n) } 2 => { let b = r.bool(); o.push(b as u8); Value::Bool(b) }
            3 => { let n = r.size(5, 1 << 17); ref_nat0(n, o); Value::String((0..n).map(|_| { let c = r.next() as u8; o.push(c); c }).collect()) }
            4 => { let c = r.next() as u8; o.push(c); Value::Char(c) } 5 => { let n = r.edge_u64() as i64; ref_int(n, o); Value::Int(n) } 6 => { let x = r.next(); o.extend_from_slice(&x.to_le_bytes()); Value::Float(f64::from_bits(x)) }
            7 => { o.push(0); Value::Option(None) } 8 => { o.push(1); Value::Option(Some(Box::new(go(r, d - 1, o)))) }
            9 => { let n = if d == 1 { r.size(4, 700) } else { r.below(4) }; Value::Record((0..n).map(|i| (format!("f{i}"), go(r, d - 1, o))).collect()) } 10 => { let n = if d == 1 { r.size(4, 700) } else { r.below(4) }; Value::Tuple((0..n).map(|_| go(r, d - 1, o)).collect()) }
            11 => { let n = if d == 1 { r.size(4, 1 << 16) } else { r.below(4) }; ref_nat0(n, o); Value::List((0..n).map(|_| go(r, d - 1, o)).collect()) }
            _ => if r.bool() { let i = r.next() as u8; o.push(i); Value::Sum { name: name(r), index: i, value: Box::new(go(r, d - 1, o)) } } else { let t = if r.bool() { r.below(300) as u32 } else { r.edge_u64() as u32 >> 1 }; o.extend_from_slice(&(t << 1 | 1).to_le_bytes()); Value::Polyvar { name: name(r), tag: t, value: Box::new(go(r, d - 1, o)) } },
        }
    }
    let mut b = vec![];
    let v = go(r, 3, &mut b);
    let mut o = vec![];
    let e = to_writer(&mut o, &v);
    want!(e.is_ok() && o == b, "{v:?} is written as {} instead of {}", hex(&o), hex(&b));
    Held(b.len() > 1, cut(format!("{v:?}")))
}
pub fn vectors(i: u64, r: &mut Rng) -> Out {
    let inner = gen(r, 1, true);
    let l = if i % 2 == 0 { let v = VECS[(i / 2 % 6) as usize]; L::Vecs(v.0, v.1, Box::new(inner)) } else { L::Big(BIGS[(i / 2 % 10) as usize]) };
    let mut b = vec![]; let v = sample(r, &l, &mut b, &mut 60);
    let rl = match rule(&l) { Ok(x) => x, Err(m) => return Broken(m) };
    let (g, _) = loose(&rl, &b);
    want!(matches!(&g, Ok(x) if same(x, &v)), "{} under layout {l:?} decodes to {g:?}", hex(&b));
    let mut o = vec![]; to_writer(&mut o, g.as_ref().unwrap()).unwrap();
    want!(o == b, "{l:?} is written back as {}", hex(&o));
    // a path the decoder does not know, and Custom with no path at all, are errors
    let bad: BinProtRule = serde_json::from_value(json!(["Reference", ["Resolved", {"source_type_decl": "t", "source_module_path": "Nobody.Knows", "ref_rule": ["Custom", []]}]])).unwrap();
    want!(loose(&bad, &[0; 64]).0.is_err(), "an unknown custom type decodes");
    let bad: BinProtRule = serde_json::from_value(json!(["Custom", []])).unwrap();
    want!(loose(&bad, &[0; 64]).0.is_err(), "a custom type without path decodes");
    Held(true, cut(format!("{l:?}")))
}
/// a typed destination read through a layout sees the fields the layout names, and the typed encoding is the layout encoding
pub fn hybrid(_: u64, r: &mut Rng) -> Out {
    #[derive(Deserialize, serde::Serialize, PartialEq, Debug, Clone)]
    struct T { a: i64, b: bool, c: Vec<i64>, d: Option<f64> }
    let t = T { a: r.edge_u64() as i64, b: r.bool(), c: (0..r.size(5, 1 << 16)).map(|_| r.edge_u64() as i64).collect(), d: if r.bool() { Some((r.next() >> 12) as f64) } else { None } };
    let l = L::Rec(vec![("a".into(), L::Int("Int", "Int")), ("b".into(), L::Bool), ("c".into(), L::List(Box::new(L::Int("Int64", "Int64")))), ("d".into(), L::Opt(Box::new(L::Float)))]);
    let rl = match rule(&l) { Ok(x) => x, Err(m) => return Broken(m) };
    let mut o = vec![]; to_writer(&mut o, &t).unwrap();
    let mut de = Deserializer::from_reader(&o[..]).with_layout(&rl);
    let g = T::deserialize(&mut de);
    want!(matches!(&g, Ok(x) if *x == t), "{t:?} read through its layout gives {g:?}");
    let (v, _) = loose(&rl, &o);
    want!(matches!(&v, Ok(Value::Record(f)) if f.len() == 4 && f[0].0 == "a" && f[3].0 == "d" && f[0].1 == Value::Int(t.a)), "{t:?} as a loose value: {v:?}");
    let mut o2 = vec![]; to_writer(&mut o2, &v.unwrap()).unwrap();
    want!(o2 == o, "loose re-encoding differs");
    let g: Result<T, _> = from_reader(&o2[..]);
    want!(matches!(&g, Ok(x) if *x == t), "the loosely re-encoded bytes decode to {g:?}");
    Held(true, cut(format!("{t:?}")))
}
// ---------------------------------------------------------------- hostile input under a layout
fn hostile(l: &L, rl: &BinProtRule, b: &[u8]) -> Result<(), String> {
    let (g, peak) = peak_of(|| caught(|| { let _ = loose(rl, b); }));
    if let Err(m) = g { return Err(format!("decoding {} under layout {l:?} panicked: {m}", hex(b))); }
    if peak > (24 << 20) + 40000 * b.len() { return Err(format!("decoding {} under layout {l:?} allocated {peak} bytes", hex(b))); }
    Ok(())
}
pub fn hostile_layout(_: u64, r: &mut Rng) -> Out {
    let d = 1 + r.below(4) as u32;
    let l = gen(r, d, true);
    if zw_list(&l) { return Held(false, "skipped".into()); }
    let rl = match rule(&l) { Ok(x) => x, Err(m) => return Broken(m) };
    let mut good = vec![]; sample(r, &l, &mut good, &mut 40);
    for k in 0..6 {
        let b: Vec<u8> = if k % 2 == 0 { let n = r.below(40); (0..n).map(|_| if r.bool() { r.next() as u8 } else { *r.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff]) }).collect() } else { let mut b = good.clone(); if !b.is_empty() { let i = r.below(b.len() as u64) as usize; b[i] = r.next() as u8; if r.bool() { b.truncate(i + 1) } } b };
        if let Err(m) = hostile(&l, &rl, &b) { return Broken(m); }
    }
    Held(true, cut(format!("{l:?}")))
}
/// any layout, rules that cannot be decoded included: a value or an error, never a panic; and the value the layout gives
pub fn any_layout(_: u64, r: &mut Rng) -> Out {
    let d = 1 + r.below(4) as u32;
    let l = gen(r, d, false);
    if zw_list(&l) { return Held(false, "skipped".into()); }
    // a custom type's meaning depends on the names around it: only the absence of panics is checked
    let named = format!("{l:?}").contains("Custom(");
    let l = match r.below(4) { 0 if named => L::Ref(if r.bool() { r.pick(&VECS).0.into() } else { r.pick(&BIGS).to_string() }, Box::new(l)), 1 => L::Tup(vec![L::Bool, l]), _ => l };
    let rl = match rule(&l) { Ok(x) => x, Err(m) => return Broken(m) };
    for _ in 0..8 {
        let n = r.below(40); let b: Vec<u8> = (0..n).map(|_| if r.one_in(3) { r.next() as u8 } else { *r.pick(&[0u8, 0, 0, 1, 1, 2, 3, 0x7f]) }).collect();
        if let Err(m) = hostile(&l, &rl, &b) { return Broken(m); }
        if named { continue; }
        let mut p = 0; let w = interp(&l, &b, &mut p);
        let (g, _) = loose(&rl, &b);
        want!(match (&g, &w) { (Ok(a), Some(b)) => same(a, b), (Err(_), None) => true, _ => false }, "{} under layout {l:?} gives {g:?}, expected {w:?}", hex(&b));
    }
    Held(true, cut(format!("{l:?}")))
}
pub fn hostile_layout_len(_: u64, r: &mut Rng) -> Out {
    let inner = match r.below(4) { 0 => L::Char, 1 => L::Int("Int", "Int"), 2 => L::Str, _ => L::List(Box::new(L::Bool)) };
    let l = match r.below(4) { 0 => L::Str, 1 => L::List(Box::new(inner)), 2 => L::Rec(vec![("x".into(), L::List(Box::new(inner)))]), _ => L::Ref("P".into(), Box::new(L::List(Box::new(L::Tup(vec![inner, L::Str]))))) };
    let rl = match rule(&l) { Ok(x) => x, Err(m) => return Broken(m) };
    let mut b = vec![]; let c = r.edge_u64(); ref_nat0(c, &mut b);
    for _ in 0..r.below(20) { b.push(r.next() as u8) }
    if let Err(m) = hostile(&l, &rl, &b) { return Broken(m); }
    Held(true, format!("{l:?} claiming {c}"))
}
// ---------------------------------------------------------------- C12
pub fn parse(_: u64, r: &mut Rng) -> Out {
    let d = 1 + r.below(4) as u32;
    let l = gen(r, d, false);
    let j = js(&l);
    let rl: Result<BinProtRule, _> = serde_json::from_str(&j.to_string());
    want!(rl.is_ok(), "layout rule {j} does not parse: {}", rl.unwrap_err());
    let s = serde_json::to_value(rl.as_ref().unwrap()).unwrap();
    want!(s == shown(&l), "layout rule {j} parses to {s}");
    let whole = json!({"layout_loc": "x", "version_opt": if r.bool() { json!(3) } else { J::Null }, "type_decl": name(r), "bin_io_derived": r.bool(), "bin_prot_rule": j, "module_path": "ignored"});
    let p: Result<Layout, _> = serde_json::from_str(&whole.to_string());
    want!(p.is_ok(), "layout {whole} does not parse: {}", p.unwrap_err());
    let p = serde_json::to_value(p.unwrap()).unwrap();
    for k in ["layout_loc", "version_opt", "type_decl", "bin_io_derived"] { want!(p[k] == whole[k], "field {k} of the layout becomes {}", p[k]); }
    want!(p["bin_prot_rule"] == shown(&l), "the rule of the layout becomes {}", p["bin_prot_rule"]);
    let mut bad = whole.clone(); let k = *r.pick(&["layout_loc", "type_decl", "bin_io_derived", "bin_prot_rule"]);
    let old = bad.as_object_mut().unwrap().remove(k).unwrap(); if r.bool() { bad[format!("{k}s")] = old; } else if r.bool() { bad[k] = json!(17); }
    let p: Result<Layout, _> = serde_json::from_str(&bad.to_string());
    want!(p.is_err(), "a layout without {k} parses: {bad}");
    Held(true, cut(format!("{l:?}")))
}
pub fn malformed(_: u64, r: &mut Rng) -> Out {
    // one node of a good layout is spoiled: the parse must fail, never produce something else
    let d = 1 + r.below(3) as u32;
    let l = gen(r, d, false);
    let mut j = js(&l);
    fn nodes(j: &mut J, f: &mut dyn FnMut(&mut J)) { let is = matches!(j, J::Array(a) if matches!(a.first(), Some(J::String(s)) if TAGS.contains(&s.as_str()))); if is { f(j) } match j { J::Array(a) => a.iter_mut().for_each(|x| nodes(x, f)), J::Object(o) => o.values_mut().for_each(|x| nodes(x, f)), _ => {} } }
    // a member of an object is left out, renamed or of another kind
    fn members(j: &mut J, f: &mut dyn FnMut(&mut serde_json::Map<String, J>, &str)) { match j { J::Array(a) => a.iter_mut().for_each(|x| members(x, f)), J::Object(o) => { let ks: Vec<String> = o.keys().filter(|k| NEEDED.contains(&k.as_str())).cloned().collect(); for k in &ks { f(o, k); } o.values_mut().for_each(|x| members(x, f)) } _ => {} } }
    let mut m = 0; members(&mut j, &mut |_, _| m += 1);
    if m > 0 && r.bool() {
        let k = r.below(m); let how = r.below(6); let mut i = 0; let mut what = String::new();
        let pick = r.below(6) as usize;
        members(&mut j, &mut |o, key| { if i == k { let old = o.remove(key).unwrap(); match how {
            0 | 1 => what = format!("{key} left out"),
            2 => { let t = match pick { 0 => key.to_uppercase(), 1 => key.replace('_', "-"), 2 => key.replace('_', ""), 3 => key.split('_').last().unwrap_or("").to_string() + " ", 4 => format!("{key}s"), _ => format!("_{key}") }; let t = if t == key { format!("{t}x") } else { t }; o.insert(t, old); what = format!("{key} renamed") }
            3 => { o.insert(key.into(), J::Null); what = format!("{key} null") }
            4 => { let t = match &old { J::Number(_) => [json!("1"), json!(1.5), json!(1u64 << 40), json!(-(1i64 << 40)), json!([1]), json!(true)][pick].clone(), J::String(t) => [json!(3), json!([t]), json!({}), json!(true), json!([]), json!(0)][pick].clone(), _ => [json!(3), json!("Unit"), json!({}), json!(true), json!(""), json!({"a": []})][pick].clone() }; o.insert(key.into(), t); what = format!("{key} of another kind") }
            _ => { let t = match old { J::Array(mut a) => { if matches!(a.first(), Some(J::String(_))) { json!([a]) } else { a.push(json!("Unit")); J::Array(a) } } J::Number(_) => json!({}), J::String(t) => json!({ "name": t }), o => json!([o, o]) }; o.insert(key.into(), t); what = format!("{key} wrapped") }
        } } i += 1; });
        let g: Result<BinProtRule, _> = serde_json::from_str(&j.to_string());
        want!(g.is_err(), "{j} ({what}) parses as {:?}", g.unwrap());
        return Held(true, cut(format!("{what}: {j}")));
    }
    let mut n = 0; nodes(&mut j, &mut |_| n += 1);
    let k = r.below(n); let how = r.below(6); let mut i = 0; let mut what = "";
    nodes(&mut j, &mut |x| { if i == k { let a = x.as_array_mut().unwrap(); match how {
        0 => { a[0] = json!("Nonsense"); what = "unknown tag" } 1 => { a.push(json!(["Unit"])); a.push(json!(["Unit"])); a.push(json!(["Unit"])); what = "too many items" }
        2 => { a.clear(); what = "empty" } 3 => { let t = a[0].as_str().unwrap().to_lowercase(); a[0] = json!(t); what = "wrong case" }
        4 => { a[0] = json!(7); what = "tag is a number" } _ => { let one = a.len() == 1; if one { a.push(json!(["Unit"])); what = "argument on a leaf" } else { a.truncate(1); what = "missing argument" } } } } i += 1; });
    let g: Result<BinProtRule, _> = serde_json::from_str(&j.to_string());
    want!(g.is_err(), "{j} ({what}) parses as {:?}", g.unwrap());
    Held(true, cut(format!("{what}: {j}")))
}
const NEEDED: [&str; 14] = ["field_name", "field_rule", "ctor_name", "index", "ctor_args", "key_rule", "value_rule", "polyvar_name", "hash", "polyvar_args", "params", "layout_id", "source_type_decl", "ref_rule"];
const TAGS: [&str; 30] = ["Nat0", "Unit", "Bool", "String", "Char", "Int", "Int32", "Int64", "Native_int", "Float", "Bigstring", "Option", "Record", "Tuple", "Sum", "Polyvar", "List", "Hashtable", "Reference", "Type_var", "Self_reference", "Custom", "Vec", "Type_abstraction", "Type_closure", "Tagged", "Inherited", "Resolved", "Unresolved", "?"];
/// the layouts in the repository parse, and every node is kept
pub fn shipped(i: u64, _: &mut Rng) -> Out {
    let dirs = ["/repo/protocol/layouts", "/repo/protocol/bin-prot/tests/layouts"];
    let mut fs: Vec<_> = dirs.iter().filter_map(|d| std::fs::read_dir(d).ok()).flatten().filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map_or(false, |e| e == "json") && p.metadata().map_or(false, |m| m.len() < 3_000_000)).collect();
    fs.sort();
    let f = match fs.get(i as usize) { Some(f) => f, None => return Held(false, "none".into()) };
    let s = match std::fs::read_to_string(f) { Ok(s) => s, Err(_) => return Held(false, "unreadable".into()) };
    let mut d = serde_json::Deserializer::from_str(&s); d.disable_recursion_limit();
    let j = match J::deserialize(&mut d) { Ok(j) => j, Err(_) => return Held(false, "not JSON".into()) };
    if j.get("bin_prot_rule").is_none() { return Held(false, "not a layout".into()); }
    let mut d = serde_json::Deserializer::from_str(&s); d.disable_recursion_limit();
    let l = match Layout::deserialize(&mut d) { Ok(l) => l, Err(e) => return Broken(format!("{f:?} does not parse: {e}")) };
    let mut want = 0usize; count(&j["bin_prot_rule"], &mut want);
    let got = format!("{:?}", l.bin_prot_rule).matches("field_name").count();
    want!(got == want, "{f:?} has {want} record fields but the parsed layout {got}");
    Held(true, format!("{f:?} {want} fields"))
}
fn count(j: &J, n: &mut usize) { match j { J::Array(a) => a.iter().for_each(|x| count(x, n)), J::Object(o) => { if o.contains_key("field_name") { *n += 1 } o.values().for_each(|x| count(x, n)) } _ => {} } }
// ---------------------------------------------------------------- C15
const KEYS: [&str; 16] = ["a", "b", "ab", "", "\u{e9}", "zz", "A", "B", "aB", "ba", "a_b", "a-b", "a ", "0", "1", "\u{c9}"];
/// nearly the same key
fn twisted(r: &mut Rng, base: String) -> String {
    let c = *r.pick(&['_', '\'', '-', '.', ' ', '0', '1', 'a', 'z', '/', '"', '#', '[', ']', '\n', '\u{e9}', '?', '*']);
    let c = if r.one_in(3) { r.dict_char() } else { c };
    if r.one_in(12) { if let Some(d) = r.dict_str() { return if r.bool() { base + &d } else { d + &base }; } }
    match r.below(14) { 0 => base.to_uppercase(), 1 => base.to_lowercase(), 2 | 3 => format!("{base}{c}"), 4 => format!("{c}{base}"), 5 => base.chars().rev().collect(), 6 => { let mut b = base; b.pop(); b }, 7 => base.chars().skip(1).collect(), 8 => format!("{base}{base}"), 9 => base.replace('_', "-"), 10 => format!("{base}{c}{base}"), 11 => format!("{base}\0"), 12 => { let n = r.below(base.chars().count() as u64 + 1) as usize; let mut v: Vec<char> = base.chars().collect(); v.insert(n, c); v.into_iter().collect() }
        _ => { let mut v: Vec<char> = base.chars().collect(); if !v.is_empty() { let n = r.below(v.len() as u64) as usize; v[n] = c; } v.into_iter().collect() } }
}
pub fn index(_: u64, r: &mut Rng) -> Out {
    fn v(r: &mut Rng, d: u32) -> Value { let l = gen(r, d, true); let mut o = vec![]; sample(r, &l, &mut o, &mut 40) }
    let mut x = match r.below(6) { 0 => Value::List((0..if r.below(40) == 0 { 300 } else { r.size(6, 1 << 17) }).map(|_| v(r, 0)).collect()), 1 => Value::Tuple((0..if r.below(40) == 0 { 270 } else { r.size(5, 600) }).map(|_| v(r, 1)).collect()), 2 | 3 => Value::Record((0..r.size(6, 600)).map(|_| (if r.one_in(20) { name(r) } else { let k = KEYS[r.below(KEYS.len() as u64) as usize].to_string(); if r.one_in(8) { twisted(r, k) } else { k } }, v(r, 0))).collect()), 4 => Value::String(vec![1, 2]), _ => v(r, 2) };
    let wrap = r.below(4);
    if wrap == 1 { x = Value::Sum { name: "n".into(), index: 0, value: Box::new(x) } } else if wrap == 2 { x = Value::Sum { name: "n".into(), index: 1, value: Box::new(Value::Sum { name: "m".into(), index: 0, value: Box::new(x) }) } } else if wrap == 3 && r.bool() { x = Value::Polyvar { name: "n".into(), tag: 3, value: Box::new(x) } }
    let target: Option<&Value> = match &x { Value::Sum { value, .. } => Some(&**value), y => Some(y) };
    let i = match r.below(8) { 0 => r.below(310) as usize, 1 => usize::MAX - r.below(3) as usize, 2 => (r.below(4) as usize) << [8, 16, 32, 63][r.below(4) as usize], 3 => (1usize << [8, 16, 32, 63][r.below(4) as usize]) + r.below(3) as usize, _ => r.size(6, 1 << 40) as usize };
    let wi: Option<&Value> = match target { Some(Value::List(a)) | Some(Value::Tuple(a)) => a.get(i), _ => None };
    let mut probe_key: Option<String> = None;
    let there = wi.is_some();
    let g = caught(|| &x[i]);
    want!(match (&g, wi) { (Ok(a), Some(b)) => std::ptr::eq(*a, b), (Err(_), None) => true, _ => false }, "indexing {x:?} with {i} gives {g:?}, expected {wi:?}");
    // a key that is there, or a near miss of one
    if r.one_in(3) {
        let t = match &mut x { Value::Sum { value, .. } => &mut **value, y => y };
        if let Value::Record(a) = t { if !a.is_empty() { let n = r.below(a.len() as u64) as usize; let q = a[n].0.clone(); a[n].0 = twisted(r, q.clone()); probe_key = Some(q); } }
    }
    let target: Option<&Value> = match &x { Value::Sum { value, .. } => Some(&**value), y => Some(y) };
    let base = match target { Some(Value::Record(a)) if !a.is_empty() && r.below(4) != 0 => r.pick(a).0.clone(), _ => r.pick(&KEYS).to_string() };
    let ks = if let Some(q) = probe_key { q } else if r.below(14) < 9 { twisted(r, base) } else { base };
    let k: &str = &ks;
    let ws: Option<&Value> = match target { Some(Value::Record(a)) => a.iter().find(|e| e.0 == k).map(|e| &e.1), _ => None };
    let g = caught(|| &x[k]);
    want!(match (&g, ws) { (Ok(a), Some(b)) => std::ptr::eq(*a, b), (Err(_), None) => true, _ => false }, "indexing {x:?} with {k:?} gives {g:?}, expected {ws:?}");
    let g = caught(|| &x[k.to_string()]);
    want!(match (&g, ws) { (Ok(a), Some(b)) => std::ptr::eq(*a, b), (Err(_), None) => true, _ => false }, "indexing {x:?} with String {k:?} gives {g:?}, expected {ws:?}");
    let g = caught(|| x.inner());
    want!(match (&g, &x) { (Ok(None), Value::Option(None)) => true, (Ok(Some(a)), Value::Option(Some(b))) => same(a, b), (Err(_), Value::Option(_)) => false, (Err(_), _) => true, _ => false }, "inner of {x:?} gives {g:?}");
    Held(there || ws.is_some(), cut(format!("{x:?}[{i}][{k:?}]")))
}
