use crate::harness::*;
use crate::rng::Rng;
use ark_ff::{BigInteger256, Fp};
use num::BigUint;
use proof_systems::*;
use proof_systems::bitvec::prelude::*;
macro_rules! want { ($c:expr, $($f:tt)*) => { if !$c { return Broken(format!($($f)*)) } } }

pub fn order() -> BigUint { (BigUint::from(1u8) << 254) + BigUint::from(45560315531419706090280762371685220353u128) }
pub fn fp(b: &BigUint) -> Fp { BigInteger256::try_from(b.clone()).unwrap().into() }
pub fn big(f: Fp) -> BigUint { BigInteger256::from(f).into() }
/// a number below 2^bits, concentrated on the ends
pub fn below_bits(r: &mut Rng, bits: u32) -> BigUint {
    let top = BigUint::from(1u8) << bits;
    let v = match r.below(5) { 0 => BigUint::from(r.below(3)), 1 => top.clone() - 1u8 - BigUint::from(r.below(2)) % &top, 2 => BigUint::from(1u8) << r.below(bits.max(1) as u64), _ => BigUint::from_bytes_le(&(0..32).map(|_| r.next() as u8).collect::<Vec<_>>()) };
    v % top
}
pub fn elem(r: &mut Rng) -> BigUint { if r.one_in(4) { order() - 1u8 - BigUint::from(r.below(4)) } else { below_bits(r, 255) % order() } }
fn width(r: &mut Rng) -> u32 { match r.below(6) { 0 => 1, 1 => *r.pick(&[2u32, 8, 32, 64, 128]), 2 => 253 + r.below(2) as u32, 3 => r.below(4) as u32, 4 => 127 + r.below(2) as u32, _ => r.below(255) as u32 } }
/// greedy packing from the most significant end, each element below 2^255
pub fn model(fields: &[BigUint], packed: &[(BigUint, u32)]) -> Vec<BigUint> {
    let mut o = fields.to_vec(); let mut cur: Vec<&(BigUint, u32)> = vec![]; let mut used = 0;
    let val = |c: &[&(BigUint, u32)]| { let mut at = 0; let mut s = BigUint::from(0u8); for (v, w) in c.iter().rev() { s += v << at; at += *w; } s };
    for p in packed { if used + p.1 >= 255 { o.push(val(&cur)); cur.clear(); used = 0; } cur.push(p); used += p.1; }
    if used > 0 { o.push(val(&cur)); }
    o
}
pub fn shown(v: &[BigUint]) -> String { v.iter().map(|x| x.to_str_radix(16)).collect::<Vec<_>>().join(",") }
pub fn pack(_: u64, r: &mut Rng) -> Out {
    let nf = r.below(4); let np = if r.one_in(8) { r.size(20, 600) } else { r.below(12) };
    let fields: Vec<BigUint> = (0..nf).map(|_| elem(r)).collect();
    let packed: Vec<(BigUint, u32)> = (0..np).map(|_| { let w = width(r); (below_bits(r, w), w) }).collect();
    let c = ChunkedROInput { fields: fields.iter().map(fp).collect(), packed: packed.iter().map(|(v, w)| (fp(v), *w)).collect() };
    let d = format!("fields {} packed {:?}", shown(&fields), packed.iter().map(|(v, w)| format!("{}:{w}", v.to_str_radix(16))).collect::<Vec<_>>());
    let got: Vec<BigUint> = match caught(|| c.clone().into_fields()) { Ok(v) => v.into_iter().map(big).collect(), Err(e) => return Broken(format!("into_fields of {d}: panicked: {e}")) };
    let w = model(&fields, &packed);
    want!(got == w, "into_fields of {d} is {}, expected {}", shown(&got), shown(&w));
    let ro: mina_hasher::ROInput = c.into();
    want!(ro.parts().0.iter().map(|x| big(*x)).collect::<Vec<_>>() == w && ro.parts().1.is_empty(), "oracle input of {d}");
    Held(np > 1, d)
}
pub fn build(_: u64, r: &mut Rng) -> Out {
    let mut c = ChunkedROInput::new(); let (mut f, mut p): (Vec<BigUint>, Vec<(BigUint, u32)>) = (vec![], vec![]); let mut log = String::new();
    for _ in 0..1 + r.below(6) {
        match r.below(7) {
            0 => { let x = elem(r); log += &format!(" field {x:x}"); f.push(x.clone()); c = c.append_field(fp(&x)); }
            1 => { let w = width(r); let x = below_bits(r, w); log += &format!(" packed {x:x}:{w}"); p.push((x.clone(), w)); c = c.append_packed(fp(&x), w); }
            2 => { let n = r.size(5, 70); let b: Vec<u8> = (0..n).map(|_| r.next() as u8).collect(); log += &format!(" bytes {}", hex(&b)); for x in &b { for i in 0..8 { p.push((BigUint::from((x >> i) & 1), 1)); } } c = c.append_bytes(&b); }
            3 => { let b = r.bool(); log += &format!(" bool {b}"); p.push((BigUint::from(b as u8), 1)); c = c.append_bool(b); }
            4 => { let x = r.edge_u64() as u32; log += &format!(" u32 {x}"); p.push((BigUint::from(x), 32)); c = c.append_u32(x); }
            5 => { let x = r.edge_u64(); log += &format!(" u64 {x}"); p.push((BigUint::from(x), 64)); c = c.append_u64(x); }
            _ => { let x = elem(r); let y = r.edge_u64() as u32; log += &format!(" nested {x:x} {y}"); let o = ChunkedROInput::new().append_field(fp(&x)).append_u32(y); f.push(x); p.push((BigUint::from(y), 32)); c = c.append(o); }
        }
    }
    want!(c.fields.iter().map(|x| big(*x)).collect::<Vec<_>>() == f && c.packed.iter().map(|(x, w)| (big(*x), *w)).collect::<Vec<_>>() == p, "appending{log} gives {c}");
    want!(c.clone().into_fields().into_iter().map(big).collect::<Vec<_>>() == model(&f, &p), "into_fields after appending{log}");
    Held(true, log)
}
pub fn bits(_: u64, r: &mut Rng) -> Out {
    let n = match r.below(4) { 0 => r.below(10), 1 => 250 + r.below(10), _ => r.below(300) } as usize;
    let k = r.below(3); let src = if k == 0 { elem(r) + BigUint::from(r.below(8)) } else { below_bits(r, 255) };
    let b: Vec<bool> = (0..n).map(|i| if i < 256 { src.bit(i as u64) } else { k == 1 }).collect();
    let v = b.iter().rev().fold(BigUint::from(0u8), |a, x| a * 2u8 + BigUint::from(*x as u8));
    let w = if n <= 255 && v < order() { Some(v.clone()) } else { None };
    let g = match caught(|| ChunkedROInput::bits_to_fp(b.iter().copied().collect::<BitVec<u8>>())) { Ok(g) => g.ok().map(big), Err(e) => return Broken(format!("bits_to_fp of {n} bits {v:x}: panicked: {e}")) };
    want!(g == w, "bits_to_fp of {n} bits {v:x} gives {g:?}");
    Held(n > 1, format!("{n} {v:x}"))
}
