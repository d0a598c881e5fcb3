//! stand-in for mina_hasher: the random oracle input as it is there, the two sponges as mixing functions of
//! (which sponge, domain string, fields), so equal outputs mean equal inputs up to 250 bit collisions
use o1_utils::FieldHelpers;
pub use ark_ff::{Fp, Fq};
#[derive(Clone, Debug, Default, PartialEq)]
pub struct ROInput { fields: Vec<Fp>, bits: Vec<bool> }
impl ROInput {
    pub fn new() -> Self { Self::default() }
    pub fn append_roinput(mut self, mut o: ROInput) -> Self { self.fields.append(&mut o.fields); self.bits.extend(o.bits); self }
    pub fn append_hashable(self, h: &impl Hashable) -> Self { self.append_roinput(h.to_roinput()) }
    pub fn append_field(mut self, f: Fp) -> Self { self.fields.push(f); self }
    pub fn append_scalar(mut self, s: Fq) -> Self { self.bits.extend(s.to_bits()); self }
    pub fn append_bool(mut self, b: bool) -> Self { self.bits.push(b); self }
    pub fn append_bytes(mut self, b: &[u8]) -> Self { for x in b { for i in 0..8 { self.bits.push((x >> i) & 1 == 1) } } self }
    pub fn append_u32(self, x: u32) -> Self { self.append_bytes(&x.to_le_bytes()) }
    pub fn append_u64(self, x: u64) -> Self { self.append_bytes(&x.to_le_bytes()) }
    pub fn to_fields(&self) -> Vec<Fp> {
        let mut v = self.fields.clone();
        for c in self.bits.chunks(254) { let mut w = [0u64; 4]; for (i, b) in c.iter().enumerate() { if *b { w[i / 64] |= 1 << (i % 64) } } v.push(ark_ff::BigInteger256::new(w).into()); }
        v
    }
    /// what the oracle sees, for the probes
    pub fn parts(&self) -> (&[Fp], &[bool]) { (&self.fields, &self.bits) }
}
pub trait DomainParameter: Clone { fn into_bytes(self) -> Vec<u8>; }
impl DomainParameter for () { fn into_bytes(self) -> Vec<u8> { vec![] } }
impl DomainParameter for u32 { fn into_bytes(self) -> Vec<u8> { self.to_le_bytes().to_vec() } }
impl DomainParameter for u64 { fn into_bytes(self) -> Vec<u8> { self.to_le_bytes().to_vec() } }
pub trait Hashable: Clone { type D: DomainParameter; fn to_roinput(&self) -> ROInput; fn domain_string(d: Self::D) -> Option<String>; }
pub trait Hasher<H: Hashable> { fn init(&mut self, d: H::D) -> &mut dyn Hasher<H>; fn update(&mut self, h: &H) -> &mut dyn Hasher<H>; fn digest(&mut self) -> Fp; fn hash(&mut self, h: &H) -> Fp; }
#[derive(Clone)] pub struct PoseidonHasher<H: Hashable> { kind: u64, dom: Option<String>, seen: Vec<Fp>, p: std::marker::PhantomData<H> }
pub type PoseidonHasherLegacy<H> = PoseidonHasher<H>;
pub type PoseidonHasherKimchi<H> = PoseidonHasher<H>;
pub fn create_legacy<H: Hashable>(d: H::D) -> PoseidonHasher<H> { PoseidonHasher { kind: 0, dom: H::domain_string(d), seen: vec![], p: std::marker::PhantomData } }
pub fn create_kimchi<H: Hashable>(d: H::D) -> PoseidonHasher<H> { PoseidonHasher { kind: 1, dom: H::domain_string(d), seen: vec![], p: std::marker::PhantomData } }
impl<H: Hashable> Hasher<H> for PoseidonHasher<H> {
    fn init(&mut self, d: H::D) -> &mut dyn Hasher<H> { self.dom = H::domain_string(d); self.seen.clear(); self }
    fn update(&mut self, h: &H) -> &mut dyn Hasher<H> { self.seen.extend(h.to_roinput().to_fields()); self }
    fn digest(&mut self) -> Fp { let r = sponge(self.kind, &self.dom, &self.seen); self.seen.clear(); r }
    fn hash(&mut self, h: &H) -> Fp { self.seen.clear(); self.update(h); self.digest() }
}
pub fn sponge(kind: u64, domain: &Option<String>, fields: &[Fp]) -> Fp {
    let mut w = vec![kind, domain.is_some() as u64];
    if let Some(d) = domain { w.push(d.len() as u64); w.extend(d.bytes().map(u64::from)); }
    w.push(fields.len() as u64);
    for f in fields { w.extend(ark_ff::BigInteger256::from(*f).0); }
    let mut s = [0x243f6a8885a308d3u64, 0x13198a2e03707344, 0xa4093822299f31d0, 0x082efa98ec4e6c89];
    for x in w { for i in 0..4 {
        let mut z = s[i] ^ s[(i + 1) % 4].rotate_left(23) ^ x.wrapping_add(i as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        s[i] = z ^ (z >> 31);
    } }
    s[3] &= (1 << 60) - 1;
    ark_ff::BigInteger256::new(s).into()
}
