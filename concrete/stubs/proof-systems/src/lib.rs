//! stand-in for the proof-systems shim: a field element is four words, and the two sponges are mixing functions
//! of (which sponge, domain string, fields), so equal outputs mean equal inputs up to 256 bit collisions
use serde::{Deserialize, Deserializer, Serialize, Serializer};
pub mod mina_hasher {
    pub use ark_ff::BigInteger256;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
    pub struct Fp(pub [u64; 4]);
    impl PartialOrd for Fp { fn partial_cmp(&self, o: &Fp) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
    impl Ord for Fp { fn cmp(&self, o: &Fp) -> std::cmp::Ordering { self.0.iter().rev().cmp(o.0.iter().rev()) } }
    impl From<BigInteger256> for Fp { fn from(b: BigInteger256) -> Fp { Fp(b.0) } }
    impl From<u64> for Fp { fn from(b: u64) -> Fp { Fp([b, 0, 0, 0]) } }
    #[derive(Clone, Debug, Default, PartialEq)]
    pub struct ROInput { pub fields: Vec<Fp> }
    impl ROInput {
        pub fn new() -> Self { Self::default() }
        pub fn append_field(mut self, f: Fp) -> Self { self.fields.push(f); self }
    }
    pub trait Hashable: Clone { type D; fn to_roinput(&self) -> ROInput; fn domain_string(d: Self::D) -> Option<String>; }
    pub trait Hasher<H: Hashable> { fn hash(&mut self, input: &H) -> Fp; }
    pub fn sponge(kind: u64, domain: &Option<String>, fields: &[Fp]) -> Fp {
        let mut w = vec![kind, domain.is_some() as u64];
        if let Some(d) = domain { w.push(d.len() as u64); w.extend(d.bytes().map(u64::from)); }
        w.push(fields.len() as u64);
        for f in fields { w.extend(f.0); }
        let mut s = [0x243f6a8885a308d3u64, 0x13198a2e03707344, 0xa4093822299f31d0, 0x082efa98ec4e6c89];
        for x in w { for i in 0..4 {
            let mut z = s[i] ^ s[(i + 1) % 4].rotate_left(23) ^ x.wrapping_add(i as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15);
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            s[i] = z ^ (z >> 31);
        } }
        Fp(s)
    }
    pub struct Sponge { kind: u64, domain: Option<String> }
    impl<H: Hashable> Hasher<H> for Sponge { fn hash(&mut self, input: &H) -> Fp { sponge(self.kind, &self.domain, &input.to_roinput().fields) } }
    pub fn create_legacy<H: Hashable>(d: H::D) -> impl Hasher<H> { Sponge { kind: 1, domain: H::domain_string(d) } }
    pub fn create_kimchi<H: Hashable>(d: H::D) -> impl Hasher<H> { Sponge { kind: 2, domain: H::domain_string(d) } }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct FpJson(pub mina_hasher::Fp);
impl Serialize for FpJson { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { let w = self.0 .0; s.serialize_str(&format!("{:016x}{:016x}{:016x}{:016x}", w[3], w[2], w[1], w[0])) } }
impl<'de> Deserialize<'de> for FpJson {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let e = || <D::Error as serde::de::Error>::custom("bad field element");
        if s.len() != 64 { return Err(e()); }
        let mut w = [0u64; 4];
        for i in 0..4 { w[3 - i] = u64::from_str_radix(s.get(i * 16..i * 16 + 16).ok_or_else(e)?, 16).map_err(|_| e())?; }
        Ok(FpJson(mina_hasher::Fp(w)))
    }
}
