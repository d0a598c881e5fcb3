//! stand-in for mina_signer: addresses as they are there, signatures by a mixing function (not secure, sound for equality tests)
use mina_hasher::{sponge, DomainParameter, Hashable};
use o1_utils::FieldHelpers;
pub type BaseField = ark_ff::Fp;
pub type ScalarField = ark_ff::Fq;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum NetworkId { TESTNET = 0, MAINNET = 1 }
impl From<NetworkId> for u8 { fn from(n: NetworkId) -> u8 { n as u8 } }
impl DomainParameter for NetworkId { fn into_bytes(self) -> Vec<u8> { vec![self as u8] } }
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct CompressedPubKey { pub x: BaseField, pub is_odd: bool }
#[derive(Clone, Debug, PartialEq, Eq)] pub struct AddressError(String);
pub use AddressError as PubKeyError;
impl std::fmt::Display for AddressError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
impl std::error::Error for AddressError {}
impl CompressedPubKey {
    pub fn empty() -> Self { Self::default() }
    pub fn into_address(&self) -> String { let mut v = vec![1u8, 1]; v.extend(self.x.to_bytes()); v.push(self.is_odd as u8); bs58::encode(v).with_check_version(0xcb).into_string() }
    pub fn from_address(a: &str) -> Result<Self, AddressError> {
        if a.len() != 55 { return Err(AddressError("Invalid address length".into())); }
        let b = bs58::decode(a).with_check(Some(0xcb)).into_vec().map_err(|e| AddressError(e.to_string()))?;
        if b.len() != 36 || b[1..3] != [1, 1] { return Err(AddressError("Invalid address header".into())); }
        let x = BaseField::from_bytes(&b[3..35]).map_err(|e| AddressError(e.to_string()))?;
        match b[35] { 0 | 1 => Ok(Self { x, is_odd: b[35] == 1 }), _ => Err(AddressError("Invalid parity".into())) }
    }
    pub fn from_bytes(b: &[u8]) -> Result<Self, AddressError> { if b.len() != 33 { return Err(AddressError("length".into())); } Ok(Self { x: BaseField::from_bytes(&b[..32]).map_err(|e| AddressError(e.to_string()))?, is_odd: b[32] == 1 }) }
    pub fn from_hex(s: &str) -> Result<Self, AddressError> { Self::from_bytes(&hex::decode(s).map_err(|e| AddressError(e.to_string()))?) }
}
#[derive(Clone, Debug, PartialEq, Eq)] pub struct PubKey(CompressedPubKey);
impl PubKey { pub fn from_address(a: &str) -> Result<Self, AddressError> { Ok(Self(CompressedPubKey::from_address(a)?)) } pub fn into_compressed(&self) -> CompressedPubKey { self.0.clone() } pub fn into_address(&self) -> String { self.0.into_address() } }
impl CompressedPubKey { pub fn into_pubkey(&self) -> PubKey { PubKey(self.clone()) } }
impl TryFrom<CompressedPubKey> for PubKey { type Error = AddressError; fn try_from(c: CompressedPubKey) -> Result<Self, AddressError> { Ok(PubKey(c)) } }
impl From<CompressedPubKey> for Option<PubKey> where { fn from(c: CompressedPubKey) -> Self { Some(PubKey(c)) } }
#[derive(Clone, Debug, PartialEq, Eq)] pub struct Signature { pub rx: BaseField, pub s: ScalarField }
impl Signature { pub fn new(rx: BaseField, s: ScalarField) -> Self { Self { rx, s } } }
impl std::fmt::Display for Signature { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}{}", self.rx.to_hex(), self.s.to_hex()) } }
#[derive(Clone, Debug, PartialEq, Eq)] pub struct Keypair { pub public: PubKey }
impl Keypair { pub fn from_hex(s: &str) -> Result<Self, AddressError> { let x = sponge(7, &Some(s.into()), &[]); Ok(Self { public: PubKey(CompressedPubKey { x, is_odd: false }) }) } }
pub trait Signer<H: Hashable> { fn sign(&mut self, k: &Keypair, m: &H) -> Signature; fn verify(&mut self, s: &Signature, p: &PubKey, m: &H) -> bool; }
pub struct Schnorr<H: Hashable> { d: H::D, kind: u64 }
pub fn create_legacy<H: Hashable>(d: H::D) -> Schnorr<H> { Schnorr { d, kind: 0 } }
pub fn create_kimchi<H: Hashable>(d: H::D) -> Schnorr<H> { Schnorr { d, kind: 1 } }
impl<H: Hashable> Schnorr<H> { fn mix(&self, p: &PubKey, m: &H) -> BaseField { let mut v = m.to_roinput().to_fields(); v.push(p.0.x); v.push(BaseField::from(p.0.is_odd)); sponge(self.kind + 2, &H::domain_string(self.d.clone()), &v) } }
impl<H: Hashable> Signer<H> for Schnorr<H> {
    fn sign(&mut self, k: &Keypair, m: &H) -> Signature { Signature { rx: self.mix(&k.public, m), s: ScalarField::from(1u64) } }
    fn verify(&mut self, s: &Signature, p: &PubKey, m: &H) -> bool { s.rx == self.mix(p, m) && s.s == ScalarField::from(1u64) }
}
