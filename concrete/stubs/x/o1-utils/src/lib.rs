//! stand-in for o1_utils
use ark_ff::PrimeField;
pub mod field_helpers {
    use super::*;
    #[derive(Debug, Clone, PartialEq)]
    pub enum FieldHelpersError { DeserializeBytes, DeserializeBits, DecodeHex }
    impl std::fmt::Display for FieldHelpersError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{self:?}") } }
    impl std::error::Error for FieldHelpersError {}
    pub type Result<T> = std::result::Result<T, FieldHelpersError>;
    pub trait FieldHelpers: PrimeField {
        fn from_bytes(b: &[u8]) -> Result<Self> { let mut w = [0u64; 4]; if b.len() < 32 { return Err(FieldHelpersError::DeserializeBytes); } for i in 0..4 { w[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap()); } Self::from_repr(ark_ff::BigInteger256::new(w)).ok_or(FieldHelpersError::DeserializeBytes) }
        fn from_hex(s: &str) -> Result<Self> { Self::from_bytes(&hex::decode(s).map_err(|_| FieldHelpersError::DecodeHex)?) }
        fn to_bytes(&self) -> Vec<u8> { ark_ff::BigInteger::to_bytes_le(&self.into_repr()) }
        fn to_hex(&self) -> String { hex::encode(self.to_bytes()) }
        fn to_bits(&self) -> Vec<bool> { let r = self.into_repr(); (0..255).map(|i| ark_ff::BigInteger::get_bit(&r, i)).collect() }
    }
    impl<F: PrimeField> FieldHelpers for F {}
}
pub use field_helpers::FieldHelpers;
