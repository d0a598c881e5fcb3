pub use strum_macros::EnumString;
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum ParseError { VariantNotFound }
impl std::fmt::Display for ParseError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "Matching variant not found") } }
impl std::error::Error for ParseError {}
