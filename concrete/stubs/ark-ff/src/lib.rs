//! stand-in: only the integer type the merkle crate builds its constants with
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct BigInteger256(pub [u64; 4]);
impl BigInteger256 { pub const fn new(v: [u64; 4]) -> Self { Self(v) } }
