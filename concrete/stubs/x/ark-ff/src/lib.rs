//! stand-in for ark_ff: a prime field element is its canonical value, arithmetic modulo the order
use num::bigint::BigUint;
use std::ops::{Add, Mul, Neg, Sub};
pub use num::{One, Zero};
pub mod fields { pub use super::{Field, PrimeField}; }
pub mod bytes { pub use super::{FromBytes, ToBytes}; }
pub use BigInteger256 as BigInt;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default, Hash)]
pub struct BigInteger256(pub [u64; 4]);
impl BigInteger256 { pub const fn new(v: [u64; 4]) -> Self { Self(v) } }
impl PartialOrd for BigInteger256 { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for BigInteger256 { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.0.iter().rev().cmp(o.0.iter().rev()) } }
pub trait BigInteger: Sized + Copy + Ord { fn muln(&mut self, n: u32); fn divn(&mut self, n: u32); fn num_bits(&self) -> u32; fn get_bit(&self, i: usize) -> bool; fn is_odd(&self) -> bool { self.get_bit(0) } fn is_even(&self) -> bool { !self.get_bit(0) } fn to_bytes_le(&self) -> Vec<u8>; fn to_bytes_be(&self) -> Vec<u8> { let mut v = self.to_bytes_le(); v.reverse(); v } }
impl BigInteger for BigInteger256 {
    fn muln(&mut self, n: u32) { if n >= 256 { *self = Self::default(); return; } let b: BigUint = (*self).into(); let m = BigUint::from(1u8) << 256; let b: BigUint = (b << n) % m; *self = b.try_into().unwrap(); }
    fn divn(&mut self, n: u32) { let b: BigUint = (*self).into(); let b: BigUint = b >> n; *self = b.try_into().unwrap(); }
    fn num_bits(&self) -> u32 { let b: BigUint = (*self).into(); b.bits() as u32 }
    fn get_bit(&self, i: usize) -> bool { i < 256 && (self.0[i / 64] >> (i % 64)) & 1 == 1 }
    fn to_bytes_le(&self) -> Vec<u8> { self.0.iter().flat_map(|x| x.to_le_bytes()).collect() }
}
impl From<BigInteger256> for BigUint { fn from(b: BigInteger256) -> BigUint { BigUint::from_bytes_le(&b.to_bytes_le()) } }
impl TryFrom<BigUint> for BigInteger256 { type Error = String;
    fn try_from(b: BigUint) -> Result<Self, String> { let mut v = b.to_bytes_le(); if v.len() > 32 { return Err("Integer is too large".into()); } v.resize(32, 0); let mut o = [0u64; 4]; for i in 0..4 { o[i] = u64::from_le_bytes(v[8 * i..8 * i + 8].try_into().unwrap()); } Ok(Self(o)) } }
impl From<u64> for BigInteger256 { fn from(x: u64) -> Self { Self([x, 0, 0, 0]) } }
pub trait FromBytes: Sized { fn read<R: std::io::Read>(r: R) -> std::io::Result<Self>; }
pub trait ToBytes { fn write<W: std::io::Write>(&self, w: W) -> std::io::Result<()>; }
impl FromBytes for BigInteger256 { fn read<R: std::io::Read>(mut r: R) -> std::io::Result<Self> { let mut b = [0u8; 32]; r.read_exact(&mut b)?; Ok(BigUint::from_bytes_le(&b).try_into().unwrap()) } }
pub trait Field: Copy {}
pub trait PrimeField: Field + From<BigInteger256> + Into<BigInteger256> + From<u64> { fn size_in_bits() -> usize { 255 } fn modulus() -> BigUint; fn from_repr(b: BigInteger256) -> Option<Self>; fn into_repr(&self) -> BigInteger256; }
macro_rules! field { ($n:ident, $m:literal) => {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Default, Hash, PartialOrd, Ord)]
    pub struct $n(BigInteger256);
    impl Field for $n {}
    impl $n { fn big(self) -> BigUint { self.0.into() } fn red(b: BigUint) -> Self { Self((b % Self::modulus()).try_into().unwrap()) } }
    impl PrimeField for $n {
        fn modulus() -> BigUint { BigUint::parse_bytes($m, 10).unwrap() }
        fn from_repr(b: BigInteger256) -> Option<Self> { if BigUint::from(b) < Self::modulus() { Some(Self(b)) } else { None } }
        fn into_repr(&self) -> BigInteger256 { self.0 }
    }
    impl From<BigInteger256> for $n { fn from(b: BigInteger256) -> Self { Self::from_repr(b).unwrap() } }
    impl From<$n> for BigInteger256 { fn from(f: $n) -> Self { f.0 } }
    impl From<u64> for $n { fn from(x: u64) -> Self { Self(x.into()) } }
    impl From<u32> for $n { fn from(x: u32) -> Self { Self((x as u64).into()) } }
    impl From<bool> for $n { fn from(x: bool) -> Self { Self((x as u64).into()) } }
    impl Add for $n { type Output = Self; fn add(self, o: Self) -> Self { Self::red(self.big() + o.big()) } }
    impl Sub for $n { type Output = Self; fn sub(self, o: Self) -> Self { Self::red(self.big() + Self::modulus() - o.big()) } }
    impl Mul for $n { type Output = Self; fn mul(self, o: Self) -> Self { Self::red(self.big() * o.big()) } }
    impl Neg for $n { type Output = Self; fn neg(self) -> Self { Self::red(Self::modulus() - self.big()) } }
    impl Zero for $n { fn zero() -> Self { Self::default() } fn is_zero(&self) -> bool { *self == Self::default() } }
    impl One for $n { fn one() -> Self { Self::from(1u64) } }
    impl FromBytes for $n { fn read<R: std::io::Read>(r: R) -> std::io::Result<Self> { Self::from_repr(BigInteger256::read(r)?).ok_or_else(|| std::io::Error::new(std::io::ErrorKind::InvalidData, "not a field element")) } }
    impl std::fmt::Display for $n { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.big()) } }
} }
field!(Fp, b"28948022309329048855892746252171976963363056481941560715954676764349967630337");
field!(Fq, b"28948022309329048855892746252171976963363056481941647379679742748393362948097");
