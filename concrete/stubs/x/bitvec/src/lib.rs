//! stand-in for bitvec: a bit string is a vector of booleans, least significant bit first
use std::marker::PhantomData;
pub mod prelude { pub use super::{AsBits, BitSlice, BitVec, BitView, Lsb0}; }
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct Lsb0;
pub trait BitStore: Copy { const BITS: usize; fn of(b: &[bool]) -> Self; fn bits(self) -> Vec<bool>; }
macro_rules! store { ($($t:ty)*) => { $(impl BitStore for $t { const BITS: usize = <$t>::BITS as usize;
    fn of(b: &[bool]) -> Self { b.iter().enumerate().fold(0, |a, (i, x)| a | (*x as $t) << i) } fn bits(self) -> Vec<bool> { (0..<$t>::BITS).map(|i| (self >> i) & 1 == 1).collect() } })* } }
store!(u8 u16 u32 u64 usize);
#[derive(Clone, Debug, PartialEq, Eq)] pub struct BitVec<T = usize, O = Lsb0> { b: Vec<bool>, p: PhantomData<(T, O)> }
impl<T, O> Default for BitVec<T, O> { fn default() -> Self { Self::new() } }
impl<T, O> BitVec<T, O> {
    pub fn new() -> Self { Self { b: vec![], p: PhantomData } }
    pub fn with_capacity(n: usize) -> Self { Self { b: Vec::with_capacity(n), p: PhantomData } }
    pub fn push(&mut self, x: bool) { self.b.push(x) }
    pub fn len(&self) -> usize { self.b.len() }
    pub fn is_empty(&self) -> bool { self.b.is_empty() }
    pub fn resize(&mut self, n: usize, x: bool) { self.b.resize(n, x) }
    pub fn truncate(&mut self, n: usize) { self.b.truncate(n) }
    pub fn extend_from_bitslice(&mut self, o: &BitSlice<T, O>) { self.b.extend(&o.b) }
    pub fn iter(&self) -> std::slice::Iter<bool> { self.b.iter() }
    pub fn into_vec(self) -> Vec<T> where T: BitStore { self.b.chunks(T::BITS).map(T::of).collect() }
}
impl<T, O> IntoIterator for BitVec<T, O> { type Item = bool; type IntoIter = std::vec::IntoIter<bool>; fn into_iter(self) -> Self::IntoIter { self.b.into_iter() } }
impl<T, O> FromIterator<bool> for BitVec<T, O> { fn from_iter<I: IntoIterator<Item = bool>>(i: I) -> Self { Self { b: i.into_iter().collect(), p: PhantomData } } }
impl<T, O> Extend<bool> for BitVec<T, O> { fn extend<I: IntoIterator<Item = bool>>(&mut self, i: I) { self.b.extend(i) } }
impl<T, O> std::ops::Index<usize> for BitVec<T, O> { type Output = bool; fn index(&self, i: usize) -> &bool { &self.b[i] } }
pub struct BitSlice<T = usize, O = Lsb0> { b: Vec<bool>, p: PhantomData<(T, O)> }
impl<T, O> BitSlice<T, O> {
    pub fn to_bitvec(&self) -> BitVec<T, O> { BitVec { b: self.b.clone(), p: PhantomData } }
    pub fn iter(&self) -> std::slice::Iter<bool> { self.b.iter() }
    pub fn len(&self) -> usize { self.b.len() }
}
pub trait AsBits<T> { fn as_bits<O>(&self) -> BitSlice<T, O>; }
impl<T: BitStore> AsBits<T> for [T] { fn as_bits<O>(&self) -> BitSlice<T, O> { BitSlice { b: self.iter().flat_map(|x| x.bits()).collect(), p: PhantomData } } }
pub trait BitView { type Store; fn view_bits<O>(&self) -> BitSlice<Self::Store, O>; }
impl<T: BitStore> BitView for [T] { type Store = T; fn view_bits<O>(&self) -> BitSlice<T, O> { self.as_bits() } }
