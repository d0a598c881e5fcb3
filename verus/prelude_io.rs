// ------------------------------------------------------------------ little / big endian byte strings
/// the k low bytes of n in little-endian order (two's complement for negative n)
pub open spec fn le(n: int, k: nat) -> Seq<u8> decreases k {
    if k == 0 { Seq::empty() } else { seq![(n % 256) as u8] + le(n / 256, (k - 1) as nat) }
}
pub open spec fn rev(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
/// value of a little-endian byte string
pub open spec fn unle(s: Seq<u8>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { s[0] as int + 256 * unle(s.skip(1)) }
}
pub open spec fn pow256(k: nat) -> int decreases k { if k == 0 { 1 } else { 256 * pow256((k - 1) as nat) } }
/// two's complement reading of v in [0, m)
pub open spec fn signed(v: int, m: int) -> int { if 2 * v >= m { v - m } else { v } }

pub trait ByteOrder { spec fn ord(s: Seq<u8>) -> Seq<u8>; }
pub struct LittleEndian;
pub struct BigEndian;
impl ByteOrder for LittleEndian { open spec fn ord(s: Seq<u8>) -> Seq<u8> { s } }
impl ByteOrder for BigEndian { open spec fn ord(s: Seq<u8>) -> Seq<u8> { rev(s) } }
pub type LE = LittleEndian;
pub type BE = BigEndian;

pub mod io {
    use vstd::prelude::*;
    verus! {
    pub enum ErrorKind { InvalidInput, InvalidData, UnexpectedEof, Other }
    pub struct Error { pub kind: ErrorKind }
    }
}
// the assumed contract of std::io::Write + byteorder::WriteBytesExt
pub trait Write {
    /// every byte the sink has accepted so far
    spec fn out(&self) -> Seq<u8>;
    /// may accept only a prefix of the buffer
    fn write(&mut self, buf: &[u8]) -> (r: core::result::Result<usize, io::Error>)
        ensures
            r is Ok ==> r->Ok_0 <= buf@.len() && final(self).out() == old(self).out() + buf@.take(r->Ok_0 as int),
            r is Err ==> final(self).out() == old(self).out();
    fn write_all(&mut self, buf: &[u8]) -> (r: core::result::Result<(), io::Error>)
        ensures r is Ok ==> final(self).out() == old(self).out() + buf@;
    fn write_u8(&mut self, n: u8) -> (r: core::result::Result<(), io::Error>)
        ensures r is Ok ==> final(self).out() == old(self).out() + seq![n];
    fn write_i8(&mut self, n: i8) -> (r: core::result::Result<(), io::Error>)
        ensures r is Ok ==> final(self).out() == old(self).out() + le(n as int, 1);
    fn write_u16<B: ByteOrder>(&mut self, n: u16) -> (r: core::result::Result<(), io::Error>)
        ensures r is Ok ==> final(self).out() == old(self).out() + B::ord(le(n as int, 2));
    fn write_i16<B: ByteOrder>(&mut self, n: i16) -> (r: core::result::Result<(), io::Error>)
        ensures r is Ok ==> final(self).out() == old(self).out() + B::ord(le(n as int, 2));
    fn write_u32<B: ByteOrder>(&mut self, n: u32) -> (r: core::result::Result<(), io::Error>)
        ensures r is Ok ==> final(self).out() == old(self).out() + B::ord(le(n as int, 4));
    fn write_i32<B: ByteOrder>(&mut self, n: i32) -> (r: core::result::Result<(), io::Error>)
        ensures r is Ok ==> final(self).out() == old(self).out() + B::ord(le(n as int, 4));
    fn write_u64<B: ByteOrder>(&mut self, n: u64) -> (r: core::result::Result<(), io::Error>)
        ensures r is Ok ==> final(self).out() == old(self).out() + B::ord(le(n as int, 8));
    fn write_i64<B: ByteOrder>(&mut self, n: i64) -> (r: core::result::Result<(), io::Error>)
        ensures r is Ok ==> final(self).out() == old(self).out() + B::ord(le(n as int, 8));
}
/// T: Into<i64> / Into<u64> (std: value preserving for every implementor)
pub trait IntoI64: Sized { spec fn int(&self) -> int;
    fn into(self) -> (r: i64) ensures r as int == self.int(); }
pub trait IntoU64: Sized { spec fn int(&self) -> int;
    fn into(self) -> (r: u64) ensures r as int == self.int(); }
impl IntoI64 for i64 { open spec fn int(&self) -> int { *self as int } fn into(self) -> (r: i64) { self } }
impl IntoI64 for i32 { open spec fn int(&self) -> int { *self as int } fn into(self) -> (r: i64) { self as i64 } }
impl IntoI64 for i16 { open spec fn int(&self) -> int { *self as int } fn into(self) -> (r: i64) { self as i64 } }
impl IntoI64 for i8 { open spec fn int(&self) -> int { *self as int } fn into(self) -> (r: i64) { self as i64 } }
impl IntoI64 for u32 { open spec fn int(&self) -> int { *self as int } fn into(self) -> (r: i64) { self as i64 } }
impl IntoI64 for u16 { open spec fn int(&self) -> int { *self as int } fn into(self) -> (r: i64) { self as i64 } }
impl IntoI64 for u8 { open spec fn int(&self) -> int { *self as int } fn into(self) -> (r: i64) { self as i64 } }
impl IntoU64 for u64 { open spec fn int(&self) -> int { *self as int } fn into(self) -> (r: u64) { self } }
impl IntoU64 for u32 { open spec fn int(&self) -> int { *self as int } fn into(self) -> (r: u64) { self as u64 } }
impl IntoU64 for u16 { open spec fn int(&self) -> int { *self as int } fn into(self) -> (r: u64) { self as u64 } }
impl IntoU64 for u8 { open spec fn int(&self) -> int { *self as int } fn into(self) -> (r: u64) { self as u64 } }
// f32/f64 bit patterns
pub uninterp spec fn f32_bits(f: f32) -> int;
pub uninterp spec fn f64_bits(f: f64) -> int;
pub uninterp spec fn f32_of(bits: int) -> f32;
pub uninterp spec fn f64_of(bits: int) -> f64;
/// x.to_le_bytes() / to_be_bytes() / to_ne_bytes()
pub trait VxBytes<const N: usize>: Sized { spec fn bits(&self) -> int;
    fn vx_to_le_bytes(self) -> (r: [u8; N]) ensures r@ == le(self.bits(), N as nat);
    fn vx_to_be_bytes(self) -> (r: [u8; N]) ensures r@ == rev(le(self.bits(), N as nat)); }
macro_rules! vx_bytes { ($t:ty, $n:literal, $f:expr) => { verus!{ impl VxBytes<$n> for $t { open spec fn bits(&self) -> int { $f(*self) }
    #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; $n]) { self.to_le_bytes() }
    #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; $n]) { self.to_be_bytes() } } } } }
pub open spec fn u32_bits(n: u32) -> int { n as int }
pub open spec fn u64_bits(n: u64) -> int { n as int }
pub open spec fn u16_bits(n: u16) -> int { n as int }
vx_bytes!(f32, 4, f32_bits);
vx_bytes!(f64, 8, f64_bits);
vx_bytes!(u32, 4, u32_bits);
vx_bytes!(u64, 8, u64_bits);
vx_bytes!(u16, 2, u16_bits);

// ------------------------------------------------------------------ the bin_prot wire format (specification)
pub open spec fn enc_int(n: int) -> Seq<u8> {
    if 0 <= n < 0x80 { seq![n as u8] }
    else if -0x80 <= n < 0 { seq![0xffu8] + le(n, 1) }
    else if -0x8000 <= n < 0x8000 { seq![0xfeu8] + le(n, 2) }
    else if -0x8000_0000 <= n < 0x8000_0000 { seq![0xfdu8] + le(n, 4) }
    else { seq![0xfcu8] + le(n, 8) }
}
pub open spec fn enc_nat0(n: int) -> Seq<u8> {
    if n < 0x80 { seq![n as u8] }
    else if n < 0x1_0000 { seq![0xfeu8] + le(n, 2) }
    else if n < 0x1_0000_0000 { seq![0xfdu8] + le(n, 4) }
    else { seq![0xfcu8] + le(n, 8) }
}
pub open spec fn enc_tag(h: int) -> Seq<u8> { le((2 * h + 1) % 0x1_0000_0000, 4) }

pub broadcast proof fn le_len(n: int, k: nat)
    ensures #[trigger] le(n, k).len() == k
    decreases k
{ if k > 0 { le_len(n / 256, (k - 1) as nat); } }

pub proof fn lemma_tag_bits(h: u32)
    ensures (h << 1u32 | 1u32) as int == (2 * (h as int) + 1) % 0x1_0000_0000
{
    assert((h << 1u32 | 1u32) as u64 == (2 * (h as u64) + 1) % 0x1_0000_0000) by(bit_vector);
}
