// the assumed contract of std::io::Read + byteorder::ReadBytesExt
pub trait Read {
    /// the bytes of the stream that have not been consumed yet
    spec fn rem(&self) -> Seq<u8>;
    /// the stream fails only by ending
    spec fn reliable(&self) -> bool;
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: core::result::Result<(), io::Error>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> took(old(self).rem(), final(self).rem(), old(buf)@.len()) && final(buf)@ == old(self).rem().take(old(buf)@.len() as int),
            old(self).reliable() ==> (r is Ok <==> old(self).rem().len() >= old(buf)@.len()),
            final(self).reliable() == old(self).reliable();
    fn read_u8(&mut self) -> (r: core::result::Result<u8, io::Error>)
        ensures
            r is Ok ==> took(old(self).rem(), final(self).rem(), 1) && r->Ok_0 == old(self).rem()[0],
            old(self).reliable() ==> (r is Ok <==> old(self).rem().len() >= 1),
            final(self).reliable() == old(self).reliable();
    fn read_i8(&mut self) -> (r: core::result::Result<i8, io::Error>)
        ensures
            r is Ok ==> took(old(self).rem(), final(self).rem(), 1) && r->Ok_0 as int == signed(old(self).rem()[0] as int, 0x100),
            old(self).reliable() ==> (r is Ok <==> old(self).rem().len() >= 1),
            final(self).reliable() == old(self).reliable();
    fn read_u16<B: ByteOrder>(&mut self) -> (r: core::result::Result<u16, io::Error>)
        ensures
            r is Ok ==> took(old(self).rem(), final(self).rem(), 2) && r->Ok_0 as int == unle(B::ord(old(self).rem().take(2))),
            old(self).reliable() ==> (r is Ok <==> old(self).rem().len() >= 2),
            final(self).reliable() == old(self).reliable();
    fn read_i16<B: ByteOrder>(&mut self) -> (r: core::result::Result<i16, io::Error>)
        ensures
            r is Ok ==> took(old(self).rem(), final(self).rem(), 2) && r->Ok_0 as int == signed(unle(B::ord(old(self).rem().take(2))), 0x1_0000),
            old(self).reliable() ==> (r is Ok <==> old(self).rem().len() >= 2),
            final(self).reliable() == old(self).reliable();
    fn read_u32<B: ByteOrder>(&mut self) -> (r: core::result::Result<u32, io::Error>)
        ensures
            r is Ok ==> took(old(self).rem(), final(self).rem(), 4) && r->Ok_0 as int == unle(B::ord(old(self).rem().take(4))),
            old(self).reliable() ==> (r is Ok <==> old(self).rem().len() >= 4),
            final(self).reliable() == old(self).reliable();
    fn read_i32<B: ByteOrder>(&mut self) -> (r: core::result::Result<i32, io::Error>)
        ensures
            r is Ok ==> took(old(self).rem(), final(self).rem(), 4) && r->Ok_0 as int == signed(unle(B::ord(old(self).rem().take(4))), 0x1_0000_0000),
            old(self).reliable() ==> (r is Ok <==> old(self).rem().len() >= 4),
            final(self).reliable() == old(self).reliable();
    fn read_u64<B: ByteOrder>(&mut self) -> (r: core::result::Result<u64, io::Error>)
        ensures
            r is Ok ==> took(old(self).rem(), final(self).rem(), 8) && r->Ok_0 as int == unle(B::ord(old(self).rem().take(8))),
            old(self).reliable() ==> (r is Ok <==> old(self).rem().len() >= 8),
            final(self).reliable() == old(self).reliable();
    fn read_i64<B: ByteOrder>(&mut self) -> (r: core::result::Result<i64, io::Error>)
        ensures
            r is Ok ==> took(old(self).rem(), final(self).rem(), 8) && r->Ok_0 as int == signed(unle(B::ord(old(self).rem().take(8))), 0x1_0000_0000_0000_0000),
            old(self).reliable() ==> (r is Ok <==> old(self).rem().len() >= 8),
            final(self).reliable() == old(self).reliable();
    fn read_f32<B: ByteOrder>(&mut self) -> (r: core::result::Result<f32, io::Error>)
        ensures
            r is Ok ==> took(old(self).rem(), final(self).rem(), 4) && r->Ok_0 == f32_of(unle(B::ord(old(self).rem().take(4)))),
            old(self).reliable() ==> (r is Ok <==> old(self).rem().len() >= 4),
            final(self).reliable() == old(self).reliable();
    fn read_f64<B: ByteOrder>(&mut self) -> (r: core::result::Result<f64, io::Error>)
        ensures
            r is Ok ==> took(old(self).rem(), final(self).rem(), 8) && r->Ok_0 == f64_of(unle(B::ord(old(self).rem().take(8)))),
            old(self).reliable() ==> (r is Ok <==> old(self).rem().len() >= 8),
            final(self).reliable() == old(self).reliable();
    /// `(&mut *self).take(n).read_to_end(&mut buf)`
    fn vx_take_read_to_end(&mut self, n: u64, buf: &mut Vec<u8>) -> (r: core::result::Result<usize, io::Error>)
        ensures
            r is Ok ==> ({ let m = if old(self).rem().len() < n { old(self).rem().len() } else { n as nat };
                took(old(self).rem(), final(self).rem(), m) && final(buf)@ == old(buf)@ + old(self).rem().take(m as int) && r->Ok_0 == m }),
            old(self).reliable() ==> r is Ok,
            final(self).reliable() == old(self).reliable();
}
pub open spec fn took(before: Seq<u8>, after: Seq<u8>, n: nat) -> bool { before.len() >= n && after == before.skip(n as int) }

/// num::FromPrimitive of an integer type: exact or None
pub trait FromPrimitive: Sized {
    spec fn val(&self) -> int;
    spec fn fits(n: int) -> bool;
    fn from_i8(n: i8) -> (r: Option<Self>) ensures r is Some <==> Self::fits(n as int), r is Some ==> r->Some_0.val() == n;
    fn from_i16(n: i16) -> (r: Option<Self>) ensures r is Some <==> Self::fits(n as int), r is Some ==> r->Some_0.val() == n;
    fn from_i32(n: i32) -> (r: Option<Self>) ensures r is Some <==> Self::fits(n as int), r is Some ==> r->Some_0.val() == n;
    fn from_i64(n: i64) -> (r: Option<Self>) ensures r is Some <==> Self::fits(n as int), r is Some ==> r->Some_0.val() == n;
    fn from_u8(n: u8) -> (r: Option<Self>) ensures r is Some <==> Self::fits(n as int), r is Some ==> r->Some_0.val() == n;
    fn from_u16(n: u16) -> (r: Option<Self>) ensures r is Some <==> Self::fits(n as int), r is Some ==> r->Some_0.val() == n;
    fn from_u32(n: u32) -> (r: Option<Self>) ensures r is Some <==> Self::fits(n as int), r is Some ==> r->Some_0.val() == n;
    fn from_u64(n: u64) -> (r: Option<Self>) ensures r is Some <==> Self::fits(n as int), r is Some ==> r->Some_0.val() == n;
}
pub trait Unsigned {}
macro_rules! from_prim { ($($t:ident)*) => { $( verus!{ impl FromPrimitive for $t {
    open spec fn val(&self) -> int { *self as int }
    open spec fn fits(n: int) -> bool { $t::MIN <= n <= $t::MAX }
    #[verifier::external_body] fn from_i8(n: i8) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body] fn from_i16(n: i16) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body] fn from_i32(n: i32) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body] fn from_i64(n: i64) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body] fn from_u8(n: u8) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body] fn from_u16(n: u16) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body] fn from_u32(n: u32) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body] fn from_u64(n: u64) -> (r: Option<Self>) { unimplemented!() }
} } )* } }
from_prim!(i8 i16 i32 i64 u8 u16 u32 u64 usize);
impl Unsigned for u8 {} impl Unsigned for u16 {} impl Unsigned for u32 {} impl Unsigned for u64 {} impl Unsigned for usize {}

// ------------------------------------------------------------------ decoding (specification)
/// value and length of the integer at the head of s; None: truncated or not an integer
pub open spec fn dec_int(s: Seq<u8>) -> Option<(int, nat)> {
    if s.len() < 1 { None }
    else if s[0] < 0x80 { Some((s[0] as int, 1)) }
    else if s[0] == 0xff { if s.len() < 2 { None } else { Some((signed(s[1] as int, 0x100), 2)) } }
    else if s[0] == 0xfe { if s.len() < 3 { None } else { Some((signed(unle(s.skip(1).take(2)), 0x1_0000), 3)) } }
    else if s[0] == 0xfd { if s.len() < 5 { None } else { Some((signed(unle(s.skip(1).take(4)), 0x1_0000_0000), 5)) } }
    else if s[0] == 0xfc { if s.len() < 9 { None } else { Some((signed(unle(s.skip(1).take(8)), 0x1_0000_0000_0000_0000), 9)) } }
    else { None }
}
pub open spec fn dec_nat0(s: Seq<u8>) -> Option<(int, nat)> {
    if s.len() < 1 { None }
    else if s[0] < 0x80 { Some((s[0] as int, 1)) }
    else if s[0] == 0xfe { if s.len() < 3 { None } else { Some((unle(s.skip(1).take(2)), 3)) } }
    else if s[0] == 0xfd { if s.len() < 5 { None } else { Some((unle(s.skip(1).take(4)), 5)) } }
    else if s[0] == 0xfc { if s.len() < 9 { None } else { Some((unle(s.skip(1).take(8)), 9)) } }
    else { None }
}
pub open spec fn bad_int_byte(b: u8) -> bool { 0x80 <= b <= 0xfb }
pub open spec fn bad_nat0_byte(b: u8) -> bool { 0x80 <= b <= 0xfb || b == 0xff }
/// a length-prefixed byte string at the head of s
pub open spec fn dec_bytes(s: Seq<u8>) -> Option<(Seq<u8>, nat)> {
    match dec_nat0(s) {
        Some((n, k)) => if s.len() < k + n { None } else { Some((s.skip(k as int).take(n), (k + n) as nat)) },
        None => None,
    }
}
// ---- encode / decode are inverse (lemmas over the two specifications)
pub proof fn unle_le(n: int, k: nat)
    ensures unle(le(n, k)) == n % pow256(k), pow256(k) > 0, 0 <= n % pow256(k) < pow256(k)
    decreases k
{
    if k > 0 {
        let k1 = (k - 1) as nat;
        unle_le(n / 256, k1);
        assert(le(n, k).skip(1) =~= le(n / 256, k1));
        assert(le(n, k)[0] == (n % 256) as u8);
        let m = pow256(k1);
        let a = n / 256; let b = n % 256;
        assert(pow256(k) == 256 * m);
        // n = 256 a + b = 256 (m (a/m) + a%m) + b
        assert(n == 256 * a + b);
        assert(a == m * (a / m) + a % m) by (nonlinear_arith) requires m > 0;
        assert(0 <= a % m < m) by (nonlinear_arith) requires m > 0;
        let q = a / m;
        let rr = 256 * (a % m) + b;
        let mm = 256 * m;
        assert(n == q * mm + rr) by (nonlinear_arith) requires mm == 256 * m, n == 256 * a + b, a == m * q + a % m, rr == 256 * (a % m) + b;
        assert(0 <= rr < 256 * m) by (nonlinear_arith) requires 0 <= a % m < m, 0 <= b < 256, rr == 256 * (a % m) + b;
        assert(n % (256 * m) == rr) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n, mm, q, rr); }
    } else { assert(n % 1 == 0) by (nonlinear_arith); }
}
pub proof fn pow256_vals() ensures pow256(1) == 0x100, pow256(2) == 0x1_0000, pow256(4) == 0x1_0000_0000, pow256(8) == 0x1_0000_0000_0000_0000
{ reveal_with_fuel(pow256, 10); }

pub proof fn int_roundtrip(n: int, t: Seq<u8>)
    requires i64::MIN <= n <= i64::MAX
    ensures dec_int(enc_int(n) + t) == Some((n, enc_int(n).len()))
{
    broadcast use le_len;
    pow256_vals();
    unle_le(n, 1); unle_le(n, 2); unle_le(n, 4); unle_le(n, 8);
    let s = enc_int(n) + t;
    if 0 <= n < 0x80 { assert(s[0] == n as u8); }
    else if -0x80 <= n < 0 { assert(s[0] == 0xff); assert(s[1] == le(n, 1)[0]); assert(le(n,1)[0] == (n % 256) as u8) by { reveal_with_fuel(le, 2); } }
    else if -0x8000 <= n < 0x8000 { assert(s[0] == 0xfe); assert(s.skip(1).take(2) =~= le(n, 2)); }
    else if -0x8000_0000 <= n < 0x8000_0000 { assert(s[0] == 0xfd); assert(s.skip(1).take(4) =~= le(n, 4)); }
    else { assert(s[0] == 0xfc); assert(s.skip(1).take(8) =~= le(n, 8)); }
}
pub proof fn nat0_roundtrip(n: int, t: Seq<u8>)
    requires 0 <= n <= u64::MAX
    ensures dec_nat0(enc_nat0(n) + t) == Some((n, enc_nat0(n).len()))
{
    broadcast use le_len;
    pow256_vals();
    unle_le(n, 2); unle_le(n, 4); unle_le(n, 8);
    let s = enc_nat0(n) + t;
    if n < 0x80 { assert(s[0] == n as u8); }
    else if n < 0x1_0000 { assert(s[0] == 0xfe); assert(s.skip(1).take(2) =~= le(n, 2)); }
    else if n < 0x1_0000_0000 { assert(s[0] == 0xfd); assert(s.skip(1).take(4) =~= le(n, 4)); }
    else { assert(s[0] == 0xfc); assert(s.skip(1).take(8) =~= le(n, 8)); }
}
pub proof fn bytes_roundtrip(b: Seq<u8>, t: Seq<u8>)
    requires b.len() <= u64::MAX
    ensures dec_bytes(enc_nat0(b.len() as int) + b + t) == Some((b, (enc_nat0(b.len() as int).len() + b.len()) as nat))
{
    broadcast use le_len;
    let e = enc_nat0(b.len() as int);
    nat0_roundtrip(b.len() as int, b + t);
    assert(e + b + t =~= e + (b + t));
    assert((e + b + t).skip(e.len() as int).take(b.len() as int) =~= b);
}
pub proof fn tag_roundtrip(h: int, t: Seq<u8>)
    requires 0 <= h < 0x8000_0000
    ensures unle((enc_tag(h) + t).take(4)) / 2 == h, unle((enc_tag(h) + t).take(4)) % 2 == 1
{
    broadcast use le_len;
    pow256_vals();
    unle_le((2 * h + 1) % 0x1_0000_0000, 4);
    assert((enc_tag(h) + t).take(4) =~= enc_tag(h));
}
pub broadcast proof fn unle_bound(s: Seq<u8>)
    ensures 0 <= #[trigger] unle(s) < pow256(s.len())
    decreases s.len()
{ if s.len() > 0 { unle_bound(s.skip(1)); } }

pub broadcast proof fn skip_skip(s: Seq<u8>, a: int, b: int)
    requires 0 <= a <= s.len(), 0 <= b <= s.len() - a
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b)
{ assert(s.skip(a).skip(b) =~= s.skip(a + b)); }

pub broadcast proof fn take_all(s: Seq<u8>, n: int)
    requires n == s.len()
    ensures #[trigger] s.take(n) == s
{ assert(s.take(n) =~= s); }
pub broadcast proof fn skip_none(s: Seq<u8>)
    ensures #[trigger] s.skip(0) == s, Seq::<u8>::empty() + s == s
{ assert(s.skip(0) =~= s); assert(Seq::<u8>::empty() + s =~= s); }
pub broadcast proof fn cat_empty(s: Seq<u8>)
    ensures #[trigger] (Seq::<u8>::empty() + s) == s
{ assert(Seq::<u8>::empty() + s =~= s); }
