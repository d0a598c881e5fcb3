//@include prelude_core.rs
//@nosub
macro_rules! vx_fmt {
    ("{:0<9}", $x:expr) => { vx_pad_right($x) };
    ("{}", $x:expr) => { $x.vx_text() };
    ("{q}.{:0>9}", $r:expr, $q:expr) => { vx_point($q, $r) };
    ("0x{}", $x:expr) => { vx_0x($x) };
    ($($t:tt)*) => { vx_format() };
}
macro_rules! vx_wr { ($f:expr, "{}.{:#09}", $q:expr, $r:expr) => { $f.point($q, $r) }; }
// ------------------------------------------------------------ what a text means
pub open spec fn dig(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn digs(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> dig(#[trigger] s[i]) }
pub open spec fn dec(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { dec(s.drop_last()) * 10 + (s.last() as nat - 48) as nat } }
/// the decimal digits of a number
pub open spec fn num(n: nat) -> Seq<char> decreases n { if n < 10 { seq![(48 + n) as u8 as char] } else { num(n / 10).push((48 + n % 10) as u8 as char) } }
/// what str::parse makes of a text for an unsigned type
pub open spec fn int_of(s: Seq<char>, max: nat) -> Option<nat> { let t = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s }; if t.len() == 0 || !digs(t) || dec(t) > max { None } else { Some(dec(t)) } }
pub open spec fn first(s: Seq<char>, c: char) -> nat decreases s.len() { if s.len() == 0 || s[0] == c { 0 } else { 1 + first(s.skip(1), c) } }
pub open spec fn split(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() via split_dec { let i = first(s, c); if i >= s.len() { seq![s] } else { seq![s.take(i as int)] + split(s.skip(i as int + 1), c) } }
#[via_fn] proof fn split_dec(s: Seq<char>, c: char) { }
pub open spec fn zeros(n: nat) -> Seq<char> { Seq::new(n, |i: int| '0') }
pub open spec fn padr(s: Seq<char>) -> Seq<char> { if s.len() >= 9 { s } else { s + zeros((9 - s.len()) as nat) } }
pub open spec fn padl(s: Seq<char>) -> Seq<char> { if s.len() >= 9 { s } else { zeros((9 - s.len()) as nat) + s } }
pub open spec fn trim(s: Seq<char>, c: char) -> Seq<char> decreases s.len() { if s.len() > 0 && s.last() == c { trim(s.drop_last(), c) } else { s } }
pub spec const P: nat = 1000000000;
/// the amount a text denotes: an integer, or one with a fraction of at most nine digits, that fits
pub open spec fn amount_of(s: Seq<char>) -> Option<nat> {
    let p = split(s, '.'); let f = if p.len() > 1 { p[1] } else { seq!['0'] };
    match int_of(p[0], u64::MAX as nat) { None => None, Some(q) => if p.len() > 2 || f.len() > 9 || !digs(f) || q * P + dec(padr(f)) > u64::MAX { None } else { Some(q * P + dec(padr(f))) } }
}
/// the texts written for an amount
pub open spec fn full(n: nat) -> Seq<char> { num(n / P) + seq!['.'] + padl(num(n % P)) }
pub open spec fn short(n: nat) -> Seq<char> { trim(trim(full(n), '0'), '.') }
pub open spec fn p10(k: nat) -> nat decreases k { if k == 0 { 1 } else { 10 * p10((k - 1) as nat) } }
pub broadcast proof fn split_some(s: Seq<char>, c: char) ensures #[trigger] split(s, c).len() >= 1 decreases s.len() { }
pub proof fn dec_lt(s: Seq<char>) requires digs(s) ensures dec(s) < p10(s.len()) decreases s.len() {
    if s.len() > 0 { assert(digs(s.drop_last())); dec_lt(s.drop_last()); assert(dig(s.last())); let a = p10((s.len() - 1) as nat); assert(p10(s.len()) == 10 * a); assert(dec(s) < 10 * a) by (nonlinear_arith) requires dec(s) <= dec(s.drop_last()) * 10 + 9, dec(s.drop_last()) < a; }
}
pub broadcast proof fn pad_int(f: Seq<char>) requires digs(f), f.len() <= 9 ensures int_of(#[trigger] padr(f), u64::MAX as nat) == Some(dec(padr(f))), dec(padr(f)) < P {
    let t = padr(f); assert forall|i: int| 0 <= i < t.len() implies dig(#[trigger] t[i]) by { if i < f.len() { assert(t[i] == f[i]); } }
    assert(t.len() == 9); assert(dig(t[0])); dec_lt(t); assert(p10(9) == 1000000000) by (compute);
}
pub proof fn zero() ensures "0"@ == seq!['0'], digs(seq!['0']) { reveal_strlit("0"); assert("0"@ =~= seq!['0']); }
pub broadcast group text { split_some, pad_int }
// ------------------------------------------------------------ dependencies, assumed
#[verifier::external_body] #[derive(Debug)] pub struct JErr { _x: () }
impl JErr { #[verifier::external_body] pub fn invalid(s: String) -> JErr { unimplemented!() } }
#[verifier::external_body] pub fn vx_custom<T>(t: T) -> JErr { unimplemented!() }
pub trait VxText { fn vx_text(self) -> (r: String) ensures r@ == self.text(); spec fn text(self) -> Seq<char>; }
impl VxText for u32 { open spec fn text(self) -> Seq<char> { num(self as nat) } #[verifier::external_body] fn vx_text(self) -> (r: String) { unimplemented!() } }
impl VxText for u64 { open spec fn text(self) -> Seq<char> { num(self as nat) } #[verifier::external_body] fn vx_text(self) -> (r: String) { unimplemented!() } }
#[verifier::external_body] pub fn vx_pad_right(s: &str) -> (r: String) ensures r@ == padr(s@) { unimplemented!() }
#[verifier::external_body] pub fn vx_point(q: u64, r: u64) -> (s: String) ensures s@ == num(q as nat) + seq!['.'] + padl(num(r as nat)) { unimplemented!() }
#[verifier::external_body] pub fn vx_0x(s: String) -> (r: String) ensures r@ == seq!['0', 'x'] + s@ { unimplemented!() }
/// fmt::Formatter: what has been written to it
pub struct Formatter { pub text: Ghost<Seq<char>> }
impl Formatter { #[verifier::external_body] pub fn point(&mut self, q: u64, r: u64) -> (x: core::result::Result<(), JErr>) ensures x is Ok ==> final(self).text@ == old(self).text@ + num(q as nat) + seq!['.'] + padl(num(r as nat)) { unimplemented!() } }
/// str::split(char): the pieces not handed out yet
pub struct Split<'a> { pub rest: Ghost<Seq<Seq<char>>>, pub x: core::marker::PhantomData<&'a u8> }
impl<'a> Split<'a> { #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a str>) ensures r is None <==> old(self).rest@.len() == 0, r is None ==> final(self).rest@ == old(self).rest@, r is Some ==> r->Some_0@ == old(self).rest@[0] && final(self).rest@ == old(self).rest@.skip(1) { unimplemented!() } }
pub struct Chars { pub rest: Ghost<Seq<char>> }
impl Chars { #[verifier::external_body] pub fn next(&mut self) -> (r: Option<char>) ensures r is None <==> old(self).rest@.len() == 0, r is None ==> final(self).rest@ == old(self).rest@, r is Some ==> r->Some_0 == old(self).rest@[0] && final(self).rest@ == old(self).rest@.skip(1) { unimplemented!() } }
pub trait VxUint: Sized { spec fn nat(self) -> nat; spec fn max() -> nat; }
impl VxUint for u32 { open spec fn nat(self) -> nat { self as nat } open spec fn max() -> nat { u32::MAX as nat } }
impl VxUint for u64 { open spec fn nat(self) -> nat { self as nat } open spec fn max() -> nat { u64::MAX as nat } }
/// the methods of str used here
pub trait VxStr {
    spec fn s(&self) -> Seq<char>;
    fn vx_split(&self, c: char) -> (r: Split<'_>) ensures r.rest@ == split(self.s(), c);
    fn vx_chars(&self) -> (r: Chars) ensures r.rest@ == self.s();
    fn vx_trim(&self, c: char) -> (r: &str) ensures r@ == trim(self.s(), c);
    fn vx_blen(&self) -> (r: usize) ensures r >= self.s().len(), digs(self.s()) ==> r == self.s().len();
    fn vx_bytes(&self) -> (r: Vec<u8>) ensures (forall|i: int| 0 <= i < r@.len() ==> 48 <= #[trigger] r@[i] <= 57) <==> digs(self.s());
    fn vx_parse<F: VxUint>(&self) -> (r: core::result::Result<F, JErr>) ensures r is Ok <==> int_of(self.s(), F::max()) is Some, r is Ok ==> r->Ok_0.nat() == int_of(self.s(), F::max())->Some_0;
}
impl VxStr for str {
    open spec fn s(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_split(&self, c: char) -> (r: Split<'_>) { unimplemented!() }
    #[verifier::external_body] fn vx_chars(&self) -> (r: Chars) { unimplemented!() }
    #[verifier::external_body] fn vx_trim(&self, c: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_blen(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_bytes(&self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body] fn vx_parse<F: VxUint>(&self) -> (r: core::result::Result<F, JErr>) { unimplemented!() }
}
impl VxStr for String {
    open spec fn s(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_split(&self, c: char) -> (r: Split<'_>) { unimplemented!() }
    #[verifier::external_body] fn vx_chars(&self) -> (r: Chars) { unimplemented!() }
    #[verifier::external_body] fn vx_trim(&self, c: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_blen(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_bytes(&self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body] fn vx_parse<F: VxUint>(&self) -> (r: core::result::Result<F, JErr>) { unimplemented!() }
}
pub trait VxDig { fn vx_is_digit(&self) -> bool; }
impl VxDig for u8 { fn vx_is_digit(&self) -> (r: bool) ensures r == (48 <= *self <= 57) { 48 <= *self && *self <= 57 } }
pub trait VxDivRem: Sized { spec fn nz(&self) -> bool; spec fn qr(&self, d: &Self, r: (Self, Self)) -> bool; fn div_rem(&self, d: &Self) -> (r: (Self, Self)) requires d.nz() ensures self.qr(d, r); }
impl VxDivRem for u64 { open spec fn nz(&self) -> bool { *self > 0 } open spec fn qr(&self, d: &u64, r: (u64, u64)) -> bool { r.0 == *self / *d && r.1 == *self % *d } fn div_rem(&self, d: &u64) -> (r: (u64, u64)) { (*self / *d, *self % *d) } }
/// a serializer: the string, if any, it was given
#[verifier::external_body] pub struct Wrote { _x: () }
impl Wrote { pub uninterp spec fn text(&self) -> Seq<char>; }
#[verifier::external_body] pub struct Ser { _x: () }
impl Ser {
    #[verifier::external_body] pub fn serialize_str(self, s: &str) -> (r: core::result::Result<Wrote, JErr>) ensures r is Ok ==> r->Ok_0.text() == s@ { unimplemented!() }
    #[verifier::external_body] pub fn serialize_char(self, c: char) -> (r: core::result::Result<Wrote, JErr>) ensures r is Ok ==> r->Ok_0.text() == seq![c] { unimplemented!() }
}
/// a deserializer: the string it holds, if it holds one
#[verifier::external_body] pub struct De { _x: () }
impl De { pub uninterp spec fn text(&self) -> Option<Seq<char>>; }
#[verifier::external_body] pub fn vx_string_of(d: De) -> (r: core::result::Result<String, JErr>) ensures r is Ok <==> d.text() is Some, r is Ok ==> r->Ok_0@ == d.text()->Some_0 { unimplemented!() }
#[verifier::external_body] pub fn vx_char(b: u8) -> (r: char) ensures r as u32 == b { unimplemented!() }
#[verifier::external_body] pub fn vx_u8(c: char) -> (r: core::result::Result<u8, JErr>) ensures r is Ok <==> c as u32 <= 255, r is Ok ==> r->Ok_0 == c as u32 { unimplemented!() }
/// base58 with a checked version byte
pub uninterp spec fn b58(ver: u8, b: Seq<u8>) -> Seq<char>;
/// what a base58 text with a valid check holds, version byte first
pub uninterp spec fn unb58(s: Seq<char>) -> Option<Seq<u8>>;
#[verifier::external_body] pub broadcast proof fn b58_reads(ver: u8, b: Seq<u8>) ensures unb58(#[trigger] b58(ver, b)) == Some(seq![ver] + b) { }
pub open spec fn held(ver: u8, s: Seq<char>) -> Option<Seq<u8>> { match unb58(s) { Some(x) => if x.len() > 0 && x[0] == ver { Some(x.skip(1)) } else { None }, None => None } }
pub uninterp spec fn raw58(b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn unraw58(s: Seq<char>) -> Option<Seq<u8>>;
pub struct Enc { pub b: Ghost<Seq<u8>>, pub v: Option<u8> }
impl Enc {
    pub open spec fn says(&self) -> Seq<char> { match self.v { Some(v) => b58(v, self.b@), None => raw58(self.b@) } }
    pub fn with_check_version(self, v: u8) -> (r: Enc) ensures r.b == self.b, r.v == Some(v) { Enc { b: self.b, v: Some(v) } }
    #[verifier::external_body] pub fn into_string(self) -> (r: String) ensures r@ == self.says() { unimplemented!() }
}
pub struct Dec { pub s: Ghost<Seq<char>>, pub v: Option<Option<u8>> }
impl Dec {
    pub open spec fn holds(&self) -> Option<Seq<u8>> { match self.v { Some(Some(v)) => match unb58(self.s@) { Some(x) => if x.len() > 0 && x[0] == v { Some(x) } else { None }, None => None }, Some(None) => unb58(self.s@), None => unraw58(self.s@) } }
    pub fn with_check(self, v: Option<u8>) -> (r: Dec) ensures r.s == self.s, r.v == Some(v) { Dec { s: self.s, v: Some(v) } }
    #[verifier::external_body] pub fn into_vec(self) -> (r: core::result::Result<Vec<u8>, JErr>) ensures r is Ok <==> self.holds() is Some, r is Ok ==> r->Ok_0@ == self.holds()->Some_0 { unimplemented!() }
}
pub trait VxBuf: Sized { spec fn buf(&self) -> Seq<u8>; }
impl<'a> VxBuf for &'a [u8] { open spec fn buf(&self) -> Seq<u8> { self@ } }
impl VxBuf for Vec<u8> { open spec fn buf(&self) -> Seq<u8> { self@ } }
pub mod bs58 { use super::*; verus! {
    #[verifier::external_body] pub fn encode<B: VxBuf>(b: B) -> (r: Enc) ensures r.b@ == b.buf(), r.v is None { unimplemented!() }
    #[verifier::external_body] pub fn decode<S: VxTxt>(s: S) -> (r: Dec) ensures r.s@ == s.txt(), r.v is None { unimplemented!() }
} }
pub trait VxTxt: Sized { spec fn txt(&self) -> Seq<char>; }
impl<'a> VxTxt for &'a str { open spec fn txt(&self) -> Seq<char> { self@ } }
impl VxTxt for String { open spec fn txt(&self) -> Seq<char> { self@ } }
pub open spec fn upto(k: int, n: int) -> int { if k > n { n } else { k } }
#[verifier::external_body] pub fn vx_skip(v: &Vec<u8>, k: usize) -> (r: Vec<u8>) ensures r@ == v@.skip(upto(k as int, v@.len() as int)) { unimplemented!() }
#[verifier::external_body] pub fn vx_skip_take(v: &Vec<u8>, k: usize, n: usize) -> (r: Vec<u8>) ensures r@ == v@.skip(upto(k as int, v@.len() as int)).take(upto(n as int, v@.len() - upto(k as int, v@.len() as int))) { unimplemented!() }
/// bin-prot (C06, C09): the bytes of a value, and the value of exactly these bytes
pub uninterp spec fn packed<T>(t: T) -> Option<Seq<u8>>;
pub uninterp spec fn unpacked<T>(b: Seq<u8>) -> Option<T>;
#[verifier::external_body] pub fn vx_pack<T>(b: &mut Vec<u8>, t: &T) -> (r: core::result::Result<(), JErr>) ensures r is Ok <==> packed(*t) is Some, r is Ok ==> final(b)@ == old(b)@ + packed(*t)->Some_0 { unimplemented!() }
#[verifier::external_body] pub fn vx_unpack<T>(b: &[u8]) -> (r: core::result::Result<T, JErr>) ensures r is Ok <==> unpacked::<T>(b@) is Some, r is Ok ==> r->Ok_0 == unpacked::<T>(b@)->Some_0 { unimplemented!() }
pub trait VxExtend { spec fn now(&self) -> Seq<u8>; fn vx_extend(&mut self, s: &[u8]) ensures final(self).now() == old(self).now() + s@, old(self).now().len() == 0 ==> final(self).now() == s@; }
impl VxExtend for Vec<u8> { open spec fn now(&self) -> Seq<u8> { self@ } fn vx_extend(&mut self, s: &[u8]) { self.extend_from_slice(s); assert(self@ =~= old(self)@ + s@); assert(old(self)@.len() == 0 ==> self@ =~= s@); } }
/// the ranges of a vector, slice or array
pub trait VxBytes {
    spec fn bytes(&self) -> Seq<u8>;
    fn vx_whole(&self) -> (r: &[u8]) ensures r@ == self.bytes();
    fn vx_from(&self, a: usize) -> (r: &[u8]) requires a <= self.bytes().len() ensures r@ == self.bytes().skip(a as int);
    fn vx_to(&self, b: usize) -> (r: &[u8]) requires b <= self.bytes().len() ensures r@ == self.bytes().take(b as int);
    fn vx_between(&self, a: usize, b: usize) -> (r: &[u8]) requires a <= b <= self.bytes().len() ensures r@ == self.bytes().subrange(a as int, b as int);
}
impl VxBytes for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_whole(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_from(&self, a: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_to(&self, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_between(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
}
impl VxBytes for [u8] { open spec fn bytes(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_whole(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_from(&self, a: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_to(&self, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_between(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
}
impl VxBytes for [u8; 32] { open spec fn bytes(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_whole(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_from(&self, a: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_to(&self, b: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_between(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() }
}
/// hex
pub uninterp spec fn hex_text(b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn unhex(s: Seq<u8>) -> Option<Seq<u8>>;
#[verifier::external_body] pub fn vx_hex(b: &[u8]) -> (r: String) ensures r@ == hex_text(b@) { unimplemented!() }
#[verifier::external_body] pub fn vx_unhex(s: &[u8]) -> (r: core::result::Result<Vec<u8>, JErr>) ensures r is Ok <==> unhex(s@) is Some, r is Ok ==> r->Ok_0@ == unhex(s@)->Some_0 { unimplemented!() }
#[verifier::external_body] pub fn vx_arr(v: Vec<u8>) -> (r: core::result::Result<[u8; 32], JErr>) ensures r is Ok <==> v@.len() == 32, r is Ok ==> r->Ok_0@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn vx_utf8(s: &str) -> (r: Vec<u8>) ensures r@ == utf8(s@) { unimplemented!() }
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub open spec fn bare(s: Seq<u8>) -> Seq<u8> { if s.len() > 1 && s[1] == 0x78 && (s[0] == 0x30 || s[0] == 0x5c) { s.skip(2) } else { s } }
#[verifier::external_body] pub fn vx_lossy(b: &Vec<u8>) -> (r: String) ensures r@ == lossy(b@) { unimplemented!() }
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;
pub trait FromBytes: Sized { spec fn of(b: Seq<u8>) -> Self; fn from_bytes(v: Vec<u8>) -> (r: Self) ensures r == Self::of(v@); }
pub trait AsBytes { spec fn bytes(&self) -> Seq<u8>; fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.bytes(); }

//@rw fmt
//@rw option_map
//@rw skip_take
//@rw range
//@sub . extend_from_slice ( =>> . vx_extend (
//@rw iter
//@sub < S > ( & self , serializer : S ) =>> ( & self , serializer : Ser )
//@sub Result < S :: Ok , S :: Error > =>> core::result::Result < Wrote , JErr >
//@sub where S : Serializer , =>>
//@sub < D > ( deserializer : D ) =>> ( deserializer : De )
//@sub Result < Self , D :: Error > =>> core::result::Result < Self , JErr >
//@sub where D : Deserializer < 'de > , =>>
//@sub String :: deserialize ( deserializer ) =>> vx_string_of ( deserializer )
//@sub < D :: Error as serde :: de :: Error > :: custom =>> vx_custom
//@sub < S :: Error as serde :: ser :: Error > :: custom =>> vx_custom
//@sub . split ( =>> . vx_split (
//@sub . chars ( ) =>> . vx_chars ( )
//@sub . trim_end_matches ( =>> . vx_trim (
//@sub r_str . len ( ) =>> r_str . vx_blen ( )
//@sub . is_ascii_digit ( ) =>> . vx_is_digit ( )
//@sub . parse ( ) =>> . vx_parse ( )
//@sub u8 :: try_from =>> vx_u8
//@sub char :: from ( =>> vx_char (
//@sub Self :: Err :: ErrorInvalidFormat =>> JErr :: invalid
//@sub Result < Self , Self :: Err > =>> core::result::Result < Self , JErr >
//@sub type Err = ParseAmountError ; =>>
//@sub fmt :: Formatter =>> Formatter
//@sub fmt :: Result =>> core::result::Result < ( ) , JErr >
//@sub impl std :: str :: FromStr for Amount =>> impl Amount
//@sub impl fmt :: Display for Amount =>> impl Amount
//@sub impl Serialize for =>> impl
//@sub impl < 'de > Deserialize < 'de > for =>> impl
//@sub fn from_str ( =>> pub fn from_str (
//@sub fn fmt ( =>> pub fn fmt (
//@sub fn serialize ( =>> pub fn serialize (
//@sub fn deserialize ( =>> pub fn deserialize (
//@fn AmountText::from_str
    ensures r is Ok <==> amount_of(s@) is Some, r is Ok ==> r->Ok_0.0 == amount_of(s@)->Some_0
//@entry
    broadcast use text; proof { zero(); }
//@loop 0
        invariant 0 <= vx_i0 <= vx_s0@.len(), vx_a0 <==> exists|i: int| 0 <= i < vx_i0 && !(48 <= #[trigger] vx_s0@[i] <= 57)
        decreases vx_s0@.len() - vx_i0
//@end
//@fn AmountShow::fmt
    ensures r is Ok ==> final(f).text@ =~= old(f).text@ + full(self.0 as nat)
//@end
//@fn DecimalOut::serialize
    ensures r is Ok ==> r->Ok_0.text() == short(self.0 as nat)
//@end
//@fn DecimalIn::deserialize
    ensures r is Ok <==> deserializer.text() is Some && amount_of(deserializer.text()->Some_0) is Some, r is Ok ==> r->Ok_0.0 == amount_of(deserializer.text()->Some_0)->Some_0
//@entry
    broadcast use text; proof { zero(); }
//@loop 0
        invariant 0 <= vx_i0 <= vx_s0@.len(), vx_a0 <==> exists|i: int| 0 <= i < vx_i0 && !(48 <= #[trigger] vx_s0@[i] <= 57)
        decreases vx_s0@.len() - vx_i0
//@end
//@fn U32Out::serialize
    ensures r is Ok ==> r->Ok_0.text() == num(self.0 as nat)
//@end
//@fn U32In::deserialize
    ensures r is Ok <==> deserializer.text() is Some && int_of(deserializer.text()->Some_0, u32::MAX as nat) is Some, r is Ok ==> r->Ok_0.0 == int_of(deserializer.text()->Some_0, u32::MAX as nat)->Some_0
//@end
//@fn U64Out::serialize
    ensures r is Ok ==> r->Ok_0.text() == num(self.0 as nat)
//@end
//@fn U64In::deserialize
    ensures r is Ok <==> deserializer.text() is Some && int_of(deserializer.text()->Some_0, u64::MAX as nat) is Some, r is Ok ==> r->Ok_0.0 == int_of(deserializer.text()->Some_0, u64::MAX as nat)->Some_0
//@end
//@fn CharOut::serialize
    ensures r is Ok ==> r->Ok_0.text().len() == 1 && r->Ok_0.text()[0] as u32 == self.0
//@end
//@fn CharIn::deserialize
    ensures r is Ok <==> deserializer.text() is Some && deserializer.text()->Some_0.len() == 1 && deserializer.text()->Some_0[0] as u32 <= 255, r is Ok ==> r->Ok_0.0 == deserializer.text()->Some_0[0] as u32
//@end
//@emit base/src/constants.rs const:MINA_PRECISION
//@emit base/src/numbers.rs struct:Amount
//@emit base/src/numbers.rs impl:=implstd::str::FromStrforAmount as=AmountText
//@emit base/src/numbers.rs impl:=implfmt::DisplayforAmount as=AmountShow
//@emit protocol/serialization-types/src/common.rs struct:DecimalJson
//@emit protocol/serialization-types/src/common.rs impl:=implSerializeforDecimalJson as=DecimalOut
//@emit protocol/serialization-types/src/common.rs impl:=impl<'de>Deserialize<'de>forDecimalJson as=DecimalIn
//@emit protocol/serialization-types/src/common.rs struct:U32Json
//@emit protocol/serialization-types/src/common.rs impl:=implSerializeforU32Json as=U32Out
//@emit protocol/serialization-types/src/common.rs impl:=impl<'de>Deserialize<'de>forU32Json as=U32In
//@emit protocol/serialization-types/src/common.rs struct:U64Json
//@emit protocol/serialization-types/src/common.rs impl:=implSerializeforU64Json as=U64Out
//@emit protocol/serialization-types/src/common.rs impl:=impl<'de>Deserialize<'de>forU64Json as=U64In
//@emit protocol/serialization-types/src/common.rs struct:CharJson
//@emit protocol/serialization-types/src/common.rs impl:=implSerializeforCharJson as=CharOut
//@emit protocol/serialization-types/src/common.rs impl:=impl<'de>Deserialize<'de>forCharJson as=CharIn
// ------------------------------------------------------------ base58, hex and memos
//@sub impl < 'de , const VERSION_BYTE : u8 , T > =>> impl < const VERSION_BYTE : u8 , T >
//@sub T > Serialize for =>> T >
//@sub T > Deserialize < 'de > for =>> T >
//@sub T : From < Vec < u8 > > , =>> T : FromBytes ,
//@sub T : Deserialize < 'de > + From < Vec < u8 > > , =>> T : FromBytes ,
//@sub T : Serialize + AsRef < [ u8 ] > , =>> T : AsBytes ,
//@sub T : Deserialize < 'de > , =>>
//@sub T : Serialize , =>>
//@sub input : impl AsRef < [ u8 ] > =>> input : impl VxTxt
//@sub crate :: errors :: Error :: Base58DecodeError =>> vx_custom
//@sub crate :: errors :: Error :: BinProtError =>> vx_custom
//@sub Result < Self , crate :: errors :: Error > =>> core::result::Result < Self , JErr >
//@sub Result < String , crate :: errors :: Error > =>> core::result::Result < String , JErr >
//@sub v . into ( ) =>> T :: from_bytes ( v )
//@sub EncodeBuilder < 'static , & [ u8 ] > =>> Enc
//@sub EncodeBuilder < 'static , Vec < u8 > > =>> Enc
//@sub , bin_prot :: error :: Error > =>> , JErr >
//@sub bin_prot :: from_reader_strict =>> vx_unpack
//@sub bin_prot :: to_writer =>> vx_pack
//@sub Result < Enc , =>> core::result::Result < Enc ,
//@sub hex :: encode ( =>> vx_hex (
//@sub hex :: decode ( =>> vx_unhex (
//@sub hex :: FromHexError :: InvalidStringLength =>> vx_custom ( 0u8 )
//@sub Result < Self , hex :: FromHexError > =>> core::result::Result < Self , JErr >
//@sub s : impl AsRef < [ u8 ] > =>> s : & [ u8 ]
//@sub ( s . as_ref ( ) ) =>> ( s )
//@sub bytes . try_into ( ) =>> vx_arr ( bytes )
//@sub String :: from_utf8_lossy ( & text ) . into ( ) =>> vx_lossy ( & text )
//@sub version_bytes :: USER_COMMAND_MEMO =>> USER_COMMAND_MEMO
//@sub version_bytes :: SIGNATURE =>> SIGNATURE
//@sub version_bytes :: VRF_TRUNCATED_OUTPUT =>> VRF_TRUNCATED_OUTPUT
//@sub Versioned < ( FieldElement , InnerCurveScalar ) , 1 > =>> SigData
//@fn Raw::from_base58
    ensures r is Ok <==> held(VERSION_BYTE, input.txt()) is Some, r is Ok ==> r->Ok_0.0 == T::of(held(VERSION_BYTE, input.txt())->Some_0)
//@end
//@fn RawOut::to_base58_string
    ensures r is Ok && r->Ok_0@ == b58(VERSION_BYTE, self.0.bytes())
//@end
//@fn RawOut::to_base58_builder
    ensures r.says() == b58(VERSION_BYTE, self.0.bytes())
//@end
//@fn RawSer::serialize
    ensures r is Ok ==> r->Ok_0.text() == b58(VERSION_BYTE, self.0.bytes())
//@end
//@fn RawDe::deserialize
    ensures r is Ok <==> deserializer.text() is Some && held(VERSION_BYTE, deserializer.text()->Some_0) is Some, r is Ok ==> r->Ok_0.0 == T::of(held(VERSION_BYTE, deserializer.text()->Some_0)->Some_0)
//@end
//@emit protocol/serialization-types/src/common.rs struct:Base58EncodableType
//@emit protocol/serialization-types/src/common.rs impl:impl<constVERSION_BYTE:u8,T>Base58EncodableType<VERSION_BYTE,T>whereT:From<Vec<u8>> as=Raw
//@emit protocol/serialization-types/src/common.rs impl:impl<constVERSION_BYTE:u8,T>Base58EncodableType<VERSION_BYTE,T>whereT:Serialize as=RawOut
//@emit protocol/serialization-types/src/common.rs impl:SerializeforBase58EncodableType as=RawSer
//@emit protocol/serialization-types/src/common.rs impl:Deserialize<'de>forBase58EncodableType as=RawDe
//@fn Ver::from_base58
    ensures r is Ok <==> held(VERSION_BYTE, input.txt()) is Some && unpacked::<T>(held(VERSION_BYTE, input.txt())->Some_0) is Some, r is Ok ==> r->Ok_0.0 == unpacked::<T>(held(VERSION_BYTE, input.txt())->Some_0)->Some_0
//@end
//@fn VerOut::to_base58_string
    ensures r is Ok <==> packed(self.0) is Some, r is Ok ==> r->Ok_0@ == b58(VERSION_BYTE, packed(self.0)->Some_0)
//@end
//@fn VerOut::to_base58_builder
    ensures r is Ok <==> packed(self.0) is Some, r is Ok ==> r->Ok_0.says() == b58(VERSION_BYTE, packed(self.0)->Some_0)
//@end
//@fn VerSer::serialize
    ensures r is Ok ==> packed(self.0) is Some && r->Ok_0.text() == b58(VERSION_BYTE, packed(self.0)->Some_0)
//@end
//@fn VerDe::deserialize
    ensures r is Ok <==> deserializer.text() is Some && held(VERSION_BYTE, deserializer.text()->Some_0) is Some && unpacked::<T>(held(VERSION_BYTE, deserializer.text()->Some_0)->Some_0) is Some, r is Ok ==> r->Ok_0.0 == unpacked::<T>(held(VERSION_BYTE, deserializer.text()->Some_0)->Some_0)->Some_0
//@end
//@emit protocol/serialization-types/src/common.rs struct:Base58EncodableVersionedType
//@emit protocol/serialization-types/src/common.rs impl:impl<'de,constVERSION_BYTE:u8,T>Base58EncodableVersionedType as=Ver
//@emit protocol/serialization-types/src/common.rs impl:impl<constVERSION_BYTE:u8,T>Base58EncodableVersionedType<VERSION_BYTE,T>whereT:Serialize as=VerOut
//@emit protocol/serialization-types/src/common.rs impl:SerializeforBase58EncodableVersionedType as=VerSer
//@emit protocol/serialization-types/src/common.rs impl:Deserialize<'de>forBase58EncodableVersionedType as=VerDe
//@emit protocol/serialization-types/src/version_bytes.rs const:LEDGER_HASH
//@emit protocol/serialization-types/src/version_bytes.rs const:COINBASE_HASH
//@emit protocol/serialization-types/src/version_bytes.rs const:EPOCH_SEED
//@emit protocol/serialization-types/src/version_bytes.rs const:STATE_HASH
//@emit protocol/serialization-types/src/version_bytes.rs const:STATE_BODY_HASH
//@emit protocol/serialization-types/src/version_bytes.rs const:VRF_TRUNCATED_OUTPUT
//@emit protocol/serialization-types/src/version_bytes.rs const:STAGED_LEDGER_HASH_AUX_HASH
//@emit protocol/serialization-types/src/version_bytes.rs const:STAGED_LEDGER_HASH_PENDING_COINBASE_AUX
//@emit protocol/serialization-types/src/version_bytes.rs const:USER_COMMAND_MEMO
//@emit protocol/serialization-types/src/version_bytes.rs const:SIGNATURE
// hex
//@fn skip_0x_prefix_when_needed
    ensures r@ == bare(s@)
//@end
//@fn Hex::to_hex_string
    ensures r@ == hex_text(self.0@)
//@end
//@fn Hex::try_from_hex_str
    ensures r is Ok <==> unhex(bare(s@)) is Some && unhex(bare(s@))->Some_0.len() == 32, r is Ok ==> r->Ok_0.0@ == unhex(bare(s@))->Some_0
//@end
//@fn HexOut::serialize
    ensures r is Ok ==> r->Ok_0.text() == seq!['0', 'x'] + hex_text(self.0@)
//@end
//@fn HexIn::deserialize
    ensures r is Ok <==> deserializer.text() is Some && ({ let x = unhex(bare(utf8(deserializer.text()->Some_0))); x is Some && x->Some_0.len() == 32 }), r is Ok ==> r->Ok_0.0@ == unhex(bare(utf8(deserializer.text()->Some_0)))->Some_0
//@end
//@emit protocol/serialization-types/src/common.rs type:BigInt256
//@emit protocol/serialization-types/src/field_and_curve_elements.rs type:FieldElement
//@emit protocol/serialization-types/src/field_and_curve_elements.rs struct:FieldElementJson
//@emit protocol/serialization-types/src/field_and_curve_elements.rs fn:skip_0x_prefix_when_needed
//@emit protocol/serialization-types/src/field_and_curve_elements.rs impl:=implFieldElementJson as=Hex
//@emit protocol/serialization-types/src/field_and_curve_elements.rs impl:=implSerializeforFieldElementJson as=HexOut
//@sub try_from_hex_str ( s ) . map_err =>> try_from_hex_str ( vx_utf8 ( & s ) . as_slice ( ) ) . map_err
//@sub Self :: try_from_hex_str ( s ) =>> Self :: try_from_hex_str ( vx_utf8 ( & s ) . as_slice ( ) )
//@emit protocol/serialization-types/src/field_and_curve_elements.rs impl:=impl<'de>Deserialize<'de>forFieldElementJson as=HexIn
// memos, signatures, VRF outputs
//@fn MemoOut::serialize
    ensures r is Ok ==> r->Ok_0.text() == b58(0x14, self.0@)
//@end
//@fn MemoIn::deserialize
    ensures r is Ok <==> deserializer.text() is Some && held(0x14, deserializer.text()->Some_0) is Some, r is Ok ==> r->Ok_0.0@ =~= held(0x14, deserializer.text()->Some_0)->Some_0
//@end
//@fn SigOut::serialize
    ensures r is Ok ==> packed(self.0) is Some && r->Ok_0.text() == b58(0x9a, packed(self.0)->Some_0)
//@end
//@fn SigIn::deserialize
    ensures r is Ok <==> deserializer.text() is Some && held(0x9a, deserializer.text()->Some_0) is Some && unpacked::<SigData>(held(0x9a, deserializer.text()->Some_0)->Some_0) is Some, r is Ok ==> r->Ok_0.0 == unpacked::<SigData>(held(0x9a, deserializer.text()->Some_0)->Some_0)->Some_0
//@end
//@fn VrfOut::serialize
    requires self.0@.len() <= 255
    ensures r is Ok ==> r->Ok_0.text() == b58(0x15, seq![self.0@.len() as u8] + self.0@)
//@end
//@fn VrfIn::deserialize
    ensures r is Ok <==> deserializer.text() is Some && held(0x15, deserializer.text()->Some_0) is Some, r is Ok ==> ({ let h = held(0x15, deserializer.text()->Some_0)->Some_0; r->Ok_0.0@ =~= h.skip(upto(1, h.len() as int)) })
//@end
#[verifier::external_body] pub struct SigData { _x: () }
//@emit protocol/serialization-types/src/staged_ledger_diff.rs struct:SignedCommandMemoJson
//@emit protocol/serialization-types/src/staged_ledger_diff.rs impl:=implSerializeforSignedCommandMemoJson as=MemoOut
//@emit protocol/serialization-types/src/staged_ledger_diff.rs impl:=impl<'de>Deserialize<'de>forSignedCommandMemoJson as=MemoIn
//@emit protocol/serialization-types/src/signatures.rs struct:SignatureJson
//@emit protocol/serialization-types/src/signatures.rs impl:=implSerializeforSignatureJson as=SigOut
//@emit protocol/serialization-types/src/signatures.rs impl:=impl<'de>Deserialize<'de>forSignatureJson as=SigIn
//@emit protocol/serialization-types/src/consensus_state.rs struct:VrfOutputTruncatedBase58Json
//@emit protocol/serialization-types/src/consensus_state.rs impl:=implSerializeforVrfOutputTruncatedBase58Json as=VrfOut
//@emit protocol/serialization-types/src/consensus_state.rs impl:=impl<'de>Deserialize<'de>forVrfOutputTruncatedBase58Json as=VrfIn
/// the memo made of a text, and the text of a memo
pub open spec fn memo_of(s: Seq<u8>) -> Seq<u8> { seq![1u8, s.len() as u8] + s + Seq::new((32 - s.len()) as nat, |i: int| 0u8) }
pub open spec fn memo_text(m: Seq<u8>) -> Seq<u8> { let n = if m.len() > 1 { m[1] as int } else { 0 }; m.skip(upto(2, m.len() as int)).take(upto(n, m.len() - upto(2, m.len() as int))) }
#[verifier::external_body] pub struct SignedCommandMemoError { _x: () }
impl SignedCommandMemoError { #[verifier::external_body] pub fn long() -> Self { unimplemented!() } }
//@sub Result < Self , SignedCommandMemoError > =>> core::result::Result < Self , SignedCommandMemoError >
//@sub SignedCommandMemoError :: StringTooLong =>> SignedCommandMemoError :: long ( )
//@sub let s = s . as_ref ( ) ; =>>
//@sub . copied ( ) . unwrap_or_default ( ) =>> . vx_or_zero ( )
pub trait VxOrZero { spec fn z(self) -> u8; fn vx_or_zero(self) -> (r: u8) ensures r == self.z(); }
impl<'a> VxOrZero for Option<&'a u8> { open spec fn z(self) -> u8 { match self { Some(x) => *x, None => 0 } } fn vx_or_zero(self) -> (r: u8) { match self { Some(x) => *x, None => 0 } } }
#[verifier::external_body] pub fn vx_vec_fill(x: u8, n: usize) -> (r: Vec<u8>) ensures r@ == Seq::new(n as nat, |i: int| x) { unimplemented!() }
//@fn Memo::try_from_text
    ensures r is Ok <==> s@.len() <= 32, r is Ok ==> r->Ok_0.0@ =~= memo_of(s@)
//@loop 0
        invariant 0 <= vx_i0 <= s@.len(), vx_s0@ == s@, s@.len() <= 32, v@.len() == 34, v@[0] == 1, v@[1] == s@.len(), forall|j: int| 0 <= j < vx_i0 ==> v@[j + 2] == #[trigger] s@[j], forall|j: int| vx_i0 + 2 <= j < 34 ==> #[trigger] v@[j] == 0
        decreases s@.len() - vx_i0
//@end
//@fn Memo::to_text
    ensures r@ == lossy(memo_text(self.0@))
//@end
//@emit base/src/user_commands/memo.rs struct:SignedCommandMemo
//@emit base/src/user_commands/memo.rs impl:=implSignedCommandMemo as=Memo
// ------------------------------------------------------------ the lemmas
/// a base58 text reads back under its own version byte and under no other
pub proof fn hash_reads(a: u8, b: u8, p: Seq<u8>) ensures held(a, b58(a, p)) == Some(p), a != b ==> held(b, b58(a, p)) is None { broadcast use b58_reads; assert((seq![a] + p).skip(1) =~= p); assert((seq![a] + p)[0] == a); }
/// the kinds of hash have different version bytes, and so has every other base58 text
pub open spec fn kinds() -> Seq<u8> { seq![LEDGER_HASH, COINBASE_HASH, EPOCH_SEED, STATE_HASH, STATE_BODY_HASH, VRF_TRUNCATED_OUTPUT, STAGED_LEDGER_HASH_AUX_HASH, STAGED_LEDGER_HASH_PENDING_COINBASE_AUX, USER_COMMAND_MEMO, SIGNATURE] }
pub proof fn kinds_differ() ensures forall|i: int, j: int| 0 <= i < j < 10 ==> #[trigger] kinds()[i] != #[trigger] kinds()[j],
    LEDGER_HASH == 5, COINBASE_HASH == 12, EPOCH_SEED == 13, STATE_HASH == 16, STATE_BODY_HASH == 17, VRF_TRUNCATED_OUTPUT == 21, STAGED_LEDGER_HASH_AUX_HASH == 14, STAGED_LEDGER_HASH_PENDING_COINBASE_AUX == 15, USER_COMMAND_MEMO == 20, SIGNATURE == 154 { }
/// the text put in a memo is the text read from it
pub proof fn memo_reads(s: Seq<u8>) requires s.len() <= 32 ensures memo_text(memo_of(s)) == s, memo_of(s).len() == 34 { assert(memo_text(memo_of(s)) =~= s); }
/// hex: a decoder takes what the encoder writes, in the digits 0-9 a-f, and ASCII is its own UTF-8 (assumed)
#[verifier::external_body] pub proof fn hex_axiom(b: Seq<u8>) ensures unhex(utf8(hex_text(b))) == Some(b), forall|i: int| 0 <= i < utf8(hex_text(b)).len() ==> #[trigger] utf8(hex_text(b))[i] != 0x78, utf8(seq!['0', 'x'] + hex_text(b)) == seq![0x30u8, 0x78u8] + utf8(hex_text(b)) { }
/// the hex written for a field element reads back as it, with its prefix and without
pub proof fn hex_reads(b: Seq<u8>) ensures unhex(bare(utf8(hex_text(b)))) == Some(b), unhex(bare(utf8(seq!['0', 'x'] + hex_text(b)))) == Some(b), unhex(bare(seq![0x5cu8, 0x78u8] + utf8(hex_text(b)))) == Some(b) {
    hex_axiom(b); let h = utf8(hex_text(b)); assert(bare(seq![0x30u8, 0x78u8] + h) =~= h); assert(bare(seq![0x5cu8, 0x78u8] + h) =~= h);
}
/// the text written for an integer reads back as it
pub proof fn num_reads(n: nat, max: nat) requires n <= max ensures int_of(num(n), max) == Some(n), digs(num(n)), dec(num(n)) == n, num(n).len() >= 1 decreases n {
    let s = num(n);
    if n < 10 { assert(s.drop_last() =~= Seq::<char>::empty()); assert(dec(s.drop_last()) == 0); }
    else { num_reads(n / 10, max); assert(s.drop_last() =~= num(n / 10)); assert forall|i: int| 0 <= i < s.len() implies dig(#[trigger] s[i]) by { if i < s.len() - 1 { assert(s[i] == num(n / 10)[i]); } } }
    assert(dig(s[0]));
}
pub proof fn num_len(n: nat, k: nat) requires n < p10(k), k >= 1 ensures num(n).len() <= k decreases n { if n >= 10 { assert(p10(k) == 10 * p10((k - 1) as nat)); if k == 1 { assert(p10(1) == 10) by (compute); } num_len(n / 10, (k - 1) as nat); } }
pub proof fn dec_zeros(k: nat, s: Seq<char>) ensures dec(zeros(k) + s) == dec(s) decreases s.len(), k {
    let t = zeros(k) + s;
    if s.len() > 0 { assert(t.drop_last() =~= zeros(k) + s.drop_last()); dec_zeros(k, s.drop_last()); }
    else if k > 0 { assert(t.drop_last() =~= zeros((k - 1) as nat) + s); dec_zeros((k - 1) as nat, s); assert(t.last() == '0'); }
    else { assert(t =~= s); }
}
pub proof fn padl_reads(r: nat) requires r < P ensures padl(num(r)).len() == 9, digs(padl(num(r))), dec(padl(num(r))) == r {
    assert(p10(9) == 1000000000) by (compute); num_reads(r, r); num_len(r, 9); dec_zeros((9 - num(r).len()) as nat, num(r));
    let t = padl(num(r)); assert forall|i: int| 0 <= i < t.len() implies dig(#[trigger] t[i]) by { if t.len() > num(r).len() && i >= 9 - num(r).len() { assert(t[i] == num(r)[i - (9 - num(r).len())]); } else if t.len() == num(r).len() { assert(t[i] == num(r)[i]); } }
}
pub proof fn first_at(q: Seq<char>, f: Seq<char>) requires digs(q) ensures first(q + seq!['.'] + f, '.') == q.len() decreases q.len() {
    let s = q + seq!['.'] + f;
    if q.len() > 0 { assert(s[0] == q[0]); assert(s.skip(1) =~= q.skip(1) + seq!['.'] + f); assert forall|i: int| 0 <= i < q.skip(1).len() implies dig(#[trigger] q.skip(1)[i]) by { assert(q.skip(1)[i] == q[i + 1]); } first_at(q.skip(1), f); } else { assert(s[0] == '.'); }
}
pub proof fn first_none(q: Seq<char>) requires digs(q) ensures first(q, '.') == q.len() decreases q.len() {
    if q.len() > 0 { assert(dig(q[0])); assert forall|i: int| 0 <= i < q.skip(1).len() implies dig(#[trigger] q.skip(1)[i]) by { assert(q.skip(1)[i] == q[i + 1]); } first_none(q.skip(1)); }
}
pub proof fn split_two(q: Seq<char>, f: Seq<char>) requires digs(q), digs(f) ensures split(q + seq!['.'] + f, '.') =~= seq![q, f] { let s = q + seq!['.'] + f; first_at(q, f); first_none(f); assert(s.take(q.len() as int) =~= q); assert(s.skip(q.len() as int + 1) =~= f); assert(split(f, '.') =~= seq![f]); assert(split(s, '.') == seq![q] + split(f, '.')); }
pub proof fn split_one(q: Seq<char>) requires digs(q) ensures split(q, '.') =~= seq![q] { first_none(q); }
pub proof fn trim_zeros(f: Seq<char>) requires digs(f) ensures trim(f, '0').len() <= f.len(), digs(trim(f, '0')), trim(f, '0') + zeros((f.len() - trim(f, '0').len()) as nat) =~= f decreases f.len() {
    if f.len() > 0 && f.last() == '0' { assert(digs(f.drop_last())) by { assert forall|i: int| 0 <= i < f.drop_last().len() implies dig(#[trigger] f.drop_last()[i]) by { assert(f.drop_last()[i] == f[i]); } } trim_zeros(f.drop_last()); let t = trim(f, '0'); assert(zeros((f.len() - t.len()) as nat) =~= zeros((f.len() - 1 - t.len()) as nat).push('0')); assert(f =~= f.drop_last().push('0')); }
}
pub proof fn trim_after(a: Seq<char>, f: Seq<char>) requires a.len() > 0, a.last() != '0' ensures trim(a + f, '0') =~= a + trim(f, '0') decreases f.len() {
    let s = a + f;
    if f.len() > 0 { assert(s.last() == f.last()); if f.last() == '0' { assert(s.drop_last() =~= a + f.drop_last()); trim_after(a, f.drop_last()); } } else { assert(s =~= a); }
}
/// the property: the texts written for an amount denote it, and nothing else
pub proof fn amount_round_trip(n: nat) requires n <= u64::MAX ensures amount_of(full(n)) == Some(n), amount_of(short(n)) == Some(n) {
    let q = num(n / P); let f = padl(num(n % P)); let max = u64::MAX as nat;
    num_reads(n / P, max); padl_reads(n % P); split_two(q, f);
    assert(padr(f) == f); assert(amount_of(full(n)) == Some(n));
    let a = q + seq!['.']; let t = trim(f, '0');
    assert(full(n) =~= a + f); trim_after(a, f); trim_zeros(f);
    let u = a + t; assert(trim(full(n), '0') =~= u);
    assert(padr(t) =~= f);
    if t.len() > 0 {
        assert(u.last() == t.last()); assert(dig(t.last())); assert(short(n) == u);
        assert(u =~= q + seq!['.'] + t); split_two(q, t);
    } else {
        assert(u =~= a); assert(a.last() == '.'); assert(a.drop_last() =~= q); assert(dig(q.last())); assert(short(n) == q) by { assert(trim(q, '.') == q); }
        split_one(q); assert(padr(seq!['0']) =~= f) by { assert(f =~= zeros(9)); }
    }
}
} // verus!
fn main() {}
