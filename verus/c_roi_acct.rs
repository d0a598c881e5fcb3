//@include prelude_core.rs
broadcast use vx_bits;
//@include prelude_io.rs
//@include part_ro.rs
//@include part_roc.rs
//@nosub
// ------------------------------------------------------------ the legacy input (mina_hasher, assumed)
pub ghost struct Ro { pub fields: Seq<Fp>, pub bits: Seq<bool> }
pub open spec fn rnone() -> Ro { Ro { fields: Seq::empty(), bits: Seq::empty() } }
pub open spec fn rfld(f: Fp) -> Ro { Ro { fields: seq![f], bits: Seq::empty() } }
pub open spec fn rbits(s: Seq<bool>) -> Ro { Ro { fields: Seq::empty(), bits: s } }
pub open spec fn rbit(b: bool) -> Ro { rbits(seq![b]) }
/// the low w bits, least significant first
pub open spec fn int_bits(n: int, w: nat) -> Seq<bool> { Seq::new(w, |i: int| (n / two(i as nat)) % 2 == 1) }
pub open spec fn rnum(n: int, w: nat) -> Ro { rbits(int_bits(n, w)) }
impl Ro {
    pub open spec fn plus(self, o: Ro) -> Ro { Ro { fields: self.fields + o.fields, bits: self.bits + o.bits } }
    pub open spec fn shape(self) -> (nat, nat) { (self.fields.len(), self.bits.len()) }
}
impl ROInput {
    pub open spec fn view(self) -> Ro { Ro { fields: self.fields(), bits: self.bits() } }
    #[verifier::external_body] pub fn append_bytes(self, b: &[u8]) -> (r: ROInput) ensures r.view() == self.view().plus(rbits(bytes_bits(b@))) { unimplemented!() }
    #[verifier::external_body] pub fn append_bool(self, b: bool) -> (r: ROInput) ensures r.view() == self.view().plus(rbit(b)) { unimplemented!() }
    #[verifier::external_body] pub fn append_u32(self, x: u32) -> (r: ROInput) ensures r.view() == self.view().plus(rnum(x as int, 32)) { unimplemented!() }
    #[verifier::external_body] pub fn append_u64(self, x: u64) -> (r: ROInput) ensures r.view() == self.view().plus(rnum(x as int, 64)) { unimplemented!() }
    #[verifier::external_body] pub fn append_hashable<H: Hashable>(self, x: &H) -> (r: ROInput) requires x.ro_ok() ensures r.view() == self.view().plus(x.ro()) { unimplemented!() }
}
pub open spec fn chars(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
/// mina_hasher::Hashable
pub trait Hashable: Sized {
    type D;
    spec fn ro(&self) -> Ro;
    spec fn ro_ok(&self) -> bool;
    spec fn dom(d: Self::D) -> Option<Seq<char>>;
    fn to_roinput(&self) -> (r: ROInput) requires self.ro_ok() ensures r.view() == self.ro();
    fn domain_string(d: Self::D) -> (r: Option<String>) ensures chars(r) == Self::dom(d);
}
/// the two Poseidon instances: a hash depends on the instance, the domain and the input alone
pub enum Kind { Legacy, Kimchi }
pub uninterp spec fn hash_fp(k: Kind, d: Option<Seq<char>>, i: Ro) -> Fp;
#[verifier::external_body] #[verifier::reject_recursive_types(H)] pub struct Poseidon<H> { _h: core::marker::PhantomData<H> }
impl<H: Hashable> Poseidon<H> {
    pub uninterp spec fn kind(&self) -> Kind;
    pub uninterp spec fn domain(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn hash(&mut self, x: &H) -> (r: Fp) requires x.ro_ok() ensures r == hash_fp(old(self).kind(), old(self).domain(), x.ro()), final(self).kind() == old(self).kind(), final(self).domain() == old(self).domain() { unimplemented!() }
}
#[verifier::external_body] pub fn create_legacy<H: Hashable>(d: H::D) -> (r: Poseidon<H>) ensures r.kind() is Legacy, r.domain() == H::dom(d) { unimplemented!() }
#[verifier::external_body] pub fn create_kimchi<H: Hashable>(d: H::D) -> (r: Poseidon<H>) ensures r.kind() is Kimchi, r.domain() == H::dom(d) { unimplemented!() }
// ------------------------------------------------------------ other dependencies, assumed
impl VxInto<String> for &'static str { open spec fn into_ok(self) -> bool { true } open spec fn into_is(self, r: String) -> bool { r@ == self@ } #[verifier::external_body] fn vx_into(self) -> (r: String) { unimplemented!() } }
impl VxInto<Option<String>> for String { open spec fn into_ok(self) -> bool { true } open spec fn into_is(self, r: Option<String>) -> bool { r is Some && r->Some_0@ == self@ } fn vx_into(self) -> (r: Option<String>) { Some(self) } }
impl VxInto<Fp> for u64 { open spec fn into_ok(self) -> bool { true } open spec fn into_is(self, r: Fp) -> bool { r == fp(self as int) } #[verifier::external_body] fn vx_into(self) -> (r: Fp) { unimplemented!() } }
pub trait VxNames { fn vx_string(&self) -> (r: String); }
#[derive(Clone, Copy)]
pub struct CompressedPubKey { pub x: Fp, pub is_odd: bool }
pub uninterp spec fn pk_empty() -> CompressedPubKey;
impl<'a> CompressedPubKeyHashableWrapper<'a> { #[verifier::external_body] pub fn default() -> (r: Self) ensures *r.0 == pk_empty() { unimplemented!() } }
impl ZkApp { #[verifier::external_body] pub fn borrow_default<'a>() -> (r: &'a Self) { unimplemented!() } }
impl ZkAppUri { #[verifier::external_body] pub fn borrow_default<'a>() -> (r: &'a Self) { unimplemented!() } }
/// the 32 bytes of an element, little-endian
pub uninterp spec fn fp_bytes(f: Fp) -> Seq<u8>;
pub axiom fn fp_bytes_len(f: Fp) ensures fp_bytes(f).len() == 32;
impl Fp { #[verifier::external_body] pub fn to_bytes(&self) -> (r: Vec<u8>) ensures r@ == fp_bytes(*self), r@.len() == 32 { unimplemented!() } }
pub type FieldHelpersError = FieldError;
#[verifier::external_body] pub fn vx_copy_all(a: &mut [u8; 32], b: &[u8]) requires b@.len() == 32 ensures final(a)@ == b@ { unimplemented!() }
impl BaseHash { #[verifier::external_body] pub fn default() -> (r: BaseHash) { unimplemented!() } }
impl Field { #[verifier::external_body] pub fn default() -> (r: Field) { unimplemented!() } }
impl VxInto<BaseHash> for &[u8] { open spec fn into_ok(self) -> bool { self@.len() == 32 } open spec fn into_is(self, r: BaseHash) -> bool { r.0@ == self@ } fn vx_into(self) -> (r: BaseHash) { BaseHash::from_bytes_slice(self) } }
impl VxInto<Field> for &[u8] { open spec fn into_ok(self) -> bool { self@.len() == 32 } open spec fn into_is(self, r: Field) -> bool { r.0@ == self@ } fn vx_into(self) -> (r: Field) { Field::from_bytes_slice(self) } }
impl VxInto<BaseHash> for &Fp { open spec fn into_ok(self) -> bool { true } open spec fn into_is(self, r: BaseHash) -> bool { r.0@ == fp_bytes(*self) } fn vx_into(self) -> (r: BaseHash) { BaseHash::from_fp(self) } }
impl VxInto<StateHash> for &Fp { open spec fn into_ok(self) -> bool { true } open spec fn into_is(self, r: StateHash) -> bool { r.0.0@ == fp_bytes(*self) } fn vx_into(self) -> (r: StateHash) { StateHash::from_fp(self) } }
/// derive_more::From
impl VxInto<StateHash> for BaseHash { open spec fn into_ok(self) -> bool { true } open spec fn into_is(self, r: StateHash) -> bool { r.0 == self } #[verifier::external_body] fn vx_into(self) -> (r: StateHash) { unimplemented!() } }
impl VxInto<LedgerHash> for BaseHash { open spec fn into_ok(self) -> bool { true } open spec fn into_is(self, r: LedgerHash) -> bool { r.0 == self } #[verifier::external_body] fn vx_into(self) -> (r: LedgerHash) { unimplemented!() } }
#[verifier::external_body] pub fn vx_zeros() -> (r: [u8; 32]) ensures forall|i: int| 0 <= i < 32 ==> r@[i] == 0 { [0; 32] }
#[verifier::external_body] pub fn vx_copy_prefix(a: &mut [u8; 32], b: &[u8; 32], n: usize) requires n <= 32 ensures final(a)@ == b@.take(n as int) + old(a)@.skip(n as int) { unimplemented!() }
/// little-endian; an error (and then a panic) unless below the order
#[verifier::external_body] pub fn vx_fp_read(b: &[u8; 32]) -> (r: Fp) requires unle(b@) < p() ensures r == fp(unle(b@)) { unimplemented!() }
pub trait VxSeq<T> { spec fn s(&self) -> Seq<T>; }
impl<T> VxSeq<T> for Vec<T> { open spec fn s(&self) -> Seq<T> { self@ } }
impl<T, const N: usize> VxSeq<T> for [T; N] { open spec fn s(&self) -> Seq<T> { self@ } }
#[verifier::external_body] pub fn vx_at<T, S: VxSeq<T>>(v: &S, i: usize) -> (r: T) requires i < v.s().len() ensures r == v.s()[i as int] { unimplemented!() }
impl VxInto<Amount> for u64 { open spec fn into_ok(self) -> bool { true } open spec fn into_is(self, r: Amount) -> bool { r.0 == self } #[verifier::external_body] fn vx_into(self) -> (r: Amount) { unimplemented!() } }
impl VxInto<BlockTime> for u64 { open spec fn into_ok(self) -> bool { true } open spec fn into_is(self, r: BlockTime) -> bool { r.0 == self } #[verifier::external_body] fn vx_into(self) -> (r: BlockTime) { unimplemented!() } }
impl BigInteger256 { #[verifier::external_body] pub fn new(a: [u64; 4]) -> (r: BigInteger256) ensures r.val() == limbs(a@) { unimplemented!() } }
pub open spec fn limbs(a: Seq<u64>) -> int { a[0] + 0x1_0000_0000_0000_0000 * (a[1] + 0x1_0000_0000_0000_0000 * (a[2] + 0x1_0000_0000_0000_0000 * a[3])) }

// ------------------------------------------------------------ algebra of inputs
pub broadcast proof fn plus_fits(a: Chunk, b: Chunk) requires a.fits(), b.fits() ensures (#[trigger] a.plus(b)).fits() { let c = a.plus(b); assert forall|i: int| 0 <= i < c.packed.len() implies c.packed[i].1 <= 254 && (#[trigger] c.packed[i]).0.val() < two(c.packed[i].1 as nat) by { if i < a.packed.len() { assert(c.packed[i] == a.packed[i]); } else { assert(c.packed[i] == b.packed[i - a.packed.len()]); } } }
pub broadcast proof fn none_fits() ensures #[trigger] none().fits() { }
pub broadcast proof fn fld_fits(f: Fp) ensures (#[trigger] fld(f)).fits() { }
pub broadcast proof fn num_fits(n: int, w: u32) requires 0 <= n < two(w as nat), w <= 254 ensures (#[trigger] num(n, w)).fits() { fp_axioms(); two_vals(); two_mono(w as nat, 254); }
pub broadcast proof fn bit_fits(b: bool) ensures (#[trigger] bit(b)).fits() { two_vals(); fp_axioms(); }
pub broadcast proof fn u32_fits(n: u32) ensures (#[trigger] num(n as int, 32)).fits() { two_vals(); num_fits(n as int, 32); }
pub broadcast proof fn u64_fits(n: u64) ensures (#[trigger] num(n as int, 64)).fits() { two_vals(); num_fits(n as int, 64); }
pub broadcast proof fn bits_fits(s: Seq<bool>) ensures (#[trigger] bits(s)).fits() { two_vals(); fp_axioms(); }
pub broadcast group ro_fits { plus_fits, none_fits, fld_fits, num_fits, bit_fits, u32_fits, u64_fits, bits_fits }
pub broadcast proof fn rplus_none(c: Ro) ensures #[trigger] rnone().plus(c) == c { assert(rnone().plus(c).fields =~= c.fields); assert(rnone().plus(c).bits =~= c.bits); }
pub broadcast proof fn rplus_fld(c: Ro, f: Fp) ensures (#[trigger] c.plus(rfld(f))) == (Ro { fields: c.fields.push(f), bits: c.bits }) { assert(c.plus(rfld(f)).fields =~= c.fields.push(f)); assert(c.plus(rfld(f)).bits =~= c.bits); }
pub broadcast proof fn rplus_bits(c: Ro, s: Seq<bool>) ensures (#[trigger] c.plus(rbits(s))) == (Ro { fields: c.fields, bits: c.bits + s }) { assert(c.plus(rbits(s)).fields =~= c.fields); }
pub broadcast proof fn plus_none(c: Chunk) ensures #[trigger] none().plus(c) == c { assert(none().plus(c).fields =~= c.fields); assert(none().plus(c).packed =~= c.packed); }
pub proof fn le_zeros(a: Seq<u8>, z: Seq<u8>) requires forall|i: int| 0 <= i < z.len() ==> z[i] == 0 ensures unle(a + z) == unle(a) decreases a.len() + z.len()
{
    if a.len() > 0 { assert((a + z).skip(1) =~= a.skip(1) + z); le_zeros(a.skip(1), z); }
    else if z.len() > 0 { assert((a + z).skip(1) =~= a + z.skip(1)); le_zeros(a, z.skip(1)); }
}
pub broadcast proof fn padded(a: Seq<u8>, z: Seq<u8>, n: int) requires 0 <= n <= z.len(), forall|i: int| 0 <= i < z.len() ==> z[i] == 0 ensures unle(#[trigger] (a + z.skip(n))) == unle(a) { le_zeros(a, z.skip(n)); }
pub proof fn two_bits(a: bool, b: bool) ensures bits_int(seq![a, b]) == (if a { 1int } else { 0 }) + (if b { 2int } else { 0 }) { reveal_with_fuel(bits_int, 4); assert(seq![a, b].skip(1)[0] == b); assert(seq![a, b].skip(1).skip(1).len() == 0); }
pub proof fn two_192() ensures two(2) == 4, two(48) == 0x1_0000_0000_0000, two(62) == 0x4000_0000_0000_0000, two(254) == 0x4000_0000_0000_0000 * (0x1_0000_0000_0000_0000 * (0x1_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000))
{ two_vals(); assert(two(2) == 4) by (compute); assert(two(48) == 0x1_0000_0000_0000) by (compute); assert(two(62) == 0x4000_0000_0000_0000) by (compute); two_sum(62, 192); two_sum(64, 128); two_sum(64, 64); }
pub broadcast proof fn low_bits(b: u8) ensures
    #![trigger (b & 0b1)]
    (b & 0b1 > 0) == (b as int % 2 == 1), (b & 0b10 > 0) == ((b as int / 2) % 2 == 1), (b & 0b100 > 0) == ((b as int / 4) % 2 == 1), (b & 0b1000 > 0) == ((b as int / 8) % 2 == 1), (b & 0b10000 > 0) == ((b as int / 16) % 2 == 1)
{
    assert((b & 0b1 > 0) == (b % 2 == 1)) by (bit_vector); assert((b & 0b10 > 0) == ((b / 2) % 2 == 1)) by (bit_vector); assert((b & 0b100 > 0) == ((b / 4) % 2 == 1)) by (bit_vector);
    assert((b & 0b1000 > 0) == ((b / 8) % 2 == 1)) by (bit_vector); assert((b & 0b10000 > 0) == ((b / 16) % 2 == 1)) by (bit_vector);
}

// ------------------------------------------------------------ layouts that are not a plain chain
pub open spec fn low5(b: u8) -> Seq<bool> { seq![b as int % 2 == 1, (b as int / 2) % 2 == 1, (b as int / 4) % 2 == 1, (b as int / 8) % 2 == 1, (b as int / 16) % 2 == 1] }
/// every bit of up to 31 bytes, then the five low bits of the 32nd
pub open spec fn vrf_bits(v: Seq<u8>) -> Seq<bool> { if v.len() <= 31 { bytes_bits(v) } else { bytes_bits(v.take(31)) + low5(v[31]) } }
pub open spec fn lens(s: Seq<Length>, c: Chunk) -> Chunk decreases s.len() { if s.len() == 0 { c } else { lens(s.drop_last(), c).plus(s.last().chunk()) } }
pub open spec fn rlens(s: Seq<Length>, c: Ro) -> Ro decreases s.len() { if s.len() == 0 { c } else { rlens(s.drop_last(), c).plus(s.last().ro()) } }
pub proof fn lens_step(s: Seq<Length>, c: Chunk, k: int) requires 0 <= k < s.len() ensures lens(s.take(k + 1), c) == lens(s.take(k), c).plus(s[k].chunk()) { assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub proof fn rlens_step(s: Seq<Length>, c: Ro, k: int) requires 0 <= k < s.len() ensures rlens(s.take(k + 1), c) == rlens(s.take(k), c).plus(s[k].ro()) { assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub open spec fn tags(s: Seq<bool>, c: Chunk) -> Chunk decreases s.len() { if s.len() == 0 { c } else { tags(s.drop_last(), c).plus(bit(s.last())) } }
pub open spec fn rtags(s: Seq<bool>, c: Ro) -> Ro decreases s.len() { if s.len() == 0 { c } else { rtags(s.drop_last(), c).plus(rbit(s.last())) } }
pub proof fn tags_step(s: Seq<bool>, c: Chunk, k: int) requires 0 <= k < s.len() ensures tags(s.take(k + 1), c) == tags(s.take(k), c).plus(bit(s[k])) { assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub proof fn rtags_step(s: Seq<bool>, c: Ro, k: int) requires 0 <= k < s.len() ensures rtags(s.take(k + 1), c) == rtags(s.take(k), c).plus(rbit(s[k])) { assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub broadcast proof fn tags3(s: Seq<bool>, c: Chunk) requires s.len() == 3 ensures #[trigger] tags(s, c) == c.plus(bit(s[0])).plus(bit(s[1])).plus(bit(s[2])) { reveal_with_fuel(tags, 4); let t = s.drop_last(); assert(t.drop_last().drop_last().len() == 0); assert(t.drop_last().last() == s[0]); }
pub broadcast proof fn rtags3(s: Seq<bool>, c: Ro) requires s.len() == 3 ensures #[trigger] rtags(s, c) == c.plus(rbit(s[0])).plus(rbit(s[1])).plus(rbit(s[2])) { reveal_with_fuel(rtags, 4); let t = s.drop_last(); assert(t.drop_last().drop_last().len() == 0); assert(t.drop_last().last() == s[0]); }

pub open spec fn key(k: CompressedPubKey) -> Chunk { none().plus(fld(k.x)).plus(bit(k.is_odd)) }
pub open spec fn flags(a: AuthRequired) -> (bool, bool, bool) { match a {
    AuthRequired::None => (true, false, true),
    AuthRequired::Either => (false, false, true),
    AuthRequired::Proof => (false, false, false),
    AuthRequired::Signature => (false, true, true),
    AuthRequired::Both => (false, true, false),
    AuthRequired::Impossible => (true, true, false),
} }
/// the input of the default zkapp account
pub open spec fn zk1() -> Chunk { fld(fp(17818364107179681741int + 0x1_0000_0000_0000_0000 * (14791875366151232437 + 0x1_0000_0000_0000_0000 * (6753084239224090698 + 0x1_0000_0000_0000_0000 * 2060674656258731539)))) }
pub open spec fn zk2() -> Chunk { fld(fp(17064760232198382013int + 0x1_0000_0000_0000_0000 * (7053532856486746066 + 0x1_0000_0000_0000_0000 * (14503003448090529760 + 0x1_0000_0000_0000_0000 * 2522938464542289201)))) }
pub open spec fn zkapp() -> Chunk { none().plus(zk1()).plus(zk1()).plus(zk1()).plus(zk1()).plus(zk1()).plus(zk2()).plus(fld(fp(0))).plus(fld(fp(0))).plus(fld(fp(0))).plus(fld(fp(0))).plus(fld(fp(0))).plus(fld(fp(0))).plus(fld(fp(0))).plus(fld(fp(0))).plus(num(0, 1)).plus(num(0, 32)).plus(num(0, 32)) }
pub open spec fn zkuri() -> Chunk { none().plus(num(1, 1)) }
pub open spec fn packed(c: Chunk) -> Ro { Ro { fields: all_fields(c), bits: Seq::empty() } }

//@impl ChLength
    open spec fn chunk(&self) -> Chunk { none().plus(num(self.0 as int, 32)) }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl RoLength
    open spec fn ro(&self) -> Ro { rnone().plus(rnum(self.0 as int, 32)) }
    open spec fn ro_ok(&self) -> bool { true }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl ChAccountNonce
    open spec fn chunk(&self) -> Chunk { none().plus(num(self.0 as int, 32)) }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl RoAccountNonce
    open spec fn ro(&self) -> Ro { rnone().plus(rnum(self.0 as int, 32)) }
    open spec fn ro_ok(&self) -> bool { true }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl ChGlobalSlotNumber
    open spec fn chunk(&self) -> Chunk { none().plus(num(self.0 as int, 32)) }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl RoGlobalSlotNumber
    open spec fn ro(&self) -> Ro { rnone().plus(rnum(self.0 as int, 32)) }
    open spec fn ro_ok(&self) -> bool { true }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl ChAmount
    open spec fn chunk(&self) -> Chunk { none().plus(num(self.0 as int, 64)) }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl RoAmount
    open spec fn ro(&self) -> Ro { rnone().plus(rnum(self.0 as int, 64)) }
    open spec fn ro_ok(&self) -> bool { true }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl ChBlockTime
    open spec fn chunk(&self) -> Chunk { none().plus(num(self.0 as int, 64)) }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl RoBlockTime
    open spec fn ro(&self) -> Ro { rnone().plus(rnum(self.0 as int, 64)) }
    open spec fn ro_ok(&self) -> bool { true }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl ChTokenId
    open spec fn chunk(&self) -> Chunk { none().plus(fld(fp(self.0 as int))) }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl RoTokenId
    open spec fn ro(&self) -> Ro { rnone().plus(rnum(self.0 as int, 64)) }
    open spec fn ro_ok(&self) -> bool { true }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl ChField
    open spec fn chunk(&self) -> Chunk { none().plus(fld(fp(unle(self.0@)))) }
    open spec fn ok(&self) -> bool { unle(self.0@) < p() }
//@end
//@impl ChBaseHash
    open spec fn chunk(&self) -> Chunk { none().plus(fld(fp(unle(self.0@)))) }
    open spec fn ok(&self) -> bool { unle(self.0@) < p() }
//@end
//@impl RoBaseHash
    open spec fn ro(&self) -> Ro { rnone().plus(rfld(fp(unle(self.0@)))) }
    open spec fn ro_ok(&self) -> bool { unle(self.0@) < p() }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl ChStateHash
    open spec fn chunk(&self) -> Chunk { self.0.chunk() }
    open spec fn ok(&self) -> bool { self.0.ok() }
//@end
//@impl RoStateHash
    open spec fn ro(&self) -> Ro { rnone().plus(self.0.ro()) }
    open spec fn ro_ok(&self) -> bool { self.0.ro_ok() }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl ChLedgerHash
    open spec fn chunk(&self) -> Chunk { self.0.chunk() }
    open spec fn ok(&self) -> bool { self.0.ok() }
//@end
//@impl RoLedgerHash
    open spec fn ro(&self) -> Ro { rnone().plus(self.0.ro()) }
    open spec fn ro_ok(&self) -> bool { self.0.ro_ok() }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl ChChainHash
    open spec fn chunk(&self) -> Chunk { self.0.chunk() }
    open spec fn ok(&self) -> bool { self.0.ok() }
//@end
//@impl RoChainHash
    open spec fn ro(&self) -> Ro { rnone().plus(self.0.ro()) }
    open spec fn ro_ok(&self) -> bool { self.0.ro_ok() }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl ChCompressedPubKeyHashableWrapper
    open spec fn chunk(&self) -> Chunk { key(*self.0) }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl ChCompressedPubKeyOptionHashableWrapper
    open spec fn chunk(&self) -> Chunk { match *self.0 { Some(k) => key(k), None => key(pk_empty()) } }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl ChAuthRequired
    open spec fn chunk(&self) -> Chunk { none().plus(bit(flags(*self).0)).plus(bit(flags(*self).1)).plus(bit(flags(*self).2)) }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl ChPermissions
    open spec fn chunk(&self) -> Chunk { none().plus(self.edit_state.chunk()).plus(self.send.chunk()).plus(self.receive.chunk()).plus(self.set_delegate.chunk()).plus(self.set_permissions.chunk()).plus(self.set_verification_key.chunk()).plus(self.set_zkapp_uri.chunk()).plus(self.edit_sequence_state.chunk()).plus(self.set_token_symbol.chunk()).plus(self.increment_nonce.chunk()).plus(self.set_voting_for.chunk()) }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl ChTimedData
    open spec fn chunk(&self) -> Chunk { none().plus(self.initial_minimum_balance.chunk()).plus(num(self.cliff_time.0 as u32 as int, 32)).plus(self.cliff_amount.chunk()).plus(num(self.vesting_period.0 as u32 as int, 32)).plus(self.vesting_increment.chunk()) }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl ChTiming
    open spec fn chunk(&self) -> Chunk { match *self { Timing::Untimed => none().plus(num(0, 1)).plus(none().plus(none().plus(num(0, 64))).plus(num(0, 32)).plus(none().plus(num(0, 64))).plus(num(1, 32)).plus(none().plus(num(0, 64)))), Timing::Timed(t) => none().plus(num(1, 1)).plus(t.chunk()) } }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl ChTokenPermissions
    open spec fn chunk(&self) -> Chunk { match *self { TokenPermissions::NotOwned { account_disabled } => none().plus(num(if account_disabled { 2 } else { 0 }, 2)), TokenPermissions::TokenOwned { disable_new_accounts } => none().plus(num(if disable_new_accounts { 3 } else { 1 }, 2)) } }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl ChTokenSymbol
    open spec fn chunk(&self) -> Chunk { none().plus(num(unle(self.0@.take(6)), 48)) }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl ChZkApp
    open spec fn chunk(&self) -> Chunk { zkapp() }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl ChZkAppUri
    open spec fn chunk(&self) -> Chunk { zkuri() }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl ChZkAppOptionHashableWrapper
    open spec fn chunk(&self) -> Chunk { none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp())))) }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl RoZkAppOptionHashableWrapper
    open spec fn ro(&self) -> Ro { packed(zkapp()) }
    open spec fn ro_ok(&self) -> bool { true }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { Some("CodaZkappAccount"@) }
//@end
//@impl ChZkAppUriOptionHashableWrapper
    open spec fn chunk(&self) -> Chunk { none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri())))) }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl RoZkAppUriOptionHashableWrapper
    open spec fn ro(&self) -> Ro { packed(zkuri()) }
    open spec fn ro_ok(&self) -> bool { true }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { Some("MinaZkappUri"@) }
//@end
//@impl ChAccount
    open spec fn chunk(&self) -> Chunk { none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(self.permissions.chunk()).plus(self.timing.chunk()).plus(self.voting_for.chunk()).plus(match self.delegate { Some(k) => key(k), None => key(pk_empty()) }).plus(self.receipt_chain_hash.chunk()).plus(self.nonce.chunk()).plus(self.balance.chunk()).plus(self.token_symbol.chunk()).plus(self.token_permissions.chunk()).plus(self.token_id.chunk()).plus(key(self.public_key)) }
    open spec fn ok(&self) -> bool { self.voting_for.ok() && self.receipt_chain_hash.ok() }
//@end
//@impl RoAccount
    open spec fn ro(&self) -> Ro { packed(self.chunk()) }
    open spec fn ro_ok(&self) -> bool { self.ok() }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { Some("CodaAccount"@) }
//@end
//@fn ByField::from
//@ret r
    requires b@.len() == 32,
    ensures r.0@ == b@,
//@end
//@fn FrField::from
//@ret r
    ensures r.0@ == fp_bytes(*i),
//@end
//@fn TryField::try_from
//@ret r
    ensures r is Ok <==> unle(i.0@) < p(), r is Ok ==> r->Ok_0 == fp(unle(i.0@)),
//@end
//@fn ByBaseHash::from
//@ret r
    requires b@.len() == 32,
    ensures r.0@ == b@,
//@end
//@fn FrBaseHash::from
//@ret r
    ensures r.0@ == fp_bytes(*i),
//@end
//@fn TryBaseHash::try_from
//@ret r
    ensures r is Ok <==> unle(i.0@) < p(), r is Ok ==> r->Ok_0 == fp(unle(i.0@)),
//@end
//@fn FrStateHash::from
//@ret r
    ensures r.0.0@ == fp_bytes(*i),
//@end
//@fn FrLedgerHash::from
//@ret r
    ensures r.0.0@ == fp_bytes(*i),
//@end
//@fn TokenSymbol::max_length
//@ret r
    ensures r == 6,
//@end
//@fn TokenSymbol::num_bits
//@ret r
    ensures r == 48,
//@end
//@fn ChLength::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoLength::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChAccountNonce::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoAccountNonce::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChGlobalSlotNumber::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoGlobalSlotNumber::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChAmount::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoAmount::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChBlockTime::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoBlockTime::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChTokenId::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoTokenId::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChField::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn ChBaseHash::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoBaseHash::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChStateHash::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoStateHash::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChLedgerHash::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoLedgerHash::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChChainHash::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoChainHash::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChCompressedPubKeyHashableWrapper::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn ChCompressedPubKeyOptionHashableWrapper::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn ChAuthRequired::to_chunked_roinput
//@loop 0
    invariant vx_i0 <= vx_s0@.len(), vx_s0@.len() == 3, vx_s0@ =~= seq![flags(*self).0, flags(*self).1, flags(*self).2], roi.view() == tags(vx_s0@.take(vx_i0 as int), none()), roi.view().fits(),
    decreases vx_s0@.len() - vx_i0
//@body 0
    proof { let b = vx_s0@[vx_i0 as int]; tags_step(vx_s0@, none(), vx_i0 as int); one_bit(b); two_vals(); bit_fits(b); plus_fits(tags(vx_s0@.take(vx_i0 as int), none()), bit(b)); assert(Seq::<bool>::empty().push(b) =~= seq![b]); }
//@entry
    broadcast use ro_fits; broadcast use {take_all, tags3};
//@end
//@fn ChPermissions::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn ChTimedData::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn ChTiming::to_chunked_roinput
//@entry
    broadcast use ro_fits; proof { two_vals(); }
//@end
//@fn ChTokenPermissions::to_chunked_roinput
//@entry
    broadcast use ro_fits; proof { two_vals(); two_192(); two_bits(false, false); two_bits(false, true); two_bits(true, false); two_bits(true, true); two_mono(2, 254); assert forall|a: bool, b: bool| #[trigger] Seq::<bool>::empty().push(a).push(b) == seq![a, b] by { assert(Seq::<bool>::empty().push(a).push(b) =~= seq![a, b]); } num_fits(0, 2); num_fits(1, 2); num_fits(2, 2); num_fits(3, 2); }
//@end
//@fn ChTokenSymbol::to_chunked_roinput
//@entry
    broadcast use ro_fits; proof { two_vals(); two_192(); bytes_num(self.0@.take(6)); assert(self.0@.take(6).len() == 6); assert(two(8 * self.0@.take(6).len()) == two(48)); assert forall|b: [u8; 32]| (forall|i: int| 0 <= i < 32 ==> b@[i] == 0) implies unle(self.0@.take(6) + #[trigger] b@.skip(6)) == unle(self.0@.take(6)) by { padded(self.0@.take(6), b@, 6); } two_mono(48, 254);  }
//@end
//@fn ChZkApp::to_chunked_roinput
//@entry
    broadcast use ro_fits; proof { two_vals(); two_192(); }
//@end
//@fn ChZkAppUri::to_chunked_roinput
//@entry
    broadcast use ro_fits; proof { two_vals(); }
//@end
//@fn ChZkAppOptionHashableWrapper::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoZkAppOptionHashableWrapper::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChZkAppUriOptionHashableWrapper::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoZkAppUriOptionHashableWrapper::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChAccount::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoAccount::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@sub [ 0 ; 32 ] =>> vx_zeros ( )
//@sub numbers :: GlobalSlotNumber =>> GlobalSlotNumber
//@sub mina_hasher :: ROInput =>> ROInput
//@sub mina_hasher :: Hashable =>> Hashable
//@sub mina_hasher :: create_kimchi =>> create_kimchi
//@sub & self . 0 [ .. 31 ] =>> self . 0 . vx_prefix ( 31 )
//@sub . iter ( ) . rev ( ) . cloned ( ) . collect ( ) =>> . vx_rev ( )
//@sub BitVec :: with_capacity =>> Vec :: < bool > :: with_capacity
//@sub bytes [ .. Self :: max_length ( ) ] . copy_from_slice ( & self . 0 [ .. Self :: max_length ( ) ] ) =>> vx_copy_prefix ( & mut bytes , & self . 0 , Self :: max_length ( ) )
//@sub Fp :: read ( & bytes [ .. ] ) . unwrap ( ) =>> vx_fp_read ( & bytes )
//@sub self . try_into ( ) =>> Self :: try_from ( self )
//@sub o . 0 . copy_from_slice ( b ) =>> vx_copy_all ( & mut o . 0 , b )
//@sub Result < Self , Self :: Error > =>> core :: result :: Result < Fp , FieldHelpersError >
//@sub type Error = FieldHelpersError ; =>>
//@sub ( & f ) . into ( ) =>> VxInto :: < StateHash > :: vx_into ( & f )
//@sub impl TryFrom < & Field > for Fp =>> impl Field
//@sub impl From < & [ u8 ] > for Field =>> impl Field
//@sub fn from ( b : & [ u8 ] ) =>> pub fn from_bytes_slice ( b : & [ u8 ] )
//@sub impl TryFrom < & BaseHash > for Fp =>> impl BaseHash
//@sub impl From < & [ u8 ] > for BaseHash =>> impl BaseHash
//@sub fn from ( b : & [ u8 ] ) =>> pub fn from_bytes_slice ( b : & [ u8 ] )
//@sub impl From < & Fp > for Field =>> impl Field
//@sub impl From < & Fp > for BaseHash =>> impl BaseHash
//@sub impl From < & Fp > for StateHash =>> impl StateHash
//@sub impl From < & Fp > for LedgerHash =>> impl LedgerHash
//@sub fn from ( i : & Fp ) =>> pub fn from_fp ( i : & Fp )
//@sub fn try_from ( =>> pub fn try_from (
//@sub . into ( ) =>> . vx_into ( )
//@rw for_all
//@sub vx_nth ( =>> vx_at (
//@sub impl Default for TimedData =>> impl TimedData

//@emit crypto/src/hash/types.rs struct:Field
//@emit crypto/src/hash/types.rs struct:BaseHash
//@emit crypto/src/hash/types.rs struct:StateHash
//@emit crypto/src/hash/types.rs struct:LedgerHash
//@emit crypto/src/hash/types.rs struct:ChainHash
//@emit crypto/src/hash/types.rs impl:=implFrom<&[u8]>forField as=ByField
//@emit crypto/src/hash/types.rs impl:=implFrom<&Fp>forField as=FrField
//@emit crypto/src/hash/types.rs impl:=implTryFrom<&Field>forFp as=TryField
//@emit crypto/src/hash/types.rs impl:=implFrom<&[u8]>forBaseHash as=ByBaseHash
//@emit crypto/src/hash/types.rs impl:=implFrom<&Fp>forBaseHash as=FrBaseHash
//@emit crypto/src/hash/types.rs impl:=implTryFrom<&BaseHash>forFp as=TryBaseHash
//@emit crypto/src/hash/types.rs impl:=implFrom<&Fp>forStateHash as=FrStateHash
//@emit crypto/src/hash/types.rs impl:=implFrom<&Fp>forLedgerHash as=FrLedgerHash
//@emit crypto/src/hash/types.rs impl:=implToChunkedROInputforField as=ChField
//@emit crypto/src/hash/types.rs impl:=implToChunkedROInputforBaseHash as=ChBaseHash
//@emit crypto/src/hash/types.rs impl:=implHashableforBaseHash as=RoBaseHash
//@emit crypto/src/hash/types.rs impl:=implToChunkedROInputforStateHash as=ChStateHash
//@emit crypto/src/hash/types.rs impl:=implHashableforStateHash as=RoStateHash
//@emit crypto/src/hash/types.rs impl:=implToChunkedROInputforLedgerHash as=ChLedgerHash
//@emit crypto/src/hash/types.rs impl:=implHashableforLedgerHash as=RoLedgerHash
//@emit crypto/src/hash/types.rs impl:=implToChunkedROInputforChainHash as=ChChainHash
//@emit crypto/src/hash/types.rs impl:=implHashableforChainHash as=RoChainHash
//@emit base/src/numbers.rs struct:TokenId
//@emit base/src/numbers.rs struct:Length
//@emit base/src/numbers.rs struct:Amount
//@emit base/src/numbers.rs struct:AccountNonce
//@emit base/src/numbers.rs struct:GlobalSlotNumber
//@emit base/src/numbers.rs struct:BlockTime
//@emit base/src/numbers.rs impl:=implToChunkedROInputforTokenId as=ChTokenId
//@emit base/src/numbers.rs impl:=implHashableforTokenId as=RoTokenId
//@emit base/src/numbers.rs impl:=implToChunkedROInputforLength as=ChLength
//@emit base/src/numbers.rs impl:=implHashableforLength as=RoLength
//@emit base/src/numbers.rs impl:=implToChunkedROInputforAmount as=ChAmount
//@emit base/src/numbers.rs impl:=implHashableforAmount as=RoAmount
//@emit base/src/numbers.rs impl:=implToChunkedROInputforAccountNonce as=ChAccountNonce
//@emit base/src/numbers.rs impl:=implHashableforAccountNonce as=RoAccountNonce
//@emit base/src/numbers.rs impl:=implToChunkedROInputforGlobalSlotNumber as=ChGlobalSlotNumber
//@emit base/src/numbers.rs impl:=implHashableforGlobalSlotNumber as=RoGlobalSlotNumber
//@emit base/src/numbers.rs impl:=implToChunkedROInputforBlockTime as=ChBlockTime
//@emit base/src/numbers.rs impl:=implHashableforBlockTime as=RoBlockTime
//@emit base/src/common.rs struct:CompressedPubKeyHashableWrapper
//@emit base/src/common.rs struct:CompressedPubKeyOptionHashableWrapper
//@emit base/src/common.rs impl:=impl<'a>ToChunkedROInputforCompressedPubKeyHashableWrapper<'a> as=ChCompressedPubKeyHashableWrapper
//@emit base/src/common.rs impl:=impl<'a>ToChunkedROInputforCompressedPubKeyOptionHashableWrapper<'a> as=ChCompressedPubKeyOptionHashableWrapper
//@emit base/src/account/permissions.rs enum:AuthRequired
//@emit base/src/account/permissions.rs struct:Permissions
//@emit base/src/account/permissions.rs impl:=implToChunkedROInputforAuthRequired as=ChAuthRequired
//@emit base/src/account/permissions.rs impl:=implToChunkedROInputforPermissions as=ChPermissions
//@emit base/src/account/timing.rs struct:TimedData
//@emit base/src/account/timing.rs enum:Timing
//@fn TdDef::default
//@ret r
    ensures r.initial_minimum_balance.0 == 0, r.cliff_time.0 == 0, r.cliff_amount.0 == 0, r.vesting_period.0 == 1, r.vesting_increment.0 == 0,
//@end
//@emit base/src/account/timing.rs impl:=implDefaultforTimedData as=TdDef
//@emit base/src/account/timing.rs impl:=implToChunkedROInputforTimedData as=ChTimedData
//@emit base/src/account/timing.rs impl:=implToChunkedROInputforTiming as=ChTiming
//@emit base/src/account/token_permissions.rs enum:TokenPermissions
//@emit base/src/account/token_permissions.rs impl:=implToChunkedROInputforTokenPermissions as=ChTokenPermissions
//@emit base/src/account/token_symbol.rs struct:TokenSymbol
//@emit base/src/account/token_symbol.rs impl:=implTokenSymbol as=TokenSymbol
//@emit base/src/account/token_symbol.rs impl:=implToChunkedROInputforTokenSymbol as=ChTokenSymbol
//@emit base/src/account/zkapp.rs struct:ZkApp
//@emit base/src/account/zkapp.rs struct:ZkAppOptionHashableWrapper
//@emit base/src/account/zkapp.rs struct:ZkAppUri
//@emit base/src/account/zkapp.rs struct:ZkAppUriOptionHashableWrapper
//@emit base/src/account/zkapp.rs impl:=implToChunkedROInputforZkApp as=ChZkApp
//@emit base/src/account/zkapp.rs impl:=impl<'a>ToChunkedROInputforZkAppOptionHashableWrapper<'a> as=ChZkAppOptionHashableWrapper
//@emit base/src/account/zkapp.rs impl:=impl<'a>HashableforZkAppOptionHashableWrapper<'a> as=RoZkAppOptionHashableWrapper
//@emit base/src/account/zkapp.rs impl:=implToChunkedROInputforZkAppUri as=ChZkAppUri
//@emit base/src/account/zkapp.rs impl:=impl<'a>ToChunkedROInputforZkAppUriOptionHashableWrapper<'a> as=ChZkAppUriOptionHashableWrapper
//@emit base/src/account/zkapp.rs impl:=impl<'a>HashableforZkAppUriOptionHashableWrapper<'a> as=RoZkAppUriOptionHashableWrapper
//@emit base/src/account/mod.rs struct:Account
//@emit base/src/account/mod.rs impl:=implToChunkedROInputforAccount as=ChAccount
//@emit base/src/account/mod.rs impl:=implmina_hasher::HashableforAccount as=RoAccount
// ------------------------------------------------------------ an input determines its value
pub open spec fn same_sh(a: Chunk, b: Chunk) -> bool { a.shape() == b.shape() && same_widths(a.packed, b.packed) }
pub broadcast proof fn sh_plus(a: Chunk, b: Chunk, c: Chunk, d: Chunk) requires same_sh(a, c), same_sh(b, d) ensures #[trigger] same_sh(a.plus(b), c.plus(d)) {
    let (x, y) = (a.plus(b), c.plus(d)); assert(a.shape() == c.shape() && b.shape() == d.shape()); assert(a.packed.len() == c.packed.len() && b.packed.len() == d.packed.len() && a.fields.len() == c.fields.len() && b.fields.len() == d.fields.len());
    assert forall|i: int| 0 <= i < x.packed.len() implies (#[trigger] x.packed[i]).1 == y.packed[i].1 by { if i < a.packed.len() { assert(a.packed[i].1 == c.packed[i].1); } else { assert(b.packed[i - a.packed.len()].1 == d.packed[i - a.packed.len()].1); } } }
pub proof fn sh_none0() ensures same_sh(none(), none()) { }
pub broadcast proof fn sh_none() ensures #[trigger] same_sh(none(), none()) { }
pub broadcast proof fn sh_num(x: int, y: int, w: u32) ensures #[trigger] same_sh(num(x, w), num(y, w)) { }
pub broadcast proof fn sh_bit(x: bool, y: bool) ensures #[trigger] same_sh(bit(x), bit(y)) { }
pub broadcast proof fn sh_fld(x: Fp, y: Fp) ensures #[trigger] same_sh(fld(x), fld(y)) { }
pub broadcast proof fn sh_bits(x: Seq<bool>, y: Seq<bool>) requires x.len() == y.len() ensures #[trigger] same_sh(bits(x), bits(y)) { }
pub broadcast proof fn sh_key(x: CompressedPubKey, y: CompressedPubKey) ensures #[trigger] same_sh(key(x), key(y)) { broadcast use {sh_plus, sh_none, sh_bit, sh_fld}; }
pub broadcast group shapes { sh_plus, sh_none, sh_num, sh_bit, sh_fld, sh_bits, sh_key }
pub proof fn num_one(x: int, y: int, w: u32) requires num(x, w) == num(y, w), 0 <= x < p(), 0 <= y < p() ensures x == y { assert(num(x, w).packed[0] == num(y, w).packed[0]); fp_inj(x, y); }
pub proof fn bit_one(x: bool, y: bool) requires bit(x) == bit(y) ensures x == y { two_vals(); num_one(if x { 1 } else { 0 }, if y { 1 } else { 0 }, 1); }
pub proof fn fld_one(x: Fp, y: Fp) requires fld(x) == fld(y) ensures x == y { let (s, t) = (fld(x).fields, fld(y).fields); assert(s == seq![x] && t == seq![y]); assert(s[0] == x && t[0] == y); }
pub proof fn bits_one(x: Seq<bool>, y: Seq<bool>) requires bits(x) == bits(y), x.len() == y.len() ensures x == y { assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { two_vals(); assert(bits(x).packed[i] == bits(y).packed[i]); fp_inj(if x[i] { 1 } else { 0 }, if y[i] { 1 } else { 0 }); } assert(x =~= y); }
pub proof fn key_one(x: CompressedPubKey, y: CompressedPubKey) requires key(x) == key(y) ensures x == y { broadcast use shapes; plus_inj(none().plus(fld(x.x)), bit(x.is_odd), none().plus(fld(y.x)), bit(y.is_odd)); plus_inj(none(), fld(x.x), none(), fld(y.x)); fld_one(x.x, y.x); bit_one(x.is_odd, y.is_odd); }
pub proof fn le_inj(a: Seq<u8>, b: Seq<u8>) requires a.len() == b.len(), unle(a) == unle(b) ensures a == b decreases a.len() { if a.len() > 0 { assert(a[0] == b[0]) by { assert(unle(a) == a[0] as int + 256 * unle(a.skip(1)) && unle(b) == b[0] as int + 256 * unle(b.skip(1))); } le_inj(a.skip(1), b.skip(1)); assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1)); } else { assert(a =~= b); } }
// the legacy input
pub proof fn rplus_inj(a: Ro, b: Ro, c: Ro, d: Ro) requires a.plus(b) == c.plus(d), b.shape() == d.shape() ensures a == c, b == d {
    let (x, y) = (a.plus(b), c.plus(d)); let (n, m) = (a.fields.len() as int, a.bits.len() as int);
    assert(b.fields.len() == d.fields.len() && b.bits.len() == d.bits.len()); assert(x.fields.len() == a.fields.len() + b.fields.len() && y.fields.len() == c.fields.len() + d.fields.len() && x.bits.len() == a.bits.len() + b.bits.len() && y.bits.len() == c.bits.len() + d.bits.len());
    assert(a.fields =~= x.fields.take(n)); assert(c.fields =~= y.fields.take(n)); assert(b.fields =~= x.fields.skip(n)); assert(d.fields =~= y.fields.skip(n));
    assert(a.bits =~= x.bits.take(m)); assert(c.bits =~= y.bits.take(m)); assert(b.bits =~= x.bits.skip(m)); assert(d.bits =~= y.bits.skip(m)); }
pub open spec fn rsame_sh(a: Ro, b: Ro) -> bool { a.shape() == b.shape() }
pub broadcast proof fn rsh_plus(a: Ro, b: Ro, c: Ro, d: Ro) requires rsame_sh(a, c), rsame_sh(b, d) ensures #[trigger] rsame_sh(a.plus(b), c.plus(d)) { assert(a.shape() == c.shape() && b.shape() == d.shape()); assert(a.fields.len() == c.fields.len() && a.bits.len() == c.bits.len() && b.fields.len() == d.fields.len() && b.bits.len() == d.bits.len()); }
pub proof fn rsh_none0() ensures rsame_sh(rnone(), rnone()) { }
pub broadcast proof fn rsh_none() ensures #[trigger] rsame_sh(rnone(), rnone()) { }
pub broadcast proof fn rsh_num(x: int, y: int, w: nat) ensures #[trigger] rsame_sh(rnum(x, w), rnum(y, w)) { }
pub broadcast proof fn rsh_bit(x: bool, y: bool) ensures #[trigger] rsame_sh(rbit(x), rbit(y)) { }
pub broadcast proof fn rsh_fld(x: Fp, y: Fp) ensures #[trigger] rsame_sh(rfld(x), rfld(y)) { }
pub broadcast proof fn rsh_bits(x: Seq<bool>, y: Seq<bool>) requires x.len() == y.len() ensures #[trigger] rsame_sh(rbits(x), rbits(y)) { }
pub broadcast group rshapes { rsh_plus, rsh_none, rsh_num, rsh_bit, rsh_fld, rsh_bits }
pub proof fn int_bits_val(n: int, k: nat) requires 0 <= n < two(k) ensures bits_int(int_bits(n, k)) == n decreases k {
    if k > 0 { let s = int_bits(n, k); let t = int_bits(n / 2, (k - 1) as nat); assert(two(0) == 1);
        assert forall|i: int| 0 <= i < t.len() implies s.skip(1)[i] == t[i] by { two_pos(i as nat); assert(two((i + 1) as nat) == 2 * two(i as nat)); vstd::arithmetic::div_mod::lemma_div_denominator(n, 2, two(i as nat)); }
        assert(s.skip(1) =~= t); int_bits_val(n / 2, (k - 1) as nat); assert(s[0] == ((n / 1) % 2 == 1)); assert(n == 2 * (n / 2) + n % 2); } }
pub proof fn rnum_one(x: int, y: int, w: nat) requires rnum(x, w) == rnum(y, w), 0 <= x < two(w), 0 <= y < two(w) ensures x == y { int_bits_val(x, w); int_bits_val(y, w); }
pub proof fn rbit_one(x: bool, y: bool) requires rbit(x) == rbit(y) ensures x == y { let (s, t) = (rbit(x).bits, rbit(y).bits); assert(s == seq![x] && t == seq![y]); assert(s[0] == x && t[0] == y); }
pub proof fn rfld_one(x: Fp, y: Fp) requires rfld(x) == rfld(y) ensures x == y { let (s, t) = (rfld(x).fields, rfld(y).fields); assert(s == seq![x] && t == seq![y]); assert(s[0] == x && t[0] == y); }

pub open spec fn len_length(a: Length, b: Length) -> bool { true }
pub open spec fn same_length(a: Length, b: Length) -> bool { a.0 == b.0 }
pub proof fn sh_length(a: Length, b: Length) requires len_length(a, b) ensures same_sh(a.chunk(), b.chunk()) { sh_none0();  sh_num(a.0 as int, b.0 as int, 32); sh_plus(none(), num(a.0 as int, 32), none(), num(b.0 as int, 32)); }
pub proof fn inj_length(a: Length, b: Length) requires a.ok(), b.ok(), len_length(a, b), a.chunk() == b.chunk() ensures same_length(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); sh_none0();  sh_num(a.0 as int, b.0 as int, 32); sh_plus(none(), num(a.0 as int, 32), none(), num(b.0 as int, 32));
    plus_inj(none(), num(a.0 as int, 32), none(), num(b.0 as int, 32));
    num_one(a.0 as int, b.0 as int, 32);
    
}
pub open spec fn rlen_length(a: Length, b: Length) -> bool { true }
pub proof fn rsh_length(a: Length, b: Length) requires rlen_length(a, b) ensures rsame_sh(a.ro(), b.ro()) { rsh_none0();  rsh_num(a.0 as int, b.0 as int, 32); rsh_plus(rnone(), rnum(a.0 as int, 32), rnone(), rnum(b.0 as int, 32)); }
pub proof fn rinj_length(a: Length, b: Length) requires a.ro_ok(), b.ro_ok(), rlen_length(a, b), a.ro() == b.ro() ensures same_length(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); rsh_none0();  rsh_num(a.0 as int, b.0 as int, 32); rsh_plus(rnone(), rnum(a.0 as int, 32), rnone(), rnum(b.0 as int, 32));
    rplus_inj(rnone(), rnum(a.0 as int, 32), rnone(), rnum(b.0 as int, 32));
    rnum_one(a.0 as int, b.0 as int, 32);
    
}
pub open spec fn len_accountnonce(a: AccountNonce, b: AccountNonce) -> bool { true }
pub open spec fn same_accountnonce(a: AccountNonce, b: AccountNonce) -> bool { a.0 == b.0 }
pub proof fn sh_accountnonce(a: AccountNonce, b: AccountNonce) requires len_accountnonce(a, b) ensures same_sh(a.chunk(), b.chunk()) { sh_none0();  sh_num(a.0 as int, b.0 as int, 32); sh_plus(none(), num(a.0 as int, 32), none(), num(b.0 as int, 32)); }
pub proof fn inj_accountnonce(a: AccountNonce, b: AccountNonce) requires a.ok(), b.ok(), len_accountnonce(a, b), a.chunk() == b.chunk() ensures same_accountnonce(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); sh_none0();  sh_num(a.0 as int, b.0 as int, 32); sh_plus(none(), num(a.0 as int, 32), none(), num(b.0 as int, 32));
    plus_inj(none(), num(a.0 as int, 32), none(), num(b.0 as int, 32));
    num_one(a.0 as int, b.0 as int, 32);
    
}
pub open spec fn rlen_accountnonce(a: AccountNonce, b: AccountNonce) -> bool { true }
pub proof fn rsh_accountnonce(a: AccountNonce, b: AccountNonce) requires rlen_accountnonce(a, b) ensures rsame_sh(a.ro(), b.ro()) { rsh_none0();  rsh_num(a.0 as int, b.0 as int, 32); rsh_plus(rnone(), rnum(a.0 as int, 32), rnone(), rnum(b.0 as int, 32)); }
pub proof fn rinj_accountnonce(a: AccountNonce, b: AccountNonce) requires a.ro_ok(), b.ro_ok(), rlen_accountnonce(a, b), a.ro() == b.ro() ensures same_accountnonce(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); rsh_none0();  rsh_num(a.0 as int, b.0 as int, 32); rsh_plus(rnone(), rnum(a.0 as int, 32), rnone(), rnum(b.0 as int, 32));
    rplus_inj(rnone(), rnum(a.0 as int, 32), rnone(), rnum(b.0 as int, 32));
    rnum_one(a.0 as int, b.0 as int, 32);
    
}
pub open spec fn len_globalslotnumber(a: GlobalSlotNumber, b: GlobalSlotNumber) -> bool { true }
pub open spec fn same_globalslotnumber(a: GlobalSlotNumber, b: GlobalSlotNumber) -> bool { a.0 == b.0 }
pub proof fn sh_globalslotnumber(a: GlobalSlotNumber, b: GlobalSlotNumber) requires len_globalslotnumber(a, b) ensures same_sh(a.chunk(), b.chunk()) { sh_none0();  sh_num(a.0 as int, b.0 as int, 32); sh_plus(none(), num(a.0 as int, 32), none(), num(b.0 as int, 32)); }
pub proof fn inj_globalslotnumber(a: GlobalSlotNumber, b: GlobalSlotNumber) requires a.ok(), b.ok(), len_globalslotnumber(a, b), a.chunk() == b.chunk() ensures same_globalslotnumber(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); sh_none0();  sh_num(a.0 as int, b.0 as int, 32); sh_plus(none(), num(a.0 as int, 32), none(), num(b.0 as int, 32));
    plus_inj(none(), num(a.0 as int, 32), none(), num(b.0 as int, 32));
    num_one(a.0 as int, b.0 as int, 32);
    
}
pub open spec fn rlen_globalslotnumber(a: GlobalSlotNumber, b: GlobalSlotNumber) -> bool { true }
pub proof fn rsh_globalslotnumber(a: GlobalSlotNumber, b: GlobalSlotNumber) requires rlen_globalslotnumber(a, b) ensures rsame_sh(a.ro(), b.ro()) { rsh_none0();  rsh_num(a.0 as int, b.0 as int, 32); rsh_plus(rnone(), rnum(a.0 as int, 32), rnone(), rnum(b.0 as int, 32)); }
pub proof fn rinj_globalslotnumber(a: GlobalSlotNumber, b: GlobalSlotNumber) requires a.ro_ok(), b.ro_ok(), rlen_globalslotnumber(a, b), a.ro() == b.ro() ensures same_globalslotnumber(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); rsh_none0();  rsh_num(a.0 as int, b.0 as int, 32); rsh_plus(rnone(), rnum(a.0 as int, 32), rnone(), rnum(b.0 as int, 32));
    rplus_inj(rnone(), rnum(a.0 as int, 32), rnone(), rnum(b.0 as int, 32));
    rnum_one(a.0 as int, b.0 as int, 32);
    
}
pub open spec fn len_amount(a: Amount, b: Amount) -> bool { true }
pub open spec fn same_amount(a: Amount, b: Amount) -> bool { a.0 == b.0 }
pub proof fn sh_amount(a: Amount, b: Amount) requires len_amount(a, b) ensures same_sh(a.chunk(), b.chunk()) { sh_none0();  sh_num(a.0 as int, b.0 as int, 64); sh_plus(none(), num(a.0 as int, 64), none(), num(b.0 as int, 64)); }
pub proof fn inj_amount(a: Amount, b: Amount) requires a.ok(), b.ok(), len_amount(a, b), a.chunk() == b.chunk() ensures same_amount(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); sh_none0();  sh_num(a.0 as int, b.0 as int, 64); sh_plus(none(), num(a.0 as int, 64), none(), num(b.0 as int, 64));
    plus_inj(none(), num(a.0 as int, 64), none(), num(b.0 as int, 64));
    num_one(a.0 as int, b.0 as int, 64);
    
}
pub open spec fn rlen_amount(a: Amount, b: Amount) -> bool { true }
pub proof fn rsh_amount(a: Amount, b: Amount) requires rlen_amount(a, b) ensures rsame_sh(a.ro(), b.ro()) { rsh_none0();  rsh_num(a.0 as int, b.0 as int, 64); rsh_plus(rnone(), rnum(a.0 as int, 64), rnone(), rnum(b.0 as int, 64)); }
pub proof fn rinj_amount(a: Amount, b: Amount) requires a.ro_ok(), b.ro_ok(), rlen_amount(a, b), a.ro() == b.ro() ensures same_amount(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); rsh_none0();  rsh_num(a.0 as int, b.0 as int, 64); rsh_plus(rnone(), rnum(a.0 as int, 64), rnone(), rnum(b.0 as int, 64));
    rplus_inj(rnone(), rnum(a.0 as int, 64), rnone(), rnum(b.0 as int, 64));
    rnum_one(a.0 as int, b.0 as int, 64);
    
}
pub open spec fn len_blocktime(a: BlockTime, b: BlockTime) -> bool { true }
pub open spec fn same_blocktime(a: BlockTime, b: BlockTime) -> bool { a.0 == b.0 }
pub proof fn sh_blocktime(a: BlockTime, b: BlockTime) requires len_blocktime(a, b) ensures same_sh(a.chunk(), b.chunk()) { sh_none0();  sh_num(a.0 as int, b.0 as int, 64); sh_plus(none(), num(a.0 as int, 64), none(), num(b.0 as int, 64)); }
pub proof fn inj_blocktime(a: BlockTime, b: BlockTime) requires a.ok(), b.ok(), len_blocktime(a, b), a.chunk() == b.chunk() ensures same_blocktime(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); sh_none0();  sh_num(a.0 as int, b.0 as int, 64); sh_plus(none(), num(a.0 as int, 64), none(), num(b.0 as int, 64));
    plus_inj(none(), num(a.0 as int, 64), none(), num(b.0 as int, 64));
    num_one(a.0 as int, b.0 as int, 64);
    
}
pub open spec fn rlen_blocktime(a: BlockTime, b: BlockTime) -> bool { true }
pub proof fn rsh_blocktime(a: BlockTime, b: BlockTime) requires rlen_blocktime(a, b) ensures rsame_sh(a.ro(), b.ro()) { rsh_none0();  rsh_num(a.0 as int, b.0 as int, 64); rsh_plus(rnone(), rnum(a.0 as int, 64), rnone(), rnum(b.0 as int, 64)); }
pub proof fn rinj_blocktime(a: BlockTime, b: BlockTime) requires a.ro_ok(), b.ro_ok(), rlen_blocktime(a, b), a.ro() == b.ro() ensures same_blocktime(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); rsh_none0();  rsh_num(a.0 as int, b.0 as int, 64); rsh_plus(rnone(), rnum(a.0 as int, 64), rnone(), rnum(b.0 as int, 64));
    rplus_inj(rnone(), rnum(a.0 as int, 64), rnone(), rnum(b.0 as int, 64));
    rnum_one(a.0 as int, b.0 as int, 64);
    
}
pub open spec fn rlen_tokenid(a: TokenId, b: TokenId) -> bool { true }
pub open spec fn same_tokenid(a: TokenId, b: TokenId) -> bool { a.0 == b.0 }
pub proof fn rsh_tokenid(a: TokenId, b: TokenId) requires rlen_tokenid(a, b) ensures rsame_sh(a.ro(), b.ro()) { rsh_none0();  rsh_num(a.0 as int, b.0 as int, 64); rsh_plus(rnone(), rnum(a.0 as int, 64), rnone(), rnum(b.0 as int, 64)); }
pub proof fn rinj_tokenid(a: TokenId, b: TokenId) requires a.ro_ok(), b.ro_ok(), rlen_tokenid(a, b), a.ro() == b.ro() ensures same_tokenid(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); rsh_none0();  rsh_num(a.0 as int, b.0 as int, 64); rsh_plus(rnone(), rnum(a.0 as int, 64), rnone(), rnum(b.0 as int, 64));
    rplus_inj(rnone(), rnum(a.0 as int, 64), rnone(), rnum(b.0 as int, 64));
    rnum_one(a.0 as int, b.0 as int, 64);
    
}
pub open spec fn len_tokenid(a: TokenId, b: TokenId) -> bool { true }
pub proof fn sh_tokenid(a: TokenId, b: TokenId) ensures same_sh(a.chunk(), b.chunk()) { broadcast use shapes; }
pub proof fn inj_tokenid(a: TokenId, b: TokenId) requires a.chunk() == b.chunk() ensures same_tokenid(a, b) { broadcast use shapes; two_vals(); two_mono(64, 254); plus_inj(none(), fld(fp(a.0 as int)), none(), fld(fp(b.0 as int))); fld_one(fp(a.0 as int), fp(b.0 as int)); fp_inj(a.0 as int, b.0 as int); }
pub open spec fn len_field(a: Field, b: Field) -> bool { true }
pub open spec fn same_field(a: Field, b: Field) -> bool { a.0@ == b.0@ }
pub proof fn sh_field(a: Field, b: Field) requires len_field(a, b) ensures same_sh(a.chunk(), b.chunk()) { sh_none0();  sh_fld(fp(unle(a.0@)), fp(unle(b.0@))); sh_plus(none(), fld(fp(unle(a.0@))), none(), fld(fp(unle(b.0@)))); }
pub proof fn inj_field(a: Field, b: Field) requires a.ok(), b.ok(), len_field(a, b), a.chunk() == b.chunk() ensures same_field(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); sh_none0();  sh_fld(fp(unle(a.0@)), fp(unle(b.0@))); sh_plus(none(), fld(fp(unle(a.0@))), none(), fld(fp(unle(b.0@))));
    plus_inj(none(), fld(fp(unle(a.0@))), none(), fld(fp(unle(b.0@))));
    fld_one(fp(unle(a.0@)), fp(unle(b.0@))); bytes_num(a.0@); bytes_num(b.0@); fp_inj(unle(a.0@), unle(b.0@)); le_inj(a.0@, b.0@);
    
}
pub open spec fn len_basehash(a: BaseHash, b: BaseHash) -> bool { true }
pub open spec fn same_basehash(a: BaseHash, b: BaseHash) -> bool { a.0@ == b.0@ }
pub proof fn sh_basehash(a: BaseHash, b: BaseHash) requires len_basehash(a, b) ensures same_sh(a.chunk(), b.chunk()) { sh_none0();  sh_fld(fp(unle(a.0@)), fp(unle(b.0@))); sh_plus(none(), fld(fp(unle(a.0@))), none(), fld(fp(unle(b.0@)))); }
pub proof fn inj_basehash(a: BaseHash, b: BaseHash) requires a.ok(), b.ok(), len_basehash(a, b), a.chunk() == b.chunk() ensures same_basehash(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); sh_none0();  sh_fld(fp(unle(a.0@)), fp(unle(b.0@))); sh_plus(none(), fld(fp(unle(a.0@))), none(), fld(fp(unle(b.0@))));
    plus_inj(none(), fld(fp(unle(a.0@))), none(), fld(fp(unle(b.0@))));
    fld_one(fp(unle(a.0@)), fp(unle(b.0@))); bytes_num(a.0@); bytes_num(b.0@); fp_inj(unle(a.0@), unle(b.0@)); le_inj(a.0@, b.0@);
    
}
pub open spec fn rlen_basehash(a: BaseHash, b: BaseHash) -> bool { true }
pub proof fn rsh_basehash(a: BaseHash, b: BaseHash) requires rlen_basehash(a, b) ensures rsame_sh(a.ro(), b.ro()) { rsh_none0();  rsh_fld(fp(unle(a.0@)), fp(unle(b.0@))); rsh_plus(rnone(), rfld(fp(unle(a.0@))), rnone(), rfld(fp(unle(b.0@)))); }
pub proof fn rinj_basehash(a: BaseHash, b: BaseHash) requires a.ro_ok(), b.ro_ok(), rlen_basehash(a, b), a.ro() == b.ro() ensures same_basehash(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); rsh_none0();  rsh_fld(fp(unle(a.0@)), fp(unle(b.0@))); rsh_plus(rnone(), rfld(fp(unle(a.0@))), rnone(), rfld(fp(unle(b.0@))));
    rplus_inj(rnone(), rfld(fp(unle(a.0@))), rnone(), rfld(fp(unle(b.0@))));
    rfld_one(fp(unle(a.0@)), fp(unle(b.0@))); bytes_num(a.0@); bytes_num(b.0@); fp_inj(unle(a.0@), unle(b.0@)); le_inj(a.0@, b.0@);
    
}
pub open spec fn len_statehash(a: StateHash, b: StateHash) -> bool { true } pub open spec fn rlen_statehash(a: StateHash, b: StateHash) -> bool { true } pub open spec fn same_statehash(a: StateHash, b: StateHash) -> bool { same_basehash(a.0, b.0) }
pub proof fn sh_statehash(a: StateHash, b: StateHash) ensures same_sh(a.chunk(), b.chunk()) { sh_basehash(a.0, b.0); }
pub proof fn inj_statehash(a: StateHash, b: StateHash) requires a.ok(), b.ok(), a.chunk() == b.chunk() ensures same_statehash(a, b) { inj_basehash(a.0, b.0); }
pub proof fn rsh_statehash(a: StateHash, b: StateHash) ensures rsame_sh(a.ro(), b.ro()) { rsh_basehash(a.0, b.0); broadcast use rshapes; assert(rsame_sh(rnone().plus(a.0.ro()), rnone().plus(b.0.ro()))); }
pub proof fn rinj_statehash(a: StateHash, b: StateHash) requires a.ro_ok(), b.ro_ok(), a.ro() == b.ro() ensures same_statehash(a, b) { rsh_basehash(a.0, b.0); rplus_inj(rnone(), a.0.ro(), rnone(), b.0.ro()); rinj_basehash(a.0, b.0); }
pub open spec fn len_ledgerhash(a: LedgerHash, b: LedgerHash) -> bool { true } pub open spec fn rlen_ledgerhash(a: LedgerHash, b: LedgerHash) -> bool { true } pub open spec fn same_ledgerhash(a: LedgerHash, b: LedgerHash) -> bool { same_basehash(a.0, b.0) }
pub proof fn sh_ledgerhash(a: LedgerHash, b: LedgerHash) ensures same_sh(a.chunk(), b.chunk()) { sh_basehash(a.0, b.0); }
pub proof fn inj_ledgerhash(a: LedgerHash, b: LedgerHash) requires a.ok(), b.ok(), a.chunk() == b.chunk() ensures same_ledgerhash(a, b) { inj_basehash(a.0, b.0); }
pub proof fn rsh_ledgerhash(a: LedgerHash, b: LedgerHash) ensures rsame_sh(a.ro(), b.ro()) { rsh_basehash(a.0, b.0); broadcast use rshapes; assert(rsame_sh(rnone().plus(a.0.ro()), rnone().plus(b.0.ro()))); }
pub proof fn rinj_ledgerhash(a: LedgerHash, b: LedgerHash) requires a.ro_ok(), b.ro_ok(), a.ro() == b.ro() ensures same_ledgerhash(a, b) { rsh_basehash(a.0, b.0); rplus_inj(rnone(), a.0.ro(), rnone(), b.0.ro()); rinj_basehash(a.0, b.0); }
pub open spec fn len_chainhash(a: ChainHash, b: ChainHash) -> bool { true } pub open spec fn rlen_chainhash(a: ChainHash, b: ChainHash) -> bool { true } pub open spec fn same_chainhash(a: ChainHash, b: ChainHash) -> bool { same_basehash(a.0, b.0) }
pub proof fn sh_chainhash(a: ChainHash, b: ChainHash) ensures same_sh(a.chunk(), b.chunk()) { sh_basehash(a.0, b.0); }
pub proof fn inj_chainhash(a: ChainHash, b: ChainHash) requires a.ok(), b.ok(), a.chunk() == b.chunk() ensures same_chainhash(a, b) { inj_basehash(a.0, b.0); }
pub proof fn rsh_chainhash(a: ChainHash, b: ChainHash) ensures rsame_sh(a.ro(), b.ro()) { rsh_basehash(a.0, b.0); broadcast use rshapes; assert(rsame_sh(rnone().plus(a.0.ro()), rnone().plus(b.0.ro()))); }
pub proof fn rinj_chainhash(a: ChainHash, b: ChainHash) requires a.ro_ok(), b.ro_ok(), a.ro() == b.ro() ensures same_chainhash(a, b) { rsh_basehash(a.0, b.0); rplus_inj(rnone(), a.0.ro(), rnone(), b.0.ro()); rinj_basehash(a.0, b.0); }
/// a VRF output is 253 bits: the three high bits of its 32nd byte are unused
pub open spec fn vrf_form(v: Seq<u8>) -> bool { v.len() <= 31 || v.len() == 32 && v[31] < 32 }
pub open spec fn head(v: Seq<u8>) -> Seq<u8> { if v.len() <= 31 { v } else { v.take(31) } }
pub proof fn vrf_last(a: Seq<u8>, b: Seq<u8>) requires a.len() == 32, b.len() == 32, a[31] < 32, b[31] < 32, a.take(31) == b.take(31), low5(a[31]) =~= low5(b[31]) ensures a == b {
    let (x, y) = (low5(a[31]), low5(b[31])); assert(x[0] == y[0] && x[1] == y[1] && x[2] == y[2] && x[3] == y[3] && x[4] == y[4]);
    let (m, n) = (a[31], b[31]);
    assert(m == n) by (bit_vector) requires m < 32, n < 32, (m % 2 == 1) == (n % 2 == 1), ((m / 2) % 2 == 1) == ((n / 2) % 2 == 1), ((m / 4) % 2 == 1) == ((n / 4) % 2 == 1), ((m / 8) % 2 == 1) == ((n / 8) % 2 == 1), ((m / 16) % 2 == 1) == ((n / 16) % 2 == 1);
    assert(a =~= a.take(31).push(a[31])); assert(b =~= b.take(31).push(b[31])); }
pub proof fn lens_sh(s: Seq<Length>, t: Seq<Length>, c: Chunk, d: Chunk) requires s.len() == t.len(), same_sh(c, d) ensures same_sh(lens(s, c), lens(t, d)) decreases s.len() { broadcast use shapes; if s.len() > 0 { lens_sh(s.drop_last(), t.drop_last(), c, d); sh_length(s.last(), t.last()); assert(same_sh(lens(s.drop_last(), c).plus(s.last().chunk()), lens(t.drop_last(), d).plus(t.last().chunk()))); } }
pub proof fn lens_inj(s: Seq<Length>, t: Seq<Length>, c: Chunk, d: Chunk) requires s.len() == t.len(), lens(s, c) == lens(t, d) ensures s == t, c == d decreases s.len() { if s.len() > 0 { sh_length(s.last(), t.last()); plus_inj(lens(s.drop_last(), c), s.last().chunk(), lens(t.drop_last(), d), t.last().chunk()); inj_length(s.last(), t.last()); lens_inj(s.drop_last(), t.drop_last(), c, d); assert(s =~= s.drop_last().push(s.last())); assert(t =~= t.drop_last().push(t.last())); } else { assert(s =~= t); } }
pub proof fn rlens_sh(s: Seq<Length>, t: Seq<Length>, c: Ro, d: Ro) requires s.len() == t.len(), rsame_sh(c, d) ensures rsame_sh(rlens(s, c), rlens(t, d)) decreases s.len() { broadcast use rshapes; if s.len() > 0 { rlens_sh(s.drop_last(), t.drop_last(), c, d); rsh_length(s.last(), t.last()); assert(rsame_sh(rlens(s.drop_last(), c).plus(s.last().ro()), rlens(t.drop_last(), d).plus(t.last().ro()))); } }
pub proof fn rlens_inj(s: Seq<Length>, t: Seq<Length>, c: Ro, d: Ro) requires s.len() == t.len(), rlens(s, c) == rlens(t, d) ensures s == t, c == d decreases s.len() { if s.len() > 0 { rsh_length(s.last(), t.last()); rplus_inj(rlens(s.drop_last(), c), s.last().ro(), rlens(t.drop_last(), d), t.last().ro()); rinj_length(s.last(), t.last()); rlens_inj(s.drop_last(), t.drop_last(), c, d); assert(s =~= s.drop_last().push(s.last())); assert(t =~= t.drop_last().push(t.last())); } else { assert(s =~= t); } }
pub open spec fn len_authrequired(a: AuthRequired, b: AuthRequired) -> bool { true }
pub open spec fn same_authrequired(a: AuthRequired, b: AuthRequired) -> bool { a == b }
pub proof fn sh_authrequired(a: AuthRequired, b: AuthRequired) ensures same_sh(a.chunk(), b.chunk()) { broadcast use shapes; }
pub proof fn inj_authrequired(a: AuthRequired, b: AuthRequired) requires a.chunk() == b.chunk() ensures a == b {
    broadcast use shapes; let (f, g) = (flags(a), flags(b));
    plus_inj(none().plus(bit(f.0)).plus(bit(f.1)), bit(f.2), none().plus(bit(g.0)).plus(bit(g.1)), bit(g.2)); plus_inj(none().plus(bit(f.0)), bit(f.1), none().plus(bit(g.0)), bit(g.1)); plus_inj(none(), bit(f.0), none(), bit(g.0));
    bit_one(f.0, g.0); bit_one(f.1, g.1); bit_one(f.2, g.2); }
pub open spec fn len_permissions(a: Permissions, b: Permissions) -> bool { true && len_authrequired(a.edit_state, b.edit_state) && len_authrequired(a.send, b.send) && len_authrequired(a.receive, b.receive) && len_authrequired(a.set_delegate, b.set_delegate) && len_authrequired(a.set_permissions, b.set_permissions) && len_authrequired(a.set_verification_key, b.set_verification_key) && len_authrequired(a.set_zkapp_uri, b.set_zkapp_uri) && len_authrequired(a.edit_sequence_state, b.edit_sequence_state) && len_authrequired(a.set_token_symbol, b.set_token_symbol) && len_authrequired(a.increment_nonce, b.increment_nonce) && len_authrequired(a.set_voting_for, b.set_voting_for) }
pub open spec fn same_permissions(a: Permissions, b: Permissions) -> bool { same_authrequired(a.edit_state, b.edit_state) && same_authrequired(a.send, b.send) && same_authrequired(a.receive, b.receive) && same_authrequired(a.set_delegate, b.set_delegate) && same_authrequired(a.set_permissions, b.set_permissions) && same_authrequired(a.set_verification_key, b.set_verification_key) && same_authrequired(a.set_zkapp_uri, b.set_zkapp_uri) && same_authrequired(a.edit_sequence_state, b.edit_sequence_state) && same_authrequired(a.set_token_symbol, b.set_token_symbol) && same_authrequired(a.increment_nonce, b.increment_nonce) && same_authrequired(a.set_voting_for, b.set_voting_for) }
pub proof fn sh_permissions(a: Permissions, b: Permissions) requires len_permissions(a, b) ensures same_sh(a.chunk(), b.chunk()) { sh_none0();  sh_authrequired(a.edit_state, b.edit_state); sh_plus(none(), a.edit_state.chunk(), none(), b.edit_state.chunk()); sh_authrequired(a.send, b.send); sh_plus(none().plus(a.edit_state.chunk()), a.send.chunk(), none().plus(b.edit_state.chunk()), b.send.chunk()); sh_authrequired(a.receive, b.receive); sh_plus(none().plus(a.edit_state.chunk()).plus(a.send.chunk()), a.receive.chunk(), none().plus(b.edit_state.chunk()).plus(b.send.chunk()), b.receive.chunk()); sh_authrequired(a.set_delegate, b.set_delegate); sh_plus(none().plus(a.edit_state.chunk()).plus(a.send.chunk()).plus(a.receive.chunk()), a.set_delegate.chunk(), none().plus(b.edit_state.chunk()).plus(b.send.chunk()).plus(b.receive.chunk()), b.set_delegate.chunk()); sh_authrequired(a.set_permissions, b.set_permissions); sh_plus(none().plus(a.edit_state.chunk()).plus(a.send.chunk()).plus(a.receive.chunk()).plus(a.set_delegate.chunk()), a.set_permissions.chunk(), none().plus(b.edit_state.chunk()).plus(b.send.chunk()).plus(b.receive.chunk()).plus(b.set_delegate.chunk()), b.set_permissions.chunk()); sh_authrequired(a.set_verification_key, b.set_verification_key); sh_plus(none().plus(a.edit_state.chunk()).plus(a.send.chunk()).plus(a.receive.chunk()).plus(a.set_delegate.chunk()).plus(a.set_permissions.chunk()), a.set_verification_key.chunk(), none().plus(b.edit_state.chunk()).plus(b.send.chunk()).plus(b.receive.chunk()).plus(b.set_delegate.chunk()).plus(b.set_permissions.chunk()), b.set_verification_key.chunk()); sh_authrequired(a.set_zkapp_uri, b.set_zkapp_uri); sh_plus(none().plus(a.edit_state.chunk()).plus(a.send.chunk()).plus(a.receive.chunk()).plus(a.set_delegate.chunk()).plus(a.set_permissions.chunk()).plus(a.set_verification_key.chunk()), a.set_zkapp_uri.chunk(), none().plus(b.edit_state.chunk()).plus(b.send.chunk()).plus(b.receive.chunk()).plus(b.set_delegate.chunk()).plus(b.set_permissions.chunk()).plus(b.set_verification_key.chunk()), b.set_zkapp_uri.chunk()); sh_authrequired(a.edit_sequence_state, b.edit_sequence_state); sh_plus(none().plus(a.edit_state.chunk()).plus(a.send.chunk()).plus(a.receive.chunk()).plus(a.set_delegate.chunk()).plus(a.set_permissions.chunk()).plus(a.set_verification_key.chunk()).plus(a.set_zkapp_uri.chunk()), a.edit_sequence_state.chunk(), none().plus(b.edit_state.chunk()).plus(b.send.chunk()).plus(b.receive.chunk()).plus(b.set_delegate.chunk()).plus(b.set_permissions.chunk()).plus(b.set_verification_key.chunk()).plus(b.set_zkapp_uri.chunk()), b.edit_sequence_state.chunk()); sh_authrequired(a.set_token_symbol, b.set_token_symbol); sh_plus(none().plus(a.edit_state.chunk()).plus(a.send.chunk()).plus(a.receive.chunk()).plus(a.set_delegate.chunk()).plus(a.set_permissions.chunk()).plus(a.set_verification_key.chunk()).plus(a.set_zkapp_uri.chunk()).plus(a.edit_sequence_state.chunk()), a.set_token_symbol.chunk(), none().plus(b.edit_state.chunk()).plus(b.send.chunk()).plus(b.receive.chunk()).plus(b.set_delegate.chunk()).plus(b.set_permissions.chunk()).plus(b.set_verification_key.chunk()).plus(b.set_zkapp_uri.chunk()).plus(b.edit_sequence_state.chunk()), b.set_token_symbol.chunk()); sh_authrequired(a.increment_nonce, b.increment_nonce); sh_plus(none().plus(a.edit_state.chunk()).plus(a.send.chunk()).plus(a.receive.chunk()).plus(a.set_delegate.chunk()).plus(a.set_permissions.chunk()).plus(a.set_verification_key.chunk()).plus(a.set_zkapp_uri.chunk()).plus(a.edit_sequence_state.chunk()).plus(a.set_token_symbol.chunk()), a.increment_nonce.chunk(), none().plus(b.edit_state.chunk()).plus(b.send.chunk()).plus(b.receive.chunk()).plus(b.set_delegate.chunk()).plus(b.set_permissions.chunk()).plus(b.set_verification_key.chunk()).plus(b.set_zkapp_uri.chunk()).plus(b.edit_sequence_state.chunk()).plus(b.set_token_symbol.chunk()), b.increment_nonce.chunk()); sh_authrequired(a.set_voting_for, b.set_voting_for); sh_plus(none().plus(a.edit_state.chunk()).plus(a.send.chunk()).plus(a.receive.chunk()).plus(a.set_delegate.chunk()).plus(a.set_permissions.chunk()).plus(a.set_verification_key.chunk()).plus(a.set_zkapp_uri.chunk()).plus(a.edit_sequence_state.chunk()).plus(a.set_token_symbol.chunk()).plus(a.increment_nonce.chunk()), a.set_voting_for.chunk(), none().plus(b.edit_state.chunk()).plus(b.send.chunk()).plus(b.receive.chunk()).plus(b.set_delegate.chunk()).plus(b.set_permissions.chunk()).plus(b.set_verification_key.chunk()).plus(b.set_zkapp_uri.chunk()).plus(b.edit_sequence_state.chunk()).plus(b.set_token_symbol.chunk()).plus(b.increment_nonce.chunk()), b.set_voting_for.chunk()); }
pub proof fn inj_permissions(a: Permissions, b: Permissions) requires a.ok(), b.ok(), len_permissions(a, b), a.chunk() == b.chunk() ensures same_permissions(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); sh_none0();  sh_authrequired(a.edit_state, b.edit_state); sh_plus(none(), a.edit_state.chunk(), none(), b.edit_state.chunk()); sh_authrequired(a.send, b.send); sh_plus(none().plus(a.edit_state.chunk()), a.send.chunk(), none().plus(b.edit_state.chunk()), b.send.chunk()); sh_authrequired(a.receive, b.receive); sh_plus(none().plus(a.edit_state.chunk()).plus(a.send.chunk()), a.receive.chunk(), none().plus(b.edit_state.chunk()).plus(b.send.chunk()), b.receive.chunk()); sh_authrequired(a.set_delegate, b.set_delegate); sh_plus(none().plus(a.edit_state.chunk()).plus(a.send.chunk()).plus(a.receive.chunk()), a.set_delegate.chunk(), none().plus(b.edit_state.chunk()).plus(b.send.chunk()).plus(b.receive.chunk()), b.set_delegate.chunk()); sh_authrequired(a.set_permissions, b.set_permissions); sh_plus(none().plus(a.edit_state.chunk()).plus(a.send.chunk()).plus(a.receive.chunk()).plus(a.set_delegate.chunk()), a.set_permissions.chunk(), none().plus(b.edit_state.chunk()).plus(b.send.chunk()).plus(b.receive.chunk()).plus(b.set_delegate.chunk()), b.set_permissions.chunk()); sh_authrequired(a.set_verification_key, b.set_verification_key); sh_plus(none().plus(a.edit_state.chunk()).plus(a.send.chunk()).plus(a.receive.chunk()).plus(a.set_delegate.chunk()).plus(a.set_permissions.chunk()), a.set_verification_key.chunk(), none().plus(b.edit_state.chunk()).plus(b.send.chunk()).plus(b.receive.chunk()).plus(b.set_delegate.chunk()).plus(b.set_permissions.chunk()), b.set_verification_key.chunk()); sh_authrequired(a.set_zkapp_uri, b.set_zkapp_uri); sh_plus(none().plus(a.edit_state.chunk()).plus(a.send.chunk()).plus(a.receive.chunk()).plus(a.set_delegate.chunk()).plus(a.set_permissions.chunk()).plus(a.set_verification_key.chunk()), a.set_zkapp_uri.chunk(), none().plus(b.edit_state.chunk()).plus(b.send.chunk()).plus(b.receive.chunk()).plus(b.set_delegate.chunk()).plus(b.set_permissions.chunk()).plus(b.set_verification_key.chunk()), b.set_zkapp_uri.chunk()); sh_authrequired(a.edit_sequence_state, b.edit_sequence_state); sh_plus(none().plus(a.edit_state.chunk()).plus(a.send.chunk()).plus(a.receive.chunk()).plus(a.set_delegate.chunk()).plus(a.set_permissions.chunk()).plus(a.set_verification_key.chunk()).plus(a.set_zkapp_uri.chunk()), a.edit_sequence_state.chunk(), none().plus(b.edit_state.chunk()).plus(b.send.chunk()).plus(b.receive.chunk()).plus(b.set_delegate.chunk()).plus(b.set_permissions.chunk()).plus(b.set_verification_key.chunk()).plus(b.set_zkapp_uri.chunk()), b.edit_sequence_state.chunk()); sh_authrequired(a.set_token_symbol, b.set_token_symbol); sh_plus(none().plus(a.edit_state.chunk()).plus(a.send.chunk()).plus(a.receive.chunk()).plus(a.set_delegate.chunk()).plus(a.set_permissions.chunk()).plus(a.set_verification_key.chunk()).plus(a.set_zkapp_uri.chunk()).plus(a.edit_sequence_state.chunk()), a.set_token_symbol.chunk(), none().plus(b.edit_state.chunk()).plus(b.send.chunk()).plus(b.receive.chunk()).plus(b.set_delegate.chunk()).plus(b.set_permissions.chunk()).plus(b.set_verification_key.chunk()).plus(b.set_zkapp_uri.chunk()).plus(b.edit_sequence_state.chunk()), b.set_token_symbol.chunk()); sh_authrequired(a.increment_nonce, b.increment_nonce); sh_plus(none().plus(a.edit_state.chunk()).plus(a.send.chunk()).plus(a.receive.chunk()).plus(a.set_delegate.chunk()).plus(a.set_permissions.chunk()).plus(a.set_verification_key.chunk()).plus(a.set_zkapp_uri.chunk()).plus(a.edit_sequence_state.chunk()).plus(a.set_token_symbol.chunk()), a.increment_nonce.chunk(), none().plus(b.edit_state.chunk()).plus(b.send.chunk()).plus(b.receive.chunk()).plus(b.set_delegate.chunk()).plus(b.set_permissions.chunk()).plus(b.set_verification_key.chunk()).plus(b.set_zkapp_uri.chunk()).plus(b.edit_sequence_state.chunk()).plus(b.set_token_symbol.chunk()), b.increment_nonce.chunk()); sh_authrequired(a.set_voting_for, b.set_voting_for); sh_plus(none().plus(a.edit_state.chunk()).plus(a.send.chunk()).plus(a.receive.chunk()).plus(a.set_delegate.chunk()).plus(a.set_permissions.chunk()).plus(a.set_verification_key.chunk()).plus(a.set_zkapp_uri.chunk()).plus(a.edit_sequence_state.chunk()).plus(a.set_token_symbol.chunk()).plus(a.increment_nonce.chunk()), a.set_voting_for.chunk(), none().plus(b.edit_state.chunk()).plus(b.send.chunk()).plus(b.receive.chunk()).plus(b.set_delegate.chunk()).plus(b.set_permissions.chunk()).plus(b.set_verification_key.chunk()).plus(b.set_zkapp_uri.chunk()).plus(b.edit_sequence_state.chunk()).plus(b.set_token_symbol.chunk()).plus(b.increment_nonce.chunk()), b.set_voting_for.chunk());
    plus_inj(none().plus(a.edit_state.chunk()).plus(a.send.chunk()).plus(a.receive.chunk()).plus(a.set_delegate.chunk()).plus(a.set_permissions.chunk()).plus(a.set_verification_key.chunk()).plus(a.set_zkapp_uri.chunk()).plus(a.edit_sequence_state.chunk()).plus(a.set_token_symbol.chunk()).plus(a.increment_nonce.chunk()), a.set_voting_for.chunk(), none().plus(b.edit_state.chunk()).plus(b.send.chunk()).plus(b.receive.chunk()).plus(b.set_delegate.chunk()).plus(b.set_permissions.chunk()).plus(b.set_verification_key.chunk()).plus(b.set_zkapp_uri.chunk()).plus(b.edit_sequence_state.chunk()).plus(b.set_token_symbol.chunk()).plus(b.increment_nonce.chunk()), b.set_voting_for.chunk());
    plus_inj(none().plus(a.edit_state.chunk()).plus(a.send.chunk()).plus(a.receive.chunk()).plus(a.set_delegate.chunk()).plus(a.set_permissions.chunk()).plus(a.set_verification_key.chunk()).plus(a.set_zkapp_uri.chunk()).plus(a.edit_sequence_state.chunk()).plus(a.set_token_symbol.chunk()), a.increment_nonce.chunk(), none().plus(b.edit_state.chunk()).plus(b.send.chunk()).plus(b.receive.chunk()).plus(b.set_delegate.chunk()).plus(b.set_permissions.chunk()).plus(b.set_verification_key.chunk()).plus(b.set_zkapp_uri.chunk()).plus(b.edit_sequence_state.chunk()).plus(b.set_token_symbol.chunk()), b.increment_nonce.chunk());
    plus_inj(none().plus(a.edit_state.chunk()).plus(a.send.chunk()).plus(a.receive.chunk()).plus(a.set_delegate.chunk()).plus(a.set_permissions.chunk()).plus(a.set_verification_key.chunk()).plus(a.set_zkapp_uri.chunk()).plus(a.edit_sequence_state.chunk()), a.set_token_symbol.chunk(), none().plus(b.edit_state.chunk()).plus(b.send.chunk()).plus(b.receive.chunk()).plus(b.set_delegate.chunk()).plus(b.set_permissions.chunk()).plus(b.set_verification_key.chunk()).plus(b.set_zkapp_uri.chunk()).plus(b.edit_sequence_state.chunk()), b.set_token_symbol.chunk());
    plus_inj(none().plus(a.edit_state.chunk()).plus(a.send.chunk()).plus(a.receive.chunk()).plus(a.set_delegate.chunk()).plus(a.set_permissions.chunk()).plus(a.set_verification_key.chunk()).plus(a.set_zkapp_uri.chunk()), a.edit_sequence_state.chunk(), none().plus(b.edit_state.chunk()).plus(b.send.chunk()).plus(b.receive.chunk()).plus(b.set_delegate.chunk()).plus(b.set_permissions.chunk()).plus(b.set_verification_key.chunk()).plus(b.set_zkapp_uri.chunk()), b.edit_sequence_state.chunk());
    plus_inj(none().plus(a.edit_state.chunk()).plus(a.send.chunk()).plus(a.receive.chunk()).plus(a.set_delegate.chunk()).plus(a.set_permissions.chunk()).plus(a.set_verification_key.chunk()), a.set_zkapp_uri.chunk(), none().plus(b.edit_state.chunk()).plus(b.send.chunk()).plus(b.receive.chunk()).plus(b.set_delegate.chunk()).plus(b.set_permissions.chunk()).plus(b.set_verification_key.chunk()), b.set_zkapp_uri.chunk());
    plus_inj(none().plus(a.edit_state.chunk()).plus(a.send.chunk()).plus(a.receive.chunk()).plus(a.set_delegate.chunk()).plus(a.set_permissions.chunk()), a.set_verification_key.chunk(), none().plus(b.edit_state.chunk()).plus(b.send.chunk()).plus(b.receive.chunk()).plus(b.set_delegate.chunk()).plus(b.set_permissions.chunk()), b.set_verification_key.chunk());
    plus_inj(none().plus(a.edit_state.chunk()).plus(a.send.chunk()).plus(a.receive.chunk()).plus(a.set_delegate.chunk()), a.set_permissions.chunk(), none().plus(b.edit_state.chunk()).plus(b.send.chunk()).plus(b.receive.chunk()).plus(b.set_delegate.chunk()), b.set_permissions.chunk());
    plus_inj(none().plus(a.edit_state.chunk()).plus(a.send.chunk()).plus(a.receive.chunk()), a.set_delegate.chunk(), none().plus(b.edit_state.chunk()).plus(b.send.chunk()).plus(b.receive.chunk()), b.set_delegate.chunk());
    plus_inj(none().plus(a.edit_state.chunk()).plus(a.send.chunk()), a.receive.chunk(), none().plus(b.edit_state.chunk()).plus(b.send.chunk()), b.receive.chunk());
    plus_inj(none().plus(a.edit_state.chunk()), a.send.chunk(), none().plus(b.edit_state.chunk()), b.send.chunk());
    plus_inj(none(), a.edit_state.chunk(), none(), b.edit_state.chunk());
    inj_authrequired(a.edit_state, b.edit_state);
    inj_authrequired(a.send, b.send);
    inj_authrequired(a.receive, b.receive);
    inj_authrequired(a.set_delegate, b.set_delegate);
    inj_authrequired(a.set_permissions, b.set_permissions);
    inj_authrequired(a.set_verification_key, b.set_verification_key);
    inj_authrequired(a.set_zkapp_uri, b.set_zkapp_uri);
    inj_authrequired(a.edit_sequence_state, b.edit_sequence_state);
    inj_authrequired(a.set_token_symbol, b.set_token_symbol);
    inj_authrequired(a.increment_nonce, b.increment_nonce);
    inj_authrequired(a.set_voting_for, b.set_voting_for);
    
}
/// only the low 32 bits of the two slot numbers are hashed
pub open spec fn slots32(t: TimedData) -> bool { t.cliff_time.0 < 0x1_0000_0000 && t.vesting_period.0 < 0x1_0000_0000 }
pub open spec fn len_timeddata(a: TimedData, b: TimedData) -> bool { true && len_amount(a.initial_minimum_balance, b.initial_minimum_balance) && len_amount(a.cliff_amount, b.cliff_amount) && len_amount(a.vesting_increment, b.vesting_increment) }
pub open spec fn same_timeddata(a: TimedData, b: TimedData) -> bool { same_amount(a.initial_minimum_balance, b.initial_minimum_balance) && a.cliff_time.0 as u32 == b.cliff_time.0 as u32 && same_amount(a.cliff_amount, b.cliff_amount) && a.vesting_period.0 as u32 == b.vesting_period.0 as u32 && same_amount(a.vesting_increment, b.vesting_increment) }
pub proof fn sh_timeddata(a: TimedData, b: TimedData) requires len_timeddata(a, b) ensures same_sh(a.chunk(), b.chunk()) { sh_none0();  sh_amount(a.initial_minimum_balance, b.initial_minimum_balance); sh_plus(none(), a.initial_minimum_balance.chunk(), none(), b.initial_minimum_balance.chunk()); sh_num(a.cliff_time.0 as u32 as int, b.cliff_time.0 as u32 as int, 32); sh_plus(none().plus(a.initial_minimum_balance.chunk()), num(a.cliff_time.0 as u32 as int, 32), none().plus(b.initial_minimum_balance.chunk()), num(b.cliff_time.0 as u32 as int, 32)); sh_amount(a.cliff_amount, b.cliff_amount); sh_plus(none().plus(a.initial_minimum_balance.chunk()).plus(num(a.cliff_time.0 as u32 as int, 32)), a.cliff_amount.chunk(), none().plus(b.initial_minimum_balance.chunk()).plus(num(b.cliff_time.0 as u32 as int, 32)), b.cliff_amount.chunk()); sh_num(a.vesting_period.0 as u32 as int, b.vesting_period.0 as u32 as int, 32); sh_plus(none().plus(a.initial_minimum_balance.chunk()).plus(num(a.cliff_time.0 as u32 as int, 32)).plus(a.cliff_amount.chunk()), num(a.vesting_period.0 as u32 as int, 32), none().plus(b.initial_minimum_balance.chunk()).plus(num(b.cliff_time.0 as u32 as int, 32)).plus(b.cliff_amount.chunk()), num(b.vesting_period.0 as u32 as int, 32)); sh_amount(a.vesting_increment, b.vesting_increment); sh_plus(none().plus(a.initial_minimum_balance.chunk()).plus(num(a.cliff_time.0 as u32 as int, 32)).plus(a.cliff_amount.chunk()).plus(num(a.vesting_period.0 as u32 as int, 32)), a.vesting_increment.chunk(), none().plus(b.initial_minimum_balance.chunk()).plus(num(b.cliff_time.0 as u32 as int, 32)).plus(b.cliff_amount.chunk()).plus(num(b.vesting_period.0 as u32 as int, 32)), b.vesting_increment.chunk()); }
pub proof fn inj_timeddata(a: TimedData, b: TimedData) requires a.ok(), b.ok(), len_timeddata(a, b), a.chunk() == b.chunk() ensures same_timeddata(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); sh_none0();  sh_amount(a.initial_minimum_balance, b.initial_minimum_balance); sh_plus(none(), a.initial_minimum_balance.chunk(), none(), b.initial_minimum_balance.chunk()); sh_num(a.cliff_time.0 as u32 as int, b.cliff_time.0 as u32 as int, 32); sh_plus(none().plus(a.initial_minimum_balance.chunk()), num(a.cliff_time.0 as u32 as int, 32), none().plus(b.initial_minimum_balance.chunk()), num(b.cliff_time.0 as u32 as int, 32)); sh_amount(a.cliff_amount, b.cliff_amount); sh_plus(none().plus(a.initial_minimum_balance.chunk()).plus(num(a.cliff_time.0 as u32 as int, 32)), a.cliff_amount.chunk(), none().plus(b.initial_minimum_balance.chunk()).plus(num(b.cliff_time.0 as u32 as int, 32)), b.cliff_amount.chunk()); sh_num(a.vesting_period.0 as u32 as int, b.vesting_period.0 as u32 as int, 32); sh_plus(none().plus(a.initial_minimum_balance.chunk()).plus(num(a.cliff_time.0 as u32 as int, 32)).plus(a.cliff_amount.chunk()), num(a.vesting_period.0 as u32 as int, 32), none().plus(b.initial_minimum_balance.chunk()).plus(num(b.cliff_time.0 as u32 as int, 32)).plus(b.cliff_amount.chunk()), num(b.vesting_period.0 as u32 as int, 32)); sh_amount(a.vesting_increment, b.vesting_increment); sh_plus(none().plus(a.initial_minimum_balance.chunk()).plus(num(a.cliff_time.0 as u32 as int, 32)).plus(a.cliff_amount.chunk()).plus(num(a.vesting_period.0 as u32 as int, 32)), a.vesting_increment.chunk(), none().plus(b.initial_minimum_balance.chunk()).plus(num(b.cliff_time.0 as u32 as int, 32)).plus(b.cliff_amount.chunk()).plus(num(b.vesting_period.0 as u32 as int, 32)), b.vesting_increment.chunk());
    plus_inj(none().plus(a.initial_minimum_balance.chunk()).plus(num(a.cliff_time.0 as u32 as int, 32)).plus(a.cliff_amount.chunk()).plus(num(a.vesting_period.0 as u32 as int, 32)), a.vesting_increment.chunk(), none().plus(b.initial_minimum_balance.chunk()).plus(num(b.cliff_time.0 as u32 as int, 32)).plus(b.cliff_amount.chunk()).plus(num(b.vesting_period.0 as u32 as int, 32)), b.vesting_increment.chunk());
    plus_inj(none().plus(a.initial_minimum_balance.chunk()).plus(num(a.cliff_time.0 as u32 as int, 32)).plus(a.cliff_amount.chunk()), num(a.vesting_period.0 as u32 as int, 32), none().plus(b.initial_minimum_balance.chunk()).plus(num(b.cliff_time.0 as u32 as int, 32)).plus(b.cliff_amount.chunk()), num(b.vesting_period.0 as u32 as int, 32));
    plus_inj(none().plus(a.initial_minimum_balance.chunk()).plus(num(a.cliff_time.0 as u32 as int, 32)), a.cliff_amount.chunk(), none().plus(b.initial_minimum_balance.chunk()).plus(num(b.cliff_time.0 as u32 as int, 32)), b.cliff_amount.chunk());
    plus_inj(none().plus(a.initial_minimum_balance.chunk()), num(a.cliff_time.0 as u32 as int, 32), none().plus(b.initial_minimum_balance.chunk()), num(b.cliff_time.0 as u32 as int, 32));
    plus_inj(none(), a.initial_minimum_balance.chunk(), none(), b.initial_minimum_balance.chunk());
    inj_amount(a.initial_minimum_balance, b.initial_minimum_balance);
    num_one(a.cliff_time.0 as u32 as int, b.cliff_time.0 as u32 as int, 32);
    inj_amount(a.cliff_amount, b.cliff_amount);
    num_one(a.vesting_period.0 as u32 as int, b.vesting_period.0 as u32 as int, 32);
    inj_amount(a.vesting_increment, b.vesting_increment);
    
}
pub open spec fn len_timing(a: Timing, b: Timing) -> bool { (a matches Timing::Timed(t) ==> slots32(t)) && (b matches Timing::Timed(t) ==> slots32(t)) }
pub open spec fn same_timing(a: Timing, b: Timing) -> bool { match (a, b) { (Timing::Untimed, Timing::Untimed) => true, (Timing::Timed(x), Timing::Timed(y)) => x == y, _ => false } }
pub open spec fn untimed_tail() -> Chunk { none().plus(none().plus(num(0, 64))).plus(num(0, 32)).plus(none().plus(num(0, 64))).plus(num(1, 32)).plus(none().plus(num(0, 64))) }
pub open spec fn timing_tail(a: Timing) -> Chunk { match a { Timing::Untimed => untimed_tail(), Timing::Timed(t) => t.chunk() } }
pub open spec fn timing_tag(a: Timing) -> int { if a is Untimed { 0 } else { 1 } }
pub proof fn timing_sh(a: Timing, b: Timing) ensures same_sh(timing_tail(a), timing_tail(b)), a.chunk() == none().plus(num(timing_tag(a), 1)).plus(timing_tail(a)), b.chunk() == none().plus(num(timing_tag(b), 1)).plus(timing_tail(b)) {
    timing_like(a); timing_like(b); let u = untimed_tail(); let (x, y) = (timing_tail(a), timing_tail(b)); assert(same_sh(x, u) && same_sh(y, u));
    assert forall|i: int| 0 <= i < x.packed.len() implies (#[trigger] x.packed[i]).1 == y.packed[i].1 by { assert(x.packed[i].1 == u.packed[i].1 && y.packed[i].1 == u.packed[i].1); } }
pub proof fn timing_like(a: Timing) ensures same_sh(timing_tail(a), untimed_tail()) {
    sh_none0();
    match a { Timing::Untimed => { }, Timing::Timed(t) => {
        let n = none(); let z = num(0, 64); let (p, q, r) = (t.initial_minimum_balance.chunk(), t.cliff_amount.chunk(), t.vesting_increment.chunk()); let (c, v) = (num(t.cliff_time.0 as u32 as int, 32), num(t.vesting_period.0 as u32 as int, 32));
        sh_num(t.initial_minimum_balance.0 as int, 0, 64); sh_plus(n, num(t.initial_minimum_balance.0 as int, 64), n, z); sh_num(t.cliff_amount.0 as int, 0, 64); sh_plus(n, num(t.cliff_amount.0 as int, 64), n, z); sh_num(t.vesting_increment.0 as int, 0, 64); sh_plus(n, num(t.vesting_increment.0 as int, 64), n, z);
        sh_num(t.cliff_time.0 as u32 as int, 0, 32); sh_num(t.vesting_period.0 as u32 as int, 1, 32); let zz = n.plus(z);
        sh_plus(n, p, n, zz); sh_plus(n.plus(p), c, n.plus(zz), num(0, 32)); sh_plus(n.plus(p).plus(c), q, n.plus(zz).plus(num(0, 32)), zz); sh_plus(n.plus(p).plus(c).plus(q), v, n.plus(zz).plus(num(0, 32)).plus(zz), num(1, 32));
        sh_plus(n.plus(p).plus(c).plus(q).plus(v), r, n.plus(zz).plus(num(0, 32)).plus(zz).plus(num(1, 32)), zz); } } }
pub proof fn sh_timing(a: Timing, b: Timing) ensures same_sh(a.chunk(), b.chunk()) { timing_sh(a, b); sh_none0(); sh_num(timing_tag(a), timing_tag(b), 1); sh_plus(none(), num(timing_tag(a), 1), none(), num(timing_tag(b), 1)); sh_plus(none().plus(num(timing_tag(a), 1)), timing_tail(a), none().plus(num(timing_tag(b), 1)), timing_tail(b)); }
pub proof fn inj_timing(a: Timing, b: Timing) requires len_timing(a, b), a.chunk() == b.chunk() ensures same_timing(a, b) {
    timing_sh(a, b); sh_none0(); sh_num(timing_tag(a), timing_tag(b), 1); two_vals(); two_mono(1, 254);
    plus_inj(none().plus(num(timing_tag(a), 1)), timing_tail(a), none().plus(num(timing_tag(b), 1)), timing_tail(b)); plus_inj(none(), num(timing_tag(a), 1), none(), num(timing_tag(b), 1)); fp_axioms(); num_one(timing_tag(a), timing_tag(b), 1);
    if a is Timed { let (x, y) = (a->Timed_0, b->Timed_0); inj_timeddata(x, y); assert((x.cliff_time.0 as u32) == x.cliff_time.0 && (y.cliff_time.0 as u32) == y.cliff_time.0 && (x.vesting_period.0 as u32) == x.vesting_period.0 && (y.vesting_period.0 as u32) == y.vesting_period.0); } }
pub open spec fn tp_num(t: TokenPermissions) -> int { match t { TokenPermissions::NotOwned { account_disabled } => if account_disabled { 2 } else { 0 }, TokenPermissions::TokenOwned { disable_new_accounts } => if disable_new_accounts { 3 } else { 1 } } }
pub open spec fn len_tokenpermissions(a: TokenPermissions, b: TokenPermissions) -> bool { true }
pub open spec fn same_tokenpermissions(a: TokenPermissions, b: TokenPermissions) -> bool { a == b }
pub proof fn tp_is(t: TokenPermissions) ensures t.chunk() == none().plus(num(tp_num(t), 2)) { }
pub proof fn sh_tokenpermissions(a: TokenPermissions, b: TokenPermissions) ensures same_sh(a.chunk(), b.chunk()) { tp_is(a); tp_is(b); sh_none0(); sh_num(tp_num(a), tp_num(b), 2); sh_plus(none(), num(tp_num(a), 2), none(), num(tp_num(b), 2)); }
pub proof fn inj_tokenpermissions(a: TokenPermissions, b: TokenPermissions) requires a.chunk() == b.chunk() ensures a == b { tp_is(a); tp_is(b); sh_none0(); sh_num(tp_num(a), tp_num(b), 2); two_vals(); two_192(); two_mono(2, 254); fp_axioms(); plus_inj(none(), num(tp_num(a), 2), none(), num(tp_num(b), 2)); num_one(tp_num(a), tp_num(b), 2); }
pub open spec fn len_tokensymbol(a: TokenSymbol, b: TokenSymbol) -> bool { true }
/// the six bytes a token symbol has
pub open spec fn same_tokensymbol(a: TokenSymbol, b: TokenSymbol) -> bool { a.0@.take(6) == b.0@.take(6) }
pub proof fn sh_tokensymbol(a: TokenSymbol, b: TokenSymbol) ensures same_sh(a.chunk(), b.chunk()) { sh_none0(); let (x, y) = (unle(a.0@.take(6)), unle(b.0@.take(6))); sh_num(x, y, 48); sh_plus(none(), num(x, 48), none(), num(y, 48)); }
pub proof fn inj_tokensymbol(a: TokenSymbol, b: TokenSymbol) requires a.chunk() == b.chunk() ensures same_tokensymbol(a, b) { sh_none0(); let (s, t) = (a.0@.take(6), b.0@.take(6)); let (x, y) = (unle(s), unle(t)); assert(s.len() == 6 && t.len() == 6); bytes_num(s); bytes_num(t); two_vals(); two_192(); two_mono(48, 254); fp_axioms(); sh_num(x, y, 48); plus_inj(none(), num(x, 48), none(), num(y, 48)); num_one(x, y, 48); le_inj(s, t); }
pub open spec fn delegate_of(a: Account) -> CompressedPubKey { match a.delegate { Some(k) => k, None => pk_empty() } }

pub open spec fn len_account(a: Account, b: Account) -> bool { true && len_permissions(a.permissions, b.permissions) && len_timing(a.timing, b.timing) && len_statehash(a.voting_for, b.voting_for) && len_chainhash(a.receipt_chain_hash, b.receipt_chain_hash) && len_accountnonce(a.nonce, b.nonce) && len_amount(a.balance, b.balance) && len_tokensymbol(a.token_symbol, b.token_symbol) && len_tokenpermissions(a.token_permissions, b.token_permissions) && len_tokenid(a.token_id, b.token_id) }
pub open spec fn same_account(a: Account, b: Account) -> bool { same_permissions(a.permissions, b.permissions) && same_timing(a.timing, b.timing) && same_statehash(a.voting_for, b.voting_for) && delegate_of(a) == delegate_of(b) && same_chainhash(a.receipt_chain_hash, b.receipt_chain_hash) && same_accountnonce(a.nonce, b.nonce) && same_amount(a.balance, b.balance) && same_tokensymbol(a.token_symbol, b.token_symbol) && same_tokenpermissions(a.token_permissions, b.token_permissions) && same_tokenid(a.token_id, b.token_id) && a.public_key == b.public_key }
pub proof fn sh_account(a: Account, b: Account) requires len_account(a, b) ensures same_sh(a.chunk(), b.chunk()) { sh_none0();  sh_fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri())), hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))); sh_plus(none(), fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))), none(), fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri())))); sh_plus(none(), none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri())))), none(), none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))); sh_fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp())), hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))); sh_plus(none(), fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))), none(), fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp())))); sh_plus(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))), none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp())))), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))), none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))); sh_permissions(a.permissions, b.permissions); sh_plus(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))), a.permissions.chunk(), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))), b.permissions.chunk()); sh_timing(a.timing, b.timing); sh_plus(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(a.permissions.chunk()), a.timing.chunk(), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(b.permissions.chunk()), b.timing.chunk()); sh_statehash(a.voting_for, b.voting_for); sh_plus(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(a.permissions.chunk()).plus(a.timing.chunk()), a.voting_for.chunk(), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(b.permissions.chunk()).plus(b.timing.chunk()), b.voting_for.chunk()); sh_key(delegate_of(a), delegate_of(b)); sh_plus(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(a.permissions.chunk()).plus(a.timing.chunk()).plus(a.voting_for.chunk()), key(delegate_of(a)), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(b.permissions.chunk()).plus(b.timing.chunk()).plus(b.voting_for.chunk()), key(delegate_of(b))); sh_chainhash(a.receipt_chain_hash, b.receipt_chain_hash); sh_plus(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(a.permissions.chunk()).plus(a.timing.chunk()).plus(a.voting_for.chunk()).plus(key(delegate_of(a))), a.receipt_chain_hash.chunk(), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(b.permissions.chunk()).plus(b.timing.chunk()).plus(b.voting_for.chunk()).plus(key(delegate_of(b))), b.receipt_chain_hash.chunk()); sh_accountnonce(a.nonce, b.nonce); sh_plus(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(a.permissions.chunk()).plus(a.timing.chunk()).plus(a.voting_for.chunk()).plus(key(delegate_of(a))).plus(a.receipt_chain_hash.chunk()), a.nonce.chunk(), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(b.permissions.chunk()).plus(b.timing.chunk()).plus(b.voting_for.chunk()).plus(key(delegate_of(b))).plus(b.receipt_chain_hash.chunk()), b.nonce.chunk()); sh_amount(a.balance, b.balance); sh_plus(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(a.permissions.chunk()).plus(a.timing.chunk()).plus(a.voting_for.chunk()).plus(key(delegate_of(a))).plus(a.receipt_chain_hash.chunk()).plus(a.nonce.chunk()), a.balance.chunk(), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(b.permissions.chunk()).plus(b.timing.chunk()).plus(b.voting_for.chunk()).plus(key(delegate_of(b))).plus(b.receipt_chain_hash.chunk()).plus(b.nonce.chunk()), b.balance.chunk()); sh_tokensymbol(a.token_symbol, b.token_symbol); sh_plus(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(a.permissions.chunk()).plus(a.timing.chunk()).plus(a.voting_for.chunk()).plus(key(delegate_of(a))).plus(a.receipt_chain_hash.chunk()).plus(a.nonce.chunk()).plus(a.balance.chunk()), a.token_symbol.chunk(), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(b.permissions.chunk()).plus(b.timing.chunk()).plus(b.voting_for.chunk()).plus(key(delegate_of(b))).plus(b.receipt_chain_hash.chunk()).plus(b.nonce.chunk()).plus(b.balance.chunk()), b.token_symbol.chunk()); sh_tokenpermissions(a.token_permissions, b.token_permissions); sh_plus(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(a.permissions.chunk()).plus(a.timing.chunk()).plus(a.voting_for.chunk()).plus(key(delegate_of(a))).plus(a.receipt_chain_hash.chunk()).plus(a.nonce.chunk()).plus(a.balance.chunk()).plus(a.token_symbol.chunk()), a.token_permissions.chunk(), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(b.permissions.chunk()).plus(b.timing.chunk()).plus(b.voting_for.chunk()).plus(key(delegate_of(b))).plus(b.receipt_chain_hash.chunk()).plus(b.nonce.chunk()).plus(b.balance.chunk()).plus(b.token_symbol.chunk()), b.token_permissions.chunk()); sh_tokenid(a.token_id, b.token_id); sh_plus(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(a.permissions.chunk()).plus(a.timing.chunk()).plus(a.voting_for.chunk()).plus(key(delegate_of(a))).plus(a.receipt_chain_hash.chunk()).plus(a.nonce.chunk()).plus(a.balance.chunk()).plus(a.token_symbol.chunk()).plus(a.token_permissions.chunk()), a.token_id.chunk(), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(b.permissions.chunk()).plus(b.timing.chunk()).plus(b.voting_for.chunk()).plus(key(delegate_of(b))).plus(b.receipt_chain_hash.chunk()).plus(b.nonce.chunk()).plus(b.balance.chunk()).plus(b.token_symbol.chunk()).plus(b.token_permissions.chunk()), b.token_id.chunk()); sh_key(a.public_key, b.public_key); sh_plus(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(a.permissions.chunk()).plus(a.timing.chunk()).plus(a.voting_for.chunk()).plus(key(delegate_of(a))).plus(a.receipt_chain_hash.chunk()).plus(a.nonce.chunk()).plus(a.balance.chunk()).plus(a.token_symbol.chunk()).plus(a.token_permissions.chunk()).plus(a.token_id.chunk()), key(a.public_key), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(b.permissions.chunk()).plus(b.timing.chunk()).plus(b.voting_for.chunk()).plus(key(delegate_of(b))).plus(b.receipt_chain_hash.chunk()).plus(b.nonce.chunk()).plus(b.balance.chunk()).plus(b.token_symbol.chunk()).plus(b.token_permissions.chunk()).plus(b.token_id.chunk()), key(b.public_key)); }
pub proof fn inj_account(a: Account, b: Account) requires a.ok(), b.ok(), len_account(a, b), a.chunk() == b.chunk() ensures same_account(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); sh_none0();  sh_fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri())), hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))); sh_plus(none(), fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))), none(), fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri())))); sh_plus(none(), none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri())))), none(), none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))); sh_fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp())), hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))); sh_plus(none(), fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))), none(), fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp())))); sh_plus(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))), none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp())))), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))), none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))); sh_permissions(a.permissions, b.permissions); sh_plus(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))), a.permissions.chunk(), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))), b.permissions.chunk()); sh_timing(a.timing, b.timing); sh_plus(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(a.permissions.chunk()), a.timing.chunk(), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(b.permissions.chunk()), b.timing.chunk()); sh_statehash(a.voting_for, b.voting_for); sh_plus(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(a.permissions.chunk()).plus(a.timing.chunk()), a.voting_for.chunk(), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(b.permissions.chunk()).plus(b.timing.chunk()), b.voting_for.chunk()); sh_key(delegate_of(a), delegate_of(b)); sh_plus(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(a.permissions.chunk()).plus(a.timing.chunk()).plus(a.voting_for.chunk()), key(delegate_of(a)), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(b.permissions.chunk()).plus(b.timing.chunk()).plus(b.voting_for.chunk()), key(delegate_of(b))); sh_chainhash(a.receipt_chain_hash, b.receipt_chain_hash); sh_plus(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(a.permissions.chunk()).plus(a.timing.chunk()).plus(a.voting_for.chunk()).plus(key(delegate_of(a))), a.receipt_chain_hash.chunk(), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(b.permissions.chunk()).plus(b.timing.chunk()).plus(b.voting_for.chunk()).plus(key(delegate_of(b))), b.receipt_chain_hash.chunk()); sh_accountnonce(a.nonce, b.nonce); sh_plus(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(a.permissions.chunk()).plus(a.timing.chunk()).plus(a.voting_for.chunk()).plus(key(delegate_of(a))).plus(a.receipt_chain_hash.chunk()), a.nonce.chunk(), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(b.permissions.chunk()).plus(b.timing.chunk()).plus(b.voting_for.chunk()).plus(key(delegate_of(b))).plus(b.receipt_chain_hash.chunk()), b.nonce.chunk()); sh_amount(a.balance, b.balance); sh_plus(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(a.permissions.chunk()).plus(a.timing.chunk()).plus(a.voting_for.chunk()).plus(key(delegate_of(a))).plus(a.receipt_chain_hash.chunk()).plus(a.nonce.chunk()), a.balance.chunk(), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(b.permissions.chunk()).plus(b.timing.chunk()).plus(b.voting_for.chunk()).plus(key(delegate_of(b))).plus(b.receipt_chain_hash.chunk()).plus(b.nonce.chunk()), b.balance.chunk()); sh_tokensymbol(a.token_symbol, b.token_symbol); sh_plus(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(a.permissions.chunk()).plus(a.timing.chunk()).plus(a.voting_for.chunk()).plus(key(delegate_of(a))).plus(a.receipt_chain_hash.chunk()).plus(a.nonce.chunk()).plus(a.balance.chunk()), a.token_symbol.chunk(), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(b.permissions.chunk()).plus(b.timing.chunk()).plus(b.voting_for.chunk()).plus(key(delegate_of(b))).plus(b.receipt_chain_hash.chunk()).plus(b.nonce.chunk()).plus(b.balance.chunk()), b.token_symbol.chunk()); sh_tokenpermissions(a.token_permissions, b.token_permissions); sh_plus(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(a.permissions.chunk()).plus(a.timing.chunk()).plus(a.voting_for.chunk()).plus(key(delegate_of(a))).plus(a.receipt_chain_hash.chunk()).plus(a.nonce.chunk()).plus(a.balance.chunk()).plus(a.token_symbol.chunk()), a.token_permissions.chunk(), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(b.permissions.chunk()).plus(b.timing.chunk()).plus(b.voting_for.chunk()).plus(key(delegate_of(b))).plus(b.receipt_chain_hash.chunk()).plus(b.nonce.chunk()).plus(b.balance.chunk()).plus(b.token_symbol.chunk()), b.token_permissions.chunk()); sh_tokenid(a.token_id, b.token_id); sh_plus(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(a.permissions.chunk()).plus(a.timing.chunk()).plus(a.voting_for.chunk()).plus(key(delegate_of(a))).plus(a.receipt_chain_hash.chunk()).plus(a.nonce.chunk()).plus(a.balance.chunk()).plus(a.token_symbol.chunk()).plus(a.token_permissions.chunk()), a.token_id.chunk(), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(b.permissions.chunk()).plus(b.timing.chunk()).plus(b.voting_for.chunk()).plus(key(delegate_of(b))).plus(b.receipt_chain_hash.chunk()).plus(b.nonce.chunk()).plus(b.balance.chunk()).plus(b.token_symbol.chunk()).plus(b.token_permissions.chunk()), b.token_id.chunk()); sh_key(a.public_key, b.public_key); sh_plus(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(a.permissions.chunk()).plus(a.timing.chunk()).plus(a.voting_for.chunk()).plus(key(delegate_of(a))).plus(a.receipt_chain_hash.chunk()).plus(a.nonce.chunk()).plus(a.balance.chunk()).plus(a.token_symbol.chunk()).plus(a.token_permissions.chunk()).plus(a.token_id.chunk()), key(a.public_key), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(b.permissions.chunk()).plus(b.timing.chunk()).plus(b.voting_for.chunk()).plus(key(delegate_of(b))).plus(b.receipt_chain_hash.chunk()).plus(b.nonce.chunk()).plus(b.balance.chunk()).plus(b.token_symbol.chunk()).plus(b.token_permissions.chunk()).plus(b.token_id.chunk()), key(b.public_key));
    plus_inj(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(a.permissions.chunk()).plus(a.timing.chunk()).plus(a.voting_for.chunk()).plus(key(delegate_of(a))).plus(a.receipt_chain_hash.chunk()).plus(a.nonce.chunk()).plus(a.balance.chunk()).plus(a.token_symbol.chunk()).plus(a.token_permissions.chunk()).plus(a.token_id.chunk()), key(a.public_key), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(b.permissions.chunk()).plus(b.timing.chunk()).plus(b.voting_for.chunk()).plus(key(delegate_of(b))).plus(b.receipt_chain_hash.chunk()).plus(b.nonce.chunk()).plus(b.balance.chunk()).plus(b.token_symbol.chunk()).plus(b.token_permissions.chunk()).plus(b.token_id.chunk()), key(b.public_key));
    plus_inj(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(a.permissions.chunk()).plus(a.timing.chunk()).plus(a.voting_for.chunk()).plus(key(delegate_of(a))).plus(a.receipt_chain_hash.chunk()).plus(a.nonce.chunk()).plus(a.balance.chunk()).plus(a.token_symbol.chunk()).plus(a.token_permissions.chunk()), a.token_id.chunk(), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(b.permissions.chunk()).plus(b.timing.chunk()).plus(b.voting_for.chunk()).plus(key(delegate_of(b))).plus(b.receipt_chain_hash.chunk()).plus(b.nonce.chunk()).plus(b.balance.chunk()).plus(b.token_symbol.chunk()).plus(b.token_permissions.chunk()), b.token_id.chunk());
    plus_inj(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(a.permissions.chunk()).plus(a.timing.chunk()).plus(a.voting_for.chunk()).plus(key(delegate_of(a))).plus(a.receipt_chain_hash.chunk()).plus(a.nonce.chunk()).plus(a.balance.chunk()).plus(a.token_symbol.chunk()), a.token_permissions.chunk(), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(b.permissions.chunk()).plus(b.timing.chunk()).plus(b.voting_for.chunk()).plus(key(delegate_of(b))).plus(b.receipt_chain_hash.chunk()).plus(b.nonce.chunk()).plus(b.balance.chunk()).plus(b.token_symbol.chunk()), b.token_permissions.chunk());
    plus_inj(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(a.permissions.chunk()).plus(a.timing.chunk()).plus(a.voting_for.chunk()).plus(key(delegate_of(a))).plus(a.receipt_chain_hash.chunk()).plus(a.nonce.chunk()).plus(a.balance.chunk()), a.token_symbol.chunk(), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(b.permissions.chunk()).plus(b.timing.chunk()).plus(b.voting_for.chunk()).plus(key(delegate_of(b))).plus(b.receipt_chain_hash.chunk()).plus(b.nonce.chunk()).plus(b.balance.chunk()), b.token_symbol.chunk());
    plus_inj(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(a.permissions.chunk()).plus(a.timing.chunk()).plus(a.voting_for.chunk()).plus(key(delegate_of(a))).plus(a.receipt_chain_hash.chunk()).plus(a.nonce.chunk()), a.balance.chunk(), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(b.permissions.chunk()).plus(b.timing.chunk()).plus(b.voting_for.chunk()).plus(key(delegate_of(b))).plus(b.receipt_chain_hash.chunk()).plus(b.nonce.chunk()), b.balance.chunk());
    plus_inj(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(a.permissions.chunk()).plus(a.timing.chunk()).plus(a.voting_for.chunk()).plus(key(delegate_of(a))).plus(a.receipt_chain_hash.chunk()), a.nonce.chunk(), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(b.permissions.chunk()).plus(b.timing.chunk()).plus(b.voting_for.chunk()).plus(key(delegate_of(b))).plus(b.receipt_chain_hash.chunk()), b.nonce.chunk());
    plus_inj(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(a.permissions.chunk()).plus(a.timing.chunk()).plus(a.voting_for.chunk()).plus(key(delegate_of(a))), a.receipt_chain_hash.chunk(), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(b.permissions.chunk()).plus(b.timing.chunk()).plus(b.voting_for.chunk()).plus(key(delegate_of(b))), b.receipt_chain_hash.chunk());
    plus_inj(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(a.permissions.chunk()).plus(a.timing.chunk()).plus(a.voting_for.chunk()), key(delegate_of(a)), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(b.permissions.chunk()).plus(b.timing.chunk()).plus(b.voting_for.chunk()), key(delegate_of(b)));
    plus_inj(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(a.permissions.chunk()).plus(a.timing.chunk()), a.voting_for.chunk(), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(b.permissions.chunk()).plus(b.timing.chunk()), b.voting_for.chunk());
    plus_inj(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(a.permissions.chunk()), a.timing.chunk(), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))).plus(b.permissions.chunk()), b.timing.chunk());
    plus_inj(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))), a.permissions.chunk(), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))).plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp()))))), b.permissions.chunk());
    plus_inj(none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))), none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp())))), none().plus(none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri()))))), none().plus(fld(hash_fp(Kind::Kimchi, Some("CodaZkappAccount"@), packed(zkapp())))));
    plus_inj(none(), none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri())))), none(), none().plus(fld(hash_fp(Kind::Kimchi, Some("MinaZkappUri"@), packed(zkuri())))));
    inj_permissions(a.permissions, b.permissions);
    inj_timing(a.timing, b.timing);
    inj_statehash(a.voting_for, b.voting_for);
    key_one(delegate_of(a), delegate_of(b));
    inj_chainhash(a.receipt_chain_hash, b.receipt_chain_hash);
    inj_accountnonce(a.nonce, b.nonce);
    inj_amount(a.balance, b.balance);
    inj_tokensymbol(a.token_symbol, b.token_symbol);
    inj_tokenpermissions(a.token_permissions, b.token_permissions);
    inj_tokenid(a.token_id, b.token_id);
    key_one(a.public_key, b.public_key);
    
}
/// what is hashed for an account determines the account: all but the zkApp parts, which this library hashes as the default
pub proof fn account_input_inj(a: Account, b: Account) requires a.ok(), b.ok(), len_account(a, b), a.chunk().fits(), b.chunk().fits(), a.ro() == b.ro() ensures same_account(a, b)
{ sh_account(a, b); fields_inj(a.chunk(), b.chunk()); inj_account(a, b); }
// signed commands
} // verus!
fn main() {}

