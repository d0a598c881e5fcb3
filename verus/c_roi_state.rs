//@include prelude_core.rs
broadcast use vx_bits;
//@include prelude_io.rs
//@include part_ro.rs
//@include part_roc.rs
//@nosub
// ------------------------------------------------------------ the legacy input (mina_hasher, assumed)
pub ghost struct Ro { pub fields: Seq<Fp>, pub bits: Seq<bool> }
pub open spec fn rnone() -> Ro { Ro { fields: Seq::empty(), bits: Seq::empty() } }
pub open spec fn rfld(f: Fp) -> Ro { Ro { fields: seq![f], bits: Seq::empty() } }
pub open spec fn rbits(s: Seq<bool>) -> Ro { Ro { fields: Seq::empty(), bits: s } }
pub open spec fn rbit(b: bool) -> Ro { rbits(seq![b]) }
/// the low w bits, least significant first
pub open spec fn int_bits(n: int, w: nat) -> Seq<bool> { Seq::new(w, |i: int| (n / two(i as nat)) % 2 == 1) }
pub open spec fn rnum(n: int, w: nat) -> Ro { rbits(int_bits(n, w)) }
impl Ro {
    pub open spec fn plus(self, o: Ro) -> Ro { Ro { fields: self.fields + o.fields, bits: self.bits + o.bits } }
    pub open spec fn shape(self) -> (nat, nat) { (self.fields.len(), self.bits.len()) }
}
impl ROInput {
    pub open spec fn view(self) -> Ro { Ro { fields: self.fields(), bits: self.bits() } }
    #[verifier::external_body] pub fn append_bytes(self, b: &[u8]) -> (r: ROInput) ensures r.view() == self.view().plus(rbits(bytes_bits(b@))) { unimplemented!() }
    #[verifier::external_body] pub fn append_bool(self, b: bool) -> (r: ROInput) ensures r.view() == self.view().plus(rbit(b)) { unimplemented!() }
    #[verifier::external_body] pub fn append_u32(self, x: u32) -> (r: ROInput) ensures r.view() == self.view().plus(rnum(x as int, 32)) { unimplemented!() }
    #[verifier::external_body] pub fn append_u64(self, x: u64) -> (r: ROInput) ensures r.view() == self.view().plus(rnum(x as int, 64)) { unimplemented!() }
    #[verifier::external_body] pub fn append_hashable<H: Hashable>(self, x: &H) -> (r: ROInput) requires x.ro_ok() ensures r.view() == self.view().plus(x.ro()) { unimplemented!() }
}
pub open spec fn chars(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
/// mina_hasher::Hashable
pub trait Hashable: Sized {
    type D;
    spec fn ro(&self) -> Ro;
    spec fn ro_ok(&self) -> bool;
    spec fn dom(d: Self::D) -> Option<Seq<char>>;
    fn to_roinput(&self) -> (r: ROInput) requires self.ro_ok() ensures r.view() == self.ro();
    fn domain_string(d: Self::D) -> (r: Option<String>) ensures chars(r) == Self::dom(d);
}
/// the two Poseidon instances: a hash depends on the instance, the domain and the input alone
pub enum Kind { Legacy, Kimchi }
pub uninterp spec fn hash_fp(k: Kind, d: Option<Seq<char>>, i: Ro) -> Fp;
#[verifier::external_body] #[verifier::reject_recursive_types(H)] pub struct Poseidon<H> { _h: core::marker::PhantomData<H> }
impl<H: Hashable> Poseidon<H> {
    pub uninterp spec fn kind(&self) -> Kind;
    pub uninterp spec fn domain(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn hash(&mut self, x: &H) -> (r: Fp) requires x.ro_ok() ensures r == hash_fp(old(self).kind(), old(self).domain(), x.ro()), final(self).kind() == old(self).kind(), final(self).domain() == old(self).domain() { unimplemented!() }
}
#[verifier::external_body] pub fn create_legacy<H: Hashable>(d: H::D) -> (r: Poseidon<H>) ensures r.kind() is Legacy, r.domain() == H::dom(d) { unimplemented!() }
#[verifier::external_body] pub fn create_kimchi<H: Hashable>(d: H::D) -> (r: Poseidon<H>) ensures r.kind() is Kimchi, r.domain() == H::dom(d) { unimplemented!() }
// ------------------------------------------------------------ other dependencies, assumed
impl VxInto<String> for &'static str { open spec fn into_ok(self) -> bool { true } open spec fn into_is(self, r: String) -> bool { r@ == self@ } #[verifier::external_body] fn vx_into(self) -> (r: String) { unimplemented!() } }
impl VxInto<Option<String>> for String { open spec fn into_ok(self) -> bool { true } open spec fn into_is(self, r: Option<String>) -> bool { r is Some && r->Some_0@ == self@ } fn vx_into(self) -> (r: Option<String>) { Some(self) } }
impl VxInto<Fp> for u64 { open spec fn into_ok(self) -> bool { true } open spec fn into_is(self, r: Fp) -> bool { r == fp(self as int) } #[verifier::external_body] fn vx_into(self) -> (r: Fp) { unimplemented!() } }
#[derive(Clone, Copy)]
pub struct CompressedPubKey { pub x: Fp, pub is_odd: bool }
/// the 32 bytes of an element, little-endian
pub uninterp spec fn fp_bytes(f: Fp) -> Seq<u8>;
pub axiom fn fp_bytes_len(f: Fp) ensures fp_bytes(f).len() == 32;
impl Fp { #[verifier::external_body] pub fn to_bytes(&self) -> (r: Vec<u8>) ensures r@ == fp_bytes(*self), r@.len() == 32 { unimplemented!() } }
pub type FieldHelpersError = FieldError;
#[verifier::external_body] pub fn vx_copy_all(a: &mut [u8; 32], b: &[u8]) requires b@.len() == 32 ensures final(a)@ == b@ { unimplemented!() }
impl BaseHash { #[verifier::external_body] pub fn default() -> (r: BaseHash) { unimplemented!() } }
impl Field { #[verifier::external_body] pub fn default() -> (r: Field) { unimplemented!() } }
impl VxInto<BaseHash> for &[u8] { open spec fn into_ok(self) -> bool { self@.len() == 32 } open spec fn into_is(self, r: BaseHash) -> bool { r.0@ == self@ } fn vx_into(self) -> (r: BaseHash) { BaseHash::from_bytes_slice(self) } }
impl VxInto<Field> for &[u8] { open spec fn into_ok(self) -> bool { self@.len() == 32 } open spec fn into_is(self, r: Field) -> bool { r.0@ == self@ } fn vx_into(self) -> (r: Field) { Field::from_bytes_slice(self) } }
impl VxInto<BaseHash> for &Fp { open spec fn into_ok(self) -> bool { true } open spec fn into_is(self, r: BaseHash) -> bool { r.0@ == fp_bytes(*self) } fn vx_into(self) -> (r: BaseHash) { BaseHash::from_fp(self) } }
impl VxInto<StateHash> for &Fp { open spec fn into_ok(self) -> bool { true } open spec fn into_is(self, r: StateHash) -> bool { r.0.0@ == fp_bytes(*self) } fn vx_into(self) -> (r: StateHash) { StateHash::from_fp(self) } }
/// derive_more::From
impl VxInto<StateHash> for BaseHash { open spec fn into_ok(self) -> bool { true } open spec fn into_is(self, r: StateHash) -> bool { r.0 == self } #[verifier::external_body] fn vx_into(self) -> (r: StateHash) { unimplemented!() } }
impl VxInto<LedgerHash> for BaseHash { open spec fn into_ok(self) -> bool { true } open spec fn into_is(self, r: LedgerHash) -> bool { r.0 == self } #[verifier::external_body] fn vx_into(self) -> (r: LedgerHash) { unimplemented!() } }
pub uninterp spec fn sha256(b: Seq<u8>) -> Seq<u8>;
pub axiom fn sha_len(b: Seq<u8>) ensures sha256(b).len() == 32;
#[verifier::external_body] pub struct Sha256 { _x: u8 }
#[verifier::external_body] pub struct ShaOut { _x: u8 }
impl ShaOut { pub uninterp spec fn b(&self) -> Seq<u8>; #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.b() { unimplemented!() } }
impl Sha256 {
    pub uninterp spec fn b(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new() -> (r: Sha256) ensures r.b() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn update(&mut self, v: &Vec<u8>) ensures final(self).b() == old(self).b() + v@ { unimplemented!() }
    #[verifier::external_body] pub fn finalize(self) -> (r: ShaOut) ensures r.b() == sha256(self.b()) { unimplemented!() }
}
pub trait VxRev { spec fn s(&self) -> Seq<u8>; fn vx_rev(&self) -> (r: Vec<u8>) ensures r@ == self.s().reverse(); }
impl VxRev for [u8; 32] { open spec fn s(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_rev(&self) -> (r: Vec<u8>) { unimplemented!() } }
pub trait VxPrefix { spec fn s(&self) -> Seq<u8>; fn vx_prefix(&self, n: usize) -> (r: &[u8]) requires n <= self.s().len() ensures r@ == self.s().take(n as int); }
impl VxPrefix for Vec<u8> { open spec fn s(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_prefix(&self, n: usize) -> (r: &[u8]) { unimplemented!() } }
#[verifier::external_body] pub fn vx_zeros() -> (r: [u8; 32]) ensures forall|i: int| 0 <= i < 32 ==> r@[i] == 0 { [0; 32] }
#[verifier::external_body] pub fn vx_copy_prefix(a: &mut [u8; 32], b: &[u8; 32], n: usize) requires n <= 32 ensures final(a)@ == b@.take(n as int) + old(a)@.skip(n as int) { unimplemented!() }
/// little-endian; an error (and then a panic) unless below the order
#[verifier::external_body] pub fn vx_fp_read(b: &[u8; 32]) -> (r: Fp) requires unle(b@) < p() ensures r == fp(unle(b@)) { unimplemented!() }
pub trait VxSeq<T> { spec fn s(&self) -> Seq<T>; }
impl<T> VxSeq<T> for Vec<T> { open spec fn s(&self) -> Seq<T> { self@ } }
impl<T, const N: usize> VxSeq<T> for [T; N] { open spec fn s(&self) -> Seq<T> { self@ } }
#[verifier::external_body] pub fn vx_at<T, S: VxSeq<T>>(v: &S, i: usize) -> (r: T) requires i < v.s().len() ensures r == v.s()[i as int] { unimplemented!() }
impl VxInto<Amount> for u64 { open spec fn into_ok(self) -> bool { true } open spec fn into_is(self, r: Amount) -> bool { r.0 == self } #[verifier::external_body] fn vx_into(self) -> (r: Amount) { unimplemented!() } }
impl VxInto<BlockTime> for u64 { open spec fn into_ok(self) -> bool { true } open spec fn into_is(self, r: BlockTime) -> bool { r.0 == self } #[verifier::external_body] fn vx_into(self) -> (r: BlockTime) { unimplemented!() } }
impl BigInteger256 { #[verifier::external_body] pub fn new(a: [u64; 4]) -> (r: BigInteger256) ensures r.val() == limbs(a@) { unimplemented!() } }
pub open spec fn limbs(a: Seq<u64>) -> int { a[0] + 0x1_0000_0000_0000_0000 * (a[1] + 0x1_0000_0000_0000_0000 * (a[2] + 0x1_0000_0000_0000_0000 * a[3])) }

// ------------------------------------------------------------ algebra of inputs
pub broadcast proof fn plus_fits(a: Chunk, b: Chunk) requires a.fits(), b.fits() ensures (#[trigger] a.plus(b)).fits() { let c = a.plus(b); assert forall|i: int| 0 <= i < c.packed.len() implies c.packed[i].1 <= 254 && (#[trigger] c.packed[i]).0.val() < two(c.packed[i].1 as nat) by { if i < a.packed.len() { assert(c.packed[i] == a.packed[i]); } else { assert(c.packed[i] == b.packed[i - a.packed.len()]); } } }
pub broadcast proof fn none_fits() ensures #[trigger] none().fits() { }
pub broadcast proof fn fld_fits(f: Fp) ensures (#[trigger] fld(f)).fits() { }
pub broadcast proof fn num_fits(n: int, w: u32) requires 0 <= n < two(w as nat), w <= 254 ensures (#[trigger] num(n, w)).fits() { fp_axioms(); two_vals(); two_mono(w as nat, 254); }
pub broadcast proof fn bit_fits(b: bool) ensures (#[trigger] bit(b)).fits() { two_vals(); fp_axioms(); }
pub broadcast proof fn u32_fits(n: u32) ensures (#[trigger] num(n as int, 32)).fits() { two_vals(); num_fits(n as int, 32); }
pub broadcast proof fn u64_fits(n: u64) ensures (#[trigger] num(n as int, 64)).fits() { two_vals(); num_fits(n as int, 64); }
pub broadcast proof fn bits_fits(s: Seq<bool>) ensures (#[trigger] bits(s)).fits() { two_vals(); fp_axioms(); }
pub broadcast group ro_fits { plus_fits, none_fits, fld_fits, num_fits, bit_fits, u32_fits, u64_fits, bits_fits }
pub broadcast proof fn rplus_none(c: Ro) ensures #[trigger] rnone().plus(c) == c { assert(rnone().plus(c).fields =~= c.fields); assert(rnone().plus(c).bits =~= c.bits); }
pub broadcast proof fn rplus_fld(c: Ro, f: Fp) ensures (#[trigger] c.plus(rfld(f))) == (Ro { fields: c.fields.push(f), bits: c.bits }) { assert(c.plus(rfld(f)).fields =~= c.fields.push(f)); assert(c.plus(rfld(f)).bits =~= c.bits); }
pub broadcast proof fn rplus_bits(c: Ro, s: Seq<bool>) ensures (#[trigger] c.plus(rbits(s))) == (Ro { fields: c.fields, bits: c.bits + s }) { assert(c.plus(rbits(s)).fields =~= c.fields); }
pub broadcast proof fn plus_none(c: Chunk) ensures #[trigger] none().plus(c) == c { assert(none().plus(c).fields =~= c.fields); assert(none().plus(c).packed =~= c.packed); }
pub proof fn le_zeros(a: Seq<u8>, z: Seq<u8>) requires forall|i: int| 0 <= i < z.len() ==> z[i] == 0 ensures unle(a + z) == unle(a) decreases a.len() + z.len()
{
    if a.len() > 0 { assert((a + z).skip(1) =~= a.skip(1) + z); le_zeros(a.skip(1), z); }
    else if z.len() > 0 { assert((a + z).skip(1) =~= a + z.skip(1)); le_zeros(a, z.skip(1)); }
}
pub broadcast proof fn padded(a: Seq<u8>, z: Seq<u8>, n: int) requires 0 <= n <= z.len(), forall|i: int| 0 <= i < z.len() ==> z[i] == 0 ensures unle(#[trigger] (a + z.skip(n))) == unle(a) { le_zeros(a, z.skip(n)); }
pub proof fn two_bits(a: bool, b: bool) ensures bits_int(seq![a, b]) == (if a { 1int } else { 0 }) + (if b { 2int } else { 0 }) { reveal_with_fuel(bits_int, 4); assert(seq![a, b].skip(1)[0] == b); assert(seq![a, b].skip(1).skip(1).len() == 0); }
pub proof fn two_192() ensures two(2) == 4, two(48) == 0x1_0000_0000_0000, two(62) == 0x4000_0000_0000_0000, two(254) == 0x4000_0000_0000_0000 * (0x1_0000_0000_0000_0000 * (0x1_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000))
{ two_vals(); assert(two(2) == 4) by (compute); assert(two(48) == 0x1_0000_0000_0000) by (compute); assert(two(62) == 0x4000_0000_0000_0000) by (compute); two_sum(62, 192); two_sum(64, 128); two_sum(64, 64); }
pub broadcast proof fn low_bits(b: u8) ensures
    #![trigger (b & 0b1)]
    (b & 0b1 > 0) == (b as int % 2 == 1), (b & 0b10 > 0) == ((b as int / 2) % 2 == 1), (b & 0b100 > 0) == ((b as int / 4) % 2 == 1), (b & 0b1000 > 0) == ((b as int / 8) % 2 == 1), (b & 0b10000 > 0) == ((b as int / 16) % 2 == 1)
{
    assert((b & 0b1 > 0) == (b % 2 == 1)) by (bit_vector); assert((b & 0b10 > 0) == ((b / 2) % 2 == 1)) by (bit_vector); assert((b & 0b100 > 0) == ((b / 4) % 2 == 1)) by (bit_vector);
    assert((b & 0b1000 > 0) == ((b / 8) % 2 == 1)) by (bit_vector); assert((b & 0b10000 > 0) == ((b / 16) % 2 == 1)) by (bit_vector);
}

// ------------------------------------------------------------ layouts that are not a plain chain
pub open spec fn low5(b: u8) -> Seq<bool> { seq![b as int % 2 == 1, (b as int / 2) % 2 == 1, (b as int / 4) % 2 == 1, (b as int / 8) % 2 == 1, (b as int / 16) % 2 == 1] }
/// every bit of up to 31 bytes, then the five low bits of the 32nd
pub open spec fn vrf_bits(v: Seq<u8>) -> Seq<bool> { if v.len() <= 31 { bytes_bits(v) } else { bytes_bits(v.take(31)) + low5(v[31]) } }
pub open spec fn lens(s: Seq<Length>, c: Chunk) -> Chunk decreases s.len() { if s.len() == 0 { c } else { lens(s.drop_last(), c).plus(s.last().chunk()) } }
pub open spec fn rlens(s: Seq<Length>, c: Ro) -> Ro decreases s.len() { if s.len() == 0 { c } else { rlens(s.drop_last(), c).plus(s.last().ro()) } }
pub proof fn lens_step(s: Seq<Length>, c: Chunk, k: int) requires 0 <= k < s.len() ensures lens(s.take(k + 1), c) == lens(s.take(k), c).plus(s[k].chunk()) { assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub proof fn rlens_step(s: Seq<Length>, c: Ro, k: int) requires 0 <= k < s.len() ensures rlens(s.take(k + 1), c) == rlens(s.take(k), c).plus(s[k].ro()) { assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub open spec fn tags(s: Seq<bool>, c: Chunk) -> Chunk decreases s.len() { if s.len() == 0 { c } else { tags(s.drop_last(), c).plus(bit(s.last())) } }
pub open spec fn rtags(s: Seq<bool>, c: Ro) -> Ro decreases s.len() { if s.len() == 0 { c } else { rtags(s.drop_last(), c).plus(rbit(s.last())) } }
pub proof fn tags_step(s: Seq<bool>, c: Chunk, k: int) requires 0 <= k < s.len() ensures tags(s.take(k + 1), c) == tags(s.take(k), c).plus(bit(s[k])) { assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub proof fn rtags_step(s: Seq<bool>, c: Ro, k: int) requires 0 <= k < s.len() ensures rtags(s.take(k + 1), c) == rtags(s.take(k), c).plus(rbit(s[k])) { assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub broadcast proof fn tags3(s: Seq<bool>, c: Chunk) requires s.len() == 3 ensures #[trigger] tags(s, c) == c.plus(bit(s[0])).plus(bit(s[1])).plus(bit(s[2])) { reveal_with_fuel(tags, 4); let t = s.drop_last(); assert(t.drop_last().drop_last().len() == 0); assert(t.drop_last().last() == s[0]); }
pub broadcast proof fn rtags3(s: Seq<bool>, c: Ro) requires s.len() == 3 ensures #[trigger] rtags(s, c) == c.plus(rbit(s[0])).plus(rbit(s[1])).plus(rbit(s[2])) { reveal_with_fuel(rtags, 4); let t = s.drop_last(); assert(t.drop_last().drop_last().len() == 0); assert(t.drop_last().last() == s[0]); }

pub open spec fn key(k: CompressedPubKey) -> Chunk { none().plus(fld(k.x)).plus(bit(k.is_odd)) }
/// the input of the default zkapp account
pub open spec fn zk1() -> Chunk { fld(fp(17818364107179681741int + 0x1_0000_0000_0000_0000 * (14791875366151232437 + 0x1_0000_0000_0000_0000 * (6753084239224090698 + 0x1_0000_0000_0000_0000 * 2060674656258731539)))) }
pub open spec fn zk2() -> Chunk { fld(fp(17064760232198382013int + 0x1_0000_0000_0000_0000 * (7053532856486746066 + 0x1_0000_0000_0000_0000 * (14503003448090529760 + 0x1_0000_0000_0000_0000 * 2522938464542289201)))) }
pub open spec fn zkapp() -> Chunk { none().plus(zk1()).plus(zk1()).plus(zk1()).plus(zk1()).plus(zk1()).plus(zk2()).plus(fld(fp(0))).plus(fld(fp(0))).plus(fld(fp(0))).plus(fld(fp(0))).plus(fld(fp(0))).plus(fld(fp(0))).plus(fld(fp(0))).plus(fld(fp(0))).plus(num(0, 1)).plus(num(0, 32)).plus(num(0, 32)) }
pub open spec fn zkuri() -> Chunk { none().plus(num(1, 1)) }
pub open spec fn packed(c: Chunk) -> Ro { Ro { fields: all_fields(c), bits: Seq::empty() } }

//@impl ChLength
    open spec fn chunk(&self) -> Chunk { none().plus(num(self.0 as int, 32)) }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl RoLength
    open spec fn ro(&self) -> Ro { rnone().plus(rnum(self.0 as int, 32)) }
    open spec fn ro_ok(&self) -> bool { true }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl ChAccountNonce
    open spec fn chunk(&self) -> Chunk { none().plus(num(self.0 as int, 32)) }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl RoAccountNonce
    open spec fn ro(&self) -> Ro { rnone().plus(rnum(self.0 as int, 32)) }
    open spec fn ro_ok(&self) -> bool { true }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl ChGlobalSlotNumber
    open spec fn chunk(&self) -> Chunk { none().plus(num(self.0 as int, 32)) }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl RoGlobalSlotNumber
    open spec fn ro(&self) -> Ro { rnone().plus(rnum(self.0 as int, 32)) }
    open spec fn ro_ok(&self) -> bool { true }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl ChMinaIndex
    open spec fn chunk(&self) -> Chunk { none().plus(num(self.0 as int, 32)) }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl ChAmount
    open spec fn chunk(&self) -> Chunk { none().plus(num(self.0 as int, 64)) }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl RoAmount
    open spec fn ro(&self) -> Ro { rnone().plus(rnum(self.0 as int, 64)) }
    open spec fn ro_ok(&self) -> bool { true }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl ChBlockTime
    open spec fn chunk(&self) -> Chunk { none().plus(num(self.0 as int, 64)) }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl RoBlockTime
    open spec fn ro(&self) -> Ro { rnone().plus(rnum(self.0 as int, 64)) }
    open spec fn ro_ok(&self) -> bool { true }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl ChTokenId
    open spec fn chunk(&self) -> Chunk { none().plus(fld(fp(self.0 as int))) }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl RoTokenId
    open spec fn ro(&self) -> Ro { rnone().plus(rnum(self.0 as int, 64)) }
    open spec fn ro_ok(&self) -> bool { true }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl ChSignedAmount
    open spec fn chunk(&self) -> Chunk { none().plus(num(self.0 as int, 64)).plus(bit(self.1)) }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl ChField
    open spec fn chunk(&self) -> Chunk { none().plus(fld(fp(unle(self.0@)))) }
    open spec fn ok(&self) -> bool { unle(self.0@) < p() }
//@end
//@impl ChBaseHash
    open spec fn chunk(&self) -> Chunk { none().plus(fld(fp(unle(self.0@)))) }
    open spec fn ok(&self) -> bool { unle(self.0@) < p() }
//@end
//@impl RoBaseHash
    open spec fn ro(&self) -> Ro { rnone().plus(rfld(fp(unle(self.0@)))) }
    open spec fn ro_ok(&self) -> bool { unle(self.0@) < p() }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl ChStateHash
    open spec fn chunk(&self) -> Chunk { self.0.chunk() }
    open spec fn ok(&self) -> bool { self.0.ok() }
//@end
//@impl RoStateHash
    open spec fn ro(&self) -> Ro { rnone().plus(self.0.ro()) }
    open spec fn ro_ok(&self) -> bool { self.0.ro_ok() }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl ChLedgerHash
    open spec fn chunk(&self) -> Chunk { self.0.chunk() }
    open spec fn ok(&self) -> bool { self.0.ok() }
//@end
//@impl RoLedgerHash
    open spec fn ro(&self) -> Ro { rnone().plus(self.0.ro()) }
    open spec fn ro_ok(&self) -> bool { self.0.ro_ok() }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl ChChainHash
    open spec fn chunk(&self) -> Chunk { self.0.chunk() }
    open spec fn ok(&self) -> bool { self.0.ok() }
//@end
//@impl RoChainHash
    open spec fn ro(&self) -> Ro { rnone().plus(self.0.ro()) }
    open spec fn ro_ok(&self) -> bool { self.0.ro_ok() }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl ChCoinBaseHash
    open spec fn chunk(&self) -> Chunk { self.0.chunk() }
    open spec fn ok(&self) -> bool { self.0.ok() }
//@end
//@impl RoCoinBaseHash
    open spec fn ro(&self) -> Ro { rnone().plus(self.0.ro()) }
    open spec fn ro_ok(&self) -> bool { self.0.ro_ok() }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl ChEpochSeed
    open spec fn chunk(&self) -> Chunk { self.0.chunk() }
    open spec fn ok(&self) -> bool { self.0.ok() }
//@end
//@impl RoEpochSeed
    open spec fn ro(&self) -> Ro { rnone().plus(self.0.ro()) }
    open spec fn ro_ok(&self) -> bool { self.0.ro_ok() }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl ChNonSnarkStagedLedgerHash
    open spec fn chunk(&self) -> Chunk { none().plus(bits(bytes_bits(sha256(self.ledger_hash.0.0@.reverse() + self.aux_hash.0@ + self.pending_coinbase_aux.0@)))) }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl RoNonSnarkStagedLedgerHash
    open spec fn ro(&self) -> Ro { rnone().plus(rbits(bytes_bits(sha256(self.ledger_hash.0.0@.reverse() + self.aux_hash.0@ + self.pending_coinbase_aux.0@)))) }
    open spec fn ro_ok(&self) -> bool { true }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl ChStagedLedgerHash
    open spec fn chunk(&self) -> Chunk { none().plus(self.non_snark.chunk()).plus(self.pending_coinbase_hash.chunk()) }
    open spec fn ok(&self) -> bool { self.non_snark.ok() && self.pending_coinbase_hash.ok() }
//@end
//@impl RoStagedLedgerHash
    open spec fn ro(&self) -> Ro { rnone().plus(self.non_snark.ro()).plus(self.pending_coinbase_hash.ro()) }
    open spec fn ro_ok(&self) -> bool { self.non_snark.ro_ok() && self.pending_coinbase_hash.ro_ok() }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl ChEpochLedger
    open spec fn chunk(&self) -> Chunk { none().plus(self.hash.chunk()).plus(self.total_currency.chunk()) }
    open spec fn ok(&self) -> bool { self.hash.ok() && self.total_currency.ok() }
//@end
//@impl RoEpochLedger
    open spec fn ro(&self) -> Ro { rnone().plus(self.hash.ro()).plus(self.total_currency.ro()) }
    open spec fn ro_ok(&self) -> bool { self.hash.ro_ok() && self.total_currency.ro_ok() }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl ChEpochData
    open spec fn chunk(&self) -> Chunk { none().plus(self.seed.chunk()).plus(self.start_checkpoint.chunk()).plus(self.epoch_length.chunk()).plus(self.ledger.chunk()).plus(self.lock_checkpoint.chunk()) }
    open spec fn ok(&self) -> bool { self.seed.ok() && self.start_checkpoint.ok() && self.epoch_length.ok() && self.ledger.ok() && self.lock_checkpoint.ok() }
//@end
//@impl RoEpochData
    open spec fn ro(&self) -> Ro { rnone().plus(self.seed.ro()).plus(self.start_checkpoint.ro()).plus(self.epoch_length.ro()).plus(self.ledger.ro()).plus(self.lock_checkpoint.ro()) }
    open spec fn ro_ok(&self) -> bool { self.seed.ro_ok() && self.start_checkpoint.ro_ok() && self.epoch_length.ro_ok() && self.ledger.ro_ok() && self.lock_checkpoint.ro_ok() }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl ChGlobalSlot
    open spec fn chunk(&self) -> Chunk { none().plus(self.slot_number.chunk()).plus(self.slots_per_epoch.chunk()) }
    open spec fn ok(&self) -> bool { self.slot_number.ok() && self.slots_per_epoch.ok() }
//@end
//@impl RoGlobalSlot
    open spec fn ro(&self) -> Ro { rnone().plus(self.slot_number.ro()).plus(self.slots_per_epoch.ro()) }
    open spec fn ro_ok(&self) -> bool { self.slot_number.ro_ok() && self.slots_per_epoch.ro_ok() }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl ChProtocolConstants
    open spec fn chunk(&self) -> Chunk { none().plus(self.k.chunk()).plus(self.delta.chunk()).plus(self.slots_per_epoch.chunk()).plus(self.slots_per_sub_window.chunk()).plus(self.genesis_state_timestamp.chunk()) }
    open spec fn ok(&self) -> bool { self.k.ok() && self.delta.ok() && self.slots_per_epoch.ok() && self.slots_per_sub_window.ok() && self.genesis_state_timestamp.ok() }
//@end
//@impl RoProtocolConstants
    open spec fn ro(&self) -> Ro { rnone().plus(self.k.ro()).plus(self.delta.ro()).plus(self.slots_per_epoch.ro()).plus(self.slots_per_sub_window.ro()).plus(self.genesis_state_timestamp.ro()) }
    open spec fn ro_ok(&self) -> bool { self.k.ro_ok() && self.delta.ro_ok() && self.slots_per_epoch.ro_ok() && self.slots_per_sub_window.ro_ok() && self.genesis_state_timestamp.ro_ok() }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl RoBlockchainStateLegacy
    open spec fn ro(&self) -> Ro { rnone().plus(self.staged_ledger_hash.ro()).plus(self.snarked_ledger_hash.ro()).plus(self.genesis_ledger_hash.ro()).plus(self.snarked_next_available_token.ro()).plus(self.timestamp.ro()) }
    open spec fn ro_ok(&self) -> bool { self.staged_ledger_hash.ro_ok() && self.snarked_ledger_hash.ro_ok() && self.genesis_ledger_hash.ro_ok() }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl ChBodyReference
    open spec fn chunk(&self) -> Chunk { none().plus(bits(bytes_bits(self.0@))) }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl ChBlockchainState
    open spec fn chunk(&self) -> Chunk { none().plus(self.staged_ledger_hash.chunk()).plus(self.genesis_ledger_hash.chunk()).plus(self.registers.chunk()).plus(self.timestamp.chunk()).plus(self.body_reference.chunk()) }
    open spec fn ok(&self) -> bool { self.staged_ledger_hash.ok() && self.genesis_ledger_hash.ok() && self.registers.ok() && self.timestamp.ok() && self.body_reference.ok() }
//@end
//@impl ChBlockchainStateRegisters
    open spec fn chunk(&self) -> Chunk { none().plus(self.ledger.chunk()).plus(self.local_state.chunk()) }
    open spec fn ok(&self) -> bool { self.ledger.ok() && self.local_state.ok() }
//@end
//@impl ChBlockchainStateRegistersLocalState
    open spec fn chunk(&self) -> Chunk { none().plus(self.stack_frame.chunk()).plus(self.call_stack.chunk()).plus(self.transaction_commitment.chunk()).plus(self.full_transaction_commitment.chunk()).plus(self.token_id.chunk()).plus(self.excess.chunk()).plus(self.ledger.chunk()).plus(self.party_index.chunk()).plus(bit(self.success)) }
    open spec fn ok(&self) -> bool { self.stack_frame.ok() && self.call_stack.ok() && self.transaction_commitment.ok() && self.full_transaction_commitment.ok() && self.token_id.ok() && self.excess.ok() && self.ledger.ok() && self.party_index.ok() }
//@end
//@impl ChVrfOutputTruncated
    open spec fn chunk(&self) -> Chunk { if self.0@.len() <= 31 { none().plus(bits(bytes_bits(self.0@))) } else { none().plus(bits(bytes_bits(self.0@.take(31)))).plus(bit(low5(self.0@[31])[0])).plus(bit(low5(self.0@[31])[1])).plus(bit(low5(self.0@[31])[2])).plus(bit(low5(self.0@[31])[3])).plus(bit(low5(self.0@[31])[4])) } }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl RoVrfOutputTruncated
    open spec fn ro(&self) -> Ro { if self.0@.len() <= 31 { rnone().plus(rbits(bytes_bits(self.0@))) } else { rnone().plus(rbits(bytes_bits(self.0@.take(31)))).plus(rbit(low5(self.0@[31])[0])).plus(rbit(low5(self.0@[31])[1])).plus(rbit(low5(self.0@[31])[2])).plus(rbit(low5(self.0@[31])[3])).plus(rbit(low5(self.0@[31])[4])) } }
    open spec fn ro_ok(&self) -> bool { true }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl ChConsensusState
    open spec fn chunk(&self) -> Chunk { lens(self.sub_window_densities@, none().plus(self.blockchain_length.chunk()).plus(self.epoch_count.chunk()).plus(self.min_window_density.chunk())).plus(self.last_vrf_output.chunk()).plus(self.total_currency.chunk()).plus(self.curr_global_slot.chunk()).plus(self.global_slot_since_genesis.chunk()).plus(bit(self.has_ancestor_in_same_checkpoint_window)).plus(bit(self.supercharge_coinbase)).plus(self.staking_epoch_data.chunk()).plus(self.next_epoch_data.chunk()).plus(key(self.block_stake_winner)).plus(key(self.block_creator)).plus(key(self.coinbase_receiver)) }
    open spec fn ok(&self) -> bool { self.staking_epoch_data.ok() && self.next_epoch_data.ok() }
//@end
//@impl RoConsensusState
    open spec fn ro(&self) -> Ro { rlens(self.sub_window_densities@, rnone().plus(self.blockchain_length.ro()).plus(self.epoch_count.ro()).plus(self.min_window_density.ro())).plus(self.last_vrf_output.ro()).plus(self.total_currency.ro()).plus(self.curr_global_slot.ro()).plus(self.global_slot_since_genesis.ro()).plus(rbit(self.has_ancestor_in_same_checkpoint_window)).plus(rbit(self.supercharge_coinbase)).plus(self.staking_epoch_data.ro()).plus(self.next_epoch_data.ro()).plus(rfld(self.block_stake_winner.x)).plus(rbit(self.block_stake_winner.is_odd)).plus(rfld(self.block_creator.x)).plus(rbit(self.block_creator.is_odd)).plus(rfld(self.coinbase_receiver.x)).plus(rbit(self.coinbase_receiver.is_odd)) }
    open spec fn ro_ok(&self) -> bool { self.staking_epoch_data.ro_ok() && self.next_epoch_data.ro_ok() }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl RoProtocolStateBodyLegacy
    open spec fn ro(&self) -> Ro { rnone().plus(self.constants.ro()).plus(self.genesis_state_hash.ro()).plus(self.blockchain_state.ro()).plus(self.consensus_state.ro()) }
    open spec fn ro_ok(&self) -> bool { self.genesis_state_hash.ro_ok() && self.blockchain_state.ro_ok() && self.consensus_state.ro_ok() }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { Some("CodaProtoStateBody"@) }
//@end
//@impl RoProtocolStateLegacy
    open spec fn ro(&self) -> Ro { rnone().plus(self.previous_state_hash.ro()).plus(rfld(hash_fp(Kind::Legacy, Some("CodaProtoStateBody"@), self.body.ro()))) }
    open spec fn ro_ok(&self) -> bool { self.previous_state_hash.ro_ok() && self.body.ro_ok() }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { Some("CodaProtoState"@) }
//@end
//@impl ChProtocolStateBody
    open spec fn chunk(&self) -> Chunk { none().plus(self.constants.chunk()).plus(self.genesis_state_hash.chunk()).plus(self.blockchain_state.chunk()).plus(self.consensus_state.chunk()) }
    open spec fn ok(&self) -> bool { self.constants.ok() && self.genesis_state_hash.ok() && self.blockchain_state.ok() && self.consensus_state.ok() }
//@end
//@impl RoProtocolStateBody
    open spec fn ro(&self) -> Ro { packed(self.chunk()) }
    open spec fn ro_ok(&self) -> bool { self.ok() }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { Some("CodaProtoStateBody"@) }
//@end
//@impl ChProtocolState
    open spec fn chunk(&self) -> Chunk { none().plus(self.previous_state_hash.chunk()).plus(fld(hash_fp(Kind::Kimchi, Some("CodaProtoStateBody"@), packed(self.body.chunk())))) }
    open spec fn ok(&self) -> bool { self.previous_state_hash.ok() && self.body.ok() }
//@end
//@impl RoProtocolState
    open spec fn ro(&self) -> Ro { packed(self.chunk()) }
    open spec fn ro_ok(&self) -> bool { self.ok() }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { Some("CodaProtoState"@) }
//@end
//@impl ChCompressedPubKeyHashableWrapper
    open spec fn chunk(&self) -> Chunk { key(*self.0) }
    open spec fn ok(&self) -> bool { true }
//@end
//@fn NonSnark::digest
//@ret r
    ensures r@ == sha256(self.ledger_hash.0.0@.reverse() + self.aux_hash.0@ + self.pending_coinbase_aux.0@),
//@entry
    broadcast use vstd::seq_lib::group_seq_properties;
//@end
//@fn ByField::from
//@ret r
    requires b@.len() == 32,
    ensures r.0@ == b@,
//@end
//@fn FrField::from
//@ret r
    ensures r.0@ == fp_bytes(*i),
//@end
//@fn TryField::try_from
//@ret r
    ensures r is Ok <==> unle(i.0@) < p(), r is Ok ==> r->Ok_0 == fp(unle(i.0@)),
//@end
//@fn ByBaseHash::from
//@ret r
    requires b@.len() == 32,
    ensures r.0@ == b@,
//@end
//@fn FrBaseHash::from
//@ret r
    ensures r.0@ == fp_bytes(*i),
//@end
//@fn TryBaseHash::try_from
//@ret r
    ensures r is Ok <==> unle(i.0@) < p(), r is Ok ==> r->Ok_0 == fp(unle(i.0@)),
//@end
//@fn FrStateHash::from
//@ret r
    ensures r.0.0@ == fp_bytes(*i),
//@end
//@fn FrLedgerHash::from
//@ret r
    ensures r.0.0@ == fp_bytes(*i),
//@end
//@fn InProtocolStateLegacy::state_hash_fp
//@ret r
    requires self.ro_ok(),
    ensures r == hash_fp(Kind::Legacy, Some("CodaProtoState"@), self.ro()),
//@end
//@fn InProtocolStateLegacy::state_hash
//@ret r
    requires self.ro_ok(),
    ensures r.0.0@ == fp_bytes(hash_fp(Kind::Legacy, Some("CodaProtoState"@), self.ro())),
//@end
//@fn InProtocolState::state_hash_fp
//@ret r
    requires self.ok(),
    ensures r == hash_fp(Kind::Kimchi, Some("CodaProtoState"@), self.ro()),
//@end
//@fn InProtocolState::state_hash
//@ret r
    requires self.ok(),
    ensures r.0.0@ == fp_bytes(hash_fp(Kind::Kimchi, Some("CodaProtoState"@), self.ro())),
//@end
//@fn ChLength::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoLength::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChAccountNonce::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoAccountNonce::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChGlobalSlotNumber::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoGlobalSlotNumber::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChMinaIndex::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn ChAmount::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoAmount::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChBlockTime::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoBlockTime::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChTokenId::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoTokenId::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChSignedAmount::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn ChField::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn ChBaseHash::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoBaseHash::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChStateHash::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoStateHash::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChLedgerHash::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoLedgerHash::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChChainHash::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoChainHash::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChCoinBaseHash::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoCoinBaseHash::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChEpochSeed::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoEpochSeed::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChNonSnarkStagedLedgerHash::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoNonSnarkStagedLedgerHash::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChStagedLedgerHash::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoStagedLedgerHash::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChEpochLedger::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoEpochLedger::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChEpochData::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoEpochData::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChGlobalSlot::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoGlobalSlot::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChProtocolConstants::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoProtocolConstants::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn RoBlockchainStateLegacy::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChBodyReference::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn ChBlockchainState::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn ChBlockchainStateRegisters::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn ChBlockchainStateRegistersLocalState::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn ChVrfOutputTruncated::to_chunked_roinput
//@entry
    broadcast use ro_fits; broadcast use low_bits;
//@end
//@fn RoVrfOutputTruncated::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; broadcast use low_bits;
//@end
//@fn ChConsensusState::to_chunked_roinput
//@loop 0
    invariant vx_i0 <= vx_s0@.len(), vx_s0@ == self.sub_window_densities@, self.ok(), roi.view() == lens(vx_s0@.take(vx_i0 as int), none().plus(self.blockchain_length.chunk()).plus(self.epoch_count.chunk()).plus(self.min_window_density.chunk())), roi.view().fits(),
    decreases vx_s0@.len() - vx_i0
//@body 0
    proof { lens_step(vx_s0@, none().plus(self.blockchain_length.chunk()).plus(self.epoch_count.chunk()).plus(self.min_window_density.chunk()), vx_i0 as int); }
//@entry
    broadcast use ro_fits; broadcast use take_all;
//@end
//@fn RoConsensusState::to_roinput
//@loop 0
    invariant vx_i0 <= vx_s0@.len(), vx_s0@ == self.sub_window_densities@, self.ro_ok(), roi.view() == rlens(vx_s0@.take(vx_i0 as int), rnone().plus(self.blockchain_length.ro()).plus(self.epoch_count.ro()).plus(self.min_window_density.ro())),
    decreases vx_s0@.len() - vx_i0
//@body 0
    proof { rlens_step(vx_s0@, rnone().plus(self.blockchain_length.ro()).plus(self.epoch_count.ro()).plus(self.min_window_density.ro()), vx_i0 as int); }
//@entry
    broadcast use {rplus_fld, rplus_bits}; broadcast use take_all;
//@end
//@fn RoProtocolStateBodyLegacy::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn RoProtocolStateLegacy::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChProtocolStateBody::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoProtocolStateBody::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChProtocolState::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoProtocolState::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChCompressedPubKeyHashableWrapper::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@sub [ 0 ; 32 ] =>> vx_zeros ( )
//@sub numbers :: GlobalSlotNumber =>> GlobalSlotNumber
//@sub mina_hasher :: ROInput =>> ROInput
//@sub mina_hasher :: Hashable =>> Hashable
//@sub mina_hasher :: create_kimchi =>> create_kimchi
//@sub & self . 0 [ .. 31 ] =>> self . 0 . vx_prefix ( 31 )
//@sub . iter ( ) . rev ( ) . cloned ( ) . collect ( ) =>> . vx_rev ( )
//@sub BitVec :: with_capacity =>> Vec :: < bool > :: with_capacity
//@sub bytes [ .. Self :: max_length ( ) ] . copy_from_slice ( & self . 0 [ .. Self :: max_length ( ) ] ) =>> vx_copy_prefix ( & mut bytes , & self . 0 , Self :: max_length ( ) )
//@sub Fp :: read ( & bytes [ .. ] ) . unwrap ( ) =>> vx_fp_read ( & bytes )
//@sub self . try_into ( ) =>> Self :: try_from ( self )
//@sub o . 0 . copy_from_slice ( b ) =>> vx_copy_all ( & mut o . 0 , b )
//@sub Result < Self , Self :: Error > =>> core :: result :: Result < Fp , FieldHelpersError >
//@sub type Error = FieldHelpersError ; =>>
//@sub ( & f ) . into ( ) =>> VxInto :: < StateHash > :: vx_into ( & f )
//@sub impl TryFrom < & Field > for Fp =>> impl Field
//@sub impl From < & [ u8 ] > for Field =>> impl Field
//@sub fn from ( b : & [ u8 ] ) =>> pub fn from_bytes_slice ( b : & [ u8 ] )
//@sub impl TryFrom < & BaseHash > for Fp =>> impl BaseHash
//@sub impl From < & [ u8 ] > for BaseHash =>> impl BaseHash
//@sub fn from ( b : & [ u8 ] ) =>> pub fn from_bytes_slice ( b : & [ u8 ] )
//@sub impl From < & Fp > for Field =>> impl Field
//@sub impl From < & Fp > for BaseHash =>> impl BaseHash
//@sub impl From < & Fp > for StateHash =>> impl StateHash
//@sub impl From < & Fp > for LedgerHash =>> impl LedgerHash
//@sub fn from ( i : & Fp ) =>> pub fn from_fp ( i : & Fp )
//@sub fn try_from ( =>> pub fn try_from (
//@sub . into ( ) =>> . vx_into ( )
//@rw for_all
//@sub vx_nth ( =>> vx_at (
//@sub impl Default for TimedData =>> impl TimedData

//@emit crypto/src/hash/types.rs struct:Field
//@emit crypto/src/hash/types.rs struct:BaseHash
//@emit crypto/src/hash/types.rs struct:StateHash
//@emit crypto/src/hash/types.rs struct:LedgerHash
//@emit crypto/src/hash/types.rs struct:ChainHash
//@emit crypto/src/hash/types.rs struct:CoinBaseHash
//@emit crypto/src/hash/types.rs struct:EpochSeed
//@emit crypto/src/hash/types.rs struct:StagedLedgerHash
//@emit crypto/src/hash/types.rs struct:NonSnarkStagedLedgerHash
//@emit crypto/src/hash/types.rs impl:=implFrom<&[u8]>forField as=ByField
//@emit crypto/src/hash/types.rs impl:=implFrom<&Fp>forField as=FrField
//@emit crypto/src/hash/types.rs impl:=implTryFrom<&Field>forFp as=TryField
//@emit crypto/src/hash/types.rs impl:=implFrom<&[u8]>forBaseHash as=ByBaseHash
//@emit crypto/src/hash/types.rs impl:=implFrom<&Fp>forBaseHash as=FrBaseHash
//@emit crypto/src/hash/types.rs impl:=implTryFrom<&BaseHash>forFp as=TryBaseHash
//@emit crypto/src/hash/types.rs impl:=implFrom<&Fp>forStateHash as=FrStateHash
//@emit crypto/src/hash/types.rs impl:=implFrom<&Fp>forLedgerHash as=FrLedgerHash
//@emit crypto/src/hash/types.rs struct:AuxHash
//@emit crypto/src/hash/types.rs struct:PendingCoinbaseAuxHash
//@emit crypto/src/hash/types.rs impl:=implNonSnarkStagedLedgerHash as=NonSnark
//@emit crypto/src/hash/types.rs impl:=implToChunkedROInputforField as=ChField
//@emit crypto/src/hash/types.rs impl:=implToChunkedROInputforBaseHash as=ChBaseHash
//@emit crypto/src/hash/types.rs impl:=implHashableforBaseHash as=RoBaseHash
//@emit crypto/src/hash/types.rs impl:=implToChunkedROInputforStateHash as=ChStateHash
//@emit crypto/src/hash/types.rs impl:=implHashableforStateHash as=RoStateHash
//@emit crypto/src/hash/types.rs impl:=implToChunkedROInputforLedgerHash as=ChLedgerHash
//@emit crypto/src/hash/types.rs impl:=implHashableforLedgerHash as=RoLedgerHash
//@emit crypto/src/hash/types.rs impl:=implToChunkedROInputforChainHash as=ChChainHash
//@emit crypto/src/hash/types.rs impl:=implHashableforChainHash as=RoChainHash
//@emit crypto/src/hash/types.rs impl:=implToChunkedROInputforCoinBaseHash as=ChCoinBaseHash
//@emit crypto/src/hash/types.rs impl:=implHashableforCoinBaseHash as=RoCoinBaseHash
//@emit crypto/src/hash/types.rs impl:=implToChunkedROInputforEpochSeed as=ChEpochSeed
//@emit crypto/src/hash/types.rs impl:=implHashableforEpochSeed as=RoEpochSeed
//@emit crypto/src/hash/types.rs impl:=implToChunkedROInputforStagedLedgerHash as=ChStagedLedgerHash
//@emit crypto/src/hash/types.rs impl:=implHashableforStagedLedgerHash as=RoStagedLedgerHash
//@emit crypto/src/hash/types.rs impl:=implToChunkedROInputforNonSnarkStagedLedgerHash as=ChNonSnarkStagedLedgerHash
//@emit crypto/src/hash/types.rs impl:=implHashableforNonSnarkStagedLedgerHash as=RoNonSnarkStagedLedgerHash
//@emit base/src/numbers.rs struct:TokenId
//@emit base/src/numbers.rs struct:Length
//@emit base/src/numbers.rs struct:SignedAmount
//@emit base/src/numbers.rs struct:Amount
//@emit base/src/numbers.rs struct:AccountNonce
//@emit base/src/numbers.rs struct:GlobalSlotNumber
//@emit base/src/numbers.rs struct:MinaIndex
//@emit base/src/numbers.rs struct:BlockTime
//@emit base/src/numbers.rs impl:=implToChunkedROInputforTokenId as=ChTokenId
//@emit base/src/numbers.rs impl:=implHashableforTokenId as=RoTokenId
//@emit base/src/numbers.rs impl:=implToChunkedROInputforLength as=ChLength
//@emit base/src/numbers.rs impl:=implHashableforLength as=RoLength
//@emit base/src/numbers.rs impl:=implToChunkedROInputforSignedAmount as=ChSignedAmount
//@emit base/src/numbers.rs impl:=implToChunkedROInputforAmount as=ChAmount
//@emit base/src/numbers.rs impl:=implHashableforAmount as=RoAmount
//@emit base/src/numbers.rs impl:=implToChunkedROInputforAccountNonce as=ChAccountNonce
//@emit base/src/numbers.rs impl:=implHashableforAccountNonce as=RoAccountNonce
//@emit base/src/numbers.rs impl:=implToChunkedROInputforGlobalSlotNumber as=ChGlobalSlotNumber
//@emit base/src/numbers.rs impl:=implHashableforGlobalSlotNumber as=RoGlobalSlotNumber
//@emit base/src/numbers.rs impl:=implToChunkedROInputforMinaIndex as=ChMinaIndex
//@emit base/src/numbers.rs impl:=implToChunkedROInputforBlockTime as=ChBlockTime
//@emit base/src/numbers.rs impl:=implHashableforBlockTime as=RoBlockTime
//@emit base/src/epoch_data.rs struct:EpochLedger
//@emit base/src/epoch_data.rs struct:EpochData
//@emit base/src/epoch_data.rs impl:=implToChunkedROInputforEpochLedger as=ChEpochLedger
//@emit base/src/epoch_data.rs impl:=implHashableforEpochLedger as=RoEpochLedger
//@emit base/src/epoch_data.rs impl:=implToChunkedROInputforEpochData as=ChEpochData
//@emit base/src/epoch_data.rs impl:=implHashableforEpochData as=RoEpochData
//@emit base/src/global_slot.rs struct:GlobalSlot
//@emit base/src/global_slot.rs impl:=implToChunkedROInputforGlobalSlot as=ChGlobalSlot
//@emit base/src/global_slot.rs impl:=implHashableforGlobalSlot as=RoGlobalSlot
//@emit base/src/blockchain_state.rs struct:BlockchainStateLegacy
//@emit base/src/blockchain_state.rs struct:BlockchainState
//@emit base/src/blockchain_state.rs struct:BodyReference
//@emit base/src/blockchain_state.rs impl:=implHashableforBlockchainStateLegacy as=RoBlockchainStateLegacy
//@emit base/src/blockchain_state.rs impl:=implToChunkedROInputforBlockchainState as=ChBlockchainState
//@emit base/src/blockchain_state.rs impl:=implToChunkedROInputforBodyReference as=ChBodyReference
//@emit base/src/blockchain_state_registers.rs struct:BlockchainStateRegisters
//@emit base/src/blockchain_state_registers.rs struct:BlockchainStateRegistersLocalState
//@emit base/src/blockchain_state_registers.rs impl:=implToChunkedROInputforBlockchainStateRegisters as=ChBlockchainStateRegisters
//@emit base/src/blockchain_state_registers.rs impl:=implToChunkedROInputforBlockchainStateRegistersLocalState as=ChBlockchainStateRegistersLocalState
//@emit base/src/common.rs struct:CompressedPubKeyHashableWrapper
//@emit base/src/common.rs impl:=impl<'a>ToChunkedROInputforCompressedPubKeyHashableWrapper<'a> as=ChCompressedPubKeyHashableWrapper
//@emit base/src/consensus_state.rs struct:VrfOutputTruncated
//@emit base/src/consensus_state.rs struct:ConsensusState
//@emit base/src/consensus_state.rs impl:=implToChunkedROInputforVrfOutputTruncated as=ChVrfOutputTruncated
//@emit base/src/consensus_state.rs impl:=implHashableforVrfOutputTruncated as=RoVrfOutputTruncated
//@emit base/src/consensus_state.rs impl:=implToChunkedROInputforConsensusState as=ChConsensusState
//@emit base/src/consensus_state.rs impl:=implHashableforConsensusState as=RoConsensusState
//@emit base/src/protocol_state.rs struct:ProtocolConstants
//@emit base/src/protocol_state.rs struct:ProtocolStateLegacy
//@emit base/src/protocol_state.rs struct:ProtocolStateBodyLegacy
//@emit base/src/protocol_state.rs struct:ProtocolStateBody
//@emit base/src/protocol_state.rs struct:ProtocolState
//@emit base/src/protocol_state.rs impl:=implProtocolStateLegacy only=state_hash_fp,state_hash as=InProtocolStateLegacy
//@emit base/src/protocol_state.rs impl:=implProtocolState only=state_hash_fp,state_hash as=InProtocolState
//@emit base/src/protocol_state.rs impl:=implToChunkedROInputforProtocolConstants as=ChProtocolConstants
//@emit base/src/protocol_state.rs impl:=implHashableforProtocolConstants as=RoProtocolConstants
//@emit base/src/protocol_state.rs impl:=implHashableforProtocolStateLegacy as=RoProtocolStateLegacy
//@emit base/src/protocol_state.rs impl:=implHashableforProtocolStateBodyLegacy as=RoProtocolStateBodyLegacy
//@emit base/src/protocol_state.rs impl:=implToChunkedROInputforProtocolStateBody as=ChProtocolStateBody
//@emit base/src/protocol_state.rs impl:=implHashableforProtocolStateBody as=RoProtocolStateBody
//@emit base/src/protocol_state.rs impl:=implToChunkedROInputforProtocolState as=ChProtocolState
//@emit base/src/protocol_state.rs impl:=implHashableforProtocolState as=RoProtocolState
// ------------------------------------------------------------ an input determines its value
pub open spec fn same_sh(a: Chunk, b: Chunk) -> bool { a.shape() == b.shape() && same_widths(a.packed, b.packed) }
pub broadcast proof fn sh_plus(a: Chunk, b: Chunk, c: Chunk, d: Chunk) requires same_sh(a, c), same_sh(b, d) ensures #[trigger] same_sh(a.plus(b), c.plus(d)) {
    let (x, y) = (a.plus(b), c.plus(d)); assert(a.shape() == c.shape() && b.shape() == d.shape()); assert(a.packed.len() == c.packed.len() && b.packed.len() == d.packed.len() && a.fields.len() == c.fields.len() && b.fields.len() == d.fields.len());
    assert forall|i: int| 0 <= i < x.packed.len() implies (#[trigger] x.packed[i]).1 == y.packed[i].1 by { if i < a.packed.len() { assert(a.packed[i].1 == c.packed[i].1); } else { assert(b.packed[i - a.packed.len()].1 == d.packed[i - a.packed.len()].1); } } }
pub proof fn sh_none0() ensures same_sh(none(), none()) { }
pub broadcast proof fn sh_none() ensures #[trigger] same_sh(none(), none()) { }
pub broadcast proof fn sh_num(x: int, y: int, w: u32) ensures #[trigger] same_sh(num(x, w), num(y, w)) { }
pub broadcast proof fn sh_bit(x: bool, y: bool) ensures #[trigger] same_sh(bit(x), bit(y)) { }
pub broadcast proof fn sh_fld(x: Fp, y: Fp) ensures #[trigger] same_sh(fld(x), fld(y)) { }
pub broadcast proof fn sh_bits(x: Seq<bool>, y: Seq<bool>) requires x.len() == y.len() ensures #[trigger] same_sh(bits(x), bits(y)) { }
pub broadcast proof fn sh_key(x: CompressedPubKey, y: CompressedPubKey) ensures #[trigger] same_sh(key(x), key(y)) { broadcast use {sh_plus, sh_none, sh_bit, sh_fld}; }
pub broadcast group shapes { sh_plus, sh_none, sh_num, sh_bit, sh_fld, sh_bits, sh_key }
pub proof fn num_one(x: int, y: int, w: u32) requires num(x, w) == num(y, w), 0 <= x < p(), 0 <= y < p() ensures x == y { assert(num(x, w).packed[0] == num(y, w).packed[0]); fp_inj(x, y); }
pub proof fn bit_one(x: bool, y: bool) requires bit(x) == bit(y) ensures x == y { two_vals(); num_one(if x { 1 } else { 0 }, if y { 1 } else { 0 }, 1); }
pub proof fn fld_one(x: Fp, y: Fp) requires fld(x) == fld(y) ensures x == y { let (s, t) = (fld(x).fields, fld(y).fields); assert(s == seq![x] && t == seq![y]); assert(s[0] == x && t[0] == y); }
pub proof fn bits_one(x: Seq<bool>, y: Seq<bool>) requires bits(x) == bits(y), x.len() == y.len() ensures x == y { assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { two_vals(); assert(bits(x).packed[i] == bits(y).packed[i]); fp_inj(if x[i] { 1 } else { 0 }, if y[i] { 1 } else { 0 }); } assert(x =~= y); }
pub proof fn key_one(x: CompressedPubKey, y: CompressedPubKey) requires key(x) == key(y) ensures x == y { broadcast use shapes; plus_inj(none().plus(fld(x.x)), bit(x.is_odd), none().plus(fld(y.x)), bit(y.is_odd)); plus_inj(none(), fld(x.x), none(), fld(y.x)); fld_one(x.x, y.x); bit_one(x.is_odd, y.is_odd); }
pub proof fn le_inj(a: Seq<u8>, b: Seq<u8>) requires a.len() == b.len(), unle(a) == unle(b) ensures a == b decreases a.len() { if a.len() > 0 { assert(a[0] == b[0]) by { assert(unle(a) == a[0] as int + 256 * unle(a.skip(1)) && unle(b) == b[0] as int + 256 * unle(b.skip(1))); } le_inj(a.skip(1), b.skip(1)); assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1)); } else { assert(a =~= b); } }
// the legacy input
pub proof fn rplus_inj(a: Ro, b: Ro, c: Ro, d: Ro) requires a.plus(b) == c.plus(d), b.shape() == d.shape() ensures a == c, b == d {
    let (x, y) = (a.plus(b), c.plus(d)); let (n, m) = (a.fields.len() as int, a.bits.len() as int);
    assert(b.fields.len() == d.fields.len() && b.bits.len() == d.bits.len()); assert(x.fields.len() == a.fields.len() + b.fields.len() && y.fields.len() == c.fields.len() + d.fields.len() && x.bits.len() == a.bits.len() + b.bits.len() && y.bits.len() == c.bits.len() + d.bits.len());
    assert(a.fields =~= x.fields.take(n)); assert(c.fields =~= y.fields.take(n)); assert(b.fields =~= x.fields.skip(n)); assert(d.fields =~= y.fields.skip(n));
    assert(a.bits =~= x.bits.take(m)); assert(c.bits =~= y.bits.take(m)); assert(b.bits =~= x.bits.skip(m)); assert(d.bits =~= y.bits.skip(m)); }
pub open spec fn rsame_sh(a: Ro, b: Ro) -> bool { a.shape() == b.shape() }
pub broadcast proof fn rsh_plus(a: Ro, b: Ro, c: Ro, d: Ro) requires rsame_sh(a, c), rsame_sh(b, d) ensures #[trigger] rsame_sh(a.plus(b), c.plus(d)) { assert(a.shape() == c.shape() && b.shape() == d.shape()); assert(a.fields.len() == c.fields.len() && a.bits.len() == c.bits.len() && b.fields.len() == d.fields.len() && b.bits.len() == d.bits.len()); }
pub proof fn rsh_none0() ensures rsame_sh(rnone(), rnone()) { }
pub broadcast proof fn rsh_none() ensures #[trigger] rsame_sh(rnone(), rnone()) { }
pub broadcast proof fn rsh_num(x: int, y: int, w: nat) ensures #[trigger] rsame_sh(rnum(x, w), rnum(y, w)) { }
pub broadcast proof fn rsh_bit(x: bool, y: bool) ensures #[trigger] rsame_sh(rbit(x), rbit(y)) { }
pub broadcast proof fn rsh_fld(x: Fp, y: Fp) ensures #[trigger] rsame_sh(rfld(x), rfld(y)) { }
pub broadcast proof fn rsh_bits(x: Seq<bool>, y: Seq<bool>) requires x.len() == y.len() ensures #[trigger] rsame_sh(rbits(x), rbits(y)) { }
pub broadcast group rshapes { rsh_plus, rsh_none, rsh_num, rsh_bit, rsh_fld, rsh_bits }
pub proof fn int_bits_val(n: int, k: nat) requires 0 <= n < two(k) ensures bits_int(int_bits(n, k)) == n decreases k {
    if k > 0 { let s = int_bits(n, k); let t = int_bits(n / 2, (k - 1) as nat); assert(two(0) == 1);
        assert forall|i: int| 0 <= i < t.len() implies s.skip(1)[i] == t[i] by { two_pos(i as nat); assert(two((i + 1) as nat) == 2 * two(i as nat)); vstd::arithmetic::div_mod::lemma_div_denominator(n, 2, two(i as nat)); }
        assert(s.skip(1) =~= t); int_bits_val(n / 2, (k - 1) as nat); assert(s[0] == ((n / 1) % 2 == 1)); assert(n == 2 * (n / 2) + n % 2); } }
pub proof fn rnum_one(x: int, y: int, w: nat) requires rnum(x, w) == rnum(y, w), 0 <= x < two(w), 0 <= y < two(w) ensures x == y { int_bits_val(x, w); int_bits_val(y, w); }
pub proof fn rbit_one(x: bool, y: bool) requires rbit(x) == rbit(y) ensures x == y { let (s, t) = (rbit(x).bits, rbit(y).bits); assert(s == seq![x] && t == seq![y]); assert(s[0] == x && t[0] == y); }
pub proof fn rfld_one(x: Fp, y: Fp) requires rfld(x) == rfld(y) ensures x == y { let (s, t) = (rfld(x).fields, rfld(y).fields); assert(s == seq![x] && t == seq![y]); assert(s[0] == x && t[0] == y); }

pub open spec fn len_length(a: Length, b: Length) -> bool { true }
pub open spec fn same_length(a: Length, b: Length) -> bool { a.0 == b.0 }
pub proof fn sh_length(a: Length, b: Length) requires len_length(a, b) ensures same_sh(a.chunk(), b.chunk()) { sh_none0();  sh_num(a.0 as int, b.0 as int, 32); sh_plus(none(), num(a.0 as int, 32), none(), num(b.0 as int, 32)); }
pub proof fn inj_length(a: Length, b: Length) requires a.ok(), b.ok(), len_length(a, b), a.chunk() == b.chunk() ensures same_length(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); sh_none0();  sh_num(a.0 as int, b.0 as int, 32); sh_plus(none(), num(a.0 as int, 32), none(), num(b.0 as int, 32));
    plus_inj(none(), num(a.0 as int, 32), none(), num(b.0 as int, 32));
    num_one(a.0 as int, b.0 as int, 32);
    
}
pub open spec fn rlen_length(a: Length, b: Length) -> bool { true }
pub proof fn rsh_length(a: Length, b: Length) requires rlen_length(a, b) ensures rsame_sh(a.ro(), b.ro()) { rsh_none0();  rsh_num(a.0 as int, b.0 as int, 32); rsh_plus(rnone(), rnum(a.0 as int, 32), rnone(), rnum(b.0 as int, 32)); }
pub proof fn rinj_length(a: Length, b: Length) requires a.ro_ok(), b.ro_ok(), rlen_length(a, b), a.ro() == b.ro() ensures same_length(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); rsh_none0();  rsh_num(a.0 as int, b.0 as int, 32); rsh_plus(rnone(), rnum(a.0 as int, 32), rnone(), rnum(b.0 as int, 32));
    rplus_inj(rnone(), rnum(a.0 as int, 32), rnone(), rnum(b.0 as int, 32));
    rnum_one(a.0 as int, b.0 as int, 32);
    
}
pub open spec fn len_accountnonce(a: AccountNonce, b: AccountNonce) -> bool { true }
pub open spec fn same_accountnonce(a: AccountNonce, b: AccountNonce) -> bool { a.0 == b.0 }
pub proof fn sh_accountnonce(a: AccountNonce, b: AccountNonce) requires len_accountnonce(a, b) ensures same_sh(a.chunk(), b.chunk()) { sh_none0();  sh_num(a.0 as int, b.0 as int, 32); sh_plus(none(), num(a.0 as int, 32), none(), num(b.0 as int, 32)); }
pub proof fn inj_accountnonce(a: AccountNonce, b: AccountNonce) requires a.ok(), b.ok(), len_accountnonce(a, b), a.chunk() == b.chunk() ensures same_accountnonce(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); sh_none0();  sh_num(a.0 as int, b.0 as int, 32); sh_plus(none(), num(a.0 as int, 32), none(), num(b.0 as int, 32));
    plus_inj(none(), num(a.0 as int, 32), none(), num(b.0 as int, 32));
    num_one(a.0 as int, b.0 as int, 32);
    
}
pub open spec fn rlen_accountnonce(a: AccountNonce, b: AccountNonce) -> bool { true }
pub proof fn rsh_accountnonce(a: AccountNonce, b: AccountNonce) requires rlen_accountnonce(a, b) ensures rsame_sh(a.ro(), b.ro()) { rsh_none0();  rsh_num(a.0 as int, b.0 as int, 32); rsh_plus(rnone(), rnum(a.0 as int, 32), rnone(), rnum(b.0 as int, 32)); }
pub proof fn rinj_accountnonce(a: AccountNonce, b: AccountNonce) requires a.ro_ok(), b.ro_ok(), rlen_accountnonce(a, b), a.ro() == b.ro() ensures same_accountnonce(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); rsh_none0();  rsh_num(a.0 as int, b.0 as int, 32); rsh_plus(rnone(), rnum(a.0 as int, 32), rnone(), rnum(b.0 as int, 32));
    rplus_inj(rnone(), rnum(a.0 as int, 32), rnone(), rnum(b.0 as int, 32));
    rnum_one(a.0 as int, b.0 as int, 32);
    
}
pub open spec fn len_globalslotnumber(a: GlobalSlotNumber, b: GlobalSlotNumber) -> bool { true }
pub open spec fn same_globalslotnumber(a: GlobalSlotNumber, b: GlobalSlotNumber) -> bool { a.0 == b.0 }
pub proof fn sh_globalslotnumber(a: GlobalSlotNumber, b: GlobalSlotNumber) requires len_globalslotnumber(a, b) ensures same_sh(a.chunk(), b.chunk()) { sh_none0();  sh_num(a.0 as int, b.0 as int, 32); sh_plus(none(), num(a.0 as int, 32), none(), num(b.0 as int, 32)); }
pub proof fn inj_globalslotnumber(a: GlobalSlotNumber, b: GlobalSlotNumber) requires a.ok(), b.ok(), len_globalslotnumber(a, b), a.chunk() == b.chunk() ensures same_globalslotnumber(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); sh_none0();  sh_num(a.0 as int, b.0 as int, 32); sh_plus(none(), num(a.0 as int, 32), none(), num(b.0 as int, 32));
    plus_inj(none(), num(a.0 as int, 32), none(), num(b.0 as int, 32));
    num_one(a.0 as int, b.0 as int, 32);
    
}
pub open spec fn rlen_globalslotnumber(a: GlobalSlotNumber, b: GlobalSlotNumber) -> bool { true }
pub proof fn rsh_globalslotnumber(a: GlobalSlotNumber, b: GlobalSlotNumber) requires rlen_globalslotnumber(a, b) ensures rsame_sh(a.ro(), b.ro()) { rsh_none0();  rsh_num(a.0 as int, b.0 as int, 32); rsh_plus(rnone(), rnum(a.0 as int, 32), rnone(), rnum(b.0 as int, 32)); }
pub proof fn rinj_globalslotnumber(a: GlobalSlotNumber, b: GlobalSlotNumber) requires a.ro_ok(), b.ro_ok(), rlen_globalslotnumber(a, b), a.ro() == b.ro() ensures same_globalslotnumber(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); rsh_none0();  rsh_num(a.0 as int, b.0 as int, 32); rsh_plus(rnone(), rnum(a.0 as int, 32), rnone(), rnum(b.0 as int, 32));
    rplus_inj(rnone(), rnum(a.0 as int, 32), rnone(), rnum(b.0 as int, 32));
    rnum_one(a.0 as int, b.0 as int, 32);
    
}
pub open spec fn len_amount(a: Amount, b: Amount) -> bool { true }
pub open spec fn same_amount(a: Amount, b: Amount) -> bool { a.0 == b.0 }
pub proof fn sh_amount(a: Amount, b: Amount) requires len_amount(a, b) ensures same_sh(a.chunk(), b.chunk()) { sh_none0();  sh_num(a.0 as int, b.0 as int, 64); sh_plus(none(), num(a.0 as int, 64), none(), num(b.0 as int, 64)); }
pub proof fn inj_amount(a: Amount, b: Amount) requires a.ok(), b.ok(), len_amount(a, b), a.chunk() == b.chunk() ensures same_amount(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); sh_none0();  sh_num(a.0 as int, b.0 as int, 64); sh_plus(none(), num(a.0 as int, 64), none(), num(b.0 as int, 64));
    plus_inj(none(), num(a.0 as int, 64), none(), num(b.0 as int, 64));
    num_one(a.0 as int, b.0 as int, 64);
    
}
pub open spec fn rlen_amount(a: Amount, b: Amount) -> bool { true }
pub proof fn rsh_amount(a: Amount, b: Amount) requires rlen_amount(a, b) ensures rsame_sh(a.ro(), b.ro()) { rsh_none0();  rsh_num(a.0 as int, b.0 as int, 64); rsh_plus(rnone(), rnum(a.0 as int, 64), rnone(), rnum(b.0 as int, 64)); }
pub proof fn rinj_amount(a: Amount, b: Amount) requires a.ro_ok(), b.ro_ok(), rlen_amount(a, b), a.ro() == b.ro() ensures same_amount(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); rsh_none0();  rsh_num(a.0 as int, b.0 as int, 64); rsh_plus(rnone(), rnum(a.0 as int, 64), rnone(), rnum(b.0 as int, 64));
    rplus_inj(rnone(), rnum(a.0 as int, 64), rnone(), rnum(b.0 as int, 64));
    rnum_one(a.0 as int, b.0 as int, 64);
    
}
pub open spec fn len_blocktime(a: BlockTime, b: BlockTime) -> bool { true }
pub open spec fn same_blocktime(a: BlockTime, b: BlockTime) -> bool { a.0 == b.0 }
pub proof fn sh_blocktime(a: BlockTime, b: BlockTime) requires len_blocktime(a, b) ensures same_sh(a.chunk(), b.chunk()) { sh_none0();  sh_num(a.0 as int, b.0 as int, 64); sh_plus(none(), num(a.0 as int, 64), none(), num(b.0 as int, 64)); }
pub proof fn inj_blocktime(a: BlockTime, b: BlockTime) requires a.ok(), b.ok(), len_blocktime(a, b), a.chunk() == b.chunk() ensures same_blocktime(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); sh_none0();  sh_num(a.0 as int, b.0 as int, 64); sh_plus(none(), num(a.0 as int, 64), none(), num(b.0 as int, 64));
    plus_inj(none(), num(a.0 as int, 64), none(), num(b.0 as int, 64));
    num_one(a.0 as int, b.0 as int, 64);
    
}
pub open spec fn rlen_blocktime(a: BlockTime, b: BlockTime) -> bool { true }
pub proof fn rsh_blocktime(a: BlockTime, b: BlockTime) requires rlen_blocktime(a, b) ensures rsame_sh(a.ro(), b.ro()) { rsh_none0();  rsh_num(a.0 as int, b.0 as int, 64); rsh_plus(rnone(), rnum(a.0 as int, 64), rnone(), rnum(b.0 as int, 64)); }
pub proof fn rinj_blocktime(a: BlockTime, b: BlockTime) requires a.ro_ok(), b.ro_ok(), rlen_blocktime(a, b), a.ro() == b.ro() ensures same_blocktime(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); rsh_none0();  rsh_num(a.0 as int, b.0 as int, 64); rsh_plus(rnone(), rnum(a.0 as int, 64), rnone(), rnum(b.0 as int, 64));
    rplus_inj(rnone(), rnum(a.0 as int, 64), rnone(), rnum(b.0 as int, 64));
    rnum_one(a.0 as int, b.0 as int, 64);
    
}
pub open spec fn len_minaindex(a: MinaIndex, b: MinaIndex) -> bool { true }
pub open spec fn same_minaindex(a: MinaIndex, b: MinaIndex) -> bool { a.0 == b.0 }
pub proof fn sh_minaindex(a: MinaIndex, b: MinaIndex) requires len_minaindex(a, b) ensures same_sh(a.chunk(), b.chunk()) { sh_none0();  sh_num(a.0 as int, b.0 as int, 32); sh_plus(none(), num(a.0 as int, 32), none(), num(b.0 as int, 32)); }
pub proof fn inj_minaindex(a: MinaIndex, b: MinaIndex) requires a.ok(), b.ok(), len_minaindex(a, b), a.chunk() == b.chunk() ensures same_minaindex(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); sh_none0();  sh_num(a.0 as int, b.0 as int, 32); sh_plus(none(), num(a.0 as int, 32), none(), num(b.0 as int, 32));
    plus_inj(none(), num(a.0 as int, 32), none(), num(b.0 as int, 32));
    num_one(a.0 as int, b.0 as int, 32);
    
}
pub open spec fn rlen_tokenid(a: TokenId, b: TokenId) -> bool { true }
pub open spec fn same_tokenid(a: TokenId, b: TokenId) -> bool { a.0 == b.0 }
pub proof fn rsh_tokenid(a: TokenId, b: TokenId) requires rlen_tokenid(a, b) ensures rsame_sh(a.ro(), b.ro()) { rsh_none0();  rsh_num(a.0 as int, b.0 as int, 64); rsh_plus(rnone(), rnum(a.0 as int, 64), rnone(), rnum(b.0 as int, 64)); }
pub proof fn rinj_tokenid(a: TokenId, b: TokenId) requires a.ro_ok(), b.ro_ok(), rlen_tokenid(a, b), a.ro() == b.ro() ensures same_tokenid(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); rsh_none0();  rsh_num(a.0 as int, b.0 as int, 64); rsh_plus(rnone(), rnum(a.0 as int, 64), rnone(), rnum(b.0 as int, 64));
    rplus_inj(rnone(), rnum(a.0 as int, 64), rnone(), rnum(b.0 as int, 64));
    rnum_one(a.0 as int, b.0 as int, 64);
    
}
pub open spec fn len_tokenid(a: TokenId, b: TokenId) -> bool { true }
pub proof fn sh_tokenid(a: TokenId, b: TokenId) ensures same_sh(a.chunk(), b.chunk()) { broadcast use shapes; }
pub proof fn inj_tokenid(a: TokenId, b: TokenId) requires a.chunk() == b.chunk() ensures same_tokenid(a, b) { broadcast use shapes; two_vals(); two_mono(64, 254); plus_inj(none(), fld(fp(a.0 as int)), none(), fld(fp(b.0 as int))); fld_one(fp(a.0 as int), fp(b.0 as int)); fp_inj(a.0 as int, b.0 as int); }
pub open spec fn len_signedamount(a: SignedAmount, b: SignedAmount) -> bool { true }
pub open spec fn same_signedamount(a: SignedAmount, b: SignedAmount) -> bool { a.0 == b.0 && a.1 == b.1 }
pub proof fn sh_signedamount(a: SignedAmount, b: SignedAmount) requires len_signedamount(a, b) ensures same_sh(a.chunk(), b.chunk()) { sh_none0();  sh_num(a.0 as int, b.0 as int, 64); sh_plus(none(), num(a.0 as int, 64), none(), num(b.0 as int, 64)); sh_bit(a.1, b.1); sh_plus(none().plus(num(a.0 as int, 64)), bit(a.1), none().plus(num(b.0 as int, 64)), bit(b.1)); }
pub proof fn inj_signedamount(a: SignedAmount, b: SignedAmount) requires a.ok(), b.ok(), len_signedamount(a, b), a.chunk() == b.chunk() ensures same_signedamount(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); sh_none0();  sh_num(a.0 as int, b.0 as int, 64); sh_plus(none(), num(a.0 as int, 64), none(), num(b.0 as int, 64)); sh_bit(a.1, b.1); sh_plus(none().plus(num(a.0 as int, 64)), bit(a.1), none().plus(num(b.0 as int, 64)), bit(b.1));
    plus_inj(none().plus(num(a.0 as int, 64)), bit(a.1), none().plus(num(b.0 as int, 64)), bit(b.1));
    plus_inj(none(), num(a.0 as int, 64), none(), num(b.0 as int, 64));
    num_one(a.0 as int, b.0 as int, 64);
    bit_one(a.1, b.1);
    
}
pub open spec fn len_field(a: Field, b: Field) -> bool { true }
pub open spec fn same_field(a: Field, b: Field) -> bool { a.0@ == b.0@ }
pub proof fn sh_field(a: Field, b: Field) requires len_field(a, b) ensures same_sh(a.chunk(), b.chunk()) { sh_none0();  sh_fld(fp(unle(a.0@)), fp(unle(b.0@))); sh_plus(none(), fld(fp(unle(a.0@))), none(), fld(fp(unle(b.0@)))); }
pub proof fn inj_field(a: Field, b: Field) requires a.ok(), b.ok(), len_field(a, b), a.chunk() == b.chunk() ensures same_field(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); sh_none0();  sh_fld(fp(unle(a.0@)), fp(unle(b.0@))); sh_plus(none(), fld(fp(unle(a.0@))), none(), fld(fp(unle(b.0@))));
    plus_inj(none(), fld(fp(unle(a.0@))), none(), fld(fp(unle(b.0@))));
    fld_one(fp(unle(a.0@)), fp(unle(b.0@))); bytes_num(a.0@); bytes_num(b.0@); fp_inj(unle(a.0@), unle(b.0@)); le_inj(a.0@, b.0@);
    
}
pub open spec fn len_basehash(a: BaseHash, b: BaseHash) -> bool { true }
pub open spec fn same_basehash(a: BaseHash, b: BaseHash) -> bool { a.0@ == b.0@ }
pub proof fn sh_basehash(a: BaseHash, b: BaseHash) requires len_basehash(a, b) ensures same_sh(a.chunk(), b.chunk()) { sh_none0();  sh_fld(fp(unle(a.0@)), fp(unle(b.0@))); sh_plus(none(), fld(fp(unle(a.0@))), none(), fld(fp(unle(b.0@)))); }
pub proof fn inj_basehash(a: BaseHash, b: BaseHash) requires a.ok(), b.ok(), len_basehash(a, b), a.chunk() == b.chunk() ensures same_basehash(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); sh_none0();  sh_fld(fp(unle(a.0@)), fp(unle(b.0@))); sh_plus(none(), fld(fp(unle(a.0@))), none(), fld(fp(unle(b.0@))));
    plus_inj(none(), fld(fp(unle(a.0@))), none(), fld(fp(unle(b.0@))));
    fld_one(fp(unle(a.0@)), fp(unle(b.0@))); bytes_num(a.0@); bytes_num(b.0@); fp_inj(unle(a.0@), unle(b.0@)); le_inj(a.0@, b.0@);
    
}
pub open spec fn rlen_basehash(a: BaseHash, b: BaseHash) -> bool { true }
pub proof fn rsh_basehash(a: BaseHash, b: BaseHash) requires rlen_basehash(a, b) ensures rsame_sh(a.ro(), b.ro()) { rsh_none0();  rsh_fld(fp(unle(a.0@)), fp(unle(b.0@))); rsh_plus(rnone(), rfld(fp(unle(a.0@))), rnone(), rfld(fp(unle(b.0@)))); }
pub proof fn rinj_basehash(a: BaseHash, b: BaseHash) requires a.ro_ok(), b.ro_ok(), rlen_basehash(a, b), a.ro() == b.ro() ensures same_basehash(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); rsh_none0();  rsh_fld(fp(unle(a.0@)), fp(unle(b.0@))); rsh_plus(rnone(), rfld(fp(unle(a.0@))), rnone(), rfld(fp(unle(b.0@))));
    rplus_inj(rnone(), rfld(fp(unle(a.0@))), rnone(), rfld(fp(unle(b.0@))));
    rfld_one(fp(unle(a.0@)), fp(unle(b.0@))); bytes_num(a.0@); bytes_num(b.0@); fp_inj(unle(a.0@), unle(b.0@)); le_inj(a.0@, b.0@);
    
}
pub open spec fn len_statehash(a: StateHash, b: StateHash) -> bool { true } pub open spec fn rlen_statehash(a: StateHash, b: StateHash) -> bool { true } pub open spec fn same_statehash(a: StateHash, b: StateHash) -> bool { same_basehash(a.0, b.0) }
pub proof fn sh_statehash(a: StateHash, b: StateHash) ensures same_sh(a.chunk(), b.chunk()) { sh_basehash(a.0, b.0); }
pub proof fn inj_statehash(a: StateHash, b: StateHash) requires a.ok(), b.ok(), a.chunk() == b.chunk() ensures same_statehash(a, b) { inj_basehash(a.0, b.0); }
pub proof fn rsh_statehash(a: StateHash, b: StateHash) ensures rsame_sh(a.ro(), b.ro()) { rsh_basehash(a.0, b.0); broadcast use rshapes; assert(rsame_sh(rnone().plus(a.0.ro()), rnone().plus(b.0.ro()))); }
pub proof fn rinj_statehash(a: StateHash, b: StateHash) requires a.ro_ok(), b.ro_ok(), a.ro() == b.ro() ensures same_statehash(a, b) { rsh_basehash(a.0, b.0); rplus_inj(rnone(), a.0.ro(), rnone(), b.0.ro()); rinj_basehash(a.0, b.0); }
pub open spec fn len_ledgerhash(a: LedgerHash, b: LedgerHash) -> bool { true } pub open spec fn rlen_ledgerhash(a: LedgerHash, b: LedgerHash) -> bool { true } pub open spec fn same_ledgerhash(a: LedgerHash, b: LedgerHash) -> bool { same_basehash(a.0, b.0) }
pub proof fn sh_ledgerhash(a: LedgerHash, b: LedgerHash) ensures same_sh(a.chunk(), b.chunk()) { sh_basehash(a.0, b.0); }
pub proof fn inj_ledgerhash(a: LedgerHash, b: LedgerHash) requires a.ok(), b.ok(), a.chunk() == b.chunk() ensures same_ledgerhash(a, b) { inj_basehash(a.0, b.0); }
pub proof fn rsh_ledgerhash(a: LedgerHash, b: LedgerHash) ensures rsame_sh(a.ro(), b.ro()) { rsh_basehash(a.0, b.0); broadcast use rshapes; assert(rsame_sh(rnone().plus(a.0.ro()), rnone().plus(b.0.ro()))); }
pub proof fn rinj_ledgerhash(a: LedgerHash, b: LedgerHash) requires a.ro_ok(), b.ro_ok(), a.ro() == b.ro() ensures same_ledgerhash(a, b) { rsh_basehash(a.0, b.0); rplus_inj(rnone(), a.0.ro(), rnone(), b.0.ro()); rinj_basehash(a.0, b.0); }
pub open spec fn len_chainhash(a: ChainHash, b: ChainHash) -> bool { true } pub open spec fn rlen_chainhash(a: ChainHash, b: ChainHash) -> bool { true } pub open spec fn same_chainhash(a: ChainHash, b: ChainHash) -> bool { same_basehash(a.0, b.0) }
pub proof fn sh_chainhash(a: ChainHash, b: ChainHash) ensures same_sh(a.chunk(), b.chunk()) { sh_basehash(a.0, b.0); }
pub proof fn inj_chainhash(a: ChainHash, b: ChainHash) requires a.ok(), b.ok(), a.chunk() == b.chunk() ensures same_chainhash(a, b) { inj_basehash(a.0, b.0); }
pub proof fn rsh_chainhash(a: ChainHash, b: ChainHash) ensures rsame_sh(a.ro(), b.ro()) { rsh_basehash(a.0, b.0); broadcast use rshapes; assert(rsame_sh(rnone().plus(a.0.ro()), rnone().plus(b.0.ro()))); }
pub proof fn rinj_chainhash(a: ChainHash, b: ChainHash) requires a.ro_ok(), b.ro_ok(), a.ro() == b.ro() ensures same_chainhash(a, b) { rsh_basehash(a.0, b.0); rplus_inj(rnone(), a.0.ro(), rnone(), b.0.ro()); rinj_basehash(a.0, b.0); }
pub open spec fn len_coinbasehash(a: CoinBaseHash, b: CoinBaseHash) -> bool { true } pub open spec fn rlen_coinbasehash(a: CoinBaseHash, b: CoinBaseHash) -> bool { true } pub open spec fn same_coinbasehash(a: CoinBaseHash, b: CoinBaseHash) -> bool { same_basehash(a.0, b.0) }
pub proof fn sh_coinbasehash(a: CoinBaseHash, b: CoinBaseHash) ensures same_sh(a.chunk(), b.chunk()) { sh_basehash(a.0, b.0); }
pub proof fn inj_coinbasehash(a: CoinBaseHash, b: CoinBaseHash) requires a.ok(), b.ok(), a.chunk() == b.chunk() ensures same_coinbasehash(a, b) { inj_basehash(a.0, b.0); }
pub proof fn rsh_coinbasehash(a: CoinBaseHash, b: CoinBaseHash) ensures rsame_sh(a.ro(), b.ro()) { rsh_basehash(a.0, b.0); broadcast use rshapes; assert(rsame_sh(rnone().plus(a.0.ro()), rnone().plus(b.0.ro()))); }
pub proof fn rinj_coinbasehash(a: CoinBaseHash, b: CoinBaseHash) requires a.ro_ok(), b.ro_ok(), a.ro() == b.ro() ensures same_coinbasehash(a, b) { rsh_basehash(a.0, b.0); rplus_inj(rnone(), a.0.ro(), rnone(), b.0.ro()); rinj_basehash(a.0, b.0); }
pub open spec fn len_epochseed(a: EpochSeed, b: EpochSeed) -> bool { true } pub open spec fn rlen_epochseed(a: EpochSeed, b: EpochSeed) -> bool { true } pub open spec fn same_epochseed(a: EpochSeed, b: EpochSeed) -> bool { same_basehash(a.0, b.0) }
pub proof fn sh_epochseed(a: EpochSeed, b: EpochSeed) ensures same_sh(a.chunk(), b.chunk()) { sh_basehash(a.0, b.0); }
pub proof fn inj_epochseed(a: EpochSeed, b: EpochSeed) requires a.ok(), b.ok(), a.chunk() == b.chunk() ensures same_epochseed(a, b) { inj_basehash(a.0, b.0); }
pub proof fn rsh_epochseed(a: EpochSeed, b: EpochSeed) ensures rsame_sh(a.ro(), b.ro()) { rsh_basehash(a.0, b.0); broadcast use rshapes; assert(rsame_sh(rnone().plus(a.0.ro()), rnone().plus(b.0.ro()))); }
pub proof fn rinj_epochseed(a: EpochSeed, b: EpochSeed) requires a.ro_ok(), b.ro_ok(), a.ro() == b.ro() ensures same_epochseed(a, b) { rsh_basehash(a.0, b.0); rplus_inj(rnone(), a.0.ro(), rnone(), b.0.ro()); rinj_basehash(a.0, b.0); }
/// the bytes the staged ledger digest is taken over
pub open spec fn digest_of(x: NonSnarkStagedLedgerHash) -> Seq<u8> { sha256(x.ledger_hash.0.0@.reverse() + x.aux_hash.0@ + x.pending_coinbase_aux.0@) }
pub open spec fn same_nonsnarkstagedledgerhash(a: NonSnarkStagedLedgerHash, b: NonSnarkStagedLedgerHash) -> bool { digest_of(a) == digest_of(b) }
pub open spec fn len_nonsnarkstagedledgerhash(a: NonSnarkStagedLedgerHash, b: NonSnarkStagedLedgerHash) -> bool { true }
pub open spec fn rlen_nonsnarkstagedledgerhash(a: NonSnarkStagedLedgerHash, b: NonSnarkStagedLedgerHash) -> bool { true }
pub proof fn sh_nonsnarkstagedledgerhash(a: NonSnarkStagedLedgerHash, b: NonSnarkStagedLedgerHash) ensures same_sh(a.chunk(), b.chunk()) { broadcast use shapes; sha_lens(a, b); }
pub proof fn rsh_nonsnarkstagedledgerhash(a: NonSnarkStagedLedgerHash, b: NonSnarkStagedLedgerHash) ensures rsame_sh(a.ro(), b.ro()) { broadcast use rshapes; sha_lens(a, b); }
pub proof fn sha_lens(a: NonSnarkStagedLedgerHash, b: NonSnarkStagedLedgerHash) ensures bytes_bits(digest_of(a)).len() == 256, bytes_bits(digest_of(b)).len() == 256 { sha_len(a.ledger_hash.0.0@.reverse() + a.aux_hash.0@ + a.pending_coinbase_aux.0@); sha_len(b.ledger_hash.0.0@.reverse() + b.aux_hash.0@ + b.pending_coinbase_aux.0@); bytes_int(digest_of(a)); bytes_int(digest_of(b)); }
pub proof fn inj_nonsnarkstagedledgerhash(a: NonSnarkStagedLedgerHash, b: NonSnarkStagedLedgerHash) requires a.chunk() == b.chunk() ensures digest_of(a) == digest_of(b) { broadcast use shapes; sha_lens(a, b); let (x, y) = (bytes_bits(digest_of(a)), bytes_bits(digest_of(b))); plus_inj(none(), bits(x), none(), bits(y)); bits_one(x, y); bits_inj(digest_of(a), digest_of(b)); }
pub proof fn rinj_nonsnarkstagedledgerhash(a: NonSnarkStagedLedgerHash, b: NonSnarkStagedLedgerHash) requires a.ro() == b.ro() ensures digest_of(a) == digest_of(b) { broadcast use rshapes; sha_lens(a, b); let (x, y) = (bytes_bits(digest_of(a)), bytes_bits(digest_of(b))); rplus_inj(rnone(), rbits(x), rnone(), rbits(y)); bits_inj(digest_of(a), digest_of(b)); }
pub open spec fn len_stagedledgerhash(a: StagedLedgerHash, b: StagedLedgerHash) -> bool { true && len_nonsnarkstagedledgerhash(a.non_snark, b.non_snark) && len_coinbasehash(a.pending_coinbase_hash, b.pending_coinbase_hash) }
pub open spec fn same_stagedledgerhash(a: StagedLedgerHash, b: StagedLedgerHash) -> bool { same_nonsnarkstagedledgerhash(a.non_snark, b.non_snark) && same_coinbasehash(a.pending_coinbase_hash, b.pending_coinbase_hash) }
pub proof fn sh_stagedledgerhash(a: StagedLedgerHash, b: StagedLedgerHash) requires len_stagedledgerhash(a, b) ensures same_sh(a.chunk(), b.chunk()) { sh_none0();  sh_nonsnarkstagedledgerhash(a.non_snark, b.non_snark); sh_plus(none(), a.non_snark.chunk(), none(), b.non_snark.chunk()); sh_coinbasehash(a.pending_coinbase_hash, b.pending_coinbase_hash); sh_plus(none().plus(a.non_snark.chunk()), a.pending_coinbase_hash.chunk(), none().plus(b.non_snark.chunk()), b.pending_coinbase_hash.chunk()); }
pub proof fn inj_stagedledgerhash(a: StagedLedgerHash, b: StagedLedgerHash) requires a.ok(), b.ok(), len_stagedledgerhash(a, b), a.chunk() == b.chunk() ensures same_stagedledgerhash(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); sh_none0();  sh_nonsnarkstagedledgerhash(a.non_snark, b.non_snark); sh_plus(none(), a.non_snark.chunk(), none(), b.non_snark.chunk()); sh_coinbasehash(a.pending_coinbase_hash, b.pending_coinbase_hash); sh_plus(none().plus(a.non_snark.chunk()), a.pending_coinbase_hash.chunk(), none().plus(b.non_snark.chunk()), b.pending_coinbase_hash.chunk());
    plus_inj(none().plus(a.non_snark.chunk()), a.pending_coinbase_hash.chunk(), none().plus(b.non_snark.chunk()), b.pending_coinbase_hash.chunk());
    plus_inj(none(), a.non_snark.chunk(), none(), b.non_snark.chunk());
    inj_nonsnarkstagedledgerhash(a.non_snark, b.non_snark);
    inj_coinbasehash(a.pending_coinbase_hash, b.pending_coinbase_hash);
    
}
pub open spec fn rlen_stagedledgerhash(a: StagedLedgerHash, b: StagedLedgerHash) -> bool { true && rlen_nonsnarkstagedledgerhash(a.non_snark, b.non_snark) && rlen_coinbasehash(a.pending_coinbase_hash, b.pending_coinbase_hash) }
pub proof fn rsh_stagedledgerhash(a: StagedLedgerHash, b: StagedLedgerHash) requires rlen_stagedledgerhash(a, b) ensures rsame_sh(a.ro(), b.ro()) { rsh_none0();  rsh_nonsnarkstagedledgerhash(a.non_snark, b.non_snark); rsh_plus(rnone(), a.non_snark.ro(), rnone(), b.non_snark.ro()); rsh_coinbasehash(a.pending_coinbase_hash, b.pending_coinbase_hash); rsh_plus(rnone().plus(a.non_snark.ro()), a.pending_coinbase_hash.ro(), rnone().plus(b.non_snark.ro()), b.pending_coinbase_hash.ro()); }
pub proof fn rinj_stagedledgerhash(a: StagedLedgerHash, b: StagedLedgerHash) requires a.ro_ok(), b.ro_ok(), rlen_stagedledgerhash(a, b), a.ro() == b.ro() ensures same_stagedledgerhash(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); rsh_none0();  rsh_nonsnarkstagedledgerhash(a.non_snark, b.non_snark); rsh_plus(rnone(), a.non_snark.ro(), rnone(), b.non_snark.ro()); rsh_coinbasehash(a.pending_coinbase_hash, b.pending_coinbase_hash); rsh_plus(rnone().plus(a.non_snark.ro()), a.pending_coinbase_hash.ro(), rnone().plus(b.non_snark.ro()), b.pending_coinbase_hash.ro());
    rplus_inj(rnone().plus(a.non_snark.ro()), a.pending_coinbase_hash.ro(), rnone().plus(b.non_snark.ro()), b.pending_coinbase_hash.ro());
    rplus_inj(rnone(), a.non_snark.ro(), rnone(), b.non_snark.ro());
    rinj_nonsnarkstagedledgerhash(a.non_snark, b.non_snark);
    rinj_coinbasehash(a.pending_coinbase_hash, b.pending_coinbase_hash);
    
}
pub open spec fn len_epochledger(a: EpochLedger, b: EpochLedger) -> bool { true && len_ledgerhash(a.hash, b.hash) && len_amount(a.total_currency, b.total_currency) }
pub open spec fn same_epochledger(a: EpochLedger, b: EpochLedger) -> bool { same_ledgerhash(a.hash, b.hash) && same_amount(a.total_currency, b.total_currency) }
pub proof fn sh_epochledger(a: EpochLedger, b: EpochLedger) requires len_epochledger(a, b) ensures same_sh(a.chunk(), b.chunk()) { sh_none0();  sh_ledgerhash(a.hash, b.hash); sh_plus(none(), a.hash.chunk(), none(), b.hash.chunk()); sh_amount(a.total_currency, b.total_currency); sh_plus(none().plus(a.hash.chunk()), a.total_currency.chunk(), none().plus(b.hash.chunk()), b.total_currency.chunk()); }
pub proof fn inj_epochledger(a: EpochLedger, b: EpochLedger) requires a.ok(), b.ok(), len_epochledger(a, b), a.chunk() == b.chunk() ensures same_epochledger(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); sh_none0();  sh_ledgerhash(a.hash, b.hash); sh_plus(none(), a.hash.chunk(), none(), b.hash.chunk()); sh_amount(a.total_currency, b.total_currency); sh_plus(none().plus(a.hash.chunk()), a.total_currency.chunk(), none().plus(b.hash.chunk()), b.total_currency.chunk());
    plus_inj(none().plus(a.hash.chunk()), a.total_currency.chunk(), none().plus(b.hash.chunk()), b.total_currency.chunk());
    plus_inj(none(), a.hash.chunk(), none(), b.hash.chunk());
    inj_ledgerhash(a.hash, b.hash);
    inj_amount(a.total_currency, b.total_currency);
    
}
pub open spec fn rlen_epochledger(a: EpochLedger, b: EpochLedger) -> bool { true && rlen_ledgerhash(a.hash, b.hash) && rlen_amount(a.total_currency, b.total_currency) }
pub proof fn rsh_epochledger(a: EpochLedger, b: EpochLedger) requires rlen_epochledger(a, b) ensures rsame_sh(a.ro(), b.ro()) { rsh_none0();  rsh_ledgerhash(a.hash, b.hash); rsh_plus(rnone(), a.hash.ro(), rnone(), b.hash.ro()); rsh_amount(a.total_currency, b.total_currency); rsh_plus(rnone().plus(a.hash.ro()), a.total_currency.ro(), rnone().plus(b.hash.ro()), b.total_currency.ro()); }
pub proof fn rinj_epochledger(a: EpochLedger, b: EpochLedger) requires a.ro_ok(), b.ro_ok(), rlen_epochledger(a, b), a.ro() == b.ro() ensures same_epochledger(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); rsh_none0();  rsh_ledgerhash(a.hash, b.hash); rsh_plus(rnone(), a.hash.ro(), rnone(), b.hash.ro()); rsh_amount(a.total_currency, b.total_currency); rsh_plus(rnone().plus(a.hash.ro()), a.total_currency.ro(), rnone().plus(b.hash.ro()), b.total_currency.ro());
    rplus_inj(rnone().plus(a.hash.ro()), a.total_currency.ro(), rnone().plus(b.hash.ro()), b.total_currency.ro());
    rplus_inj(rnone(), a.hash.ro(), rnone(), b.hash.ro());
    rinj_ledgerhash(a.hash, b.hash);
    rinj_amount(a.total_currency, b.total_currency);
    
}
pub open spec fn len_epochdata(a: EpochData, b: EpochData) -> bool { true && len_epochseed(a.seed, b.seed) && len_statehash(a.start_checkpoint, b.start_checkpoint) && len_length(a.epoch_length, b.epoch_length) && len_epochledger(a.ledger, b.ledger) && len_statehash(a.lock_checkpoint, b.lock_checkpoint) }
pub open spec fn same_epochdata(a: EpochData, b: EpochData) -> bool { same_epochseed(a.seed, b.seed) && same_statehash(a.start_checkpoint, b.start_checkpoint) && same_length(a.epoch_length, b.epoch_length) && same_epochledger(a.ledger, b.ledger) && same_statehash(a.lock_checkpoint, b.lock_checkpoint) }
pub proof fn sh_epochdata(a: EpochData, b: EpochData) requires len_epochdata(a, b) ensures same_sh(a.chunk(), b.chunk()) { sh_none0();  sh_epochseed(a.seed, b.seed); sh_plus(none(), a.seed.chunk(), none(), b.seed.chunk()); sh_statehash(a.start_checkpoint, b.start_checkpoint); sh_plus(none().plus(a.seed.chunk()), a.start_checkpoint.chunk(), none().plus(b.seed.chunk()), b.start_checkpoint.chunk()); sh_length(a.epoch_length, b.epoch_length); sh_plus(none().plus(a.seed.chunk()).plus(a.start_checkpoint.chunk()), a.epoch_length.chunk(), none().plus(b.seed.chunk()).plus(b.start_checkpoint.chunk()), b.epoch_length.chunk()); sh_epochledger(a.ledger, b.ledger); sh_plus(none().plus(a.seed.chunk()).plus(a.start_checkpoint.chunk()).plus(a.epoch_length.chunk()), a.ledger.chunk(), none().plus(b.seed.chunk()).plus(b.start_checkpoint.chunk()).plus(b.epoch_length.chunk()), b.ledger.chunk()); sh_statehash(a.lock_checkpoint, b.lock_checkpoint); sh_plus(none().plus(a.seed.chunk()).plus(a.start_checkpoint.chunk()).plus(a.epoch_length.chunk()).plus(a.ledger.chunk()), a.lock_checkpoint.chunk(), none().plus(b.seed.chunk()).plus(b.start_checkpoint.chunk()).plus(b.epoch_length.chunk()).plus(b.ledger.chunk()), b.lock_checkpoint.chunk()); }
pub proof fn inj_epochdata(a: EpochData, b: EpochData) requires a.ok(), b.ok(), len_epochdata(a, b), a.chunk() == b.chunk() ensures same_epochdata(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); sh_none0();  sh_epochseed(a.seed, b.seed); sh_plus(none(), a.seed.chunk(), none(), b.seed.chunk()); sh_statehash(a.start_checkpoint, b.start_checkpoint); sh_plus(none().plus(a.seed.chunk()), a.start_checkpoint.chunk(), none().plus(b.seed.chunk()), b.start_checkpoint.chunk()); sh_length(a.epoch_length, b.epoch_length); sh_plus(none().plus(a.seed.chunk()).plus(a.start_checkpoint.chunk()), a.epoch_length.chunk(), none().plus(b.seed.chunk()).plus(b.start_checkpoint.chunk()), b.epoch_length.chunk()); sh_epochledger(a.ledger, b.ledger); sh_plus(none().plus(a.seed.chunk()).plus(a.start_checkpoint.chunk()).plus(a.epoch_length.chunk()), a.ledger.chunk(), none().plus(b.seed.chunk()).plus(b.start_checkpoint.chunk()).plus(b.epoch_length.chunk()), b.ledger.chunk()); sh_statehash(a.lock_checkpoint, b.lock_checkpoint); sh_plus(none().plus(a.seed.chunk()).plus(a.start_checkpoint.chunk()).plus(a.epoch_length.chunk()).plus(a.ledger.chunk()), a.lock_checkpoint.chunk(), none().plus(b.seed.chunk()).plus(b.start_checkpoint.chunk()).plus(b.epoch_length.chunk()).plus(b.ledger.chunk()), b.lock_checkpoint.chunk());
    plus_inj(none().plus(a.seed.chunk()).plus(a.start_checkpoint.chunk()).plus(a.epoch_length.chunk()).plus(a.ledger.chunk()), a.lock_checkpoint.chunk(), none().plus(b.seed.chunk()).plus(b.start_checkpoint.chunk()).plus(b.epoch_length.chunk()).plus(b.ledger.chunk()), b.lock_checkpoint.chunk());
    plus_inj(none().plus(a.seed.chunk()).plus(a.start_checkpoint.chunk()).plus(a.epoch_length.chunk()), a.ledger.chunk(), none().plus(b.seed.chunk()).plus(b.start_checkpoint.chunk()).plus(b.epoch_length.chunk()), b.ledger.chunk());
    plus_inj(none().plus(a.seed.chunk()).plus(a.start_checkpoint.chunk()), a.epoch_length.chunk(), none().plus(b.seed.chunk()).plus(b.start_checkpoint.chunk()), b.epoch_length.chunk());
    plus_inj(none().plus(a.seed.chunk()), a.start_checkpoint.chunk(), none().plus(b.seed.chunk()), b.start_checkpoint.chunk());
    plus_inj(none(), a.seed.chunk(), none(), b.seed.chunk());
    inj_epochseed(a.seed, b.seed);
    inj_statehash(a.start_checkpoint, b.start_checkpoint);
    inj_length(a.epoch_length, b.epoch_length);
    inj_epochledger(a.ledger, b.ledger);
    inj_statehash(a.lock_checkpoint, b.lock_checkpoint);
    
}
pub open spec fn rlen_epochdata(a: EpochData, b: EpochData) -> bool { true && rlen_epochseed(a.seed, b.seed) && rlen_statehash(a.start_checkpoint, b.start_checkpoint) && rlen_length(a.epoch_length, b.epoch_length) && rlen_epochledger(a.ledger, b.ledger) && rlen_statehash(a.lock_checkpoint, b.lock_checkpoint) }
pub proof fn rsh_epochdata(a: EpochData, b: EpochData) requires rlen_epochdata(a, b) ensures rsame_sh(a.ro(), b.ro()) { rsh_none0();  rsh_epochseed(a.seed, b.seed); rsh_plus(rnone(), a.seed.ro(), rnone(), b.seed.ro()); rsh_statehash(a.start_checkpoint, b.start_checkpoint); rsh_plus(rnone().plus(a.seed.ro()), a.start_checkpoint.ro(), rnone().plus(b.seed.ro()), b.start_checkpoint.ro()); rsh_length(a.epoch_length, b.epoch_length); rsh_plus(rnone().plus(a.seed.ro()).plus(a.start_checkpoint.ro()), a.epoch_length.ro(), rnone().plus(b.seed.ro()).plus(b.start_checkpoint.ro()), b.epoch_length.ro()); rsh_epochledger(a.ledger, b.ledger); rsh_plus(rnone().plus(a.seed.ro()).plus(a.start_checkpoint.ro()).plus(a.epoch_length.ro()), a.ledger.ro(), rnone().plus(b.seed.ro()).plus(b.start_checkpoint.ro()).plus(b.epoch_length.ro()), b.ledger.ro()); rsh_statehash(a.lock_checkpoint, b.lock_checkpoint); rsh_plus(rnone().plus(a.seed.ro()).plus(a.start_checkpoint.ro()).plus(a.epoch_length.ro()).plus(a.ledger.ro()), a.lock_checkpoint.ro(), rnone().plus(b.seed.ro()).plus(b.start_checkpoint.ro()).plus(b.epoch_length.ro()).plus(b.ledger.ro()), b.lock_checkpoint.ro()); }
pub proof fn rinj_epochdata(a: EpochData, b: EpochData) requires a.ro_ok(), b.ro_ok(), rlen_epochdata(a, b), a.ro() == b.ro() ensures same_epochdata(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); rsh_none0();  rsh_epochseed(a.seed, b.seed); rsh_plus(rnone(), a.seed.ro(), rnone(), b.seed.ro()); rsh_statehash(a.start_checkpoint, b.start_checkpoint); rsh_plus(rnone().plus(a.seed.ro()), a.start_checkpoint.ro(), rnone().plus(b.seed.ro()), b.start_checkpoint.ro()); rsh_length(a.epoch_length, b.epoch_length); rsh_plus(rnone().plus(a.seed.ro()).plus(a.start_checkpoint.ro()), a.epoch_length.ro(), rnone().plus(b.seed.ro()).plus(b.start_checkpoint.ro()), b.epoch_length.ro()); rsh_epochledger(a.ledger, b.ledger); rsh_plus(rnone().plus(a.seed.ro()).plus(a.start_checkpoint.ro()).plus(a.epoch_length.ro()), a.ledger.ro(), rnone().plus(b.seed.ro()).plus(b.start_checkpoint.ro()).plus(b.epoch_length.ro()), b.ledger.ro()); rsh_statehash(a.lock_checkpoint, b.lock_checkpoint); rsh_plus(rnone().plus(a.seed.ro()).plus(a.start_checkpoint.ro()).plus(a.epoch_length.ro()).plus(a.ledger.ro()), a.lock_checkpoint.ro(), rnone().plus(b.seed.ro()).plus(b.start_checkpoint.ro()).plus(b.epoch_length.ro()).plus(b.ledger.ro()), b.lock_checkpoint.ro());
    rplus_inj(rnone().plus(a.seed.ro()).plus(a.start_checkpoint.ro()).plus(a.epoch_length.ro()).plus(a.ledger.ro()), a.lock_checkpoint.ro(), rnone().plus(b.seed.ro()).plus(b.start_checkpoint.ro()).plus(b.epoch_length.ro()).plus(b.ledger.ro()), b.lock_checkpoint.ro());
    rplus_inj(rnone().plus(a.seed.ro()).plus(a.start_checkpoint.ro()).plus(a.epoch_length.ro()), a.ledger.ro(), rnone().plus(b.seed.ro()).plus(b.start_checkpoint.ro()).plus(b.epoch_length.ro()), b.ledger.ro());
    rplus_inj(rnone().plus(a.seed.ro()).plus(a.start_checkpoint.ro()), a.epoch_length.ro(), rnone().plus(b.seed.ro()).plus(b.start_checkpoint.ro()), b.epoch_length.ro());
    rplus_inj(rnone().plus(a.seed.ro()), a.start_checkpoint.ro(), rnone().plus(b.seed.ro()), b.start_checkpoint.ro());
    rplus_inj(rnone(), a.seed.ro(), rnone(), b.seed.ro());
    rinj_epochseed(a.seed, b.seed);
    rinj_statehash(a.start_checkpoint, b.start_checkpoint);
    rinj_length(a.epoch_length, b.epoch_length);
    rinj_epochledger(a.ledger, b.ledger);
    rinj_statehash(a.lock_checkpoint, b.lock_checkpoint);
    
}
pub open spec fn len_globalslot(a: GlobalSlot, b: GlobalSlot) -> bool { true && len_globalslotnumber(a.slot_number, b.slot_number) && len_length(a.slots_per_epoch, b.slots_per_epoch) }
pub open spec fn same_globalslot(a: GlobalSlot, b: GlobalSlot) -> bool { same_globalslotnumber(a.slot_number, b.slot_number) && same_length(a.slots_per_epoch, b.slots_per_epoch) }
pub proof fn sh_globalslot(a: GlobalSlot, b: GlobalSlot) requires len_globalslot(a, b) ensures same_sh(a.chunk(), b.chunk()) { sh_none0();  sh_globalslotnumber(a.slot_number, b.slot_number); sh_plus(none(), a.slot_number.chunk(), none(), b.slot_number.chunk()); sh_length(a.slots_per_epoch, b.slots_per_epoch); sh_plus(none().plus(a.slot_number.chunk()), a.slots_per_epoch.chunk(), none().plus(b.slot_number.chunk()), b.slots_per_epoch.chunk()); }
pub proof fn inj_globalslot(a: GlobalSlot, b: GlobalSlot) requires a.ok(), b.ok(), len_globalslot(a, b), a.chunk() == b.chunk() ensures same_globalslot(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); sh_none0();  sh_globalslotnumber(a.slot_number, b.slot_number); sh_plus(none(), a.slot_number.chunk(), none(), b.slot_number.chunk()); sh_length(a.slots_per_epoch, b.slots_per_epoch); sh_plus(none().plus(a.slot_number.chunk()), a.slots_per_epoch.chunk(), none().plus(b.slot_number.chunk()), b.slots_per_epoch.chunk());
    plus_inj(none().plus(a.slot_number.chunk()), a.slots_per_epoch.chunk(), none().plus(b.slot_number.chunk()), b.slots_per_epoch.chunk());
    plus_inj(none(), a.slot_number.chunk(), none(), b.slot_number.chunk());
    inj_globalslotnumber(a.slot_number, b.slot_number);
    inj_length(a.slots_per_epoch, b.slots_per_epoch);
    
}
pub open spec fn rlen_globalslot(a: GlobalSlot, b: GlobalSlot) -> bool { true && rlen_globalslotnumber(a.slot_number, b.slot_number) && rlen_length(a.slots_per_epoch, b.slots_per_epoch) }
pub proof fn rsh_globalslot(a: GlobalSlot, b: GlobalSlot) requires rlen_globalslot(a, b) ensures rsame_sh(a.ro(), b.ro()) { rsh_none0();  rsh_globalslotnumber(a.slot_number, b.slot_number); rsh_plus(rnone(), a.slot_number.ro(), rnone(), b.slot_number.ro()); rsh_length(a.slots_per_epoch, b.slots_per_epoch); rsh_plus(rnone().plus(a.slot_number.ro()), a.slots_per_epoch.ro(), rnone().plus(b.slot_number.ro()), b.slots_per_epoch.ro()); }
pub proof fn rinj_globalslot(a: GlobalSlot, b: GlobalSlot) requires a.ro_ok(), b.ro_ok(), rlen_globalslot(a, b), a.ro() == b.ro() ensures same_globalslot(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); rsh_none0();  rsh_globalslotnumber(a.slot_number, b.slot_number); rsh_plus(rnone(), a.slot_number.ro(), rnone(), b.slot_number.ro()); rsh_length(a.slots_per_epoch, b.slots_per_epoch); rsh_plus(rnone().plus(a.slot_number.ro()), a.slots_per_epoch.ro(), rnone().plus(b.slot_number.ro()), b.slots_per_epoch.ro());
    rplus_inj(rnone().plus(a.slot_number.ro()), a.slots_per_epoch.ro(), rnone().plus(b.slot_number.ro()), b.slots_per_epoch.ro());
    rplus_inj(rnone(), a.slot_number.ro(), rnone(), b.slot_number.ro());
    rinj_globalslotnumber(a.slot_number, b.slot_number);
    rinj_length(a.slots_per_epoch, b.slots_per_epoch);
    
}
pub open spec fn len_protocolconstants(a: ProtocolConstants, b: ProtocolConstants) -> bool { true && len_length(a.k, b.k) && len_length(a.delta, b.delta) && len_length(a.slots_per_epoch, b.slots_per_epoch) && len_length(a.slots_per_sub_window, b.slots_per_sub_window) && len_blocktime(a.genesis_state_timestamp, b.genesis_state_timestamp) }
pub open spec fn same_protocolconstants(a: ProtocolConstants, b: ProtocolConstants) -> bool { same_length(a.k, b.k) && same_length(a.delta, b.delta) && same_length(a.slots_per_epoch, b.slots_per_epoch) && same_length(a.slots_per_sub_window, b.slots_per_sub_window) && same_blocktime(a.genesis_state_timestamp, b.genesis_state_timestamp) }
pub proof fn sh_protocolconstants(a: ProtocolConstants, b: ProtocolConstants) requires len_protocolconstants(a, b) ensures same_sh(a.chunk(), b.chunk()) { sh_none0();  sh_length(a.k, b.k); sh_plus(none(), a.k.chunk(), none(), b.k.chunk()); sh_length(a.delta, b.delta); sh_plus(none().plus(a.k.chunk()), a.delta.chunk(), none().plus(b.k.chunk()), b.delta.chunk()); sh_length(a.slots_per_epoch, b.slots_per_epoch); sh_plus(none().plus(a.k.chunk()).plus(a.delta.chunk()), a.slots_per_epoch.chunk(), none().plus(b.k.chunk()).plus(b.delta.chunk()), b.slots_per_epoch.chunk()); sh_length(a.slots_per_sub_window, b.slots_per_sub_window); sh_plus(none().plus(a.k.chunk()).plus(a.delta.chunk()).plus(a.slots_per_epoch.chunk()), a.slots_per_sub_window.chunk(), none().plus(b.k.chunk()).plus(b.delta.chunk()).plus(b.slots_per_epoch.chunk()), b.slots_per_sub_window.chunk()); sh_blocktime(a.genesis_state_timestamp, b.genesis_state_timestamp); sh_plus(none().plus(a.k.chunk()).plus(a.delta.chunk()).plus(a.slots_per_epoch.chunk()).plus(a.slots_per_sub_window.chunk()), a.genesis_state_timestamp.chunk(), none().plus(b.k.chunk()).plus(b.delta.chunk()).plus(b.slots_per_epoch.chunk()).plus(b.slots_per_sub_window.chunk()), b.genesis_state_timestamp.chunk()); }
pub proof fn inj_protocolconstants(a: ProtocolConstants, b: ProtocolConstants) requires a.ok(), b.ok(), len_protocolconstants(a, b), a.chunk() == b.chunk() ensures same_protocolconstants(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); sh_none0();  sh_length(a.k, b.k); sh_plus(none(), a.k.chunk(), none(), b.k.chunk()); sh_length(a.delta, b.delta); sh_plus(none().plus(a.k.chunk()), a.delta.chunk(), none().plus(b.k.chunk()), b.delta.chunk()); sh_length(a.slots_per_epoch, b.slots_per_epoch); sh_plus(none().plus(a.k.chunk()).plus(a.delta.chunk()), a.slots_per_epoch.chunk(), none().plus(b.k.chunk()).plus(b.delta.chunk()), b.slots_per_epoch.chunk()); sh_length(a.slots_per_sub_window, b.slots_per_sub_window); sh_plus(none().plus(a.k.chunk()).plus(a.delta.chunk()).plus(a.slots_per_epoch.chunk()), a.slots_per_sub_window.chunk(), none().plus(b.k.chunk()).plus(b.delta.chunk()).plus(b.slots_per_epoch.chunk()), b.slots_per_sub_window.chunk()); sh_blocktime(a.genesis_state_timestamp, b.genesis_state_timestamp); sh_plus(none().plus(a.k.chunk()).plus(a.delta.chunk()).plus(a.slots_per_epoch.chunk()).plus(a.slots_per_sub_window.chunk()), a.genesis_state_timestamp.chunk(), none().plus(b.k.chunk()).plus(b.delta.chunk()).plus(b.slots_per_epoch.chunk()).plus(b.slots_per_sub_window.chunk()), b.genesis_state_timestamp.chunk());
    plus_inj(none().plus(a.k.chunk()).plus(a.delta.chunk()).plus(a.slots_per_epoch.chunk()).plus(a.slots_per_sub_window.chunk()), a.genesis_state_timestamp.chunk(), none().plus(b.k.chunk()).plus(b.delta.chunk()).plus(b.slots_per_epoch.chunk()).plus(b.slots_per_sub_window.chunk()), b.genesis_state_timestamp.chunk());
    plus_inj(none().plus(a.k.chunk()).plus(a.delta.chunk()).plus(a.slots_per_epoch.chunk()), a.slots_per_sub_window.chunk(), none().plus(b.k.chunk()).plus(b.delta.chunk()).plus(b.slots_per_epoch.chunk()), b.slots_per_sub_window.chunk());
    plus_inj(none().plus(a.k.chunk()).plus(a.delta.chunk()), a.slots_per_epoch.chunk(), none().plus(b.k.chunk()).plus(b.delta.chunk()), b.slots_per_epoch.chunk());
    plus_inj(none().plus(a.k.chunk()), a.delta.chunk(), none().plus(b.k.chunk()), b.delta.chunk());
    plus_inj(none(), a.k.chunk(), none(), b.k.chunk());
    inj_length(a.k, b.k);
    inj_length(a.delta, b.delta);
    inj_length(a.slots_per_epoch, b.slots_per_epoch);
    inj_length(a.slots_per_sub_window, b.slots_per_sub_window);
    inj_blocktime(a.genesis_state_timestamp, b.genesis_state_timestamp);
    
}
pub open spec fn rlen_protocolconstants(a: ProtocolConstants, b: ProtocolConstants) -> bool { true && rlen_length(a.k, b.k) && rlen_length(a.delta, b.delta) && rlen_length(a.slots_per_epoch, b.slots_per_epoch) && rlen_length(a.slots_per_sub_window, b.slots_per_sub_window) && rlen_blocktime(a.genesis_state_timestamp, b.genesis_state_timestamp) }
pub proof fn rsh_protocolconstants(a: ProtocolConstants, b: ProtocolConstants) requires rlen_protocolconstants(a, b) ensures rsame_sh(a.ro(), b.ro()) { rsh_none0();  rsh_length(a.k, b.k); rsh_plus(rnone(), a.k.ro(), rnone(), b.k.ro()); rsh_length(a.delta, b.delta); rsh_plus(rnone().plus(a.k.ro()), a.delta.ro(), rnone().plus(b.k.ro()), b.delta.ro()); rsh_length(a.slots_per_epoch, b.slots_per_epoch); rsh_plus(rnone().plus(a.k.ro()).plus(a.delta.ro()), a.slots_per_epoch.ro(), rnone().plus(b.k.ro()).plus(b.delta.ro()), b.slots_per_epoch.ro()); rsh_length(a.slots_per_sub_window, b.slots_per_sub_window); rsh_plus(rnone().plus(a.k.ro()).plus(a.delta.ro()).plus(a.slots_per_epoch.ro()), a.slots_per_sub_window.ro(), rnone().plus(b.k.ro()).plus(b.delta.ro()).plus(b.slots_per_epoch.ro()), b.slots_per_sub_window.ro()); rsh_blocktime(a.genesis_state_timestamp, b.genesis_state_timestamp); rsh_plus(rnone().plus(a.k.ro()).plus(a.delta.ro()).plus(a.slots_per_epoch.ro()).plus(a.slots_per_sub_window.ro()), a.genesis_state_timestamp.ro(), rnone().plus(b.k.ro()).plus(b.delta.ro()).plus(b.slots_per_epoch.ro()).plus(b.slots_per_sub_window.ro()), b.genesis_state_timestamp.ro()); }
pub proof fn rinj_protocolconstants(a: ProtocolConstants, b: ProtocolConstants) requires a.ro_ok(), b.ro_ok(), rlen_protocolconstants(a, b), a.ro() == b.ro() ensures same_protocolconstants(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); rsh_none0();  rsh_length(a.k, b.k); rsh_plus(rnone(), a.k.ro(), rnone(), b.k.ro()); rsh_length(a.delta, b.delta); rsh_plus(rnone().plus(a.k.ro()), a.delta.ro(), rnone().plus(b.k.ro()), b.delta.ro()); rsh_length(a.slots_per_epoch, b.slots_per_epoch); rsh_plus(rnone().plus(a.k.ro()).plus(a.delta.ro()), a.slots_per_epoch.ro(), rnone().plus(b.k.ro()).plus(b.delta.ro()), b.slots_per_epoch.ro()); rsh_length(a.slots_per_sub_window, b.slots_per_sub_window); rsh_plus(rnone().plus(a.k.ro()).plus(a.delta.ro()).plus(a.slots_per_epoch.ro()), a.slots_per_sub_window.ro(), rnone().plus(b.k.ro()).plus(b.delta.ro()).plus(b.slots_per_epoch.ro()), b.slots_per_sub_window.ro()); rsh_blocktime(a.genesis_state_timestamp, b.genesis_state_timestamp); rsh_plus(rnone().plus(a.k.ro()).plus(a.delta.ro()).plus(a.slots_per_epoch.ro()).plus(a.slots_per_sub_window.ro()), a.genesis_state_timestamp.ro(), rnone().plus(b.k.ro()).plus(b.delta.ro()).plus(b.slots_per_epoch.ro()).plus(b.slots_per_sub_window.ro()), b.genesis_state_timestamp.ro());
    rplus_inj(rnone().plus(a.k.ro()).plus(a.delta.ro()).plus(a.slots_per_epoch.ro()).plus(a.slots_per_sub_window.ro()), a.genesis_state_timestamp.ro(), rnone().plus(b.k.ro()).plus(b.delta.ro()).plus(b.slots_per_epoch.ro()).plus(b.slots_per_sub_window.ro()), b.genesis_state_timestamp.ro());
    rplus_inj(rnone().plus(a.k.ro()).plus(a.delta.ro()).plus(a.slots_per_epoch.ro()), a.slots_per_sub_window.ro(), rnone().plus(b.k.ro()).plus(b.delta.ro()).plus(b.slots_per_epoch.ro()), b.slots_per_sub_window.ro());
    rplus_inj(rnone().plus(a.k.ro()).plus(a.delta.ro()), a.slots_per_epoch.ro(), rnone().plus(b.k.ro()).plus(b.delta.ro()), b.slots_per_epoch.ro());
    rplus_inj(rnone().plus(a.k.ro()), a.delta.ro(), rnone().plus(b.k.ro()), b.delta.ro());
    rplus_inj(rnone(), a.k.ro(), rnone(), b.k.ro());
    rinj_length(a.k, b.k);
    rinj_length(a.delta, b.delta);
    rinj_length(a.slots_per_epoch, b.slots_per_epoch);
    rinj_length(a.slots_per_sub_window, b.slots_per_sub_window);
    rinj_blocktime(a.genesis_state_timestamp, b.genesis_state_timestamp);
    
}
pub open spec fn rlen_blockchainstatelegacy(a: BlockchainStateLegacy, b: BlockchainStateLegacy) -> bool { true && rlen_stagedledgerhash(a.staged_ledger_hash, b.staged_ledger_hash) && rlen_ledgerhash(a.snarked_ledger_hash, b.snarked_ledger_hash) && rlen_ledgerhash(a.genesis_ledger_hash, b.genesis_ledger_hash) && rlen_tokenid(a.snarked_next_available_token, b.snarked_next_available_token) && rlen_blocktime(a.timestamp, b.timestamp) }
pub open spec fn same_blockchainstatelegacy(a: BlockchainStateLegacy, b: BlockchainStateLegacy) -> bool { same_stagedledgerhash(a.staged_ledger_hash, b.staged_ledger_hash) && same_ledgerhash(a.snarked_ledger_hash, b.snarked_ledger_hash) && same_ledgerhash(a.genesis_ledger_hash, b.genesis_ledger_hash) && same_tokenid(a.snarked_next_available_token, b.snarked_next_available_token) && same_blocktime(a.timestamp, b.timestamp) }
pub proof fn rsh_blockchainstatelegacy(a: BlockchainStateLegacy, b: BlockchainStateLegacy) requires rlen_blockchainstatelegacy(a, b) ensures rsame_sh(a.ro(), b.ro()) { rsh_none0();  rsh_stagedledgerhash(a.staged_ledger_hash, b.staged_ledger_hash); rsh_plus(rnone(), a.staged_ledger_hash.ro(), rnone(), b.staged_ledger_hash.ro()); rsh_ledgerhash(a.snarked_ledger_hash, b.snarked_ledger_hash); rsh_plus(rnone().plus(a.staged_ledger_hash.ro()), a.snarked_ledger_hash.ro(), rnone().plus(b.staged_ledger_hash.ro()), b.snarked_ledger_hash.ro()); rsh_ledgerhash(a.genesis_ledger_hash, b.genesis_ledger_hash); rsh_plus(rnone().plus(a.staged_ledger_hash.ro()).plus(a.snarked_ledger_hash.ro()), a.genesis_ledger_hash.ro(), rnone().plus(b.staged_ledger_hash.ro()).plus(b.snarked_ledger_hash.ro()), b.genesis_ledger_hash.ro()); rsh_tokenid(a.snarked_next_available_token, b.snarked_next_available_token); rsh_plus(rnone().plus(a.staged_ledger_hash.ro()).plus(a.snarked_ledger_hash.ro()).plus(a.genesis_ledger_hash.ro()), a.snarked_next_available_token.ro(), rnone().plus(b.staged_ledger_hash.ro()).plus(b.snarked_ledger_hash.ro()).plus(b.genesis_ledger_hash.ro()), b.snarked_next_available_token.ro()); rsh_blocktime(a.timestamp, b.timestamp); rsh_plus(rnone().plus(a.staged_ledger_hash.ro()).plus(a.snarked_ledger_hash.ro()).plus(a.genesis_ledger_hash.ro()).plus(a.snarked_next_available_token.ro()), a.timestamp.ro(), rnone().plus(b.staged_ledger_hash.ro()).plus(b.snarked_ledger_hash.ro()).plus(b.genesis_ledger_hash.ro()).plus(b.snarked_next_available_token.ro()), b.timestamp.ro()); }
pub proof fn rinj_blockchainstatelegacy(a: BlockchainStateLegacy, b: BlockchainStateLegacy) requires a.ro_ok(), b.ro_ok(), rlen_blockchainstatelegacy(a, b), a.ro() == b.ro() ensures same_blockchainstatelegacy(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); rsh_none0();  rsh_stagedledgerhash(a.staged_ledger_hash, b.staged_ledger_hash); rsh_plus(rnone(), a.staged_ledger_hash.ro(), rnone(), b.staged_ledger_hash.ro()); rsh_ledgerhash(a.snarked_ledger_hash, b.snarked_ledger_hash); rsh_plus(rnone().plus(a.staged_ledger_hash.ro()), a.snarked_ledger_hash.ro(), rnone().plus(b.staged_ledger_hash.ro()), b.snarked_ledger_hash.ro()); rsh_ledgerhash(a.genesis_ledger_hash, b.genesis_ledger_hash); rsh_plus(rnone().plus(a.staged_ledger_hash.ro()).plus(a.snarked_ledger_hash.ro()), a.genesis_ledger_hash.ro(), rnone().plus(b.staged_ledger_hash.ro()).plus(b.snarked_ledger_hash.ro()), b.genesis_ledger_hash.ro()); rsh_tokenid(a.snarked_next_available_token, b.snarked_next_available_token); rsh_plus(rnone().plus(a.staged_ledger_hash.ro()).plus(a.snarked_ledger_hash.ro()).plus(a.genesis_ledger_hash.ro()), a.snarked_next_available_token.ro(), rnone().plus(b.staged_ledger_hash.ro()).plus(b.snarked_ledger_hash.ro()).plus(b.genesis_ledger_hash.ro()), b.snarked_next_available_token.ro()); rsh_blocktime(a.timestamp, b.timestamp); rsh_plus(rnone().plus(a.staged_ledger_hash.ro()).plus(a.snarked_ledger_hash.ro()).plus(a.genesis_ledger_hash.ro()).plus(a.snarked_next_available_token.ro()), a.timestamp.ro(), rnone().plus(b.staged_ledger_hash.ro()).plus(b.snarked_ledger_hash.ro()).plus(b.genesis_ledger_hash.ro()).plus(b.snarked_next_available_token.ro()), b.timestamp.ro());
    rplus_inj(rnone().plus(a.staged_ledger_hash.ro()).plus(a.snarked_ledger_hash.ro()).plus(a.genesis_ledger_hash.ro()).plus(a.snarked_next_available_token.ro()), a.timestamp.ro(), rnone().plus(b.staged_ledger_hash.ro()).plus(b.snarked_ledger_hash.ro()).plus(b.genesis_ledger_hash.ro()).plus(b.snarked_next_available_token.ro()), b.timestamp.ro());
    rplus_inj(rnone().plus(a.staged_ledger_hash.ro()).plus(a.snarked_ledger_hash.ro()).plus(a.genesis_ledger_hash.ro()), a.snarked_next_available_token.ro(), rnone().plus(b.staged_ledger_hash.ro()).plus(b.snarked_ledger_hash.ro()).plus(b.genesis_ledger_hash.ro()), b.snarked_next_available_token.ro());
    rplus_inj(rnone().plus(a.staged_ledger_hash.ro()).plus(a.snarked_ledger_hash.ro()), a.genesis_ledger_hash.ro(), rnone().plus(b.staged_ledger_hash.ro()).plus(b.snarked_ledger_hash.ro()), b.genesis_ledger_hash.ro());
    rplus_inj(rnone().plus(a.staged_ledger_hash.ro()), a.snarked_ledger_hash.ro(), rnone().plus(b.staged_ledger_hash.ro()), b.snarked_ledger_hash.ro());
    rplus_inj(rnone(), a.staged_ledger_hash.ro(), rnone(), b.staged_ledger_hash.ro());
    rinj_stagedledgerhash(a.staged_ledger_hash, b.staged_ledger_hash);
    rinj_ledgerhash(a.snarked_ledger_hash, b.snarked_ledger_hash);
    rinj_ledgerhash(a.genesis_ledger_hash, b.genesis_ledger_hash);
    rinj_tokenid(a.snarked_next_available_token, b.snarked_next_available_token);
    rinj_blocktime(a.timestamp, b.timestamp);
    
}
pub open spec fn len_bodyreference(a: BodyReference, b: BodyReference) -> bool { true }
pub open spec fn same_bodyreference(a: BodyReference, b: BodyReference) -> bool { a.0@ == b.0@ }
pub proof fn sh_bodyreference(a: BodyReference, b: BodyReference) ensures same_sh(a.chunk(), b.chunk()) { broadcast use shapes; bytes_int(a.0@); bytes_int(b.0@); }
pub proof fn inj_bodyreference(a: BodyReference, b: BodyReference) requires a.chunk() == b.chunk() ensures same_bodyreference(a, b) { broadcast use shapes; bytes_int(a.0@); bytes_int(b.0@); plus_inj(none(), bits(bytes_bits(a.0@)), none(), bits(bytes_bits(b.0@))); bits_one(bytes_bits(a.0@), bytes_bits(b.0@)); bits_inj(a.0@, b.0@); }
pub open spec fn len_blockchainstateregisterslocalstate(a: BlockchainStateRegistersLocalState, b: BlockchainStateRegistersLocalState) -> bool { true && len_field(a.stack_frame, b.stack_frame) && len_field(a.call_stack, b.call_stack) && len_field(a.transaction_commitment, b.transaction_commitment) && len_field(a.full_transaction_commitment, b.full_transaction_commitment) && len_tokenid(a.token_id, b.token_id) && len_signedamount(a.excess, b.excess) && len_ledgerhash(a.ledger, b.ledger) && len_minaindex(a.party_index, b.party_index) }
pub open spec fn same_blockchainstateregisterslocalstate(a: BlockchainStateRegistersLocalState, b: BlockchainStateRegistersLocalState) -> bool { same_field(a.stack_frame, b.stack_frame) && same_field(a.call_stack, b.call_stack) && same_field(a.transaction_commitment, b.transaction_commitment) && same_field(a.full_transaction_commitment, b.full_transaction_commitment) && same_tokenid(a.token_id, b.token_id) && same_signedamount(a.excess, b.excess) && same_ledgerhash(a.ledger, b.ledger) && same_minaindex(a.party_index, b.party_index) && a.success == b.success }
pub proof fn sh_blockchainstateregisterslocalstate(a: BlockchainStateRegistersLocalState, b: BlockchainStateRegistersLocalState) requires len_blockchainstateregisterslocalstate(a, b) ensures same_sh(a.chunk(), b.chunk()) { sh_none0();  sh_field(a.stack_frame, b.stack_frame); sh_plus(none(), a.stack_frame.chunk(), none(), b.stack_frame.chunk()); sh_field(a.call_stack, b.call_stack); sh_plus(none().plus(a.stack_frame.chunk()), a.call_stack.chunk(), none().plus(b.stack_frame.chunk()), b.call_stack.chunk()); sh_field(a.transaction_commitment, b.transaction_commitment); sh_plus(none().plus(a.stack_frame.chunk()).plus(a.call_stack.chunk()), a.transaction_commitment.chunk(), none().plus(b.stack_frame.chunk()).plus(b.call_stack.chunk()), b.transaction_commitment.chunk()); sh_field(a.full_transaction_commitment, b.full_transaction_commitment); sh_plus(none().plus(a.stack_frame.chunk()).plus(a.call_stack.chunk()).plus(a.transaction_commitment.chunk()), a.full_transaction_commitment.chunk(), none().plus(b.stack_frame.chunk()).plus(b.call_stack.chunk()).plus(b.transaction_commitment.chunk()), b.full_transaction_commitment.chunk()); sh_tokenid(a.token_id, b.token_id); sh_plus(none().plus(a.stack_frame.chunk()).plus(a.call_stack.chunk()).plus(a.transaction_commitment.chunk()).plus(a.full_transaction_commitment.chunk()), a.token_id.chunk(), none().plus(b.stack_frame.chunk()).plus(b.call_stack.chunk()).plus(b.transaction_commitment.chunk()).plus(b.full_transaction_commitment.chunk()), b.token_id.chunk()); sh_signedamount(a.excess, b.excess); sh_plus(none().plus(a.stack_frame.chunk()).plus(a.call_stack.chunk()).plus(a.transaction_commitment.chunk()).plus(a.full_transaction_commitment.chunk()).plus(a.token_id.chunk()), a.excess.chunk(), none().plus(b.stack_frame.chunk()).plus(b.call_stack.chunk()).plus(b.transaction_commitment.chunk()).plus(b.full_transaction_commitment.chunk()).plus(b.token_id.chunk()), b.excess.chunk()); sh_ledgerhash(a.ledger, b.ledger); sh_plus(none().plus(a.stack_frame.chunk()).plus(a.call_stack.chunk()).plus(a.transaction_commitment.chunk()).plus(a.full_transaction_commitment.chunk()).plus(a.token_id.chunk()).plus(a.excess.chunk()), a.ledger.chunk(), none().plus(b.stack_frame.chunk()).plus(b.call_stack.chunk()).plus(b.transaction_commitment.chunk()).plus(b.full_transaction_commitment.chunk()).plus(b.token_id.chunk()).plus(b.excess.chunk()), b.ledger.chunk()); sh_minaindex(a.party_index, b.party_index); sh_plus(none().plus(a.stack_frame.chunk()).plus(a.call_stack.chunk()).plus(a.transaction_commitment.chunk()).plus(a.full_transaction_commitment.chunk()).plus(a.token_id.chunk()).plus(a.excess.chunk()).plus(a.ledger.chunk()), a.party_index.chunk(), none().plus(b.stack_frame.chunk()).plus(b.call_stack.chunk()).plus(b.transaction_commitment.chunk()).plus(b.full_transaction_commitment.chunk()).plus(b.token_id.chunk()).plus(b.excess.chunk()).plus(b.ledger.chunk()), b.party_index.chunk()); sh_bit(a.success, b.success); sh_plus(none().plus(a.stack_frame.chunk()).plus(a.call_stack.chunk()).plus(a.transaction_commitment.chunk()).plus(a.full_transaction_commitment.chunk()).plus(a.token_id.chunk()).plus(a.excess.chunk()).plus(a.ledger.chunk()).plus(a.party_index.chunk()), bit(a.success), none().plus(b.stack_frame.chunk()).plus(b.call_stack.chunk()).plus(b.transaction_commitment.chunk()).plus(b.full_transaction_commitment.chunk()).plus(b.token_id.chunk()).plus(b.excess.chunk()).plus(b.ledger.chunk()).plus(b.party_index.chunk()), bit(b.success)); }
pub proof fn inj_blockchainstateregisterslocalstate(a: BlockchainStateRegistersLocalState, b: BlockchainStateRegistersLocalState) requires a.ok(), b.ok(), len_blockchainstateregisterslocalstate(a, b), a.chunk() == b.chunk() ensures same_blockchainstateregisterslocalstate(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); sh_none0();  sh_field(a.stack_frame, b.stack_frame); sh_plus(none(), a.stack_frame.chunk(), none(), b.stack_frame.chunk()); sh_field(a.call_stack, b.call_stack); sh_plus(none().plus(a.stack_frame.chunk()), a.call_stack.chunk(), none().plus(b.stack_frame.chunk()), b.call_stack.chunk()); sh_field(a.transaction_commitment, b.transaction_commitment); sh_plus(none().plus(a.stack_frame.chunk()).plus(a.call_stack.chunk()), a.transaction_commitment.chunk(), none().plus(b.stack_frame.chunk()).plus(b.call_stack.chunk()), b.transaction_commitment.chunk()); sh_field(a.full_transaction_commitment, b.full_transaction_commitment); sh_plus(none().plus(a.stack_frame.chunk()).plus(a.call_stack.chunk()).plus(a.transaction_commitment.chunk()), a.full_transaction_commitment.chunk(), none().plus(b.stack_frame.chunk()).plus(b.call_stack.chunk()).plus(b.transaction_commitment.chunk()), b.full_transaction_commitment.chunk()); sh_tokenid(a.token_id, b.token_id); sh_plus(none().plus(a.stack_frame.chunk()).plus(a.call_stack.chunk()).plus(a.transaction_commitment.chunk()).plus(a.full_transaction_commitment.chunk()), a.token_id.chunk(), none().plus(b.stack_frame.chunk()).plus(b.call_stack.chunk()).plus(b.transaction_commitment.chunk()).plus(b.full_transaction_commitment.chunk()), b.token_id.chunk()); sh_signedamount(a.excess, b.excess); sh_plus(none().plus(a.stack_frame.chunk()).plus(a.call_stack.chunk()).plus(a.transaction_commitment.chunk()).plus(a.full_transaction_commitment.chunk()).plus(a.token_id.chunk()), a.excess.chunk(), none().plus(b.stack_frame.chunk()).plus(b.call_stack.chunk()).plus(b.transaction_commitment.chunk()).plus(b.full_transaction_commitment.chunk()).plus(b.token_id.chunk()), b.excess.chunk()); sh_ledgerhash(a.ledger, b.ledger); sh_plus(none().plus(a.stack_frame.chunk()).plus(a.call_stack.chunk()).plus(a.transaction_commitment.chunk()).plus(a.full_transaction_commitment.chunk()).plus(a.token_id.chunk()).plus(a.excess.chunk()), a.ledger.chunk(), none().plus(b.stack_frame.chunk()).plus(b.call_stack.chunk()).plus(b.transaction_commitment.chunk()).plus(b.full_transaction_commitment.chunk()).plus(b.token_id.chunk()).plus(b.excess.chunk()), b.ledger.chunk()); sh_minaindex(a.party_index, b.party_index); sh_plus(none().plus(a.stack_frame.chunk()).plus(a.call_stack.chunk()).plus(a.transaction_commitment.chunk()).plus(a.full_transaction_commitment.chunk()).plus(a.token_id.chunk()).plus(a.excess.chunk()).plus(a.ledger.chunk()), a.party_index.chunk(), none().plus(b.stack_frame.chunk()).plus(b.call_stack.chunk()).plus(b.transaction_commitment.chunk()).plus(b.full_transaction_commitment.chunk()).plus(b.token_id.chunk()).plus(b.excess.chunk()).plus(b.ledger.chunk()), b.party_index.chunk()); sh_bit(a.success, b.success); sh_plus(none().plus(a.stack_frame.chunk()).plus(a.call_stack.chunk()).plus(a.transaction_commitment.chunk()).plus(a.full_transaction_commitment.chunk()).plus(a.token_id.chunk()).plus(a.excess.chunk()).plus(a.ledger.chunk()).plus(a.party_index.chunk()), bit(a.success), none().plus(b.stack_frame.chunk()).plus(b.call_stack.chunk()).plus(b.transaction_commitment.chunk()).plus(b.full_transaction_commitment.chunk()).plus(b.token_id.chunk()).plus(b.excess.chunk()).plus(b.ledger.chunk()).plus(b.party_index.chunk()), bit(b.success));
    plus_inj(none().plus(a.stack_frame.chunk()).plus(a.call_stack.chunk()).plus(a.transaction_commitment.chunk()).plus(a.full_transaction_commitment.chunk()).plus(a.token_id.chunk()).plus(a.excess.chunk()).plus(a.ledger.chunk()).plus(a.party_index.chunk()), bit(a.success), none().plus(b.stack_frame.chunk()).plus(b.call_stack.chunk()).plus(b.transaction_commitment.chunk()).plus(b.full_transaction_commitment.chunk()).plus(b.token_id.chunk()).plus(b.excess.chunk()).plus(b.ledger.chunk()).plus(b.party_index.chunk()), bit(b.success));
    plus_inj(none().plus(a.stack_frame.chunk()).plus(a.call_stack.chunk()).plus(a.transaction_commitment.chunk()).plus(a.full_transaction_commitment.chunk()).plus(a.token_id.chunk()).plus(a.excess.chunk()).plus(a.ledger.chunk()), a.party_index.chunk(), none().plus(b.stack_frame.chunk()).plus(b.call_stack.chunk()).plus(b.transaction_commitment.chunk()).plus(b.full_transaction_commitment.chunk()).plus(b.token_id.chunk()).plus(b.excess.chunk()).plus(b.ledger.chunk()), b.party_index.chunk());
    plus_inj(none().plus(a.stack_frame.chunk()).plus(a.call_stack.chunk()).plus(a.transaction_commitment.chunk()).plus(a.full_transaction_commitment.chunk()).plus(a.token_id.chunk()).plus(a.excess.chunk()), a.ledger.chunk(), none().plus(b.stack_frame.chunk()).plus(b.call_stack.chunk()).plus(b.transaction_commitment.chunk()).plus(b.full_transaction_commitment.chunk()).plus(b.token_id.chunk()).plus(b.excess.chunk()), b.ledger.chunk());
    plus_inj(none().plus(a.stack_frame.chunk()).plus(a.call_stack.chunk()).plus(a.transaction_commitment.chunk()).plus(a.full_transaction_commitment.chunk()).plus(a.token_id.chunk()), a.excess.chunk(), none().plus(b.stack_frame.chunk()).plus(b.call_stack.chunk()).plus(b.transaction_commitment.chunk()).plus(b.full_transaction_commitment.chunk()).plus(b.token_id.chunk()), b.excess.chunk());
    plus_inj(none().plus(a.stack_frame.chunk()).plus(a.call_stack.chunk()).plus(a.transaction_commitment.chunk()).plus(a.full_transaction_commitment.chunk()), a.token_id.chunk(), none().plus(b.stack_frame.chunk()).plus(b.call_stack.chunk()).plus(b.transaction_commitment.chunk()).plus(b.full_transaction_commitment.chunk()), b.token_id.chunk());
    plus_inj(none().plus(a.stack_frame.chunk()).plus(a.call_stack.chunk()).plus(a.transaction_commitment.chunk()), a.full_transaction_commitment.chunk(), none().plus(b.stack_frame.chunk()).plus(b.call_stack.chunk()).plus(b.transaction_commitment.chunk()), b.full_transaction_commitment.chunk());
    plus_inj(none().plus(a.stack_frame.chunk()).plus(a.call_stack.chunk()), a.transaction_commitment.chunk(), none().plus(b.stack_frame.chunk()).plus(b.call_stack.chunk()), b.transaction_commitment.chunk());
    plus_inj(none().plus(a.stack_frame.chunk()), a.call_stack.chunk(), none().plus(b.stack_frame.chunk()), b.call_stack.chunk());
    plus_inj(none(), a.stack_frame.chunk(), none(), b.stack_frame.chunk());
    inj_field(a.stack_frame, b.stack_frame);
    inj_field(a.call_stack, b.call_stack);
    inj_field(a.transaction_commitment, b.transaction_commitment);
    inj_field(a.full_transaction_commitment, b.full_transaction_commitment);
    inj_tokenid(a.token_id, b.token_id);
    inj_signedamount(a.excess, b.excess);
    inj_ledgerhash(a.ledger, b.ledger);
    inj_minaindex(a.party_index, b.party_index);
    bit_one(a.success, b.success);
    
}
pub open spec fn len_blockchainstateregisters(a: BlockchainStateRegisters, b: BlockchainStateRegisters) -> bool { true && len_ledgerhash(a.ledger, b.ledger) && len_blockchainstateregisterslocalstate(a.local_state, b.local_state) }
pub open spec fn same_blockchainstateregisters(a: BlockchainStateRegisters, b: BlockchainStateRegisters) -> bool { same_ledgerhash(a.ledger, b.ledger) && same_blockchainstateregisterslocalstate(a.local_state, b.local_state) }
pub proof fn sh_blockchainstateregisters(a: BlockchainStateRegisters, b: BlockchainStateRegisters) requires len_blockchainstateregisters(a, b) ensures same_sh(a.chunk(), b.chunk()) { sh_none0();  sh_ledgerhash(a.ledger, b.ledger); sh_plus(none(), a.ledger.chunk(), none(), b.ledger.chunk()); sh_blockchainstateregisterslocalstate(a.local_state, b.local_state); sh_plus(none().plus(a.ledger.chunk()), a.local_state.chunk(), none().plus(b.ledger.chunk()), b.local_state.chunk()); }
pub proof fn inj_blockchainstateregisters(a: BlockchainStateRegisters, b: BlockchainStateRegisters) requires a.ok(), b.ok(), len_blockchainstateregisters(a, b), a.chunk() == b.chunk() ensures same_blockchainstateregisters(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); sh_none0();  sh_ledgerhash(a.ledger, b.ledger); sh_plus(none(), a.ledger.chunk(), none(), b.ledger.chunk()); sh_blockchainstateregisterslocalstate(a.local_state, b.local_state); sh_plus(none().plus(a.ledger.chunk()), a.local_state.chunk(), none().plus(b.ledger.chunk()), b.local_state.chunk());
    plus_inj(none().plus(a.ledger.chunk()), a.local_state.chunk(), none().plus(b.ledger.chunk()), b.local_state.chunk());
    plus_inj(none(), a.ledger.chunk(), none(), b.ledger.chunk());
    inj_ledgerhash(a.ledger, b.ledger);
    inj_blockchainstateregisterslocalstate(a.local_state, b.local_state);
    
}
pub open spec fn len_blockchainstate(a: BlockchainState, b: BlockchainState) -> bool { true && len_stagedledgerhash(a.staged_ledger_hash, b.staged_ledger_hash) && len_ledgerhash(a.genesis_ledger_hash, b.genesis_ledger_hash) && len_blockchainstateregisters(a.registers, b.registers) && len_blocktime(a.timestamp, b.timestamp) && len_bodyreference(a.body_reference, b.body_reference) }
pub open spec fn same_blockchainstate(a: BlockchainState, b: BlockchainState) -> bool { same_stagedledgerhash(a.staged_ledger_hash, b.staged_ledger_hash) && same_ledgerhash(a.genesis_ledger_hash, b.genesis_ledger_hash) && same_blockchainstateregisters(a.registers, b.registers) && same_blocktime(a.timestamp, b.timestamp) && same_bodyreference(a.body_reference, b.body_reference) }
pub proof fn sh_blockchainstate(a: BlockchainState, b: BlockchainState) requires len_blockchainstate(a, b) ensures same_sh(a.chunk(), b.chunk()) { sh_none0();  sh_stagedledgerhash(a.staged_ledger_hash, b.staged_ledger_hash); sh_plus(none(), a.staged_ledger_hash.chunk(), none(), b.staged_ledger_hash.chunk()); sh_ledgerhash(a.genesis_ledger_hash, b.genesis_ledger_hash); sh_plus(none().plus(a.staged_ledger_hash.chunk()), a.genesis_ledger_hash.chunk(), none().plus(b.staged_ledger_hash.chunk()), b.genesis_ledger_hash.chunk()); sh_blockchainstateregisters(a.registers, b.registers); sh_plus(none().plus(a.staged_ledger_hash.chunk()).plus(a.genesis_ledger_hash.chunk()), a.registers.chunk(), none().plus(b.staged_ledger_hash.chunk()).plus(b.genesis_ledger_hash.chunk()), b.registers.chunk()); sh_blocktime(a.timestamp, b.timestamp); sh_plus(none().plus(a.staged_ledger_hash.chunk()).plus(a.genesis_ledger_hash.chunk()).plus(a.registers.chunk()), a.timestamp.chunk(), none().plus(b.staged_ledger_hash.chunk()).plus(b.genesis_ledger_hash.chunk()).plus(b.registers.chunk()), b.timestamp.chunk()); sh_bodyreference(a.body_reference, b.body_reference); sh_plus(none().plus(a.staged_ledger_hash.chunk()).plus(a.genesis_ledger_hash.chunk()).plus(a.registers.chunk()).plus(a.timestamp.chunk()), a.body_reference.chunk(), none().plus(b.staged_ledger_hash.chunk()).plus(b.genesis_ledger_hash.chunk()).plus(b.registers.chunk()).plus(b.timestamp.chunk()), b.body_reference.chunk()); }
pub proof fn inj_blockchainstate(a: BlockchainState, b: BlockchainState) requires a.ok(), b.ok(), len_blockchainstate(a, b), a.chunk() == b.chunk() ensures same_blockchainstate(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); sh_none0();  sh_stagedledgerhash(a.staged_ledger_hash, b.staged_ledger_hash); sh_plus(none(), a.staged_ledger_hash.chunk(), none(), b.staged_ledger_hash.chunk()); sh_ledgerhash(a.genesis_ledger_hash, b.genesis_ledger_hash); sh_plus(none().plus(a.staged_ledger_hash.chunk()), a.genesis_ledger_hash.chunk(), none().plus(b.staged_ledger_hash.chunk()), b.genesis_ledger_hash.chunk()); sh_blockchainstateregisters(a.registers, b.registers); sh_plus(none().plus(a.staged_ledger_hash.chunk()).plus(a.genesis_ledger_hash.chunk()), a.registers.chunk(), none().plus(b.staged_ledger_hash.chunk()).plus(b.genesis_ledger_hash.chunk()), b.registers.chunk()); sh_blocktime(a.timestamp, b.timestamp); sh_plus(none().plus(a.staged_ledger_hash.chunk()).plus(a.genesis_ledger_hash.chunk()).plus(a.registers.chunk()), a.timestamp.chunk(), none().plus(b.staged_ledger_hash.chunk()).plus(b.genesis_ledger_hash.chunk()).plus(b.registers.chunk()), b.timestamp.chunk()); sh_bodyreference(a.body_reference, b.body_reference); sh_plus(none().plus(a.staged_ledger_hash.chunk()).plus(a.genesis_ledger_hash.chunk()).plus(a.registers.chunk()).plus(a.timestamp.chunk()), a.body_reference.chunk(), none().plus(b.staged_ledger_hash.chunk()).plus(b.genesis_ledger_hash.chunk()).plus(b.registers.chunk()).plus(b.timestamp.chunk()), b.body_reference.chunk());
    plus_inj(none().plus(a.staged_ledger_hash.chunk()).plus(a.genesis_ledger_hash.chunk()).plus(a.registers.chunk()).plus(a.timestamp.chunk()), a.body_reference.chunk(), none().plus(b.staged_ledger_hash.chunk()).plus(b.genesis_ledger_hash.chunk()).plus(b.registers.chunk()).plus(b.timestamp.chunk()), b.body_reference.chunk());
    plus_inj(none().plus(a.staged_ledger_hash.chunk()).plus(a.genesis_ledger_hash.chunk()).plus(a.registers.chunk()), a.timestamp.chunk(), none().plus(b.staged_ledger_hash.chunk()).plus(b.genesis_ledger_hash.chunk()).plus(b.registers.chunk()), b.timestamp.chunk());
    plus_inj(none().plus(a.staged_ledger_hash.chunk()).plus(a.genesis_ledger_hash.chunk()), a.registers.chunk(), none().plus(b.staged_ledger_hash.chunk()).plus(b.genesis_ledger_hash.chunk()), b.registers.chunk());
    plus_inj(none().plus(a.staged_ledger_hash.chunk()), a.genesis_ledger_hash.chunk(), none().plus(b.staged_ledger_hash.chunk()), b.genesis_ledger_hash.chunk());
    plus_inj(none(), a.staged_ledger_hash.chunk(), none(), b.staged_ledger_hash.chunk());
    inj_stagedledgerhash(a.staged_ledger_hash, b.staged_ledger_hash);
    inj_ledgerhash(a.genesis_ledger_hash, b.genesis_ledger_hash);
    inj_blockchainstateregisters(a.registers, b.registers);
    inj_blocktime(a.timestamp, b.timestamp);
    inj_bodyreference(a.body_reference, b.body_reference);
    
}
/// a VRF output is 253 bits: the three high bits of its 32nd byte are unused
pub open spec fn vrf_form(v: Seq<u8>) -> bool { v.len() <= 31 || v.len() == 32 && v[31] < 32 }
pub open spec fn len_vrfoutputtruncated(a: VrfOutputTruncated, b: VrfOutputTruncated) -> bool { a.0@.len() == b.0@.len() && vrf_form(a.0@) && vrf_form(b.0@) }
pub open spec fn rlen_vrfoutputtruncated(a: VrfOutputTruncated, b: VrfOutputTruncated) -> bool { len_vrfoutputtruncated(a, b) }
pub open spec fn same_vrfoutputtruncated(a: VrfOutputTruncated, b: VrfOutputTruncated) -> bool { a.0@ == b.0@ }
pub open spec fn head(v: Seq<u8>) -> Seq<u8> { if v.len() <= 31 { v } else { v.take(31) } }
pub proof fn vrf_last(a: Seq<u8>, b: Seq<u8>) requires a.len() == 32, b.len() == 32, a[31] < 32, b[31] < 32, a.take(31) == b.take(31), low5(a[31]) =~= low5(b[31]) ensures a == b {
    let (x, y) = (low5(a[31]), low5(b[31])); assert(x[0] == y[0] && x[1] == y[1] && x[2] == y[2] && x[3] == y[3] && x[4] == y[4]);
    let (m, n) = (a[31], b[31]);
    assert(m == n) by (bit_vector) requires m < 32, n < 32, (m % 2 == 1) == (n % 2 == 1), ((m / 2) % 2 == 1) == ((n / 2) % 2 == 1), ((m / 4) % 2 == 1) == ((n / 4) % 2 == 1), ((m / 8) % 2 == 1) == ((n / 8) % 2 == 1), ((m / 16) % 2 == 1) == ((n / 16) % 2 == 1);
    assert(a =~= a.take(31).push(a[31])); assert(b =~= b.take(31).push(b[31])); }
pub proof fn sh_vrfoutputtruncated(a: VrfOutputTruncated, b: VrfOutputTruncated) requires a.0@.len() == b.0@.len() ensures same_sh(a.chunk(), b.chunk()) { bytes_int(head(a.0@)); bytes_int(head(b.0@)); sh_none0(); sh_bits(bytes_bits(head(a.0@)), bytes_bits(head(b.0@))); sh_plus(none(), bits(bytes_bits(head(a.0@))), none(), bits(bytes_bits(head(b.0@)))); if a.0@.len() > 31 { sh_bit(low5(a.0@[31])[0], low5(b.0@[31])[0]); sh_plus(none().plus(bits(bytes_bits(head(a.0@)))), bit(low5(a.0@[31])[0]), none().plus(bits(bytes_bits(head(b.0@)))), bit(low5(b.0@[31])[0])); sh_bit(low5(a.0@[31])[1], low5(b.0@[31])[1]); sh_plus(none().plus(bits(bytes_bits(head(a.0@)))).plus(bit(low5(a.0@[31])[0])), bit(low5(a.0@[31])[1]), none().plus(bits(bytes_bits(head(b.0@)))).plus(bit(low5(b.0@[31])[0])), bit(low5(b.0@[31])[1])); sh_bit(low5(a.0@[31])[2], low5(b.0@[31])[2]); sh_plus(none().plus(bits(bytes_bits(head(a.0@)))).plus(bit(low5(a.0@[31])[0])).plus(bit(low5(a.0@[31])[1])), bit(low5(a.0@[31])[2]), none().plus(bits(bytes_bits(head(b.0@)))).plus(bit(low5(b.0@[31])[0])).plus(bit(low5(b.0@[31])[1])), bit(low5(b.0@[31])[2])); sh_bit(low5(a.0@[31])[3], low5(b.0@[31])[3]); sh_plus(none().plus(bits(bytes_bits(head(a.0@)))).plus(bit(low5(a.0@[31])[0])).plus(bit(low5(a.0@[31])[1])).plus(bit(low5(a.0@[31])[2])), bit(low5(a.0@[31])[3]), none().plus(bits(bytes_bits(head(b.0@)))).plus(bit(low5(b.0@[31])[0])).plus(bit(low5(b.0@[31])[1])).plus(bit(low5(b.0@[31])[2])), bit(low5(b.0@[31])[3])); sh_bit(low5(a.0@[31])[4], low5(b.0@[31])[4]); sh_plus(none().plus(bits(bytes_bits(head(a.0@)))).plus(bit(low5(a.0@[31])[0])).plus(bit(low5(a.0@[31])[1])).plus(bit(low5(a.0@[31])[2])).plus(bit(low5(a.0@[31])[3])), bit(low5(a.0@[31])[4]), none().plus(bits(bytes_bits(head(b.0@)))).plus(bit(low5(b.0@[31])[0])).plus(bit(low5(b.0@[31])[1])).plus(bit(low5(b.0@[31])[2])).plus(bit(low5(b.0@[31])[3])), bit(low5(b.0@[31])[4])); } }
pub proof fn inj_vrfoutputtruncated(a: VrfOutputTruncated, b: VrfOutputTruncated) requires len_vrfoutputtruncated(a, b), a.chunk() == b.chunk() ensures a.0@ == b.0@ {
    broadcast use shapes; bytes_int(head(a.0@)); bytes_int(head(b.0@));
    if a.0@.len() > 31 {
        plus_inj(none().plus(bits(bytes_bits(head(a.0@)))).plus(bit(low5(a.0@[31])[0])).plus(bit(low5(a.0@[31])[1])).plus(bit(low5(a.0@[31])[2])).plus(bit(low5(a.0@[31])[3])), bit(low5(a.0@[31])[4]), none().plus(bits(bytes_bits(head(b.0@)))).plus(bit(low5(b.0@[31])[0])).plus(bit(low5(b.0@[31])[1])).plus(bit(low5(b.0@[31])[2])).plus(bit(low5(b.0@[31])[3])), bit(low5(b.0@[31])[4])); bit_one(low5(a.0@[31])[4], low5(b.0@[31])[4]);
        plus_inj(none().plus(bits(bytes_bits(head(a.0@)))).plus(bit(low5(a.0@[31])[0])).plus(bit(low5(a.0@[31])[1])).plus(bit(low5(a.0@[31])[2])), bit(low5(a.0@[31])[3]), none().plus(bits(bytes_bits(head(b.0@)))).plus(bit(low5(b.0@[31])[0])).plus(bit(low5(b.0@[31])[1])).plus(bit(low5(b.0@[31])[2])), bit(low5(b.0@[31])[3])); bit_one(low5(a.0@[31])[3], low5(b.0@[31])[3]);
        plus_inj(none().plus(bits(bytes_bits(head(a.0@)))).plus(bit(low5(a.0@[31])[0])).plus(bit(low5(a.0@[31])[1])), bit(low5(a.0@[31])[2]), none().plus(bits(bytes_bits(head(b.0@)))).plus(bit(low5(b.0@[31])[0])).plus(bit(low5(b.0@[31])[1])), bit(low5(b.0@[31])[2])); bit_one(low5(a.0@[31])[2], low5(b.0@[31])[2]);
        plus_inj(none().plus(bits(bytes_bits(head(a.0@)))).plus(bit(low5(a.0@[31])[0])), bit(low5(a.0@[31])[1]), none().plus(bits(bytes_bits(head(b.0@)))).plus(bit(low5(b.0@[31])[0])), bit(low5(b.0@[31])[1])); bit_one(low5(a.0@[31])[1], low5(b.0@[31])[1]);
        plus_inj(none().plus(bits(bytes_bits(head(a.0@)))), bit(low5(a.0@[31])[0]), none().plus(bits(bytes_bits(head(b.0@)))), bit(low5(b.0@[31])[0])); bit_one(low5(a.0@[31])[0], low5(b.0@[31])[0]);
    }
    plus_inj(none(), bits(bytes_bits(head(a.0@))), none(), bits(bytes_bits(head(b.0@)))); bits_one(bytes_bits(head(a.0@)), bytes_bits(head(b.0@))); bits_inj(head(a.0@), head(b.0@)); if a.0@.len() > 31 { vrf_last(a.0@, b.0@); }
}
pub proof fn rsh_vrfoutputtruncated(a: VrfOutputTruncated, b: VrfOutputTruncated) requires a.0@.len() == b.0@.len() ensures rsame_sh(a.ro(), b.ro()) { bytes_int(head(a.0@)); bytes_int(head(b.0@)); rsh_none0(); rsh_bits(bytes_bits(head(a.0@)), bytes_bits(head(b.0@))); rsh_plus(rnone(), rbits(bytes_bits(head(a.0@))), rnone(), rbits(bytes_bits(head(b.0@)))); if a.0@.len() > 31 { rsh_bit(low5(a.0@[31])[0], low5(b.0@[31])[0]); rsh_plus(rnone().plus(rbits(bytes_bits(head(a.0@)))), rbit(low5(a.0@[31])[0]), rnone().plus(rbits(bytes_bits(head(b.0@)))), rbit(low5(b.0@[31])[0])); rsh_bit(low5(a.0@[31])[1], low5(b.0@[31])[1]); rsh_plus(rnone().plus(rbits(bytes_bits(head(a.0@)))).plus(rbit(low5(a.0@[31])[0])), rbit(low5(a.0@[31])[1]), rnone().plus(rbits(bytes_bits(head(b.0@)))).plus(rbit(low5(b.0@[31])[0])), rbit(low5(b.0@[31])[1])); rsh_bit(low5(a.0@[31])[2], low5(b.0@[31])[2]); rsh_plus(rnone().plus(rbits(bytes_bits(head(a.0@)))).plus(rbit(low5(a.0@[31])[0])).plus(rbit(low5(a.0@[31])[1])), rbit(low5(a.0@[31])[2]), rnone().plus(rbits(bytes_bits(head(b.0@)))).plus(rbit(low5(b.0@[31])[0])).plus(rbit(low5(b.0@[31])[1])), rbit(low5(b.0@[31])[2])); rsh_bit(low5(a.0@[31])[3], low5(b.0@[31])[3]); rsh_plus(rnone().plus(rbits(bytes_bits(head(a.0@)))).plus(rbit(low5(a.0@[31])[0])).plus(rbit(low5(a.0@[31])[1])).plus(rbit(low5(a.0@[31])[2])), rbit(low5(a.0@[31])[3]), rnone().plus(rbits(bytes_bits(head(b.0@)))).plus(rbit(low5(b.0@[31])[0])).plus(rbit(low5(b.0@[31])[1])).plus(rbit(low5(b.0@[31])[2])), rbit(low5(b.0@[31])[3])); rsh_bit(low5(a.0@[31])[4], low5(b.0@[31])[4]); rsh_plus(rnone().plus(rbits(bytes_bits(head(a.0@)))).plus(rbit(low5(a.0@[31])[0])).plus(rbit(low5(a.0@[31])[1])).plus(rbit(low5(a.0@[31])[2])).plus(rbit(low5(a.0@[31])[3])), rbit(low5(a.0@[31])[4]), rnone().plus(rbits(bytes_bits(head(b.0@)))).plus(rbit(low5(b.0@[31])[0])).plus(rbit(low5(b.0@[31])[1])).plus(rbit(low5(b.0@[31])[2])).plus(rbit(low5(b.0@[31])[3])), rbit(low5(b.0@[31])[4])); } }
pub proof fn rinj_vrfoutputtruncated(a: VrfOutputTruncated, b: VrfOutputTruncated) requires rlen_vrfoutputtruncated(a, b), a.ro() == b.ro() ensures a.0@ == b.0@ {
    broadcast use rshapes; bytes_int(head(a.0@)); bytes_int(head(b.0@));
    if a.0@.len() > 31 {
        rplus_inj(rnone().plus(rbits(bytes_bits(head(a.0@)))).plus(rbit(low5(a.0@[31])[0])).plus(rbit(low5(a.0@[31])[1])).plus(rbit(low5(a.0@[31])[2])).plus(rbit(low5(a.0@[31])[3])), rbit(low5(a.0@[31])[4]), rnone().plus(rbits(bytes_bits(head(b.0@)))).plus(rbit(low5(b.0@[31])[0])).plus(rbit(low5(b.0@[31])[1])).plus(rbit(low5(b.0@[31])[2])).plus(rbit(low5(b.0@[31])[3])), rbit(low5(b.0@[31])[4])); rbit_one(low5(a.0@[31])[4], low5(b.0@[31])[4]);
        rplus_inj(rnone().plus(rbits(bytes_bits(head(a.0@)))).plus(rbit(low5(a.0@[31])[0])).plus(rbit(low5(a.0@[31])[1])).plus(rbit(low5(a.0@[31])[2])), rbit(low5(a.0@[31])[3]), rnone().plus(rbits(bytes_bits(head(b.0@)))).plus(rbit(low5(b.0@[31])[0])).plus(rbit(low5(b.0@[31])[1])).plus(rbit(low5(b.0@[31])[2])), rbit(low5(b.0@[31])[3])); rbit_one(low5(a.0@[31])[3], low5(b.0@[31])[3]);
        rplus_inj(rnone().plus(rbits(bytes_bits(head(a.0@)))).plus(rbit(low5(a.0@[31])[0])).plus(rbit(low5(a.0@[31])[1])), rbit(low5(a.0@[31])[2]), rnone().plus(rbits(bytes_bits(head(b.0@)))).plus(rbit(low5(b.0@[31])[0])).plus(rbit(low5(b.0@[31])[1])), rbit(low5(b.0@[31])[2])); rbit_one(low5(a.0@[31])[2], low5(b.0@[31])[2]);
        rplus_inj(rnone().plus(rbits(bytes_bits(head(a.0@)))).plus(rbit(low5(a.0@[31])[0])), rbit(low5(a.0@[31])[1]), rnone().plus(rbits(bytes_bits(head(b.0@)))).plus(rbit(low5(b.0@[31])[0])), rbit(low5(b.0@[31])[1])); rbit_one(low5(a.0@[31])[1], low5(b.0@[31])[1]);
        rplus_inj(rnone().plus(rbits(bytes_bits(head(a.0@)))), rbit(low5(a.0@[31])[0]), rnone().plus(rbits(bytes_bits(head(b.0@)))), rbit(low5(b.0@[31])[0])); rbit_one(low5(a.0@[31])[0], low5(b.0@[31])[0]);
    }
    rplus_inj(rnone(), rbits(bytes_bits(head(a.0@))), rnone(), rbits(bytes_bits(head(b.0@))));  bits_inj(head(a.0@), head(b.0@)); if a.0@.len() > 31 { vrf_last(a.0@, b.0@); }
}
pub proof fn lens_sh(s: Seq<Length>, t: Seq<Length>, c: Chunk, d: Chunk) requires s.len() == t.len(), same_sh(c, d) ensures same_sh(lens(s, c), lens(t, d)) decreases s.len() { broadcast use shapes; if s.len() > 0 { lens_sh(s.drop_last(), t.drop_last(), c, d); sh_length(s.last(), t.last()); assert(same_sh(lens(s.drop_last(), c).plus(s.last().chunk()), lens(t.drop_last(), d).plus(t.last().chunk()))); } }
pub proof fn lens_inj(s: Seq<Length>, t: Seq<Length>, c: Chunk, d: Chunk) requires s.len() == t.len(), lens(s, c) == lens(t, d) ensures s == t, c == d decreases s.len() { if s.len() > 0 { sh_length(s.last(), t.last()); plus_inj(lens(s.drop_last(), c), s.last().chunk(), lens(t.drop_last(), d), t.last().chunk()); inj_length(s.last(), t.last()); lens_inj(s.drop_last(), t.drop_last(), c, d); assert(s =~= s.drop_last().push(s.last())); assert(t =~= t.drop_last().push(t.last())); } else { assert(s =~= t); } }
pub open spec fn densities(s: ConsensusState) -> Chunk { lens(s.sub_window_densities@, none().plus(s.blockchain_length.chunk()).plus(s.epoch_count.chunk()).plus(s.min_window_density.chunk())) }
pub proof fn inj_start_consensusstate(a: ConsensusState, b: ConsensusState) requires a.sub_window_densities@.len() == b.sub_window_densities@.len(), densities(a) == densities(b) ensures a.blockchain_length == b.blockchain_length && a.epoch_count == b.epoch_count && a.min_window_density == b.min_window_density && a.sub_window_densities@ == b.sub_window_densities@ { broadcast use shapes; sh_length(a.blockchain_length, b.blockchain_length); sh_length(a.epoch_count, b.epoch_count); sh_length(a.min_window_density, b.min_window_density); lens_inj(a.sub_window_densities@, b.sub_window_densities@, none().plus(a.blockchain_length.chunk()).plus(a.epoch_count.chunk()).plus(a.min_window_density.chunk()), none().plus(b.blockchain_length.chunk()).plus(b.epoch_count.chunk()).plus(b.min_window_density.chunk()));plus_inj(none().plus(a.blockchain_length.chunk()).plus(a.epoch_count.chunk()), a.min_window_density.chunk(), none().plus(b.blockchain_length.chunk()).plus(b.epoch_count.chunk()), b.min_window_density.chunk()); plus_inj(none().plus(a.blockchain_length.chunk()), a.epoch_count.chunk(), none().plus(b.blockchain_length.chunk()), b.epoch_count.chunk()); plus_inj(none(), a.blockchain_length.chunk(), none(), b.blockchain_length.chunk());inj_length(a.blockchain_length, b.blockchain_length); inj_length(a.epoch_count, b.epoch_count); inj_length(a.min_window_density, b.min_window_density); }
pub open spec fn len_consensusstate(a: ConsensusState, b: ConsensusState) -> bool { a.sub_window_densities@.len() == b.sub_window_densities@.len() && len_vrfoutputtruncated(a.last_vrf_output, b.last_vrf_output) && len_amount(a.total_currency, b.total_currency) && len_globalslot(a.curr_global_slot, b.curr_global_slot) && len_globalslotnumber(a.global_slot_since_genesis, b.global_slot_since_genesis) && len_epochdata(a.staking_epoch_data, b.staking_epoch_data) && len_epochdata(a.next_epoch_data, b.next_epoch_data) }
pub open spec fn same_consensusstate(a: ConsensusState, b: ConsensusState) -> bool { same_vrfoutputtruncated(a.last_vrf_output, b.last_vrf_output) && same_amount(a.total_currency, b.total_currency) && same_globalslot(a.curr_global_slot, b.curr_global_slot) && same_globalslotnumber(a.global_slot_since_genesis, b.global_slot_since_genesis) && a.has_ancestor_in_same_checkpoint_window == b.has_ancestor_in_same_checkpoint_window && a.supercharge_coinbase == b.supercharge_coinbase && same_epochdata(a.staking_epoch_data, b.staking_epoch_data) && same_epochdata(a.next_epoch_data, b.next_epoch_data) && a.block_stake_winner == b.block_stake_winner && a.block_creator == b.block_creator && a.coinbase_receiver == b.coinbase_receiver && a.blockchain_length == b.blockchain_length && a.epoch_count == b.epoch_count && a.min_window_density == b.min_window_density && a.sub_window_densities@ == b.sub_window_densities@ }
pub proof fn sh_consensusstate(a: ConsensusState, b: ConsensusState) requires len_consensusstate(a, b) ensures same_sh(a.chunk(), b.chunk()) { sh_none0(); sh_length(a.blockchain_length, b.blockchain_length); sh_plus(none(), a.blockchain_length.chunk(), none(), b.blockchain_length.chunk()); sh_length(a.epoch_count, b.epoch_count); sh_plus(none().plus(a.blockchain_length.chunk()), a.epoch_count.chunk(), none().plus(b.blockchain_length.chunk()), b.epoch_count.chunk()); sh_length(a.min_window_density, b.min_window_density); sh_plus(none().plus(a.blockchain_length.chunk()).plus(a.epoch_count.chunk()), a.min_window_density.chunk(), none().plus(b.blockchain_length.chunk()).plus(b.epoch_count.chunk()), b.min_window_density.chunk()); lens_sh(a.sub_window_densities@, b.sub_window_densities@, none().plus(a.blockchain_length.chunk()).plus(a.epoch_count.chunk()).plus(a.min_window_density.chunk()), none().plus(b.blockchain_length.chunk()).plus(b.epoch_count.chunk()).plus(b.min_window_density.chunk())); sh_vrfoutputtruncated(a.last_vrf_output, b.last_vrf_output); sh_plus(densities(a), a.last_vrf_output.chunk(), densities(b), b.last_vrf_output.chunk()); sh_amount(a.total_currency, b.total_currency); sh_plus(densities(a).plus(a.last_vrf_output.chunk()), a.total_currency.chunk(), densities(b).plus(b.last_vrf_output.chunk()), b.total_currency.chunk()); sh_globalslot(a.curr_global_slot, b.curr_global_slot); sh_plus(densities(a).plus(a.last_vrf_output.chunk()).plus(a.total_currency.chunk()), a.curr_global_slot.chunk(), densities(b).plus(b.last_vrf_output.chunk()).plus(b.total_currency.chunk()), b.curr_global_slot.chunk()); sh_globalslotnumber(a.global_slot_since_genesis, b.global_slot_since_genesis); sh_plus(densities(a).plus(a.last_vrf_output.chunk()).plus(a.total_currency.chunk()).plus(a.curr_global_slot.chunk()), a.global_slot_since_genesis.chunk(), densities(b).plus(b.last_vrf_output.chunk()).plus(b.total_currency.chunk()).plus(b.curr_global_slot.chunk()), b.global_slot_since_genesis.chunk()); sh_bit(a.has_ancestor_in_same_checkpoint_window, b.has_ancestor_in_same_checkpoint_window); sh_plus(densities(a).plus(a.last_vrf_output.chunk()).plus(a.total_currency.chunk()).plus(a.curr_global_slot.chunk()).plus(a.global_slot_since_genesis.chunk()), bit(a.has_ancestor_in_same_checkpoint_window), densities(b).plus(b.last_vrf_output.chunk()).plus(b.total_currency.chunk()).plus(b.curr_global_slot.chunk()).plus(b.global_slot_since_genesis.chunk()), bit(b.has_ancestor_in_same_checkpoint_window)); sh_bit(a.supercharge_coinbase, b.supercharge_coinbase); sh_plus(densities(a).plus(a.last_vrf_output.chunk()).plus(a.total_currency.chunk()).plus(a.curr_global_slot.chunk()).plus(a.global_slot_since_genesis.chunk()).plus(bit(a.has_ancestor_in_same_checkpoint_window)), bit(a.supercharge_coinbase), densities(b).plus(b.last_vrf_output.chunk()).plus(b.total_currency.chunk()).plus(b.curr_global_slot.chunk()).plus(b.global_slot_since_genesis.chunk()).plus(bit(b.has_ancestor_in_same_checkpoint_window)), bit(b.supercharge_coinbase)); sh_epochdata(a.staking_epoch_data, b.staking_epoch_data); sh_plus(densities(a).plus(a.last_vrf_output.chunk()).plus(a.total_currency.chunk()).plus(a.curr_global_slot.chunk()).plus(a.global_slot_since_genesis.chunk()).plus(bit(a.has_ancestor_in_same_checkpoint_window)).plus(bit(a.supercharge_coinbase)), a.staking_epoch_data.chunk(), densities(b).plus(b.last_vrf_output.chunk()).plus(b.total_currency.chunk()).plus(b.curr_global_slot.chunk()).plus(b.global_slot_since_genesis.chunk()).plus(bit(b.has_ancestor_in_same_checkpoint_window)).plus(bit(b.supercharge_coinbase)), b.staking_epoch_data.chunk()); sh_epochdata(a.next_epoch_data, b.next_epoch_data); sh_plus(densities(a).plus(a.last_vrf_output.chunk()).plus(a.total_currency.chunk()).plus(a.curr_global_slot.chunk()).plus(a.global_slot_since_genesis.chunk()).plus(bit(a.has_ancestor_in_same_checkpoint_window)).plus(bit(a.supercharge_coinbase)).plus(a.staking_epoch_data.chunk()), a.next_epoch_data.chunk(), densities(b).plus(b.last_vrf_output.chunk()).plus(b.total_currency.chunk()).plus(b.curr_global_slot.chunk()).plus(b.global_slot_since_genesis.chunk()).plus(bit(b.has_ancestor_in_same_checkpoint_window)).plus(bit(b.supercharge_coinbase)).plus(b.staking_epoch_data.chunk()), b.next_epoch_data.chunk()); sh_key(a.block_stake_winner, b.block_stake_winner); sh_plus(densities(a).plus(a.last_vrf_output.chunk()).plus(a.total_currency.chunk()).plus(a.curr_global_slot.chunk()).plus(a.global_slot_since_genesis.chunk()).plus(bit(a.has_ancestor_in_same_checkpoint_window)).plus(bit(a.supercharge_coinbase)).plus(a.staking_epoch_data.chunk()).plus(a.next_epoch_data.chunk()), key(a.block_stake_winner), densities(b).plus(b.last_vrf_output.chunk()).plus(b.total_currency.chunk()).plus(b.curr_global_slot.chunk()).plus(b.global_slot_since_genesis.chunk()).plus(bit(b.has_ancestor_in_same_checkpoint_window)).plus(bit(b.supercharge_coinbase)).plus(b.staking_epoch_data.chunk()).plus(b.next_epoch_data.chunk()), key(b.block_stake_winner)); sh_key(a.block_creator, b.block_creator); sh_plus(densities(a).plus(a.last_vrf_output.chunk()).plus(a.total_currency.chunk()).plus(a.curr_global_slot.chunk()).plus(a.global_slot_since_genesis.chunk()).plus(bit(a.has_ancestor_in_same_checkpoint_window)).plus(bit(a.supercharge_coinbase)).plus(a.staking_epoch_data.chunk()).plus(a.next_epoch_data.chunk()).plus(key(a.block_stake_winner)), key(a.block_creator), densities(b).plus(b.last_vrf_output.chunk()).plus(b.total_currency.chunk()).plus(b.curr_global_slot.chunk()).plus(b.global_slot_since_genesis.chunk()).plus(bit(b.has_ancestor_in_same_checkpoint_window)).plus(bit(b.supercharge_coinbase)).plus(b.staking_epoch_data.chunk()).plus(b.next_epoch_data.chunk()).plus(key(b.block_stake_winner)), key(b.block_creator)); sh_key(a.coinbase_receiver, b.coinbase_receiver); sh_plus(densities(a).plus(a.last_vrf_output.chunk()).plus(a.total_currency.chunk()).plus(a.curr_global_slot.chunk()).plus(a.global_slot_since_genesis.chunk()).plus(bit(a.has_ancestor_in_same_checkpoint_window)).plus(bit(a.supercharge_coinbase)).plus(a.staking_epoch_data.chunk()).plus(a.next_epoch_data.chunk()).plus(key(a.block_stake_winner)).plus(key(a.block_creator)), key(a.coinbase_receiver), densities(b).plus(b.last_vrf_output.chunk()).plus(b.total_currency.chunk()).plus(b.curr_global_slot.chunk()).plus(b.global_slot_since_genesis.chunk()).plus(bit(b.has_ancestor_in_same_checkpoint_window)).plus(bit(b.supercharge_coinbase)).plus(b.staking_epoch_data.chunk()).plus(b.next_epoch_data.chunk()).plus(key(b.block_stake_winner)).plus(key(b.block_creator)), key(b.coinbase_receiver)); }
pub proof fn inj_consensusstate(a: ConsensusState, b: ConsensusState) requires a.ok(), b.ok(), len_consensusstate(a, b), a.chunk() == b.chunk() ensures same_consensusstate(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); sh_none0(); sh_length(a.blockchain_length, b.blockchain_length); sh_plus(none(), a.blockchain_length.chunk(), none(), b.blockchain_length.chunk()); sh_length(a.epoch_count, b.epoch_count); sh_plus(none().plus(a.blockchain_length.chunk()), a.epoch_count.chunk(), none().plus(b.blockchain_length.chunk()), b.epoch_count.chunk()); sh_length(a.min_window_density, b.min_window_density); sh_plus(none().plus(a.blockchain_length.chunk()).plus(a.epoch_count.chunk()), a.min_window_density.chunk(), none().plus(b.blockchain_length.chunk()).plus(b.epoch_count.chunk()), b.min_window_density.chunk()); lens_sh(a.sub_window_densities@, b.sub_window_densities@, none().plus(a.blockchain_length.chunk()).plus(a.epoch_count.chunk()).plus(a.min_window_density.chunk()), none().plus(b.blockchain_length.chunk()).plus(b.epoch_count.chunk()).plus(b.min_window_density.chunk())); sh_vrfoutputtruncated(a.last_vrf_output, b.last_vrf_output); sh_plus(densities(a), a.last_vrf_output.chunk(), densities(b), b.last_vrf_output.chunk()); sh_amount(a.total_currency, b.total_currency); sh_plus(densities(a).plus(a.last_vrf_output.chunk()), a.total_currency.chunk(), densities(b).plus(b.last_vrf_output.chunk()), b.total_currency.chunk()); sh_globalslot(a.curr_global_slot, b.curr_global_slot); sh_plus(densities(a).plus(a.last_vrf_output.chunk()).plus(a.total_currency.chunk()), a.curr_global_slot.chunk(), densities(b).plus(b.last_vrf_output.chunk()).plus(b.total_currency.chunk()), b.curr_global_slot.chunk()); sh_globalslotnumber(a.global_slot_since_genesis, b.global_slot_since_genesis); sh_plus(densities(a).plus(a.last_vrf_output.chunk()).plus(a.total_currency.chunk()).plus(a.curr_global_slot.chunk()), a.global_slot_since_genesis.chunk(), densities(b).plus(b.last_vrf_output.chunk()).plus(b.total_currency.chunk()).plus(b.curr_global_slot.chunk()), b.global_slot_since_genesis.chunk()); sh_bit(a.has_ancestor_in_same_checkpoint_window, b.has_ancestor_in_same_checkpoint_window); sh_plus(densities(a).plus(a.last_vrf_output.chunk()).plus(a.total_currency.chunk()).plus(a.curr_global_slot.chunk()).plus(a.global_slot_since_genesis.chunk()), bit(a.has_ancestor_in_same_checkpoint_window), densities(b).plus(b.last_vrf_output.chunk()).plus(b.total_currency.chunk()).plus(b.curr_global_slot.chunk()).plus(b.global_slot_since_genesis.chunk()), bit(b.has_ancestor_in_same_checkpoint_window)); sh_bit(a.supercharge_coinbase, b.supercharge_coinbase); sh_plus(densities(a).plus(a.last_vrf_output.chunk()).plus(a.total_currency.chunk()).plus(a.curr_global_slot.chunk()).plus(a.global_slot_since_genesis.chunk()).plus(bit(a.has_ancestor_in_same_checkpoint_window)), bit(a.supercharge_coinbase), densities(b).plus(b.last_vrf_output.chunk()).plus(b.total_currency.chunk()).plus(b.curr_global_slot.chunk()).plus(b.global_slot_since_genesis.chunk()).plus(bit(b.has_ancestor_in_same_checkpoint_window)), bit(b.supercharge_coinbase)); sh_epochdata(a.staking_epoch_data, b.staking_epoch_data); sh_plus(densities(a).plus(a.last_vrf_output.chunk()).plus(a.total_currency.chunk()).plus(a.curr_global_slot.chunk()).plus(a.global_slot_since_genesis.chunk()).plus(bit(a.has_ancestor_in_same_checkpoint_window)).plus(bit(a.supercharge_coinbase)), a.staking_epoch_data.chunk(), densities(b).plus(b.last_vrf_output.chunk()).plus(b.total_currency.chunk()).plus(b.curr_global_slot.chunk()).plus(b.global_slot_since_genesis.chunk()).plus(bit(b.has_ancestor_in_same_checkpoint_window)).plus(bit(b.supercharge_coinbase)), b.staking_epoch_data.chunk()); sh_epochdata(a.next_epoch_data, b.next_epoch_data); sh_plus(densities(a).plus(a.last_vrf_output.chunk()).plus(a.total_currency.chunk()).plus(a.curr_global_slot.chunk()).plus(a.global_slot_since_genesis.chunk()).plus(bit(a.has_ancestor_in_same_checkpoint_window)).plus(bit(a.supercharge_coinbase)).plus(a.staking_epoch_data.chunk()), a.next_epoch_data.chunk(), densities(b).plus(b.last_vrf_output.chunk()).plus(b.total_currency.chunk()).plus(b.curr_global_slot.chunk()).plus(b.global_slot_since_genesis.chunk()).plus(bit(b.has_ancestor_in_same_checkpoint_window)).plus(bit(b.supercharge_coinbase)).plus(b.staking_epoch_data.chunk()), b.next_epoch_data.chunk()); sh_key(a.block_stake_winner, b.block_stake_winner); sh_plus(densities(a).plus(a.last_vrf_output.chunk()).plus(a.total_currency.chunk()).plus(a.curr_global_slot.chunk()).plus(a.global_slot_since_genesis.chunk()).plus(bit(a.has_ancestor_in_same_checkpoint_window)).plus(bit(a.supercharge_coinbase)).plus(a.staking_epoch_data.chunk()).plus(a.next_epoch_data.chunk()), key(a.block_stake_winner), densities(b).plus(b.last_vrf_output.chunk()).plus(b.total_currency.chunk()).plus(b.curr_global_slot.chunk()).plus(b.global_slot_since_genesis.chunk()).plus(bit(b.has_ancestor_in_same_checkpoint_window)).plus(bit(b.supercharge_coinbase)).plus(b.staking_epoch_data.chunk()).plus(b.next_epoch_data.chunk()), key(b.block_stake_winner)); sh_key(a.block_creator, b.block_creator); sh_plus(densities(a).plus(a.last_vrf_output.chunk()).plus(a.total_currency.chunk()).plus(a.curr_global_slot.chunk()).plus(a.global_slot_since_genesis.chunk()).plus(bit(a.has_ancestor_in_same_checkpoint_window)).plus(bit(a.supercharge_coinbase)).plus(a.staking_epoch_data.chunk()).plus(a.next_epoch_data.chunk()).plus(key(a.block_stake_winner)), key(a.block_creator), densities(b).plus(b.last_vrf_output.chunk()).plus(b.total_currency.chunk()).plus(b.curr_global_slot.chunk()).plus(b.global_slot_since_genesis.chunk()).plus(bit(b.has_ancestor_in_same_checkpoint_window)).plus(bit(b.supercharge_coinbase)).plus(b.staking_epoch_data.chunk()).plus(b.next_epoch_data.chunk()).plus(key(b.block_stake_winner)), key(b.block_creator)); sh_key(a.coinbase_receiver, b.coinbase_receiver); sh_plus(densities(a).plus(a.last_vrf_output.chunk()).plus(a.total_currency.chunk()).plus(a.curr_global_slot.chunk()).plus(a.global_slot_since_genesis.chunk()).plus(bit(a.has_ancestor_in_same_checkpoint_window)).plus(bit(a.supercharge_coinbase)).plus(a.staking_epoch_data.chunk()).plus(a.next_epoch_data.chunk()).plus(key(a.block_stake_winner)).plus(key(a.block_creator)), key(a.coinbase_receiver), densities(b).plus(b.last_vrf_output.chunk()).plus(b.total_currency.chunk()).plus(b.curr_global_slot.chunk()).plus(b.global_slot_since_genesis.chunk()).plus(bit(b.has_ancestor_in_same_checkpoint_window)).plus(bit(b.supercharge_coinbase)).plus(b.staking_epoch_data.chunk()).plus(b.next_epoch_data.chunk()).plus(key(b.block_stake_winner)).plus(key(b.block_creator)), key(b.coinbase_receiver));
    plus_inj(densities(a).plus(a.last_vrf_output.chunk()).plus(a.total_currency.chunk()).plus(a.curr_global_slot.chunk()).plus(a.global_slot_since_genesis.chunk()).plus(bit(a.has_ancestor_in_same_checkpoint_window)).plus(bit(a.supercharge_coinbase)).plus(a.staking_epoch_data.chunk()).plus(a.next_epoch_data.chunk()).plus(key(a.block_stake_winner)).plus(key(a.block_creator)), key(a.coinbase_receiver), densities(b).plus(b.last_vrf_output.chunk()).plus(b.total_currency.chunk()).plus(b.curr_global_slot.chunk()).plus(b.global_slot_since_genesis.chunk()).plus(bit(b.has_ancestor_in_same_checkpoint_window)).plus(bit(b.supercharge_coinbase)).plus(b.staking_epoch_data.chunk()).plus(b.next_epoch_data.chunk()).plus(key(b.block_stake_winner)).plus(key(b.block_creator)), key(b.coinbase_receiver));
    plus_inj(densities(a).plus(a.last_vrf_output.chunk()).plus(a.total_currency.chunk()).plus(a.curr_global_slot.chunk()).plus(a.global_slot_since_genesis.chunk()).plus(bit(a.has_ancestor_in_same_checkpoint_window)).plus(bit(a.supercharge_coinbase)).plus(a.staking_epoch_data.chunk()).plus(a.next_epoch_data.chunk()).plus(key(a.block_stake_winner)), key(a.block_creator), densities(b).plus(b.last_vrf_output.chunk()).plus(b.total_currency.chunk()).plus(b.curr_global_slot.chunk()).plus(b.global_slot_since_genesis.chunk()).plus(bit(b.has_ancestor_in_same_checkpoint_window)).plus(bit(b.supercharge_coinbase)).plus(b.staking_epoch_data.chunk()).plus(b.next_epoch_data.chunk()).plus(key(b.block_stake_winner)), key(b.block_creator));
    plus_inj(densities(a).plus(a.last_vrf_output.chunk()).plus(a.total_currency.chunk()).plus(a.curr_global_slot.chunk()).plus(a.global_slot_since_genesis.chunk()).plus(bit(a.has_ancestor_in_same_checkpoint_window)).plus(bit(a.supercharge_coinbase)).plus(a.staking_epoch_data.chunk()).plus(a.next_epoch_data.chunk()), key(a.block_stake_winner), densities(b).plus(b.last_vrf_output.chunk()).plus(b.total_currency.chunk()).plus(b.curr_global_slot.chunk()).plus(b.global_slot_since_genesis.chunk()).plus(bit(b.has_ancestor_in_same_checkpoint_window)).plus(bit(b.supercharge_coinbase)).plus(b.staking_epoch_data.chunk()).plus(b.next_epoch_data.chunk()), key(b.block_stake_winner));
    plus_inj(densities(a).plus(a.last_vrf_output.chunk()).plus(a.total_currency.chunk()).plus(a.curr_global_slot.chunk()).plus(a.global_slot_since_genesis.chunk()).plus(bit(a.has_ancestor_in_same_checkpoint_window)).plus(bit(a.supercharge_coinbase)).plus(a.staking_epoch_data.chunk()), a.next_epoch_data.chunk(), densities(b).plus(b.last_vrf_output.chunk()).plus(b.total_currency.chunk()).plus(b.curr_global_slot.chunk()).plus(b.global_slot_since_genesis.chunk()).plus(bit(b.has_ancestor_in_same_checkpoint_window)).plus(bit(b.supercharge_coinbase)).plus(b.staking_epoch_data.chunk()), b.next_epoch_data.chunk());
    plus_inj(densities(a).plus(a.last_vrf_output.chunk()).plus(a.total_currency.chunk()).plus(a.curr_global_slot.chunk()).plus(a.global_slot_since_genesis.chunk()).plus(bit(a.has_ancestor_in_same_checkpoint_window)).plus(bit(a.supercharge_coinbase)), a.staking_epoch_data.chunk(), densities(b).plus(b.last_vrf_output.chunk()).plus(b.total_currency.chunk()).plus(b.curr_global_slot.chunk()).plus(b.global_slot_since_genesis.chunk()).plus(bit(b.has_ancestor_in_same_checkpoint_window)).plus(bit(b.supercharge_coinbase)), b.staking_epoch_data.chunk());
    plus_inj(densities(a).plus(a.last_vrf_output.chunk()).plus(a.total_currency.chunk()).plus(a.curr_global_slot.chunk()).plus(a.global_slot_since_genesis.chunk()).plus(bit(a.has_ancestor_in_same_checkpoint_window)), bit(a.supercharge_coinbase), densities(b).plus(b.last_vrf_output.chunk()).plus(b.total_currency.chunk()).plus(b.curr_global_slot.chunk()).plus(b.global_slot_since_genesis.chunk()).plus(bit(b.has_ancestor_in_same_checkpoint_window)), bit(b.supercharge_coinbase));
    plus_inj(densities(a).plus(a.last_vrf_output.chunk()).plus(a.total_currency.chunk()).plus(a.curr_global_slot.chunk()).plus(a.global_slot_since_genesis.chunk()), bit(a.has_ancestor_in_same_checkpoint_window), densities(b).plus(b.last_vrf_output.chunk()).plus(b.total_currency.chunk()).plus(b.curr_global_slot.chunk()).plus(b.global_slot_since_genesis.chunk()), bit(b.has_ancestor_in_same_checkpoint_window));
    plus_inj(densities(a).plus(a.last_vrf_output.chunk()).plus(a.total_currency.chunk()).plus(a.curr_global_slot.chunk()), a.global_slot_since_genesis.chunk(), densities(b).plus(b.last_vrf_output.chunk()).plus(b.total_currency.chunk()).plus(b.curr_global_slot.chunk()), b.global_slot_since_genesis.chunk());
    plus_inj(densities(a).plus(a.last_vrf_output.chunk()).plus(a.total_currency.chunk()), a.curr_global_slot.chunk(), densities(b).plus(b.last_vrf_output.chunk()).plus(b.total_currency.chunk()), b.curr_global_slot.chunk());
    plus_inj(densities(a).plus(a.last_vrf_output.chunk()), a.total_currency.chunk(), densities(b).plus(b.last_vrf_output.chunk()), b.total_currency.chunk());
    plus_inj(densities(a), a.last_vrf_output.chunk(), densities(b), b.last_vrf_output.chunk());
    inj_vrfoutputtruncated(a.last_vrf_output, b.last_vrf_output);
    inj_amount(a.total_currency, b.total_currency);
    inj_globalslot(a.curr_global_slot, b.curr_global_slot);
    inj_globalslotnumber(a.global_slot_since_genesis, b.global_slot_since_genesis);
    bit_one(a.has_ancestor_in_same_checkpoint_window, b.has_ancestor_in_same_checkpoint_window);
    bit_one(a.supercharge_coinbase, b.supercharge_coinbase);
    inj_epochdata(a.staking_epoch_data, b.staking_epoch_data);
    inj_epochdata(a.next_epoch_data, b.next_epoch_data);
    key_one(a.block_stake_winner, b.block_stake_winner);
    key_one(a.block_creator, b.block_creator);
    key_one(a.coinbase_receiver, b.coinbase_receiver);
    inj_start_consensusstate(a, b);
}
pub proof fn rlens_sh(s: Seq<Length>, t: Seq<Length>, c: Ro, d: Ro) requires s.len() == t.len(), rsame_sh(c, d) ensures rsame_sh(rlens(s, c), rlens(t, d)) decreases s.len() { broadcast use rshapes; if s.len() > 0 { rlens_sh(s.drop_last(), t.drop_last(), c, d); rsh_length(s.last(), t.last()); assert(rsame_sh(rlens(s.drop_last(), c).plus(s.last().ro()), rlens(t.drop_last(), d).plus(t.last().ro()))); } }
pub proof fn rlens_inj(s: Seq<Length>, t: Seq<Length>, c: Ro, d: Ro) requires s.len() == t.len(), rlens(s, c) == rlens(t, d) ensures s == t, c == d decreases s.len() { if s.len() > 0 { rsh_length(s.last(), t.last()); rplus_inj(rlens(s.drop_last(), c), s.last().ro(), rlens(t.drop_last(), d), t.last().ro()); rinj_length(s.last(), t.last()); rlens_inj(s.drop_last(), t.drop_last(), c, d); assert(s =~= s.drop_last().push(s.last())); assert(t =~= t.drop_last().push(t.last())); } else { assert(s =~= t); } }
pub open spec fn rdensities(s: ConsensusState) -> Ro { rlens(s.sub_window_densities@, rnone().plus(s.blockchain_length.ro()).plus(s.epoch_count.ro()).plus(s.min_window_density.ro())) }
pub proof fn rinj_start_consensusstate(a: ConsensusState, b: ConsensusState) requires a.sub_window_densities@.len() == b.sub_window_densities@.len(), rdensities(a) == rdensities(b) ensures a.blockchain_length == b.blockchain_length && a.epoch_count == b.epoch_count && a.min_window_density == b.min_window_density && a.sub_window_densities@ == b.sub_window_densities@ { broadcast use rshapes; rsh_length(a.blockchain_length, b.blockchain_length); rsh_length(a.epoch_count, b.epoch_count); rsh_length(a.min_window_density, b.min_window_density); rlens_inj(a.sub_window_densities@, b.sub_window_densities@, rnone().plus(a.blockchain_length.ro()).plus(a.epoch_count.ro()).plus(a.min_window_density.ro()), rnone().plus(b.blockchain_length.ro()).plus(b.epoch_count.ro()).plus(b.min_window_density.ro()));rplus_inj(rnone().plus(a.blockchain_length.ro()).plus(a.epoch_count.ro()), a.min_window_density.ro(), rnone().plus(b.blockchain_length.ro()).plus(b.epoch_count.ro()), b.min_window_density.ro()); rplus_inj(rnone().plus(a.blockchain_length.ro()), a.epoch_count.ro(), rnone().plus(b.blockchain_length.ro()), b.epoch_count.ro()); rplus_inj(rnone(), a.blockchain_length.ro(), rnone(), b.blockchain_length.ro());rinj_length(a.blockchain_length, b.blockchain_length); rinj_length(a.epoch_count, b.epoch_count); rinj_length(a.min_window_density, b.min_window_density); }
pub open spec fn rlen_consensusstate(a: ConsensusState, b: ConsensusState) -> bool { a.sub_window_densities@.len() == b.sub_window_densities@.len() && rlen_vrfoutputtruncated(a.last_vrf_output, b.last_vrf_output) && rlen_amount(a.total_currency, b.total_currency) && rlen_globalslot(a.curr_global_slot, b.curr_global_slot) && rlen_globalslotnumber(a.global_slot_since_genesis, b.global_slot_since_genesis) && rlen_epochdata(a.staking_epoch_data, b.staking_epoch_data) && rlen_epochdata(a.next_epoch_data, b.next_epoch_data) }
pub proof fn rsh_consensusstate(a: ConsensusState, b: ConsensusState) requires rlen_consensusstate(a, b) ensures rsame_sh(a.ro(), b.ro()) { rsh_none0(); rsh_length(a.blockchain_length, b.blockchain_length); rsh_plus(rnone(), a.blockchain_length.ro(), rnone(), b.blockchain_length.ro()); rsh_length(a.epoch_count, b.epoch_count); rsh_plus(rnone().plus(a.blockchain_length.ro()), a.epoch_count.ro(), rnone().plus(b.blockchain_length.ro()), b.epoch_count.ro()); rsh_length(a.min_window_density, b.min_window_density); rsh_plus(rnone().plus(a.blockchain_length.ro()).plus(a.epoch_count.ro()), a.min_window_density.ro(), rnone().plus(b.blockchain_length.ro()).plus(b.epoch_count.ro()), b.min_window_density.ro()); rlens_sh(a.sub_window_densities@, b.sub_window_densities@, rnone().plus(a.blockchain_length.ro()).plus(a.epoch_count.ro()).plus(a.min_window_density.ro()), rnone().plus(b.blockchain_length.ro()).plus(b.epoch_count.ro()).plus(b.min_window_density.ro())); rsh_vrfoutputtruncated(a.last_vrf_output, b.last_vrf_output); rsh_plus(rdensities(a), a.last_vrf_output.ro(), rdensities(b), b.last_vrf_output.ro()); rsh_amount(a.total_currency, b.total_currency); rsh_plus(rdensities(a).plus(a.last_vrf_output.ro()), a.total_currency.ro(), rdensities(b).plus(b.last_vrf_output.ro()), b.total_currency.ro()); rsh_globalslot(a.curr_global_slot, b.curr_global_slot); rsh_plus(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()), a.curr_global_slot.ro(), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()), b.curr_global_slot.ro()); rsh_globalslotnumber(a.global_slot_since_genesis, b.global_slot_since_genesis); rsh_plus(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()), a.global_slot_since_genesis.ro(), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()), b.global_slot_since_genesis.ro()); rsh_bit(a.has_ancestor_in_same_checkpoint_window, b.has_ancestor_in_same_checkpoint_window); rsh_plus(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()).plus(a.global_slot_since_genesis.ro()), rbit(a.has_ancestor_in_same_checkpoint_window), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()).plus(b.global_slot_since_genesis.ro()), rbit(b.has_ancestor_in_same_checkpoint_window)); rsh_bit(a.supercharge_coinbase, b.supercharge_coinbase); rsh_plus(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()).plus(a.global_slot_since_genesis.ro()).plus(rbit(a.has_ancestor_in_same_checkpoint_window)), rbit(a.supercharge_coinbase), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()).plus(b.global_slot_since_genesis.ro()).plus(rbit(b.has_ancestor_in_same_checkpoint_window)), rbit(b.supercharge_coinbase)); rsh_epochdata(a.staking_epoch_data, b.staking_epoch_data); rsh_plus(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()).plus(a.global_slot_since_genesis.ro()).plus(rbit(a.has_ancestor_in_same_checkpoint_window)).plus(rbit(a.supercharge_coinbase)), a.staking_epoch_data.ro(), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()).plus(b.global_slot_since_genesis.ro()).plus(rbit(b.has_ancestor_in_same_checkpoint_window)).plus(rbit(b.supercharge_coinbase)), b.staking_epoch_data.ro()); rsh_epochdata(a.next_epoch_data, b.next_epoch_data); rsh_plus(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()).plus(a.global_slot_since_genesis.ro()).plus(rbit(a.has_ancestor_in_same_checkpoint_window)).plus(rbit(a.supercharge_coinbase)).plus(a.staking_epoch_data.ro()), a.next_epoch_data.ro(), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()).plus(b.global_slot_since_genesis.ro()).plus(rbit(b.has_ancestor_in_same_checkpoint_window)).plus(rbit(b.supercharge_coinbase)).plus(b.staking_epoch_data.ro()), b.next_epoch_data.ro()); rsh_fld(a.block_stake_winner.x, b.block_stake_winner.x); rsh_plus(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()).plus(a.global_slot_since_genesis.ro()).plus(rbit(a.has_ancestor_in_same_checkpoint_window)).plus(rbit(a.supercharge_coinbase)).plus(a.staking_epoch_data.ro()).plus(a.next_epoch_data.ro()), rfld(a.block_stake_winner.x), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()).plus(b.global_slot_since_genesis.ro()).plus(rbit(b.has_ancestor_in_same_checkpoint_window)).plus(rbit(b.supercharge_coinbase)).plus(b.staking_epoch_data.ro()).plus(b.next_epoch_data.ro()), rfld(b.block_stake_winner.x)); rsh_bit(a.block_stake_winner.is_odd, b.block_stake_winner.is_odd); rsh_plus(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()).plus(a.global_slot_since_genesis.ro()).plus(rbit(a.has_ancestor_in_same_checkpoint_window)).plus(rbit(a.supercharge_coinbase)).plus(a.staking_epoch_data.ro()).plus(a.next_epoch_data.ro()).plus(rfld(a.block_stake_winner.x)), rbit(a.block_stake_winner.is_odd), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()).plus(b.global_slot_since_genesis.ro()).plus(rbit(b.has_ancestor_in_same_checkpoint_window)).plus(rbit(b.supercharge_coinbase)).plus(b.staking_epoch_data.ro()).plus(b.next_epoch_data.ro()).plus(rfld(b.block_stake_winner.x)), rbit(b.block_stake_winner.is_odd)); rsh_fld(a.block_creator.x, b.block_creator.x); rsh_plus(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()).plus(a.global_slot_since_genesis.ro()).plus(rbit(a.has_ancestor_in_same_checkpoint_window)).plus(rbit(a.supercharge_coinbase)).plus(a.staking_epoch_data.ro()).plus(a.next_epoch_data.ro()).plus(rfld(a.block_stake_winner.x)).plus(rbit(a.block_stake_winner.is_odd)), rfld(a.block_creator.x), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()).plus(b.global_slot_since_genesis.ro()).plus(rbit(b.has_ancestor_in_same_checkpoint_window)).plus(rbit(b.supercharge_coinbase)).plus(b.staking_epoch_data.ro()).plus(b.next_epoch_data.ro()).plus(rfld(b.block_stake_winner.x)).plus(rbit(b.block_stake_winner.is_odd)), rfld(b.block_creator.x)); rsh_bit(a.block_creator.is_odd, b.block_creator.is_odd); rsh_plus(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()).plus(a.global_slot_since_genesis.ro()).plus(rbit(a.has_ancestor_in_same_checkpoint_window)).plus(rbit(a.supercharge_coinbase)).plus(a.staking_epoch_data.ro()).plus(a.next_epoch_data.ro()).plus(rfld(a.block_stake_winner.x)).plus(rbit(a.block_stake_winner.is_odd)).plus(rfld(a.block_creator.x)), rbit(a.block_creator.is_odd), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()).plus(b.global_slot_since_genesis.ro()).plus(rbit(b.has_ancestor_in_same_checkpoint_window)).plus(rbit(b.supercharge_coinbase)).plus(b.staking_epoch_data.ro()).plus(b.next_epoch_data.ro()).plus(rfld(b.block_stake_winner.x)).plus(rbit(b.block_stake_winner.is_odd)).plus(rfld(b.block_creator.x)), rbit(b.block_creator.is_odd)); rsh_fld(a.coinbase_receiver.x, b.coinbase_receiver.x); rsh_plus(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()).plus(a.global_slot_since_genesis.ro()).plus(rbit(a.has_ancestor_in_same_checkpoint_window)).plus(rbit(a.supercharge_coinbase)).plus(a.staking_epoch_data.ro()).plus(a.next_epoch_data.ro()).plus(rfld(a.block_stake_winner.x)).plus(rbit(a.block_stake_winner.is_odd)).plus(rfld(a.block_creator.x)).plus(rbit(a.block_creator.is_odd)), rfld(a.coinbase_receiver.x), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()).plus(b.global_slot_since_genesis.ro()).plus(rbit(b.has_ancestor_in_same_checkpoint_window)).plus(rbit(b.supercharge_coinbase)).plus(b.staking_epoch_data.ro()).plus(b.next_epoch_data.ro()).plus(rfld(b.block_stake_winner.x)).plus(rbit(b.block_stake_winner.is_odd)).plus(rfld(b.block_creator.x)).plus(rbit(b.block_creator.is_odd)), rfld(b.coinbase_receiver.x)); rsh_bit(a.coinbase_receiver.is_odd, b.coinbase_receiver.is_odd); rsh_plus(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()).plus(a.global_slot_since_genesis.ro()).plus(rbit(a.has_ancestor_in_same_checkpoint_window)).plus(rbit(a.supercharge_coinbase)).plus(a.staking_epoch_data.ro()).plus(a.next_epoch_data.ro()).plus(rfld(a.block_stake_winner.x)).plus(rbit(a.block_stake_winner.is_odd)).plus(rfld(a.block_creator.x)).plus(rbit(a.block_creator.is_odd)).plus(rfld(a.coinbase_receiver.x)), rbit(a.coinbase_receiver.is_odd), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()).plus(b.global_slot_since_genesis.ro()).plus(rbit(b.has_ancestor_in_same_checkpoint_window)).plus(rbit(b.supercharge_coinbase)).plus(b.staking_epoch_data.ro()).plus(b.next_epoch_data.ro()).plus(rfld(b.block_stake_winner.x)).plus(rbit(b.block_stake_winner.is_odd)).plus(rfld(b.block_creator.x)).plus(rbit(b.block_creator.is_odd)).plus(rfld(b.coinbase_receiver.x)), rbit(b.coinbase_receiver.is_odd)); }
pub proof fn rinj_consensusstate(a: ConsensusState, b: ConsensusState) requires a.ro_ok(), b.ro_ok(), rlen_consensusstate(a, b), a.ro() == b.ro() ensures same_consensusstate(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); rsh_none0(); rsh_length(a.blockchain_length, b.blockchain_length); rsh_plus(rnone(), a.blockchain_length.ro(), rnone(), b.blockchain_length.ro()); rsh_length(a.epoch_count, b.epoch_count); rsh_plus(rnone().plus(a.blockchain_length.ro()), a.epoch_count.ro(), rnone().plus(b.blockchain_length.ro()), b.epoch_count.ro()); rsh_length(a.min_window_density, b.min_window_density); rsh_plus(rnone().plus(a.blockchain_length.ro()).plus(a.epoch_count.ro()), a.min_window_density.ro(), rnone().plus(b.blockchain_length.ro()).plus(b.epoch_count.ro()), b.min_window_density.ro()); rlens_sh(a.sub_window_densities@, b.sub_window_densities@, rnone().plus(a.blockchain_length.ro()).plus(a.epoch_count.ro()).plus(a.min_window_density.ro()), rnone().plus(b.blockchain_length.ro()).plus(b.epoch_count.ro()).plus(b.min_window_density.ro())); rsh_vrfoutputtruncated(a.last_vrf_output, b.last_vrf_output); rsh_plus(rdensities(a), a.last_vrf_output.ro(), rdensities(b), b.last_vrf_output.ro()); rsh_amount(a.total_currency, b.total_currency); rsh_plus(rdensities(a).plus(a.last_vrf_output.ro()), a.total_currency.ro(), rdensities(b).plus(b.last_vrf_output.ro()), b.total_currency.ro()); rsh_globalslot(a.curr_global_slot, b.curr_global_slot); rsh_plus(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()), a.curr_global_slot.ro(), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()), b.curr_global_slot.ro()); rsh_globalslotnumber(a.global_slot_since_genesis, b.global_slot_since_genesis); rsh_plus(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()), a.global_slot_since_genesis.ro(), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()), b.global_slot_since_genesis.ro()); rsh_bit(a.has_ancestor_in_same_checkpoint_window, b.has_ancestor_in_same_checkpoint_window); rsh_plus(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()).plus(a.global_slot_since_genesis.ro()), rbit(a.has_ancestor_in_same_checkpoint_window), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()).plus(b.global_slot_since_genesis.ro()), rbit(b.has_ancestor_in_same_checkpoint_window)); rsh_bit(a.supercharge_coinbase, b.supercharge_coinbase); rsh_plus(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()).plus(a.global_slot_since_genesis.ro()).plus(rbit(a.has_ancestor_in_same_checkpoint_window)), rbit(a.supercharge_coinbase), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()).plus(b.global_slot_since_genesis.ro()).plus(rbit(b.has_ancestor_in_same_checkpoint_window)), rbit(b.supercharge_coinbase)); rsh_epochdata(a.staking_epoch_data, b.staking_epoch_data); rsh_plus(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()).plus(a.global_slot_since_genesis.ro()).plus(rbit(a.has_ancestor_in_same_checkpoint_window)).plus(rbit(a.supercharge_coinbase)), a.staking_epoch_data.ro(), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()).plus(b.global_slot_since_genesis.ro()).plus(rbit(b.has_ancestor_in_same_checkpoint_window)).plus(rbit(b.supercharge_coinbase)), b.staking_epoch_data.ro()); rsh_epochdata(a.next_epoch_data, b.next_epoch_data); rsh_plus(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()).plus(a.global_slot_since_genesis.ro()).plus(rbit(a.has_ancestor_in_same_checkpoint_window)).plus(rbit(a.supercharge_coinbase)).plus(a.staking_epoch_data.ro()), a.next_epoch_data.ro(), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()).plus(b.global_slot_since_genesis.ro()).plus(rbit(b.has_ancestor_in_same_checkpoint_window)).plus(rbit(b.supercharge_coinbase)).plus(b.staking_epoch_data.ro()), b.next_epoch_data.ro()); rsh_fld(a.block_stake_winner.x, b.block_stake_winner.x); rsh_plus(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()).plus(a.global_slot_since_genesis.ro()).plus(rbit(a.has_ancestor_in_same_checkpoint_window)).plus(rbit(a.supercharge_coinbase)).plus(a.staking_epoch_data.ro()).plus(a.next_epoch_data.ro()), rfld(a.block_stake_winner.x), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()).plus(b.global_slot_since_genesis.ro()).plus(rbit(b.has_ancestor_in_same_checkpoint_window)).plus(rbit(b.supercharge_coinbase)).plus(b.staking_epoch_data.ro()).plus(b.next_epoch_data.ro()), rfld(b.block_stake_winner.x)); rsh_bit(a.block_stake_winner.is_odd, b.block_stake_winner.is_odd); rsh_plus(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()).plus(a.global_slot_since_genesis.ro()).plus(rbit(a.has_ancestor_in_same_checkpoint_window)).plus(rbit(a.supercharge_coinbase)).plus(a.staking_epoch_data.ro()).plus(a.next_epoch_data.ro()).plus(rfld(a.block_stake_winner.x)), rbit(a.block_stake_winner.is_odd), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()).plus(b.global_slot_since_genesis.ro()).plus(rbit(b.has_ancestor_in_same_checkpoint_window)).plus(rbit(b.supercharge_coinbase)).plus(b.staking_epoch_data.ro()).plus(b.next_epoch_data.ro()).plus(rfld(b.block_stake_winner.x)), rbit(b.block_stake_winner.is_odd)); rsh_fld(a.block_creator.x, b.block_creator.x); rsh_plus(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()).plus(a.global_slot_since_genesis.ro()).plus(rbit(a.has_ancestor_in_same_checkpoint_window)).plus(rbit(a.supercharge_coinbase)).plus(a.staking_epoch_data.ro()).plus(a.next_epoch_data.ro()).plus(rfld(a.block_stake_winner.x)).plus(rbit(a.block_stake_winner.is_odd)), rfld(a.block_creator.x), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()).plus(b.global_slot_since_genesis.ro()).plus(rbit(b.has_ancestor_in_same_checkpoint_window)).plus(rbit(b.supercharge_coinbase)).plus(b.staking_epoch_data.ro()).plus(b.next_epoch_data.ro()).plus(rfld(b.block_stake_winner.x)).plus(rbit(b.block_stake_winner.is_odd)), rfld(b.block_creator.x)); rsh_bit(a.block_creator.is_odd, b.block_creator.is_odd); rsh_plus(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()).plus(a.global_slot_since_genesis.ro()).plus(rbit(a.has_ancestor_in_same_checkpoint_window)).plus(rbit(a.supercharge_coinbase)).plus(a.staking_epoch_data.ro()).plus(a.next_epoch_data.ro()).plus(rfld(a.block_stake_winner.x)).plus(rbit(a.block_stake_winner.is_odd)).plus(rfld(a.block_creator.x)), rbit(a.block_creator.is_odd), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()).plus(b.global_slot_since_genesis.ro()).plus(rbit(b.has_ancestor_in_same_checkpoint_window)).plus(rbit(b.supercharge_coinbase)).plus(b.staking_epoch_data.ro()).plus(b.next_epoch_data.ro()).plus(rfld(b.block_stake_winner.x)).plus(rbit(b.block_stake_winner.is_odd)).plus(rfld(b.block_creator.x)), rbit(b.block_creator.is_odd)); rsh_fld(a.coinbase_receiver.x, b.coinbase_receiver.x); rsh_plus(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()).plus(a.global_slot_since_genesis.ro()).plus(rbit(a.has_ancestor_in_same_checkpoint_window)).plus(rbit(a.supercharge_coinbase)).plus(a.staking_epoch_data.ro()).plus(a.next_epoch_data.ro()).plus(rfld(a.block_stake_winner.x)).plus(rbit(a.block_stake_winner.is_odd)).plus(rfld(a.block_creator.x)).plus(rbit(a.block_creator.is_odd)), rfld(a.coinbase_receiver.x), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()).plus(b.global_slot_since_genesis.ro()).plus(rbit(b.has_ancestor_in_same_checkpoint_window)).plus(rbit(b.supercharge_coinbase)).plus(b.staking_epoch_data.ro()).plus(b.next_epoch_data.ro()).plus(rfld(b.block_stake_winner.x)).plus(rbit(b.block_stake_winner.is_odd)).plus(rfld(b.block_creator.x)).plus(rbit(b.block_creator.is_odd)), rfld(b.coinbase_receiver.x)); rsh_bit(a.coinbase_receiver.is_odd, b.coinbase_receiver.is_odd); rsh_plus(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()).plus(a.global_slot_since_genesis.ro()).plus(rbit(a.has_ancestor_in_same_checkpoint_window)).plus(rbit(a.supercharge_coinbase)).plus(a.staking_epoch_data.ro()).plus(a.next_epoch_data.ro()).plus(rfld(a.block_stake_winner.x)).plus(rbit(a.block_stake_winner.is_odd)).plus(rfld(a.block_creator.x)).plus(rbit(a.block_creator.is_odd)).plus(rfld(a.coinbase_receiver.x)), rbit(a.coinbase_receiver.is_odd), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()).plus(b.global_slot_since_genesis.ro()).plus(rbit(b.has_ancestor_in_same_checkpoint_window)).plus(rbit(b.supercharge_coinbase)).plus(b.staking_epoch_data.ro()).plus(b.next_epoch_data.ro()).plus(rfld(b.block_stake_winner.x)).plus(rbit(b.block_stake_winner.is_odd)).plus(rfld(b.block_creator.x)).plus(rbit(b.block_creator.is_odd)).plus(rfld(b.coinbase_receiver.x)), rbit(b.coinbase_receiver.is_odd));
    rplus_inj(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()).plus(a.global_slot_since_genesis.ro()).plus(rbit(a.has_ancestor_in_same_checkpoint_window)).plus(rbit(a.supercharge_coinbase)).plus(a.staking_epoch_data.ro()).plus(a.next_epoch_data.ro()).plus(rfld(a.block_stake_winner.x)).plus(rbit(a.block_stake_winner.is_odd)).plus(rfld(a.block_creator.x)).plus(rbit(a.block_creator.is_odd)).plus(rfld(a.coinbase_receiver.x)), rbit(a.coinbase_receiver.is_odd), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()).plus(b.global_slot_since_genesis.ro()).plus(rbit(b.has_ancestor_in_same_checkpoint_window)).plus(rbit(b.supercharge_coinbase)).plus(b.staking_epoch_data.ro()).plus(b.next_epoch_data.ro()).plus(rfld(b.block_stake_winner.x)).plus(rbit(b.block_stake_winner.is_odd)).plus(rfld(b.block_creator.x)).plus(rbit(b.block_creator.is_odd)).plus(rfld(b.coinbase_receiver.x)), rbit(b.coinbase_receiver.is_odd));
    rplus_inj(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()).plus(a.global_slot_since_genesis.ro()).plus(rbit(a.has_ancestor_in_same_checkpoint_window)).plus(rbit(a.supercharge_coinbase)).plus(a.staking_epoch_data.ro()).plus(a.next_epoch_data.ro()).plus(rfld(a.block_stake_winner.x)).plus(rbit(a.block_stake_winner.is_odd)).plus(rfld(a.block_creator.x)).plus(rbit(a.block_creator.is_odd)), rfld(a.coinbase_receiver.x), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()).plus(b.global_slot_since_genesis.ro()).plus(rbit(b.has_ancestor_in_same_checkpoint_window)).plus(rbit(b.supercharge_coinbase)).plus(b.staking_epoch_data.ro()).plus(b.next_epoch_data.ro()).plus(rfld(b.block_stake_winner.x)).plus(rbit(b.block_stake_winner.is_odd)).plus(rfld(b.block_creator.x)).plus(rbit(b.block_creator.is_odd)), rfld(b.coinbase_receiver.x));
    rplus_inj(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()).plus(a.global_slot_since_genesis.ro()).plus(rbit(a.has_ancestor_in_same_checkpoint_window)).plus(rbit(a.supercharge_coinbase)).plus(a.staking_epoch_data.ro()).plus(a.next_epoch_data.ro()).plus(rfld(a.block_stake_winner.x)).plus(rbit(a.block_stake_winner.is_odd)).plus(rfld(a.block_creator.x)), rbit(a.block_creator.is_odd), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()).plus(b.global_slot_since_genesis.ro()).plus(rbit(b.has_ancestor_in_same_checkpoint_window)).plus(rbit(b.supercharge_coinbase)).plus(b.staking_epoch_data.ro()).plus(b.next_epoch_data.ro()).plus(rfld(b.block_stake_winner.x)).plus(rbit(b.block_stake_winner.is_odd)).plus(rfld(b.block_creator.x)), rbit(b.block_creator.is_odd));
    rplus_inj(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()).plus(a.global_slot_since_genesis.ro()).plus(rbit(a.has_ancestor_in_same_checkpoint_window)).plus(rbit(a.supercharge_coinbase)).plus(a.staking_epoch_data.ro()).plus(a.next_epoch_data.ro()).plus(rfld(a.block_stake_winner.x)).plus(rbit(a.block_stake_winner.is_odd)), rfld(a.block_creator.x), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()).plus(b.global_slot_since_genesis.ro()).plus(rbit(b.has_ancestor_in_same_checkpoint_window)).plus(rbit(b.supercharge_coinbase)).plus(b.staking_epoch_data.ro()).plus(b.next_epoch_data.ro()).plus(rfld(b.block_stake_winner.x)).plus(rbit(b.block_stake_winner.is_odd)), rfld(b.block_creator.x));
    rplus_inj(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()).plus(a.global_slot_since_genesis.ro()).plus(rbit(a.has_ancestor_in_same_checkpoint_window)).plus(rbit(a.supercharge_coinbase)).plus(a.staking_epoch_data.ro()).plus(a.next_epoch_data.ro()).plus(rfld(a.block_stake_winner.x)), rbit(a.block_stake_winner.is_odd), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()).plus(b.global_slot_since_genesis.ro()).plus(rbit(b.has_ancestor_in_same_checkpoint_window)).plus(rbit(b.supercharge_coinbase)).plus(b.staking_epoch_data.ro()).plus(b.next_epoch_data.ro()).plus(rfld(b.block_stake_winner.x)), rbit(b.block_stake_winner.is_odd));
    rplus_inj(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()).plus(a.global_slot_since_genesis.ro()).plus(rbit(a.has_ancestor_in_same_checkpoint_window)).plus(rbit(a.supercharge_coinbase)).plus(a.staking_epoch_data.ro()).plus(a.next_epoch_data.ro()), rfld(a.block_stake_winner.x), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()).plus(b.global_slot_since_genesis.ro()).plus(rbit(b.has_ancestor_in_same_checkpoint_window)).plus(rbit(b.supercharge_coinbase)).plus(b.staking_epoch_data.ro()).plus(b.next_epoch_data.ro()), rfld(b.block_stake_winner.x));
    rplus_inj(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()).plus(a.global_slot_since_genesis.ro()).plus(rbit(a.has_ancestor_in_same_checkpoint_window)).plus(rbit(a.supercharge_coinbase)).plus(a.staking_epoch_data.ro()), a.next_epoch_data.ro(), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()).plus(b.global_slot_since_genesis.ro()).plus(rbit(b.has_ancestor_in_same_checkpoint_window)).plus(rbit(b.supercharge_coinbase)).plus(b.staking_epoch_data.ro()), b.next_epoch_data.ro());
    rplus_inj(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()).plus(a.global_slot_since_genesis.ro()).plus(rbit(a.has_ancestor_in_same_checkpoint_window)).plus(rbit(a.supercharge_coinbase)), a.staking_epoch_data.ro(), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()).plus(b.global_slot_since_genesis.ro()).plus(rbit(b.has_ancestor_in_same_checkpoint_window)).plus(rbit(b.supercharge_coinbase)), b.staking_epoch_data.ro());
    rplus_inj(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()).plus(a.global_slot_since_genesis.ro()).plus(rbit(a.has_ancestor_in_same_checkpoint_window)), rbit(a.supercharge_coinbase), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()).plus(b.global_slot_since_genesis.ro()).plus(rbit(b.has_ancestor_in_same_checkpoint_window)), rbit(b.supercharge_coinbase));
    rplus_inj(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()).plus(a.global_slot_since_genesis.ro()), rbit(a.has_ancestor_in_same_checkpoint_window), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()).plus(b.global_slot_since_genesis.ro()), rbit(b.has_ancestor_in_same_checkpoint_window));
    rplus_inj(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()).plus(a.curr_global_slot.ro()), a.global_slot_since_genesis.ro(), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()).plus(b.curr_global_slot.ro()), b.global_slot_since_genesis.ro());
    rplus_inj(rdensities(a).plus(a.last_vrf_output.ro()).plus(a.total_currency.ro()), a.curr_global_slot.ro(), rdensities(b).plus(b.last_vrf_output.ro()).plus(b.total_currency.ro()), b.curr_global_slot.ro());
    rplus_inj(rdensities(a).plus(a.last_vrf_output.ro()), a.total_currency.ro(), rdensities(b).plus(b.last_vrf_output.ro()), b.total_currency.ro());
    rplus_inj(rdensities(a), a.last_vrf_output.ro(), rdensities(b), b.last_vrf_output.ro());
    rinj_vrfoutputtruncated(a.last_vrf_output, b.last_vrf_output);
    rinj_amount(a.total_currency, b.total_currency);
    rinj_globalslot(a.curr_global_slot, b.curr_global_slot);
    rinj_globalslotnumber(a.global_slot_since_genesis, b.global_slot_since_genesis);
    rbit_one(a.has_ancestor_in_same_checkpoint_window, b.has_ancestor_in_same_checkpoint_window);
    rbit_one(a.supercharge_coinbase, b.supercharge_coinbase);
    rinj_epochdata(a.staking_epoch_data, b.staking_epoch_data);
    rinj_epochdata(a.next_epoch_data, b.next_epoch_data);
    rfld_one(a.block_stake_winner.x, b.block_stake_winner.x);
    rbit_one(a.block_stake_winner.is_odd, b.block_stake_winner.is_odd);
    rfld_one(a.block_creator.x, b.block_creator.x);
    rbit_one(a.block_creator.is_odd, b.block_creator.is_odd);
    rfld_one(a.coinbase_receiver.x, b.coinbase_receiver.x);
    rbit_one(a.coinbase_receiver.is_odd, b.coinbase_receiver.is_odd);
    rinj_start_consensusstate(a, b);
}
pub open spec fn rlen_protocolstatebodylegacy(a: ProtocolStateBodyLegacy, b: ProtocolStateBodyLegacy) -> bool { true && rlen_protocolconstants(a.constants, b.constants) && rlen_statehash(a.genesis_state_hash, b.genesis_state_hash) && rlen_blockchainstatelegacy(a.blockchain_state, b.blockchain_state) && rlen_consensusstate(a.consensus_state, b.consensus_state) }
pub open spec fn same_protocolstatebodylegacy(a: ProtocolStateBodyLegacy, b: ProtocolStateBodyLegacy) -> bool { same_protocolconstants(a.constants, b.constants) && same_statehash(a.genesis_state_hash, b.genesis_state_hash) && same_blockchainstatelegacy(a.blockchain_state, b.blockchain_state) && same_consensusstate(a.consensus_state, b.consensus_state) }
pub proof fn rsh_protocolstatebodylegacy(a: ProtocolStateBodyLegacy, b: ProtocolStateBodyLegacy) requires rlen_protocolstatebodylegacy(a, b) ensures rsame_sh(a.ro(), b.ro()) { rsh_none0();  rsh_protocolconstants(a.constants, b.constants); rsh_plus(rnone(), a.constants.ro(), rnone(), b.constants.ro()); rsh_statehash(a.genesis_state_hash, b.genesis_state_hash); rsh_plus(rnone().plus(a.constants.ro()), a.genesis_state_hash.ro(), rnone().plus(b.constants.ro()), b.genesis_state_hash.ro()); rsh_blockchainstatelegacy(a.blockchain_state, b.blockchain_state); rsh_plus(rnone().plus(a.constants.ro()).plus(a.genesis_state_hash.ro()), a.blockchain_state.ro(), rnone().plus(b.constants.ro()).plus(b.genesis_state_hash.ro()), b.blockchain_state.ro()); rsh_consensusstate(a.consensus_state, b.consensus_state); rsh_plus(rnone().plus(a.constants.ro()).plus(a.genesis_state_hash.ro()).plus(a.blockchain_state.ro()), a.consensus_state.ro(), rnone().plus(b.constants.ro()).plus(b.genesis_state_hash.ro()).plus(b.blockchain_state.ro()), b.consensus_state.ro()); }
pub proof fn rinj_protocolstatebodylegacy(a: ProtocolStateBodyLegacy, b: ProtocolStateBodyLegacy) requires a.ro_ok(), b.ro_ok(), rlen_protocolstatebodylegacy(a, b), a.ro() == b.ro() ensures same_protocolstatebodylegacy(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); rsh_none0();  rsh_protocolconstants(a.constants, b.constants); rsh_plus(rnone(), a.constants.ro(), rnone(), b.constants.ro()); rsh_statehash(a.genesis_state_hash, b.genesis_state_hash); rsh_plus(rnone().plus(a.constants.ro()), a.genesis_state_hash.ro(), rnone().plus(b.constants.ro()), b.genesis_state_hash.ro()); rsh_blockchainstatelegacy(a.blockchain_state, b.blockchain_state); rsh_plus(rnone().plus(a.constants.ro()).plus(a.genesis_state_hash.ro()), a.blockchain_state.ro(), rnone().plus(b.constants.ro()).plus(b.genesis_state_hash.ro()), b.blockchain_state.ro()); rsh_consensusstate(a.consensus_state, b.consensus_state); rsh_plus(rnone().plus(a.constants.ro()).plus(a.genesis_state_hash.ro()).plus(a.blockchain_state.ro()), a.consensus_state.ro(), rnone().plus(b.constants.ro()).plus(b.genesis_state_hash.ro()).plus(b.blockchain_state.ro()), b.consensus_state.ro());
    rplus_inj(rnone().plus(a.constants.ro()).plus(a.genesis_state_hash.ro()).plus(a.blockchain_state.ro()), a.consensus_state.ro(), rnone().plus(b.constants.ro()).plus(b.genesis_state_hash.ro()).plus(b.blockchain_state.ro()), b.consensus_state.ro());
    rplus_inj(rnone().plus(a.constants.ro()).plus(a.genesis_state_hash.ro()), a.blockchain_state.ro(), rnone().plus(b.constants.ro()).plus(b.genesis_state_hash.ro()), b.blockchain_state.ro());
    rplus_inj(rnone().plus(a.constants.ro()), a.genesis_state_hash.ro(), rnone().plus(b.constants.ro()), b.genesis_state_hash.ro());
    rplus_inj(rnone(), a.constants.ro(), rnone(), b.constants.ro());
    rinj_protocolconstants(a.constants, b.constants);
    rinj_statehash(a.genesis_state_hash, b.genesis_state_hash);
    rinj_blockchainstatelegacy(a.blockchain_state, b.blockchain_state);
    rinj_consensusstate(a.consensus_state, b.consensus_state);
    
}
pub open spec fn len_protocolstatebody(a: ProtocolStateBody, b: ProtocolStateBody) -> bool { true && len_protocolconstants(a.constants, b.constants) && len_statehash(a.genesis_state_hash, b.genesis_state_hash) && len_blockchainstate(a.blockchain_state, b.blockchain_state) && len_consensusstate(a.consensus_state, b.consensus_state) }
pub open spec fn same_protocolstatebody(a: ProtocolStateBody, b: ProtocolStateBody) -> bool { same_protocolconstants(a.constants, b.constants) && same_statehash(a.genesis_state_hash, b.genesis_state_hash) && same_blockchainstate(a.blockchain_state, b.blockchain_state) && same_consensusstate(a.consensus_state, b.consensus_state) }
pub proof fn sh_protocolstatebody(a: ProtocolStateBody, b: ProtocolStateBody) requires len_protocolstatebody(a, b) ensures same_sh(a.chunk(), b.chunk()) { sh_none0();  sh_protocolconstants(a.constants, b.constants); sh_plus(none(), a.constants.chunk(), none(), b.constants.chunk()); sh_statehash(a.genesis_state_hash, b.genesis_state_hash); sh_plus(none().plus(a.constants.chunk()), a.genesis_state_hash.chunk(), none().plus(b.constants.chunk()), b.genesis_state_hash.chunk()); sh_blockchainstate(a.blockchain_state, b.blockchain_state); sh_plus(none().plus(a.constants.chunk()).plus(a.genesis_state_hash.chunk()), a.blockchain_state.chunk(), none().plus(b.constants.chunk()).plus(b.genesis_state_hash.chunk()), b.blockchain_state.chunk()); sh_consensusstate(a.consensus_state, b.consensus_state); sh_plus(none().plus(a.constants.chunk()).plus(a.genesis_state_hash.chunk()).plus(a.blockchain_state.chunk()), a.consensus_state.chunk(), none().plus(b.constants.chunk()).plus(b.genesis_state_hash.chunk()).plus(b.blockchain_state.chunk()), b.consensus_state.chunk()); }
pub proof fn inj_protocolstatebody(a: ProtocolStateBody, b: ProtocolStateBody) requires a.ok(), b.ok(), len_protocolstatebody(a, b), a.chunk() == b.chunk() ensures same_protocolstatebody(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); sh_none0();  sh_protocolconstants(a.constants, b.constants); sh_plus(none(), a.constants.chunk(), none(), b.constants.chunk()); sh_statehash(a.genesis_state_hash, b.genesis_state_hash); sh_plus(none().plus(a.constants.chunk()), a.genesis_state_hash.chunk(), none().plus(b.constants.chunk()), b.genesis_state_hash.chunk()); sh_blockchainstate(a.blockchain_state, b.blockchain_state); sh_plus(none().plus(a.constants.chunk()).plus(a.genesis_state_hash.chunk()), a.blockchain_state.chunk(), none().plus(b.constants.chunk()).plus(b.genesis_state_hash.chunk()), b.blockchain_state.chunk()); sh_consensusstate(a.consensus_state, b.consensus_state); sh_plus(none().plus(a.constants.chunk()).plus(a.genesis_state_hash.chunk()).plus(a.blockchain_state.chunk()), a.consensus_state.chunk(), none().plus(b.constants.chunk()).plus(b.genesis_state_hash.chunk()).plus(b.blockchain_state.chunk()), b.consensus_state.chunk());
    plus_inj(none().plus(a.constants.chunk()).plus(a.genesis_state_hash.chunk()).plus(a.blockchain_state.chunk()), a.consensus_state.chunk(), none().plus(b.constants.chunk()).plus(b.genesis_state_hash.chunk()).plus(b.blockchain_state.chunk()), b.consensus_state.chunk());
    plus_inj(none().plus(a.constants.chunk()).plus(a.genesis_state_hash.chunk()), a.blockchain_state.chunk(), none().plus(b.constants.chunk()).plus(b.genesis_state_hash.chunk()), b.blockchain_state.chunk());
    plus_inj(none().plus(a.constants.chunk()), a.genesis_state_hash.chunk(), none().plus(b.constants.chunk()), b.genesis_state_hash.chunk());
    plus_inj(none(), a.constants.chunk(), none(), b.constants.chunk());
    inj_protocolconstants(a.constants, b.constants);
    inj_statehash(a.genesis_state_hash, b.genesis_state_hash);
    inj_blockchainstate(a.blockchain_state, b.blockchain_state);
    inj_consensusstate(a.consensus_state, b.consensus_state);
    
}
/// what is hashed for a protocol state body determines the body
pub proof fn body_input_inj(a: ProtocolStateBody, b: ProtocolStateBody) requires a.ok(), b.ok(), len_protocolstatebody(a, b), a.chunk().fits(), b.chunk().fits(), a.ro() == b.ro() ensures same_protocolstatebody(a, b)
{ sh_protocolstatebody(a, b); fields_inj(a.chunk(), b.chunk()); inj_protocolstatebody(a, b); }
/// what is hashed for a protocol state determines the previous state hash and the body hash
pub proof fn state_input_inj(a: ProtocolState, b: ProtocolState) requires a.ok(), b.ok(), a.chunk().fits(), b.chunk().fits(), a.ro() == b.ro()
    ensures same_statehash(a.previous_state_hash, b.previous_state_hash), hash_fp(Kind::Kimchi, Some("CodaProtoStateBody"@), a.body.ro()) == hash_fp(Kind::Kimchi, Some("CodaProtoStateBody"@), b.body.ro())
{
    broadcast use shapes;
    let (x, y) = (hash_fp(Kind::Kimchi, Some("CodaProtoStateBody"@), a.body.ro()), hash_fp(Kind::Kimchi, Some("CodaProtoStateBody"@), b.body.ro()));
    sh_statehash(a.previous_state_hash, b.previous_state_hash);
    assert(same_sh(none().plus(a.previous_state_hash.chunk()).plus(fld(x)), none().plus(b.previous_state_hash.chunk()).plus(fld(y))));
    fields_inj(a.chunk(), b.chunk());
    plus_inj(none().plus(a.previous_state_hash.chunk()), fld(x), none().plus(b.previous_state_hash.chunk()), fld(y)); fld_one(x, y);
    plus_inj(none(), a.previous_state_hash.chunk(), none(), b.previous_state_hash.chunk()); inj_statehash(a.previous_state_hash, b.previous_state_hash);
}
pub proof fn legacy_state_input_inj(a: ProtocolStateLegacy, b: ProtocolStateLegacy) requires a.ro_ok(), b.ro_ok(), a.ro() == b.ro()
    ensures same_statehash(a.previous_state_hash, b.previous_state_hash), hash_fp(Kind::Legacy, Some("CodaProtoStateBody"@), a.body.ro()) == hash_fp(Kind::Legacy, Some("CodaProtoStateBody"@), b.body.ro())
{
    broadcast use rshapes;
    let (x, y) = (hash_fp(Kind::Legacy, Some("CodaProtoStateBody"@), a.body.ro()), hash_fp(Kind::Legacy, Some("CodaProtoStateBody"@), b.body.ro()));
    rsh_statehash(a.previous_state_hash, b.previous_state_hash);
    rplus_inj(rnone().plus(a.previous_state_hash.ro()), rfld(x), rnone().plus(b.previous_state_hash.ro()), rfld(y)); rfld_one(x, y);
    rplus_inj(rnone(), a.previous_state_hash.ro(), rnone(), b.previous_state_hash.ro()); rinj_statehash(a.previous_state_hash, b.previous_state_hash);
}
pub open spec fn untimed_tail() -> Chunk { none().plus(none().plus(num(0, 64))).plus(num(0, 32)).plus(none().plus(num(0, 64))).plus(num(1, 32)).plus(none().plus(num(0, 64))) }
// signed commands
/// no domain is shared: networks and kinds of hash are told apart
pub proof fn domains_differ() ensures "MinaSignatureMainnet"@ != "CodaSignature"@, "CodaProtoState"@ != "CodaProtoStateBody"@, "CodaAccount"@ != "CodaProtoState"@, "CodaAccount"@ != "CodaProtoStateBody"@ { reveal_strlit("MinaSignatureMainnet"); reveal_strlit("CodaSignature"); reveal_strlit("CodaProtoState"); reveal_strlit("CodaProtoStateBody"); reveal_strlit("CodaAccount"); assert("MinaSignatureMainnet"@.len() == 20 && "CodaSignature"@.len() == 13 && "CodaProtoState"@.len() == 14 && "CodaProtoStateBody"@.len() == 18 && "CodaAccount"@.len() == 11); }

} // verus!
fn main() {}

