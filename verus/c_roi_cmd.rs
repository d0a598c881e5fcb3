//@include prelude_core.rs
broadcast use vx_bits;
//@include prelude_io.rs
//@include part_ro.rs
//@include part_roc.rs
//@nosub
// ------------------------------------------------------------ the legacy input (mina_hasher, assumed)
pub ghost struct Ro { pub fields: Seq<Fp>, pub bits: Seq<bool> }
pub open spec fn rnone() -> Ro { Ro { fields: Seq::empty(), bits: Seq::empty() } }
pub open spec fn rfld(f: Fp) -> Ro { Ro { fields: seq![f], bits: Seq::empty() } }
pub open spec fn rbits(s: Seq<bool>) -> Ro { Ro { fields: Seq::empty(), bits: s } }
pub open spec fn rbit(b: bool) -> Ro { rbits(seq![b]) }
/// the low w bits, least significant first
pub open spec fn int_bits(n: int, w: nat) -> Seq<bool> { Seq::new(w, |i: int| (n / two(i as nat)) % 2 == 1) }
pub open spec fn rnum(n: int, w: nat) -> Ro { rbits(int_bits(n, w)) }
impl Ro {
    pub open spec fn plus(self, o: Ro) -> Ro { Ro { fields: self.fields + o.fields, bits: self.bits + o.bits } }
    pub open spec fn shape(self) -> (nat, nat) { (self.fields.len(), self.bits.len()) }
}
impl ROInput {
    pub open spec fn view(self) -> Ro { Ro { fields: self.fields(), bits: self.bits() } }
    #[verifier::external_body] pub fn append_bytes(self, b: &[u8]) -> (r: ROInput) ensures r.view() == self.view().plus(rbits(bytes_bits(b@))) { unimplemented!() }
    #[verifier::external_body] pub fn append_bool(self, b: bool) -> (r: ROInput) ensures r.view() == self.view().plus(rbit(b)) { unimplemented!() }
    #[verifier::external_body] pub fn append_u32(self, x: u32) -> (r: ROInput) ensures r.view() == self.view().plus(rnum(x as int, 32)) { unimplemented!() }
    #[verifier::external_body] pub fn append_u64(self, x: u64) -> (r: ROInput) ensures r.view() == self.view().plus(rnum(x as int, 64)) { unimplemented!() }
    #[verifier::external_body] pub fn append_hashable<H: Hashable>(self, x: &H) -> (r: ROInput) requires x.ro_ok() ensures r.view() == self.view().plus(x.ro()) { unimplemented!() }
}
pub open spec fn chars(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
/// mina_hasher::Hashable
pub trait Hashable: Sized {
    type D;
    spec fn ro(&self) -> Ro;
    spec fn ro_ok(&self) -> bool;
    spec fn dom(d: Self::D) -> Option<Seq<char>>;
    fn to_roinput(&self) -> (r: ROInput) requires self.ro_ok() ensures r.view() == self.ro();
    fn domain_string(d: Self::D) -> (r: Option<String>) ensures chars(r) == Self::dom(d);
}
/// the two Poseidon instances: a hash depends on the instance, the domain and the input alone
pub enum Kind { Legacy, Kimchi }
pub uninterp spec fn hash_fp(k: Kind, d: Option<Seq<char>>, i: Ro) -> Fp;
#[verifier::external_body] #[verifier::reject_recursive_types(H)] pub struct Poseidon<H> { _h: core::marker::PhantomData<H> }
impl<H: Hashable> Poseidon<H> {
    pub uninterp spec fn kind(&self) -> Kind;
    pub uninterp spec fn domain(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn hash(&mut self, x: &H) -> (r: Fp) requires x.ro_ok() ensures r == hash_fp(old(self).kind(), old(self).domain(), x.ro()), final(self).kind() == old(self).kind(), final(self).domain() == old(self).domain() { unimplemented!() }
}
#[verifier::external_body] pub fn create_legacy<H: Hashable>(d: H::D) -> (r: Poseidon<H>) ensures r.kind() is Legacy, r.domain() == H::dom(d) { unimplemented!() }
#[verifier::external_body] pub fn create_kimchi<H: Hashable>(d: H::D) -> (r: Poseidon<H>) ensures r.kind() is Kimchi, r.domain() == H::dom(d) { unimplemented!() }
// ------------------------------------------------------------ other dependencies, assumed
impl VxInto<String> for &'static str { open spec fn into_ok(self) -> bool { true } open spec fn into_is(self, r: String) -> bool { r@ == self@ } #[verifier::external_body] fn vx_into(self) -> (r: String) { unimplemented!() } }
impl VxInto<Option<String>> for String { open spec fn into_ok(self) -> bool { true } open spec fn into_is(self, r: Option<String>) -> bool { r is Some && r->Some_0@ == self@ } fn vx_into(self) -> (r: Option<String>) { Some(self) } }
impl VxInto<Fp> for u64 { open spec fn into_ok(self) -> bool { true } open spec fn into_is(self, r: Fp) -> bool { r == fp(self as int) } #[verifier::external_body] fn vx_into(self) -> (r: Fp) { unimplemented!() } }
#[derive(Clone, Copy)]
pub struct CompressedPubKey { pub x: Fp, pub is_odd: bool }
pub uninterp spec fn pk_empty() -> CompressedPubKey;
pub enum NetworkId { TESTNET, MAINNET }
/// the 32 bytes of an element, little-endian
pub uninterp spec fn fp_bytes(f: Fp) -> Seq<u8>;
pub axiom fn fp_bytes_len(f: Fp) ensures fp_bytes(f).len() == 32;
impl Fp { #[verifier::external_body] pub fn to_bytes(&self) -> (r: Vec<u8>) ensures r@ == fp_bytes(*self), r@.len() == 32 { unimplemented!() } }
pub type FieldHelpersError = FieldError;
#[verifier::external_body] pub fn vx_zeros() -> (r: [u8; 32]) ensures forall|i: int| 0 <= i < 32 ==> r@[i] == 0 { [0; 32] }
#[verifier::external_body] pub fn vx_copy_prefix(a: &mut [u8; 32], b: &[u8; 32], n: usize) requires n <= 32 ensures final(a)@ == b@.take(n as int) + old(a)@.skip(n as int) { unimplemented!() }
/// little-endian; an error (and then a panic) unless below the order
#[verifier::external_body] pub fn vx_fp_read(b: &[u8; 32]) -> (r: Fp) requires unle(b@) < p() ensures r == fp(unle(b@)) { unimplemented!() }
pub trait VxSeq<T> { spec fn s(&self) -> Seq<T>; }
impl<T> VxSeq<T> for Vec<T> { open spec fn s(&self) -> Seq<T> { self@ } }
impl<T, const N: usize> VxSeq<T> for [T; N] { open spec fn s(&self) -> Seq<T> { self@ } }
#[verifier::external_body] pub fn vx_at<T, S: VxSeq<T>>(v: &S, i: usize) -> (r: T) requires i < v.s().len() ensures r == v.s()[i as int] { unimplemented!() }
impl VxInto<Amount> for u64 { open spec fn into_ok(self) -> bool { true } open spec fn into_is(self, r: Amount) -> bool { r.0 == self } #[verifier::external_body] fn vx_into(self) -> (r: Amount) { unimplemented!() } }
impl BigInteger256 { #[verifier::external_body] pub fn new(a: [u64; 4]) -> (r: BigInteger256) ensures r.val() == limbs(a@) { unimplemented!() } }
pub open spec fn limbs(a: Seq<u64>) -> int { a[0] + 0x1_0000_0000_0000_0000 * (a[1] + 0x1_0000_0000_0000_0000 * (a[2] + 0x1_0000_0000_0000_0000 * a[3])) }

// ------------------------------------------------------------ algebra of inputs
pub broadcast proof fn plus_fits(a: Chunk, b: Chunk) requires a.fits(), b.fits() ensures (#[trigger] a.plus(b)).fits() { let c = a.plus(b); assert forall|i: int| 0 <= i < c.packed.len() implies c.packed[i].1 <= 254 && (#[trigger] c.packed[i]).0.val() < two(c.packed[i].1 as nat) by { if i < a.packed.len() { assert(c.packed[i] == a.packed[i]); } else { assert(c.packed[i] == b.packed[i - a.packed.len()]); } } }
pub broadcast proof fn none_fits() ensures #[trigger] none().fits() { }
pub broadcast proof fn fld_fits(f: Fp) ensures (#[trigger] fld(f)).fits() { }
pub broadcast proof fn num_fits(n: int, w: u32) requires 0 <= n < two(w as nat), w <= 254 ensures (#[trigger] num(n, w)).fits() { fp_axioms(); two_vals(); two_mono(w as nat, 254); }
pub broadcast proof fn bit_fits(b: bool) ensures (#[trigger] bit(b)).fits() { two_vals(); fp_axioms(); }
pub broadcast proof fn u32_fits(n: u32) ensures (#[trigger] num(n as int, 32)).fits() { two_vals(); num_fits(n as int, 32); }
pub broadcast proof fn u64_fits(n: u64) ensures (#[trigger] num(n as int, 64)).fits() { two_vals(); num_fits(n as int, 64); }
pub broadcast proof fn bits_fits(s: Seq<bool>) ensures (#[trigger] bits(s)).fits() { two_vals(); fp_axioms(); }
pub broadcast group ro_fits { plus_fits, none_fits, fld_fits, num_fits, bit_fits, u32_fits, u64_fits, bits_fits }
pub broadcast proof fn rplus_none(c: Ro) ensures #[trigger] rnone().plus(c) == c { assert(rnone().plus(c).fields =~= c.fields); assert(rnone().plus(c).bits =~= c.bits); }
pub broadcast proof fn rplus_fld(c: Ro, f: Fp) ensures (#[trigger] c.plus(rfld(f))) == (Ro { fields: c.fields.push(f), bits: c.bits }) { assert(c.plus(rfld(f)).fields =~= c.fields.push(f)); assert(c.plus(rfld(f)).bits =~= c.bits); }
pub broadcast proof fn rplus_bits(c: Ro, s: Seq<bool>) ensures (#[trigger] c.plus(rbits(s))) == (Ro { fields: c.fields, bits: c.bits + s }) { assert(c.plus(rbits(s)).fields =~= c.fields); }
pub broadcast proof fn plus_none(c: Chunk) ensures #[trigger] none().plus(c) == c { assert(none().plus(c).fields =~= c.fields); assert(none().plus(c).packed =~= c.packed); }
pub proof fn le_zeros(a: Seq<u8>, z: Seq<u8>) requires forall|i: int| 0 <= i < z.len() ==> z[i] == 0 ensures unle(a + z) == unle(a) decreases a.len() + z.len()
{
    if a.len() > 0 { assert((a + z).skip(1) =~= a.skip(1) + z); le_zeros(a.skip(1), z); }
    else if z.len() > 0 { assert((a + z).skip(1) =~= a + z.skip(1)); le_zeros(a, z.skip(1)); }
}
pub broadcast proof fn padded(a: Seq<u8>, z: Seq<u8>, n: int) requires 0 <= n <= z.len(), forall|i: int| 0 <= i < z.len() ==> z[i] == 0 ensures unle(#[trigger] (a + z.skip(n))) == unle(a) { le_zeros(a, z.skip(n)); }
pub proof fn two_bits(a: bool, b: bool) ensures bits_int(seq![a, b]) == (if a { 1int } else { 0 }) + (if b { 2int } else { 0 }) { reveal_with_fuel(bits_int, 4); assert(seq![a, b].skip(1)[0] == b); assert(seq![a, b].skip(1).skip(1).len() == 0); }
pub proof fn two_192() ensures two(2) == 4, two(48) == 0x1_0000_0000_0000, two(62) == 0x4000_0000_0000_0000, two(254) == 0x4000_0000_0000_0000 * (0x1_0000_0000_0000_0000 * (0x1_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000))
{ two_vals(); assert(two(2) == 4) by (compute); assert(two(48) == 0x1_0000_0000_0000) by (compute); assert(two(62) == 0x4000_0000_0000_0000) by (compute); two_sum(62, 192); two_sum(64, 128); two_sum(64, 64); }
pub broadcast proof fn low_bits(b: u8) ensures
    #![trigger (b & 0b1)]
    (b & 0b1 > 0) == (b as int % 2 == 1), (b & 0b10 > 0) == ((b as int / 2) % 2 == 1), (b & 0b100 > 0) == ((b as int / 4) % 2 == 1), (b & 0b1000 > 0) == ((b as int / 8) % 2 == 1), (b & 0b10000 > 0) == ((b as int / 16) % 2 == 1)
{
    assert((b & 0b1 > 0) == (b % 2 == 1)) by (bit_vector); assert((b & 0b10 > 0) == ((b / 2) % 2 == 1)) by (bit_vector); assert((b & 0b100 > 0) == ((b / 4) % 2 == 1)) by (bit_vector);
    assert((b & 0b1000 > 0) == ((b / 8) % 2 == 1)) by (bit_vector); assert((b & 0b10000 > 0) == ((b / 16) % 2 == 1)) by (bit_vector);
}

// ------------------------------------------------------------ layouts that are not a plain chain
pub open spec fn low5(b: u8) -> Seq<bool> { seq![b as int % 2 == 1, (b as int / 2) % 2 == 1, (b as int / 4) % 2 == 1, (b as int / 8) % 2 == 1, (b as int / 16) % 2 == 1] }
/// every bit of up to 31 bytes, then the five low bits of the 32nd
pub open spec fn vrf_bits(v: Seq<u8>) -> Seq<bool> { if v.len() <= 31 { bytes_bits(v) } else { bytes_bits(v.take(31)) + low5(v[31]) } }
pub open spec fn tags(s: Seq<bool>, c: Chunk) -> Chunk decreases s.len() { if s.len() == 0 { c } else { tags(s.drop_last(), c).plus(bit(s.last())) } }
pub open spec fn rtags(s: Seq<bool>, c: Ro) -> Ro decreases s.len() { if s.len() == 0 { c } else { rtags(s.drop_last(), c).plus(rbit(s.last())) } }
pub proof fn tags_step(s: Seq<bool>, c: Chunk, k: int) requires 0 <= k < s.len() ensures tags(s.take(k + 1), c) == tags(s.take(k), c).plus(bit(s[k])) { assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub proof fn rtags_step(s: Seq<bool>, c: Ro, k: int) requires 0 <= k < s.len() ensures rtags(s.take(k + 1), c) == rtags(s.take(k), c).plus(rbit(s[k])) { assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub broadcast proof fn tags3(s: Seq<bool>, c: Chunk) requires s.len() == 3 ensures #[trigger] tags(s, c) == c.plus(bit(s[0])).plus(bit(s[1])).plus(bit(s[2])) { reveal_with_fuel(tags, 4); let t = s.drop_last(); assert(t.drop_last().drop_last().len() == 0); assert(t.drop_last().last() == s[0]); }
pub broadcast proof fn rtags3(s: Seq<bool>, c: Ro) requires s.len() == 3 ensures #[trigger] rtags(s, c) == c.plus(rbit(s[0])).plus(rbit(s[1])).plus(rbit(s[2])) { reveal_with_fuel(rtags, 4); let t = s.drop_last(); assert(t.drop_last().drop_last().len() == 0); assert(t.drop_last().last() == s[0]); }

pub open spec fn key(k: CompressedPubKey) -> Chunk { none().plus(fld(k.x)).plus(bit(k.is_odd)) }
pub open spec fn common(c: SignedCommandPayloadCommon, from: CompressedPubKey, to: CompressedPubKey) -> Ro { rnone().plus(rfld(c.fee_payer_pk.x)).plus(rfld(from.x)).plus(rfld(to.x)).plus(rnum(c.fee.0 as int, 64)).plus(rnum(c.fee_token.0 as int, 64)).plus(rbit(c.fee_payer_pk.is_odd)).plus(rnum(c.nonce.0 as int, 32)).plus(rnum(c.valid_until.0 as int, 32)).plus(rbits(bytes_bits(c.memo.0@))) }
pub open spec fn command(c: SignedCommandPayloadCommon, from: CompressedPubKey, to: CompressedPubKey, delegation: bool, token: u64, amount: u64) -> Ro {
    common(c, from, to).plus(rbit(false)).plus(rbit(false)).plus(rbit(delegation))
        .plus(rbit(from.is_odd)).plus(rbit(to.is_odd)).plus(rnum(token as int, 64)).plus(rnum(amount as int, 64)).plus(rbit(false))
}
/// the input of the default zkapp account
pub open spec fn zk1() -> Chunk { fld(fp(17818364107179681741int + 0x1_0000_0000_0000_0000 * (14791875366151232437 + 0x1_0000_0000_0000_0000 * (6753084239224090698 + 0x1_0000_0000_0000_0000 * 2060674656258731539)))) }
pub open spec fn zk2() -> Chunk { fld(fp(17064760232198382013int + 0x1_0000_0000_0000_0000 * (7053532856486746066 + 0x1_0000_0000_0000_0000 * (14503003448090529760 + 0x1_0000_0000_0000_0000 * 2522938464542289201)))) }
pub open spec fn zkapp() -> Chunk { none().plus(zk1()).plus(zk1()).plus(zk1()).plus(zk1()).plus(zk1()).plus(zk2()).plus(fld(fp(0))).plus(fld(fp(0))).plus(fld(fp(0))).plus(fld(fp(0))).plus(fld(fp(0))).plus(fld(fp(0))).plus(fld(fp(0))).plus(fld(fp(0))).plus(num(0, 1)).plus(num(0, 32)).plus(num(0, 32)) }
pub open spec fn zkuri() -> Chunk { none().plus(num(1, 1)) }
pub open spec fn packed(c: Chunk) -> Ro { Ro { fields: all_fields(c), bits: Seq::empty() } }

//@impl ChAccountNonce
    open spec fn chunk(&self) -> Chunk { none().plus(num(self.0 as int, 32)) }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl RoAccountNonce
    open spec fn ro(&self) -> Ro { rnone().plus(rnum(self.0 as int, 32)) }
    open spec fn ro_ok(&self) -> bool { true }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl ChGlobalSlotNumber
    open spec fn chunk(&self) -> Chunk { none().plus(num(self.0 as int, 32)) }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl RoGlobalSlotNumber
    open spec fn ro(&self) -> Ro { rnone().plus(rnum(self.0 as int, 32)) }
    open spec fn ro_ok(&self) -> bool { true }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl ChAmount
    open spec fn chunk(&self) -> Chunk { none().plus(num(self.0 as int, 64)) }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl RoAmount
    open spec fn ro(&self) -> Ro { rnone().plus(rnum(self.0 as int, 64)) }
    open spec fn ro_ok(&self) -> bool { true }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl ChTokenId
    open spec fn chunk(&self) -> Chunk { none().plus(fld(fp(self.0 as int))) }
    open spec fn ok(&self) -> bool { true }
//@end
//@impl RoTokenId
    open spec fn ro(&self) -> Ro { rnone().plus(rnum(self.0 as int, 64)) }
    open spec fn ro_ok(&self) -> bool { true }
    open spec fn dom(_d: Self::D) -> Option<Seq<char>> { None }
//@end
//@impl RoSignedCommandPayload
    open spec fn ro(&self) -> Ro { match self.body { SignedCommandPayloadBody::PaymentPayload(p) => command(self.common, p.source_pk, p.receiver_pk, false, p.token_id.0, p.amount.0), SignedCommandPayloadBody::StakeDelegation(StakeDelegation::SetDelegate { delegator, new_delegate }) => command(self.common, delegator, new_delegate, true, 1, 0) } }
    open spec fn ro_ok(&self) -> bool { true }
    open spec fn dom(d: Self::D) -> Option<Seq<char>> { match d { NetworkId::MAINNET => Some("MinaSignatureMainnet"@), NetworkId::TESTNET => Some("CodaSignature"@) } }
//@end
//@fn ChAccountNonce::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoAccountNonce::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChGlobalSlotNumber::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoGlobalSlotNumber::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChAmount::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoAmount::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn ChTokenId::to_chunked_roinput
//@entry
    broadcast use ro_fits; 
//@end
//@fn RoTokenId::to_roinput
//@entry
    broadcast use {rplus_fld, rplus_bits}; 
//@end
//@fn RoSignedCommandPayload::to_roinput
//@loop 0
    invariant vx_i0 <= vx_s0@.len(), vx_s0@.len() == 3, vx_s0@ == seq![false, false, false], self.body is PaymentPayload, roi.view() == rtags(vx_s0@.take(vx_i0 as int), common(self.common, self.body->PaymentPayload_0.source_pk, self.body->PaymentPayload_0.receiver_pk)),
    decreases vx_s0@.len() - vx_i0
//@body 0
    proof { rtags_step(vx_s0@, common(self.common, self.body->PaymentPayload_0.source_pk, self.body->PaymentPayload_0.receiver_pk), vx_i0 as int); }
//@loop 1
    invariant vx_i1 <= vx_s1@.len(), vx_s1@.len() == 3, vx_s1@ == seq![false, false, true], self.body is StakeDelegation, roi.view() == rtags(vx_s1@.take(vx_i1 as int), common(self.common, self.body->StakeDelegation_0->delegator, self.body->StakeDelegation_0->new_delegate)),
    decreases vx_s1@.len() - vx_i1
//@body 1
    proof { rtags_step(vx_s1@, common(self.common, self.body->StakeDelegation_0->delegator, self.body->StakeDelegation_0->new_delegate), vx_i1 as int); }
//@entry
    broadcast use {rplus_fld, rplus_bits}; broadcast use {take_all, rtags3};
//@end
//@sub [ 0 ; 32 ] =>> vx_zeros ( )
//@sub numbers :: GlobalSlotNumber =>> GlobalSlotNumber
//@sub mina_hasher :: ROInput =>> ROInput
//@sub mina_hasher :: Hashable =>> Hashable
//@sub mina_hasher :: create_kimchi =>> create_kimchi
//@sub & self . 0 [ .. 31 ] =>> self . 0 . vx_prefix ( 31 )
//@sub . iter ( ) . rev ( ) . cloned ( ) . collect ( ) =>> . vx_rev ( )
//@sub BitVec :: with_capacity =>> Vec :: < bool > :: with_capacity
//@sub bytes [ .. Self :: max_length ( ) ] . copy_from_slice ( & self . 0 [ .. Self :: max_length ( ) ] ) =>> vx_copy_prefix ( & mut bytes , & self . 0 , Self :: max_length ( ) )
//@sub Fp :: read ( & bytes [ .. ] ) . unwrap ( ) =>> vx_fp_read ( & bytes )
//@sub self . try_into ( ) =>> Self :: try_from ( self )
//@sub o . 0 . copy_from_slice ( b ) =>> vx_copy_all ( & mut o . 0 , b )
//@sub Result < Self , Self :: Error > =>> core :: result :: Result < Fp , FieldHelpersError >
//@sub type Error = FieldHelpersError ; =>>
//@sub ( & f ) . into ( ) =>> VxInto :: < StateHash > :: vx_into ( & f )
//@sub impl TryFrom < & Field > for Fp =>> impl Field
//@sub impl From < & [ u8 ] > for Field =>> impl Field
//@sub fn from ( b : & [ u8 ] ) =>> pub fn from_bytes_slice ( b : & [ u8 ] )
//@sub impl TryFrom < & BaseHash > for Fp =>> impl BaseHash
//@sub impl From < & [ u8 ] > for BaseHash =>> impl BaseHash
//@sub fn from ( b : & [ u8 ] ) =>> pub fn from_bytes_slice ( b : & [ u8 ] )
//@sub impl From < & Fp > for Field =>> impl Field
//@sub impl From < & Fp > for BaseHash =>> impl BaseHash
//@sub impl From < & Fp > for StateHash =>> impl StateHash
//@sub impl From < & Fp > for LedgerHash =>> impl LedgerHash
//@sub fn from ( i : & Fp ) =>> pub fn from_fp ( i : & Fp )
//@sub fn try_from ( =>> pub fn try_from (
//@sub . into ( ) =>> . vx_into ( )
//@rw for_all
//@sub vx_nth ( =>> vx_at (
//@sub impl Default for TimedData =>> impl TimedData

//@emit base/src/numbers.rs struct:TokenId
//@emit base/src/numbers.rs struct:Amount
//@emit base/src/numbers.rs struct:AccountNonce
//@emit base/src/numbers.rs struct:GlobalSlotNumber
//@emit base/src/numbers.rs impl:=implToChunkedROInputforTokenId as=ChTokenId
//@emit base/src/numbers.rs impl:=implHashableforTokenId as=RoTokenId
//@emit base/src/numbers.rs impl:=implToChunkedROInputforAmount as=ChAmount
//@emit base/src/numbers.rs impl:=implHashableforAmount as=RoAmount
//@emit base/src/numbers.rs impl:=implToChunkedROInputforAccountNonce as=ChAccountNonce
//@emit base/src/numbers.rs impl:=implHashableforAccountNonce as=RoAccountNonce
//@emit base/src/numbers.rs impl:=implToChunkedROInputforGlobalSlotNumber as=ChGlobalSlotNumber
//@emit base/src/numbers.rs impl:=implHashableforGlobalSlotNumber as=RoGlobalSlotNumber
//@emit base/src/user_commands/signed_command/mod.rs struct:SignedCommandPayload
//@emit base/src/user_commands/signed_command/mod.rs struct:SignedCommandPayloadCommon
//@emit base/src/user_commands/signed_command/mod.rs enum:SignedCommandPayloadBody
//@emit base/src/user_commands/signed_command/mod.rs enum:StakeDelegation
//@emit base/src/user_commands/signed_command/mod.rs const:TAG_BITS
//@emit base/src/user_commands/signed_command/mod.rs const:PAYMENT_TX_TAG
//@emit base/src/user_commands/signed_command/mod.rs const:DELEGATION_TX_TAG
//@emit base/src/user_commands/signed_command/mod.rs impl:=implHashableforSignedCommandPayload as=RoSignedCommandPayload
//@emit base/src/user_commands/memo.rs struct:SignedCommandMemo
//@emit base/src/user_commands/payment.rs struct:PaymentPayload
// ------------------------------------------------------------ an input determines its value
pub open spec fn same_sh(a: Chunk, b: Chunk) -> bool { a.shape() == b.shape() && same_widths(a.packed, b.packed) }
pub broadcast proof fn sh_plus(a: Chunk, b: Chunk, c: Chunk, d: Chunk) requires same_sh(a, c), same_sh(b, d) ensures #[trigger] same_sh(a.plus(b), c.plus(d)) {
    let (x, y) = (a.plus(b), c.plus(d)); assert(a.shape() == c.shape() && b.shape() == d.shape()); assert(a.packed.len() == c.packed.len() && b.packed.len() == d.packed.len() && a.fields.len() == c.fields.len() && b.fields.len() == d.fields.len());
    assert forall|i: int| 0 <= i < x.packed.len() implies (#[trigger] x.packed[i]).1 == y.packed[i].1 by { if i < a.packed.len() { assert(a.packed[i].1 == c.packed[i].1); } else { assert(b.packed[i - a.packed.len()].1 == d.packed[i - a.packed.len()].1); } } }
pub proof fn sh_none0() ensures same_sh(none(), none()) { }
pub broadcast proof fn sh_none() ensures #[trigger] same_sh(none(), none()) { }
pub broadcast proof fn sh_num(x: int, y: int, w: u32) ensures #[trigger] same_sh(num(x, w), num(y, w)) { }
pub broadcast proof fn sh_bit(x: bool, y: bool) ensures #[trigger] same_sh(bit(x), bit(y)) { }
pub broadcast proof fn sh_fld(x: Fp, y: Fp) ensures #[trigger] same_sh(fld(x), fld(y)) { }
pub broadcast proof fn sh_bits(x: Seq<bool>, y: Seq<bool>) requires x.len() == y.len() ensures #[trigger] same_sh(bits(x), bits(y)) { }
pub broadcast proof fn sh_key(x: CompressedPubKey, y: CompressedPubKey) ensures #[trigger] same_sh(key(x), key(y)) { broadcast use {sh_plus, sh_none, sh_bit, sh_fld}; }
pub broadcast group shapes { sh_plus, sh_none, sh_num, sh_bit, sh_fld, sh_bits, sh_key }
pub proof fn num_one(x: int, y: int, w: u32) requires num(x, w) == num(y, w), 0 <= x < p(), 0 <= y < p() ensures x == y { assert(num(x, w).packed[0] == num(y, w).packed[0]); fp_inj(x, y); }
pub proof fn bit_one(x: bool, y: bool) requires bit(x) == bit(y) ensures x == y { two_vals(); num_one(if x { 1 } else { 0 }, if y { 1 } else { 0 }, 1); }
pub proof fn fld_one(x: Fp, y: Fp) requires fld(x) == fld(y) ensures x == y { let (s, t) = (fld(x).fields, fld(y).fields); assert(s == seq![x] && t == seq![y]); assert(s[0] == x && t[0] == y); }
pub proof fn bits_one(x: Seq<bool>, y: Seq<bool>) requires bits(x) == bits(y), x.len() == y.len() ensures x == y { assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { two_vals(); assert(bits(x).packed[i] == bits(y).packed[i]); fp_inj(if x[i] { 1 } else { 0 }, if y[i] { 1 } else { 0 }); } assert(x =~= y); }
pub proof fn key_one(x: CompressedPubKey, y: CompressedPubKey) requires key(x) == key(y) ensures x == y { broadcast use shapes; plus_inj(none().plus(fld(x.x)), bit(x.is_odd), none().plus(fld(y.x)), bit(y.is_odd)); plus_inj(none(), fld(x.x), none(), fld(y.x)); fld_one(x.x, y.x); bit_one(x.is_odd, y.is_odd); }
pub proof fn le_inj(a: Seq<u8>, b: Seq<u8>) requires a.len() == b.len(), unle(a) == unle(b) ensures a == b decreases a.len() { if a.len() > 0 { assert(a[0] == b[0]) by { assert(unle(a) == a[0] as int + 256 * unle(a.skip(1)) && unle(b) == b[0] as int + 256 * unle(b.skip(1))); } le_inj(a.skip(1), b.skip(1)); assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1)); } else { assert(a =~= b); } }
// the legacy input
pub proof fn rplus_inj(a: Ro, b: Ro, c: Ro, d: Ro) requires a.plus(b) == c.plus(d), b.shape() == d.shape() ensures a == c, b == d {
    let (x, y) = (a.plus(b), c.plus(d)); let (n, m) = (a.fields.len() as int, a.bits.len() as int);
    assert(b.fields.len() == d.fields.len() && b.bits.len() == d.bits.len()); assert(x.fields.len() == a.fields.len() + b.fields.len() && y.fields.len() == c.fields.len() + d.fields.len() && x.bits.len() == a.bits.len() + b.bits.len() && y.bits.len() == c.bits.len() + d.bits.len());
    assert(a.fields =~= x.fields.take(n)); assert(c.fields =~= y.fields.take(n)); assert(b.fields =~= x.fields.skip(n)); assert(d.fields =~= y.fields.skip(n));
    assert(a.bits =~= x.bits.take(m)); assert(c.bits =~= y.bits.take(m)); assert(b.bits =~= x.bits.skip(m)); assert(d.bits =~= y.bits.skip(m)); }
pub open spec fn rsame_sh(a: Ro, b: Ro) -> bool { a.shape() == b.shape() }
pub broadcast proof fn rsh_plus(a: Ro, b: Ro, c: Ro, d: Ro) requires rsame_sh(a, c), rsame_sh(b, d) ensures #[trigger] rsame_sh(a.plus(b), c.plus(d)) { assert(a.shape() == c.shape() && b.shape() == d.shape()); assert(a.fields.len() == c.fields.len() && a.bits.len() == c.bits.len() && b.fields.len() == d.fields.len() && b.bits.len() == d.bits.len()); }
pub proof fn rsh_none0() ensures rsame_sh(rnone(), rnone()) { }
pub broadcast proof fn rsh_none() ensures #[trigger] rsame_sh(rnone(), rnone()) { }
pub broadcast proof fn rsh_num(x: int, y: int, w: nat) ensures #[trigger] rsame_sh(rnum(x, w), rnum(y, w)) { }
pub broadcast proof fn rsh_bit(x: bool, y: bool) ensures #[trigger] rsame_sh(rbit(x), rbit(y)) { }
pub broadcast proof fn rsh_fld(x: Fp, y: Fp) ensures #[trigger] rsame_sh(rfld(x), rfld(y)) { }
pub broadcast proof fn rsh_bits(x: Seq<bool>, y: Seq<bool>) requires x.len() == y.len() ensures #[trigger] rsame_sh(rbits(x), rbits(y)) { }
pub broadcast group rshapes { rsh_plus, rsh_none, rsh_num, rsh_bit, rsh_fld, rsh_bits }
pub proof fn int_bits_val(n: int, k: nat) requires 0 <= n < two(k) ensures bits_int(int_bits(n, k)) == n decreases k {
    if k > 0 { let s = int_bits(n, k); let t = int_bits(n / 2, (k - 1) as nat); assert(two(0) == 1);
        assert forall|i: int| 0 <= i < t.len() implies s.skip(1)[i] == t[i] by { two_pos(i as nat); assert(two((i + 1) as nat) == 2 * two(i as nat)); vstd::arithmetic::div_mod::lemma_div_denominator(n, 2, two(i as nat)); }
        assert(s.skip(1) =~= t); int_bits_val(n / 2, (k - 1) as nat); assert(s[0] == ((n / 1) % 2 == 1)); assert(n == 2 * (n / 2) + n % 2); } }
pub proof fn rnum_one(x: int, y: int, w: nat) requires rnum(x, w) == rnum(y, w), 0 <= x < two(w), 0 <= y < two(w) ensures x == y { int_bits_val(x, w); int_bits_val(y, w); }
pub proof fn rbit_one(x: bool, y: bool) requires rbit(x) == rbit(y) ensures x == y { let (s, t) = (rbit(x).bits, rbit(y).bits); assert(s == seq![x] && t == seq![y]); assert(s[0] == x && t[0] == y); }
pub proof fn rfld_one(x: Fp, y: Fp) requires rfld(x) == rfld(y) ensures x == y { let (s, t) = (rfld(x).fields, rfld(y).fields); assert(s == seq![x] && t == seq![y]); assert(s[0] == x && t[0] == y); }

pub open spec fn len_accountnonce(a: AccountNonce, b: AccountNonce) -> bool { true }
pub open spec fn same_accountnonce(a: AccountNonce, b: AccountNonce) -> bool { a.0 == b.0 }
pub proof fn sh_accountnonce(a: AccountNonce, b: AccountNonce) requires len_accountnonce(a, b) ensures same_sh(a.chunk(), b.chunk()) { sh_none0();  sh_num(a.0 as int, b.0 as int, 32); sh_plus(none(), num(a.0 as int, 32), none(), num(b.0 as int, 32)); }
pub proof fn inj_accountnonce(a: AccountNonce, b: AccountNonce) requires a.ok(), b.ok(), len_accountnonce(a, b), a.chunk() == b.chunk() ensures same_accountnonce(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); sh_none0();  sh_num(a.0 as int, b.0 as int, 32); sh_plus(none(), num(a.0 as int, 32), none(), num(b.0 as int, 32));
    plus_inj(none(), num(a.0 as int, 32), none(), num(b.0 as int, 32));
    num_one(a.0 as int, b.0 as int, 32);
    
}
pub open spec fn rlen_accountnonce(a: AccountNonce, b: AccountNonce) -> bool { true }
pub proof fn rsh_accountnonce(a: AccountNonce, b: AccountNonce) requires rlen_accountnonce(a, b) ensures rsame_sh(a.ro(), b.ro()) { rsh_none0();  rsh_num(a.0 as int, b.0 as int, 32); rsh_plus(rnone(), rnum(a.0 as int, 32), rnone(), rnum(b.0 as int, 32)); }
pub proof fn rinj_accountnonce(a: AccountNonce, b: AccountNonce) requires a.ro_ok(), b.ro_ok(), rlen_accountnonce(a, b), a.ro() == b.ro() ensures same_accountnonce(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); rsh_none0();  rsh_num(a.0 as int, b.0 as int, 32); rsh_plus(rnone(), rnum(a.0 as int, 32), rnone(), rnum(b.0 as int, 32));
    rplus_inj(rnone(), rnum(a.0 as int, 32), rnone(), rnum(b.0 as int, 32));
    rnum_one(a.0 as int, b.0 as int, 32);
    
}
pub open spec fn len_globalslotnumber(a: GlobalSlotNumber, b: GlobalSlotNumber) -> bool { true }
pub open spec fn same_globalslotnumber(a: GlobalSlotNumber, b: GlobalSlotNumber) -> bool { a.0 == b.0 }
pub proof fn sh_globalslotnumber(a: GlobalSlotNumber, b: GlobalSlotNumber) requires len_globalslotnumber(a, b) ensures same_sh(a.chunk(), b.chunk()) { sh_none0();  sh_num(a.0 as int, b.0 as int, 32); sh_plus(none(), num(a.0 as int, 32), none(), num(b.0 as int, 32)); }
pub proof fn inj_globalslotnumber(a: GlobalSlotNumber, b: GlobalSlotNumber) requires a.ok(), b.ok(), len_globalslotnumber(a, b), a.chunk() == b.chunk() ensures same_globalslotnumber(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); sh_none0();  sh_num(a.0 as int, b.0 as int, 32); sh_plus(none(), num(a.0 as int, 32), none(), num(b.0 as int, 32));
    plus_inj(none(), num(a.0 as int, 32), none(), num(b.0 as int, 32));
    num_one(a.0 as int, b.0 as int, 32);
    
}
pub open spec fn rlen_globalslotnumber(a: GlobalSlotNumber, b: GlobalSlotNumber) -> bool { true }
pub proof fn rsh_globalslotnumber(a: GlobalSlotNumber, b: GlobalSlotNumber) requires rlen_globalslotnumber(a, b) ensures rsame_sh(a.ro(), b.ro()) { rsh_none0();  rsh_num(a.0 as int, b.0 as int, 32); rsh_plus(rnone(), rnum(a.0 as int, 32), rnone(), rnum(b.0 as int, 32)); }
pub proof fn rinj_globalslotnumber(a: GlobalSlotNumber, b: GlobalSlotNumber) requires a.ro_ok(), b.ro_ok(), rlen_globalslotnumber(a, b), a.ro() == b.ro() ensures same_globalslotnumber(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); rsh_none0();  rsh_num(a.0 as int, b.0 as int, 32); rsh_plus(rnone(), rnum(a.0 as int, 32), rnone(), rnum(b.0 as int, 32));
    rplus_inj(rnone(), rnum(a.0 as int, 32), rnone(), rnum(b.0 as int, 32));
    rnum_one(a.0 as int, b.0 as int, 32);
    
}
pub open spec fn len_amount(a: Amount, b: Amount) -> bool { true }
pub open spec fn same_amount(a: Amount, b: Amount) -> bool { a.0 == b.0 }
pub proof fn sh_amount(a: Amount, b: Amount) requires len_amount(a, b) ensures same_sh(a.chunk(), b.chunk()) { sh_none0();  sh_num(a.0 as int, b.0 as int, 64); sh_plus(none(), num(a.0 as int, 64), none(), num(b.0 as int, 64)); }
pub proof fn inj_amount(a: Amount, b: Amount) requires a.ok(), b.ok(), len_amount(a, b), a.chunk() == b.chunk() ensures same_amount(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); sh_none0();  sh_num(a.0 as int, b.0 as int, 64); sh_plus(none(), num(a.0 as int, 64), none(), num(b.0 as int, 64));
    plus_inj(none(), num(a.0 as int, 64), none(), num(b.0 as int, 64));
    num_one(a.0 as int, b.0 as int, 64);
    
}
pub open spec fn rlen_amount(a: Amount, b: Amount) -> bool { true }
pub proof fn rsh_amount(a: Amount, b: Amount) requires rlen_amount(a, b) ensures rsame_sh(a.ro(), b.ro()) { rsh_none0();  rsh_num(a.0 as int, b.0 as int, 64); rsh_plus(rnone(), rnum(a.0 as int, 64), rnone(), rnum(b.0 as int, 64)); }
pub proof fn rinj_amount(a: Amount, b: Amount) requires a.ro_ok(), b.ro_ok(), rlen_amount(a, b), a.ro() == b.ro() ensures same_amount(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); rsh_none0();  rsh_num(a.0 as int, b.0 as int, 64); rsh_plus(rnone(), rnum(a.0 as int, 64), rnone(), rnum(b.0 as int, 64));
    rplus_inj(rnone(), rnum(a.0 as int, 64), rnone(), rnum(b.0 as int, 64));
    rnum_one(a.0 as int, b.0 as int, 64);
    
}
pub open spec fn rlen_tokenid(a: TokenId, b: TokenId) -> bool { true }
pub open spec fn same_tokenid(a: TokenId, b: TokenId) -> bool { a.0 == b.0 }
pub proof fn rsh_tokenid(a: TokenId, b: TokenId) requires rlen_tokenid(a, b) ensures rsame_sh(a.ro(), b.ro()) { rsh_none0();  rsh_num(a.0 as int, b.0 as int, 64); rsh_plus(rnone(), rnum(a.0 as int, 64), rnone(), rnum(b.0 as int, 64)); }
pub proof fn rinj_tokenid(a: TokenId, b: TokenId) requires a.ro_ok(), b.ro_ok(), rlen_tokenid(a, b), a.ro() == b.ro() ensures same_tokenid(a, b) {
    two_vals(); two_mono(64, 254); two_mono(32, 254); rsh_none0();  rsh_num(a.0 as int, b.0 as int, 64); rsh_plus(rnone(), rnum(a.0 as int, 64), rnone(), rnum(b.0 as int, 64));
    rplus_inj(rnone(), rnum(a.0 as int, 64), rnone(), rnum(b.0 as int, 64));
    rnum_one(a.0 as int, b.0 as int, 64);
    
}
pub open spec fn len_tokenid(a: TokenId, b: TokenId) -> bool { true }
pub proof fn sh_tokenid(a: TokenId, b: TokenId) ensures same_sh(a.chunk(), b.chunk()) { broadcast use shapes; }
pub proof fn inj_tokenid(a: TokenId, b: TokenId) requires a.chunk() == b.chunk() ensures same_tokenid(a, b) { broadcast use shapes; two_vals(); two_mono(64, 254); plus_inj(none(), fld(fp(a.0 as int)), none(), fld(fp(b.0 as int))); fld_one(fp(a.0 as int), fp(b.0 as int)); fp_inj(a.0 as int, b.0 as int); }
/// a VRF output is 253 bits: the three high bits of its 32nd byte are unused
pub open spec fn vrf_form(v: Seq<u8>) -> bool { v.len() <= 31 || v.len() == 32 && v[31] < 32 }
pub open spec fn head(v: Seq<u8>) -> Seq<u8> { if v.len() <= 31 { v } else { v.take(31) } }
pub proof fn vrf_last(a: Seq<u8>, b: Seq<u8>) requires a.len() == 32, b.len() == 32, a[31] < 32, b[31] < 32, a.take(31) == b.take(31), low5(a[31]) =~= low5(b[31]) ensures a == b {
    let (x, y) = (low5(a[31]), low5(b[31])); assert(x[0] == y[0] && x[1] == y[1] && x[2] == y[2] && x[3] == y[3] && x[4] == y[4]);
    let (m, n) = (a[31], b[31]);
    assert(m == n) by (bit_vector) requires m < 32, n < 32, (m % 2 == 1) == (n % 2 == 1), ((m / 2) % 2 == 1) == ((n / 2) % 2 == 1), ((m / 4) % 2 == 1) == ((n / 4) % 2 == 1), ((m / 8) % 2 == 1) == ((n / 8) % 2 == 1), ((m / 16) % 2 == 1) == ((n / 16) % 2 == 1);
    assert(a =~= a.take(31).push(a[31])); assert(b =~= b.take(31).push(b[31])); }
pub open spec fn untimed_tail() -> Chunk { none().plus(none().plus(num(0, 64))).plus(num(0, 32)).plus(none().plus(num(0, 64))).plus(num(1, 32)).plus(none().plus(num(0, 64))) }
// signed commands
pub ghost struct Cmd { pub from: CompressedPubKey, pub to: CompressedPubKey, pub delegation: bool, pub token: u64, pub amount: u64 }
pub open spec fn cmd_of(b: SignedCommandPayloadBody) -> Cmd { match b { SignedCommandPayloadBody::PaymentPayload(p) => Cmd { from: p.source_pk, to: p.receiver_pk, delegation: false, token: p.token_id.0, amount: p.amount.0 }, SignedCommandPayloadBody::StakeDelegation(StakeDelegation::SetDelegate { delegator, new_delegate }) => Cmd { from: delegator, to: new_delegate, delegation: true, token: 1, amount: 0 } } }
pub proof fn cmd_ro(p: SignedCommandPayload) ensures p.ro() == command(p.common, cmd_of(p.body).from, cmd_of(p.body).to, cmd_of(p.body).delegation, cmd_of(p.body).token, cmd_of(p.body).amount) { }

/// what is signed determines the command: every field of the common part, the kind of the body, and every field of the body
pub proof fn command_input_inj(a: SignedCommandPayload, b: SignedCommandPayload) requires a.common.memo.0@.len() == b.common.memo.0@.len(), a.ro() == b.ro()
    ensures a.common.fee == b.common.fee, a.common.fee_token == b.common.fee_token, a.common.fee_payer_pk == b.common.fee_payer_pk, a.common.nonce == b.common.nonce, a.common.valid_until == b.common.valid_until, a.common.memo.0@ == b.common.memo.0@, a.body == b.body
{
    let (ca, cb) = (cmd_of(a.body), cmd_of(b.body)); cmd_ro(a); cmd_ro(b); bytes_int(a.common.memo.0@); bytes_int(b.common.memo.0@); two_vals(); rsh_none0();
    rsh_fld(a.common.fee_payer_pk.x, b.common.fee_payer_pk.x); rsh_fld(ca.from.x, cb.from.x); rsh_fld(ca.to.x, cb.to.x); rsh_num(a.common.fee.0 as int, b.common.fee.0 as int, 64); rsh_num(a.common.fee_token.0 as int, b.common.fee_token.0 as int, 64); rsh_bit(a.common.fee_payer_pk.is_odd, b.common.fee_payer_pk.is_odd); rsh_num(a.common.nonce.0 as int, b.common.nonce.0 as int, 32); rsh_num(a.common.valid_until.0 as int, b.common.valid_until.0 as int, 32); rsh_bits(bytes_bits(a.common.memo.0@), bytes_bits(b.common.memo.0@)); rsh_bit(false, false); rsh_bit(false, false); rsh_bit(ca.delegation, cb.delegation); rsh_bit(ca.from.is_odd, cb.from.is_odd); rsh_bit(ca.to.is_odd, cb.to.is_odd); rsh_num(ca.token as int, cb.token as int, 64); rsh_num(ca.amount as int, cb.amount as int, 64); rsh_bit(false, false);
        rplus_inj(rnone().plus(rfld(a.common.fee_payer_pk.x)).plus(rfld(ca.from.x)).plus(rfld(ca.to.x)).plus(rnum(a.common.fee.0 as int, 64)).plus(rnum(a.common.fee_token.0 as int, 64)).plus(rbit(a.common.fee_payer_pk.is_odd)).plus(rnum(a.common.nonce.0 as int, 32)).plus(rnum(a.common.valid_until.0 as int, 32)).plus(rbits(bytes_bits(a.common.memo.0@))).plus(rbit(false)).plus(rbit(false)).plus(rbit(ca.delegation)).plus(rbit(ca.from.is_odd)).plus(rbit(ca.to.is_odd)).plus(rnum(ca.token as int, 64)).plus(rnum(ca.amount as int, 64)), rbit(false), rnone().plus(rfld(b.common.fee_payer_pk.x)).plus(rfld(cb.from.x)).plus(rfld(cb.to.x)).plus(rnum(b.common.fee.0 as int, 64)).plus(rnum(b.common.fee_token.0 as int, 64)).plus(rbit(b.common.fee_payer_pk.is_odd)).plus(rnum(b.common.nonce.0 as int, 32)).plus(rnum(b.common.valid_until.0 as int, 32)).plus(rbits(bytes_bits(b.common.memo.0@))).plus(rbit(false)).plus(rbit(false)).plus(rbit(cb.delegation)).plus(rbit(cb.from.is_odd)).plus(rbit(cb.to.is_odd)).plus(rnum(cb.token as int, 64)).plus(rnum(cb.amount as int, 64)), rbit(false));
    rplus_inj(rnone().plus(rfld(a.common.fee_payer_pk.x)).plus(rfld(ca.from.x)).plus(rfld(ca.to.x)).plus(rnum(a.common.fee.0 as int, 64)).plus(rnum(a.common.fee_token.0 as int, 64)).plus(rbit(a.common.fee_payer_pk.is_odd)).plus(rnum(a.common.nonce.0 as int, 32)).plus(rnum(a.common.valid_until.0 as int, 32)).plus(rbits(bytes_bits(a.common.memo.0@))).plus(rbit(false)).plus(rbit(false)).plus(rbit(ca.delegation)).plus(rbit(ca.from.is_odd)).plus(rbit(ca.to.is_odd)).plus(rnum(ca.token as int, 64)), rnum(ca.amount as int, 64), rnone().plus(rfld(b.common.fee_payer_pk.x)).plus(rfld(cb.from.x)).plus(rfld(cb.to.x)).plus(rnum(b.common.fee.0 as int, 64)).plus(rnum(b.common.fee_token.0 as int, 64)).plus(rbit(b.common.fee_payer_pk.is_odd)).plus(rnum(b.common.nonce.0 as int, 32)).plus(rnum(b.common.valid_until.0 as int, 32)).plus(rbits(bytes_bits(b.common.memo.0@))).plus(rbit(false)).plus(rbit(false)).plus(rbit(cb.delegation)).plus(rbit(cb.from.is_odd)).plus(rbit(cb.to.is_odd)).plus(rnum(cb.token as int, 64)), rnum(cb.amount as int, 64));
    rplus_inj(rnone().plus(rfld(a.common.fee_payer_pk.x)).plus(rfld(ca.from.x)).plus(rfld(ca.to.x)).plus(rnum(a.common.fee.0 as int, 64)).plus(rnum(a.common.fee_token.0 as int, 64)).plus(rbit(a.common.fee_payer_pk.is_odd)).plus(rnum(a.common.nonce.0 as int, 32)).plus(rnum(a.common.valid_until.0 as int, 32)).plus(rbits(bytes_bits(a.common.memo.0@))).plus(rbit(false)).plus(rbit(false)).plus(rbit(ca.delegation)).plus(rbit(ca.from.is_odd)).plus(rbit(ca.to.is_odd)), rnum(ca.token as int, 64), rnone().plus(rfld(b.common.fee_payer_pk.x)).plus(rfld(cb.from.x)).plus(rfld(cb.to.x)).plus(rnum(b.common.fee.0 as int, 64)).plus(rnum(b.common.fee_token.0 as int, 64)).plus(rbit(b.common.fee_payer_pk.is_odd)).plus(rnum(b.common.nonce.0 as int, 32)).plus(rnum(b.common.valid_until.0 as int, 32)).plus(rbits(bytes_bits(b.common.memo.0@))).plus(rbit(false)).plus(rbit(false)).plus(rbit(cb.delegation)).plus(rbit(cb.from.is_odd)).plus(rbit(cb.to.is_odd)), rnum(cb.token as int, 64));
    rplus_inj(rnone().plus(rfld(a.common.fee_payer_pk.x)).plus(rfld(ca.from.x)).plus(rfld(ca.to.x)).plus(rnum(a.common.fee.0 as int, 64)).plus(rnum(a.common.fee_token.0 as int, 64)).plus(rbit(a.common.fee_payer_pk.is_odd)).plus(rnum(a.common.nonce.0 as int, 32)).plus(rnum(a.common.valid_until.0 as int, 32)).plus(rbits(bytes_bits(a.common.memo.0@))).plus(rbit(false)).plus(rbit(false)).plus(rbit(ca.delegation)).plus(rbit(ca.from.is_odd)), rbit(ca.to.is_odd), rnone().plus(rfld(b.common.fee_payer_pk.x)).plus(rfld(cb.from.x)).plus(rfld(cb.to.x)).plus(rnum(b.common.fee.0 as int, 64)).plus(rnum(b.common.fee_token.0 as int, 64)).plus(rbit(b.common.fee_payer_pk.is_odd)).plus(rnum(b.common.nonce.0 as int, 32)).plus(rnum(b.common.valid_until.0 as int, 32)).plus(rbits(bytes_bits(b.common.memo.0@))).plus(rbit(false)).plus(rbit(false)).plus(rbit(cb.delegation)).plus(rbit(cb.from.is_odd)), rbit(cb.to.is_odd));
    rplus_inj(rnone().plus(rfld(a.common.fee_payer_pk.x)).plus(rfld(ca.from.x)).plus(rfld(ca.to.x)).plus(rnum(a.common.fee.0 as int, 64)).plus(rnum(a.common.fee_token.0 as int, 64)).plus(rbit(a.common.fee_payer_pk.is_odd)).plus(rnum(a.common.nonce.0 as int, 32)).plus(rnum(a.common.valid_until.0 as int, 32)).plus(rbits(bytes_bits(a.common.memo.0@))).plus(rbit(false)).plus(rbit(false)).plus(rbit(ca.delegation)), rbit(ca.from.is_odd), rnone().plus(rfld(b.common.fee_payer_pk.x)).plus(rfld(cb.from.x)).plus(rfld(cb.to.x)).plus(rnum(b.common.fee.0 as int, 64)).plus(rnum(b.common.fee_token.0 as int, 64)).plus(rbit(b.common.fee_payer_pk.is_odd)).plus(rnum(b.common.nonce.0 as int, 32)).plus(rnum(b.common.valid_until.0 as int, 32)).plus(rbits(bytes_bits(b.common.memo.0@))).plus(rbit(false)).plus(rbit(false)).plus(rbit(cb.delegation)), rbit(cb.from.is_odd));
    rplus_inj(rnone().plus(rfld(a.common.fee_payer_pk.x)).plus(rfld(ca.from.x)).plus(rfld(ca.to.x)).plus(rnum(a.common.fee.0 as int, 64)).plus(rnum(a.common.fee_token.0 as int, 64)).plus(rbit(a.common.fee_payer_pk.is_odd)).plus(rnum(a.common.nonce.0 as int, 32)).plus(rnum(a.common.valid_until.0 as int, 32)).plus(rbits(bytes_bits(a.common.memo.0@))).plus(rbit(false)).plus(rbit(false)), rbit(ca.delegation), rnone().plus(rfld(b.common.fee_payer_pk.x)).plus(rfld(cb.from.x)).plus(rfld(cb.to.x)).plus(rnum(b.common.fee.0 as int, 64)).plus(rnum(b.common.fee_token.0 as int, 64)).plus(rbit(b.common.fee_payer_pk.is_odd)).plus(rnum(b.common.nonce.0 as int, 32)).plus(rnum(b.common.valid_until.0 as int, 32)).plus(rbits(bytes_bits(b.common.memo.0@))).plus(rbit(false)).plus(rbit(false)), rbit(cb.delegation));
    rplus_inj(rnone().plus(rfld(a.common.fee_payer_pk.x)).plus(rfld(ca.from.x)).plus(rfld(ca.to.x)).plus(rnum(a.common.fee.0 as int, 64)).plus(rnum(a.common.fee_token.0 as int, 64)).plus(rbit(a.common.fee_payer_pk.is_odd)).plus(rnum(a.common.nonce.0 as int, 32)).plus(rnum(a.common.valid_until.0 as int, 32)).plus(rbits(bytes_bits(a.common.memo.0@))).plus(rbit(false)), rbit(false), rnone().plus(rfld(b.common.fee_payer_pk.x)).plus(rfld(cb.from.x)).plus(rfld(cb.to.x)).plus(rnum(b.common.fee.0 as int, 64)).plus(rnum(b.common.fee_token.0 as int, 64)).plus(rbit(b.common.fee_payer_pk.is_odd)).plus(rnum(b.common.nonce.0 as int, 32)).plus(rnum(b.common.valid_until.0 as int, 32)).plus(rbits(bytes_bits(b.common.memo.0@))).plus(rbit(false)), rbit(false));
    rplus_inj(rnone().plus(rfld(a.common.fee_payer_pk.x)).plus(rfld(ca.from.x)).plus(rfld(ca.to.x)).plus(rnum(a.common.fee.0 as int, 64)).plus(rnum(a.common.fee_token.0 as int, 64)).plus(rbit(a.common.fee_payer_pk.is_odd)).plus(rnum(a.common.nonce.0 as int, 32)).plus(rnum(a.common.valid_until.0 as int, 32)).plus(rbits(bytes_bits(a.common.memo.0@))), rbit(false), rnone().plus(rfld(b.common.fee_payer_pk.x)).plus(rfld(cb.from.x)).plus(rfld(cb.to.x)).plus(rnum(b.common.fee.0 as int, 64)).plus(rnum(b.common.fee_token.0 as int, 64)).plus(rbit(b.common.fee_payer_pk.is_odd)).plus(rnum(b.common.nonce.0 as int, 32)).plus(rnum(b.common.valid_until.0 as int, 32)).plus(rbits(bytes_bits(b.common.memo.0@))), rbit(false));
    rplus_inj(rnone().plus(rfld(a.common.fee_payer_pk.x)).plus(rfld(ca.from.x)).plus(rfld(ca.to.x)).plus(rnum(a.common.fee.0 as int, 64)).plus(rnum(a.common.fee_token.0 as int, 64)).plus(rbit(a.common.fee_payer_pk.is_odd)).plus(rnum(a.common.nonce.0 as int, 32)).plus(rnum(a.common.valid_until.0 as int, 32)), rbits(bytes_bits(a.common.memo.0@)), rnone().plus(rfld(b.common.fee_payer_pk.x)).plus(rfld(cb.from.x)).plus(rfld(cb.to.x)).plus(rnum(b.common.fee.0 as int, 64)).plus(rnum(b.common.fee_token.0 as int, 64)).plus(rbit(b.common.fee_payer_pk.is_odd)).plus(rnum(b.common.nonce.0 as int, 32)).plus(rnum(b.common.valid_until.0 as int, 32)), rbits(bytes_bits(b.common.memo.0@)));
    rplus_inj(rnone().plus(rfld(a.common.fee_payer_pk.x)).plus(rfld(ca.from.x)).plus(rfld(ca.to.x)).plus(rnum(a.common.fee.0 as int, 64)).plus(rnum(a.common.fee_token.0 as int, 64)).plus(rbit(a.common.fee_payer_pk.is_odd)).plus(rnum(a.common.nonce.0 as int, 32)), rnum(a.common.valid_until.0 as int, 32), rnone().plus(rfld(b.common.fee_payer_pk.x)).plus(rfld(cb.from.x)).plus(rfld(cb.to.x)).plus(rnum(b.common.fee.0 as int, 64)).plus(rnum(b.common.fee_token.0 as int, 64)).plus(rbit(b.common.fee_payer_pk.is_odd)).plus(rnum(b.common.nonce.0 as int, 32)), rnum(b.common.valid_until.0 as int, 32));
    rplus_inj(rnone().plus(rfld(a.common.fee_payer_pk.x)).plus(rfld(ca.from.x)).plus(rfld(ca.to.x)).plus(rnum(a.common.fee.0 as int, 64)).plus(rnum(a.common.fee_token.0 as int, 64)).plus(rbit(a.common.fee_payer_pk.is_odd)), rnum(a.common.nonce.0 as int, 32), rnone().plus(rfld(b.common.fee_payer_pk.x)).plus(rfld(cb.from.x)).plus(rfld(cb.to.x)).plus(rnum(b.common.fee.0 as int, 64)).plus(rnum(b.common.fee_token.0 as int, 64)).plus(rbit(b.common.fee_payer_pk.is_odd)), rnum(b.common.nonce.0 as int, 32));
    rplus_inj(rnone().plus(rfld(a.common.fee_payer_pk.x)).plus(rfld(ca.from.x)).plus(rfld(ca.to.x)).plus(rnum(a.common.fee.0 as int, 64)).plus(rnum(a.common.fee_token.0 as int, 64)), rbit(a.common.fee_payer_pk.is_odd), rnone().plus(rfld(b.common.fee_payer_pk.x)).plus(rfld(cb.from.x)).plus(rfld(cb.to.x)).plus(rnum(b.common.fee.0 as int, 64)).plus(rnum(b.common.fee_token.0 as int, 64)), rbit(b.common.fee_payer_pk.is_odd));
    rplus_inj(rnone().plus(rfld(a.common.fee_payer_pk.x)).plus(rfld(ca.from.x)).plus(rfld(ca.to.x)).plus(rnum(a.common.fee.0 as int, 64)), rnum(a.common.fee_token.0 as int, 64), rnone().plus(rfld(b.common.fee_payer_pk.x)).plus(rfld(cb.from.x)).plus(rfld(cb.to.x)).plus(rnum(b.common.fee.0 as int, 64)), rnum(b.common.fee_token.0 as int, 64));
    rplus_inj(rnone().plus(rfld(a.common.fee_payer_pk.x)).plus(rfld(ca.from.x)).plus(rfld(ca.to.x)), rnum(a.common.fee.0 as int, 64), rnone().plus(rfld(b.common.fee_payer_pk.x)).plus(rfld(cb.from.x)).plus(rfld(cb.to.x)), rnum(b.common.fee.0 as int, 64));
    rplus_inj(rnone().plus(rfld(a.common.fee_payer_pk.x)).plus(rfld(ca.from.x)), rfld(ca.to.x), rnone().plus(rfld(b.common.fee_payer_pk.x)).plus(rfld(cb.from.x)), rfld(cb.to.x));
    rplus_inj(rnone().plus(rfld(a.common.fee_payer_pk.x)), rfld(ca.from.x), rnone().plus(rfld(b.common.fee_payer_pk.x)), rfld(cb.from.x));
    rplus_inj(rnone(), rfld(a.common.fee_payer_pk.x), rnone(), rfld(b.common.fee_payer_pk.x));
    rfld_one(a.common.fee_payer_pk.x, b.common.fee_payer_pk.x);
    rfld_one(ca.from.x, cb.from.x);
    rfld_one(ca.to.x, cb.to.x);
    rnum_one(a.common.fee.0 as int, b.common.fee.0 as int, 64);
    rnum_one(a.common.fee_token.0 as int, b.common.fee_token.0 as int, 64);
    rbit_one(a.common.fee_payer_pk.is_odd, b.common.fee_payer_pk.is_odd);
    rnum_one(a.common.nonce.0 as int, b.common.nonce.0 as int, 32);
    rnum_one(a.common.valid_until.0 as int, b.common.valid_until.0 as int, 32);
    bits_inj(a.common.memo.0@, b.common.memo.0@);
    rbit_one(ca.delegation, cb.delegation);
    rbit_one(ca.from.is_odd, cb.from.is_odd);
    rbit_one(ca.to.is_odd, cb.to.is_odd);
    rnum_one(ca.token as int, cb.token as int, 64);
    rnum_one(ca.amount as int, cb.amount as int, 64);
    assert(ca == cb);
}
} // verus!
fn main() {}

