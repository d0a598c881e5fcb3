//@include prelude_core.rs
broadcast use vx_bits;
global size_of usize == 8;
use std::cmp::Ordering;
use vstd::std_specs::cmp::{PartialEqSpec, PartialEqSpecImpl, PartialOrdSpec, PartialOrdSpecImpl};
/// consuming iteration hands out the elements in order
#[verifier::external_body]
pub fn vx_nth<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl<T: Clone> VxClone for Vec<T> { #[verifier::external_body] fn vx_clone(&self) -> (r: Vec<T>) { unimplemented!() } }

// ------------------------------------------------------------ dependencies
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Fp { _p: u8 }
/// field elements are ordered by their canonical integer
pub uninterp spec fn fp_int(a: Fp) -> nat;
pub open spec fn fp_cmp(a: Fp, b: Fp) -> Option<Ordering> { Some(if fp_int(a) < fp_int(b) { Ordering::Less } else if fp_int(a) == fp_int(b) { Ordering::Equal } else { Ordering::Greater }) }
impl PartialEqSpecImpl for Fp { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Fp) -> bool { *self == *o } }
impl PartialEq for Fp { #[verifier::external_body] fn eq(&self, o: &Fp) -> (r: bool) { unimplemented!() } }
impl PartialOrdSpecImpl for Fp { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Fp) -> Option<Ordering> { fp_cmp(*self, *o) } }
impl PartialOrd for Fp { #[verifier::external_body] fn partial_cmp(&self, o: &Fp) -> (r: Option<Ordering>) { unimplemented!() } }
/// derived comparisons compare the field
impl PartialEqSpecImpl for Length { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Length) -> bool { *self == *o } }
impl PartialEq for Length { #[verifier::external_body] fn eq(&self, o: &Length) -> (r: bool) { unimplemented!() } }
pub open spec fn ucmp(a: u32, b: u32) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
impl PartialOrdSpecImpl for Length { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Length) -> Option<Ordering> { Some(ucmp(self.0, o.0)) } }
impl PartialOrd for Length { #[verifier::external_body] fn partial_cmp(&self, o: &Length) -> (r: Option<Ordering>) { unimplemented!() } }
impl Clone for Length { #[verifier::external_body] fn clone(&self) -> (r: Length) ensures r == *self { unimplemented!() } }
impl Copy for Length {}
#[verifier::external_body] pub struct StateHash { _p: u8 }
impl PartialEqSpecImpl for StateHash { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &StateHash) -> bool { *self == *o } }
impl PartialEq for StateHash { #[verifier::external_body] fn eq(&self, o: &StateHash) -> (r: bool) { unimplemented!() } }
#[verifier::external_body] pub struct EpochSeed { _p: u8 }
#[verifier::external_body] pub struct LedgerHash { _p: u8 }
#[verifier::external_body] pub struct CompressedPubKey { _p: u8 }
#[verifier::external_body] pub struct Utf8Error { _p: u8 }
#[verifier::external_body] pub struct BlockchainState { _p: u8 }
#[verifier::external_body] pub struct BlockchainStateLegacy { _p: u8 }
/// blake2b of the VRF output
pub uninterp spec fn vrf_digest(v: VrfOutputTruncated) -> Seq<u8>;
impl VrfOutputTruncated { #[verifier::external_body] pub fn digest(&self) -> (r: Vec<u8>) ensures r@ == vrf_digest(*self) { unimplemented!() } }
pub uninterp spec fn hex_of(b: Seq<u8>) -> Seq<char>;
pub mod hex { use vstd::prelude::*; verus! {
#[verifier::external_body] pub fn encode(b: Vec<u8>) -> (r: String) ensures r@ == super::hex_of(b@) { unimplemented!() }
} }
/// byte order of strings, numeric order of integers
pub open spec fn str_cmp(a: Seq<char>, b: Seq<char>) -> Ordering
    decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if a[0] < b[0] { Ordering::Less }
    else if a[0] > b[0] { Ordering::Greater }
    else { str_cmp(a.drop_first(), b.drop_first()) }
}
pub broadcast proof fn str_cmp_antisym(a: Seq<char>, b: Seq<char>)
    ensures
        #[trigger] str_cmp(a, b) == Ordering::Greater <==> str_cmp(b, a) == Ordering::Less,
        str_cmp(a, b) == Ordering::Less <==> str_cmp(b, a) == Ordering::Greater,
        str_cmp(a, b) == Ordering::Equal <==> a == b,
        str_cmp(a, b) == Ordering::Equal <==> str_cmp(b, a) == Ordering::Equal,
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] {
        str_cmp_antisym(a.drop_first(), b.drop_first());
        if a.drop_first() == b.drop_first() { assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first()); }
    } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
/// Assumed of the standard library: strings compare by their characters
pub axiom fn string_order()
    ensures
        <String as PartialOrdSpec>::obeys_partial_cmp_spec(),
        forall|a: String, b: String| #[trigger] <String as PartialOrdSpec>::partial_cmp_spec(&a, &b) == Some(str_cmp(a@, b@)),
        <String as PartialEqSpec>::obeys_eq_spec(),
        forall|a: String, b: String| #[trigger] <String as PartialEqSpec>::eq_spec(&a, &b) == (a@ == b@);
pub trait VxCmp { spec fn cmp_s(&self, o: &Self) -> Ordering; fn vx_cmp(&self, o: &Self) -> (r: Ordering) ensures r == self.cmp_s(o); }
impl VxCmp for u32 { open spec fn cmp_s(&self, o: &u32) -> Ordering { ucmp(*self, *o) } #[verifier::external_body] fn vx_cmp(&self, o: &u32) -> (r: Ordering) { unimplemented!() } }
impl VxCmp for String { open spec fn cmp_s(&self, o: &String) -> Ordering { str_cmp(self@, o@) } #[verifier::external_body] fn vx_cmp(&self, o: &String) -> (r: Ordering) { unimplemented!() } }

//@emit base/src/numbers.rs struct:Length
//@emit base/src/numbers.rs struct:Amount
//@emit base/src/numbers.rs struct:GlobalSlotNumber
//@emit base/src/numbers.rs struct:BlockTime
//@sub numbers :: GlobalSlotNumber =>> GlobalSlotNumber
//@emit base/src/global_slot.rs struct:GlobalSlot
//@emit base/src/epoch_data.rs struct:EpochLedger
//@emit base/src/epoch_data.rs struct:EpochData
//@emit base/src/consensus_state.rs struct:VrfOutputTruncated
//@emit base/src/consensus_state.rs struct:ConsensusState
//@emit base/src/protocol_state.rs struct:ProtocolConstants
//@emit base/src/protocol_state.rs struct:ProtocolStateBody
//@emit base/src/protocol_state.rs struct:ProtocolStateBodyLegacy
//@emit base/src/protocol_state.rs struct:ProtocolState
//@emit base/src/protocol_state.rs struct:ProtocolStateLegacy
//@emit consensus/src/error.rs enum:ConsensusError
//@emit consensus/src/common.rs struct:ConsensusConstants
//@emit consensus/src/common.rs struct:ProtocolStateChain
pub uninterp spec fn legacy_hash(s: ProtocolStateLegacy) -> Fp;
pub uninterp spec fn kimchi_hash(s: ProtocolState) -> Fp;
impl ProtocolStateLegacy { #[verifier::external_body] pub fn vx_hash(&self) -> (r: Fp) ensures r == legacy_hash(*self) { unimplemented!() } }
impl ProtocolState { #[verifier::external_body] pub fn vx_hash(&self) -> (r: Fp) ensures r == kimchi_hash(*self) { unimplemented!() } }

// ------------------------------------------------------------ the rules
pub open spec fn last<T>(c: ProtocolStateChain<T>) -> Option<T> where T: ProtocolStateHeader { if c.0@.len() == 0 { None } else { Some(c.0@.last()) } }
pub open spec fn consecutive<T>(c: Seq<T>) -> bool where T: ProtocolStateHeader { forall|i: int| 0 < i < c.len() ==> (#[trigger] c[i]).state().blockchain_length.0 == c[i - 1].state().blockchain_length.0 + 1 }
pub open spec fn nth(rel: int, k: int) -> int { (rel + k) % 11 }
#[verifier::opaque]
pub open spec fn gone(j: int, rel: int, n: int) -> bool { exists|k: int| 1 <= k <= n && #[trigger] nth(rel, k) == j }
pub open spec fn emptied(w: Seq<Length>, rel: int, n: int) -> Seq<Length> { Seq::new(w.len(), |j: int| if gone(j, rel, n) { Length(0) } else { w[j] }) }
pub open spec fn total(w: Seq<Length>) -> int decreases w.len() { if w.len() == 0 { 0 } else { total(w.drop_last()) + w.last().0 } }
pub open spec fn slot(s: ConsensusState) -> int { s.curr_global_slot.slot_number.0 as int }
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn shifts(a: ConsensusState, b: ConsensusState) -> int { imin(imax(slot(a), slot(b)) - imax(slot(a) - 1, 0), 11) }
pub open spec fn own_window(a: ConsensusState) -> int { (slot(a) / 11) % 11 }
/// the relative minimum window density of a, with respect to b; None: a sub-window is missing
#[verifier::opaque]
pub open spec fn density(a: ConsensusState, b: ConsensusState) -> Option<int> {
    if imax(slot(a), slot(b)) < 1440 { Some(a.min_window_density.0 as int) }
    else if exists|k: int| 1 <= k <= shifts(a, b) && #[trigger] nth(own_window(a), k) >= a.sub_window_densities@.len() { None }
    else { Some(imin(a.min_window_density.0 as int, total(emptied(a.sub_window_densities@, own_window(a), shifts(a, b))))) }
}
pub open spec fn epoch_slot_s(s: ConsensusState) -> Option<int> { if s.curr_global_slot.slots_per_epoch.0 == 0 { None } else { Some(slot(s) % (s.curr_global_slot.slots_per_epoch.0 as int)) } }
/// hi is one epoch ahead of lo, lo is past its seed update range and both agree on the checkpoint
pub open spec fn one_ahead(hi: ConsensusState, lo: ConsensusState) -> bool {
    hi.epoch_count.0 == lo.epoch_count.0 + 1 && epoch_slot_s(lo) is Some && epoch_slot_s(lo)->Some_0 >= 4760 && hi.staking_epoch_data.lock_checkpoint == lo.next_epoch_data.lock_checkpoint
}
#[verifier::opaque]
pub open spec fn short_range(a: ConsensusState, b: ConsensusState) -> bool {
    if a.epoch_count.0 == b.epoch_count.0 { a.staking_epoch_data.lock_checkpoint == b.staking_epoch_data.lock_checkpoint } else { one_ahead(a, b) || one_ahead(b, a) }
}
/// b is longer than a, or equally long with the greater VRF digest, or that too and with the greater state hash
#[verifier::opaque]
pub open spec fn longer<T>(a: T, b: T) -> bool where T: ProtocolStateHeader {
    let (sa, sb) = (a.state(), b.state());
    let c = str_cmp(hex_of(vrf_digest(sb.last_vrf_output)), hex_of(vrf_digest(sa.last_vrf_output)));
    sb.blockchain_length.0 > sa.blockchain_length.0
    || sb.blockchain_length.0 == sa.blockchain_length.0 && (c == Ordering::Greater || c == Ordering::Equal && fp_cmp(b.hash_s(), a.hash_s()) == Some(Ordering::Greater))
}
pub open spec fn well_formed(s: ConsensusState) -> bool { s.sub_window_densities@.len() == 11 && forall|j: int| 0 <= j < 11 ==> (#[trigger] s.sub_window_densities@[j]).0 <= 7 }
/// does candidate b replace a; None: the comparison is an error
pub open spec fn replaces<T>(a: T, b: T) -> Option<bool> where T: ProtocolStateHeader {
    if short_range(a.state(), b.state()) { Some(longer(a, b)) }
    else if !well_formed(b.state()) { Some(false) }
    else { match (density(a.state(), b.state()), density(b.state(), a.state())) {
        (Some(x), Some(y)) => Some(y > x || y == x && longer(a, b)),
        _ => None,
    } }
}
pub open spec fn step<T>(tip: ProtocolStateChain<T>, c: ProtocolStateChain<T>) -> Option<ProtocolStateChain<T>> where T: ProtocolStateHeader {
    if last(tip) is None || last(c) is None { None } else { match replaces(last(tip)->Some_0, last(c)->Some_0) { None => None, Some(b) => Some(if b { c } else { tip }) } }
}
/// the chain selected after the first n candidates
pub open spec fn after<T>(tip: ProtocolStateChain<T>, cs: Seq<ProtocolStateChain<T>>, n: nat) -> Option<ProtocolStateChain<T>> where T: ProtocolStateHeader
    decreases n
{ if n == 0 { Some(tip) } else { match after(tip, cs, (n - 1) as nat) { None => None, Some(t) => step(t, cs[n - 1]) } } }
pub proof fn after_none<T>(tip: ProtocolStateChain<T>, cs: Seq<ProtocolStateChain<T>>, n: nat, m: nat) where T: ProtocolStateHeader
    requires n <= m, after(tip, cs, n) is None ensures after(tip, cs, m) is None decreases m
{ if n < m { after_none(tip, cs, n, (m - 1) as nat); } }
/// the selected chain is the current one or a candidate
pub proof fn after_member<T>(tip: ProtocolStateChain<T>, cs: Seq<ProtocolStateChain<T>>, n: nat) where T: ProtocolStateHeader
    requires n <= cs.len(), after(tip, cs, n) is Some
    ensures after(tip, cs, n)->Some_0 == tip || exists|j: int| 0 <= j < n && cs[j] == after(tip, cs, n)->Some_0
    decreases n
{ if n > 0 { after_member(tip, cs, (n - 1) as nat); let t = after(tip, cs, (n - 1) as nat)->Some_0; if after(tip, cs, n)->Some_0 == t { if t != tip { let j = choose|j: int| 0 <= j < n - 1 && cs[j] == t; assert(cs[j] == t && 0 <= j < n); } } else { assert(cs[n - 1] == after(tip, cs, n)->Some_0); } } }
/// among densities and ties the relation is a strict preference: two chains never replace each other
pub proof fn preference_is_strict<T>(a: T, b: T) where T: ProtocolStateHeader
    requires
        replaces(a, b) == Some(true),
    ensures replaces(b, a) != Some(true)
{
    reveal(density); reveal(short_range); reveal(longer);
    let (x, y) = (hex_of(vrf_digest(a.state().last_vrf_output)), hex_of(vrf_digest(b.state().last_vrf_output)));
    assert(short_range(a.state(), b.state()) == short_range(b.state(), a.state()));
    str_cmp_antisym(x, y);
}
pub broadcast proof fn emptied_zero(w: Seq<Length>, rel: int, n: int) requires n <= 0 ensures #[trigger] emptied(w, rel, n) =~= w { reveal(gone); }
pub broadcast proof fn total_all(w: Seq<Length>, n: int) requires n == w.len() ensures #[trigger] total(w.take(n)) == total(w) { assert(w.take(n) =~= w); }
pub proof fn gone_step(j: int, rel: int, n: int) requires n >= 0 ensures gone(j, rel, n + 1) == (gone(j, rel, n) || j == nth(rel, n + 1))
{ reveal(gone); if gone(j, rel, n + 1) { let k = choose|k: int| 1 <= k <= n + 1 && #[trigger] nth(rel, k) == j; if k <= n { assert(gone(j, rel, n)); } } if gone(j, rel, n) { let k = choose|k: int| 1 <= k <= n && #[trigger] nth(rel, k) == j; assert(nth(rel, k) == j); } if j == nth(rel, n + 1) { assert(gone(j, rel, n + 1)); } }
pub proof fn emptied_step(w: Seq<Length>, rel: int, n: int)
    requires n >= 0, 0 <= nth(rel, n + 1) < w.len()
    ensures emptied(w, rel, n + 1) =~= emptied(w, rel, n).update(nth(rel, n + 1), Length(0))
{ assert forall|j: int| 0 <= j < w.len() implies #[trigger] emptied(w, rel, n + 1)[j] == emptied(w, rel, n).update(nth(rel, n + 1), Length(0))[j] by { gone_step(j, rel, n); } }
pub proof fn total_nonneg(w: Seq<Length>) ensures total(w) >= 0 decreases w.len() { if w.len() > 0 { total_nonneg(w.drop_last()); } }
pub proof fn total_mono(w: Seq<Length>, n: int) requires 0 <= n <= w.len() ensures total(w.take(n)) <= total(w) decreases w.len() - n
{ if n < w.len() { total_mono(w, n + 1); assert(w.take(n + 1).drop_last() =~= w.take(n)); } else { assert(w.take(n) =~= w); } }
pub proof fn total_step(w: Seq<Length>, n: int) requires 0 <= n < w.len() ensures total(w.take(n + 1)) == total(w.take(n)) + w[n].0
{ assert(w.take(n + 1).drop_last() =~= w.take(n)); }

//@impl ProtocolStateHeader
    spec fn state(&self) -> ConsensusState;
    spec fn hash_s(&self) -> Fp;
//@end
//@impl PsLegacy
    open spec fn state(&self) -> ConsensusState { self.body.consensus_state }
    open spec fn hash_s(&self) -> Fp { legacy_hash(*self) }
//@end
//@impl PsNew
    open spec fn state(&self) -> ConsensusState { self.body.consensus_state }
    open spec fn hash_s(&self) -> Fp { kimchi_hash(*self) }
//@end
//@fn ProtocolStateHeader::get_height
    ensures r == self.state().blockchain_length,
//@end
//@fn ProtocolStateHeader::min_window_density
    ensures r == self.state().min_window_density,
//@end
//@fn ProtocolStateHeader::sub_window_densities
    ensures r@ == self.state().sub_window_densities@,
//@end
//@fn ProtocolStateHeader::consensus_state
    ensures *r == self.state(),
//@end
//@fn ProtocolStateHeader::state_hash_fp
    ensures r == self.hash_s(),
//@end
//@known PsLegacy::get_height PsLegacy::min_window_density PsLegacy::sub_window_densities PsLegacy::consensus_state PsLegacy::state_hash_fp PsNew::get_height PsNew::min_window_density PsNew::sub_window_densities PsNew::consensus_state PsNew::state_hash_fp
//@fn ConsensusState::sub_window_densities
    ensures r@.len() == self.sub_window_densities@.len(), forall|j: int| #![trigger r@[j]] #![trigger self.sub_window_densities@[j]] 0 <= j < r@.len() ==> r@[j] == self.sub_window_densities@[j].0,
//@loop 0
    invariant vx_i0 <= vx_s0@.len(), vx_s0@ == self.sub_window_densities@, vx_a0@.len() == vx_i0, forall|j: int| 0 <= j < vx_i0 ==> #[trigger] vx_a0@[j] == vx_s0@[j].0,
    decreases vx_s0@.len() - vx_i0
//@end
//@fn ConsensusConstants::mainnet
    ensures r.k.0 == 290, r.slots_per_epoch.0 == 7140, r.slots_per_sub_window.0 == 7, r.delta.0 == 0, r.sub_windows_per_window.0 == 11, r.grace_period_end.0 == 1440,
//@end
//@fn Chain::push
    ensures
        r is Ok <==> (old(self).0@.len() == 0 || new.state().blockchain_length.0 == old(self).0@.last().state().blockchain_length.0 + 1),
        r is Ok ==> final(self).0@ == old(self).0@.push(new),
        r is Err ==> r == Err::<(), ConsensusError>(ConsensusError::InvalidHeight) && final(self).0@ == old(self).0@,
        consecutive(old(self).0@) ==> consecutive(final(self).0@),
//@end
//@fn Chain::top
    ensures r is Some <==> last(*self) is Some, r is Some ==> *r->Some_0 == last(*self)->Some_0,
//@end
//@fn Chain::consensus_state
    ensures r is Some <==> last(*self) is Some, r is Some ==> *r->Some_0 == last(*self)->Some_0.state(),
//@end
//@fn Chain::genesis_block
    ensures r is Some <==> self.0@.len() > 0, r is Some ==> *r->Some_0 == self.0@[0],
//@end
//@fn Chain::global_slot
    ensures r is Some <==> last(*self) is Some, r is Some ==> *r->Some_0 == last(*self)->Some_0.state().curr_global_slot,
//@end
//@fn Chain::epoch_slot
    ensures r is Some <==> last(*self) is Some && epoch_slot_s(last(*self)->Some_0.state()) is Some, r is Some ==> r->Some_0 == epoch_slot_s(last(*self)->Some_0.state())->Some_0,
//@end
//@fn Chain::length
    ensures r == (if last(*self) is None { 0 } else { last(*self)->Some_0.state().blockchain_length.0 as int }),
//@end
//@fn Chain::last_vrf_hash_digest
    ensures r is Ok <==> last(*self) is Some, r is Ok ==> r->Ok_0@ == hex_of(vrf_digest(last(*self)->Some_0.state().last_vrf_output)), r is Err ==> r->Err_0 == ConsensusError::TopBlockNotFound,
//@end
//@fn Chain::state_hash
    ensures r is Some <==> last(*self) is Some, r is Some ==> r->Some_0 == last(*self)->Some_0.hash_s(),
//@end
//@impl ChainSelection
    spec fn selected(tip: Self, cs: Seq<Self>, n: nat) -> Option<Self> where Self: Sized;
    spec fn wins(tip: Self, c: Self) -> Option<bool> where Self: Sized;
    spec fn forked_late(a: Self, b: Self) -> Option<bool> where Self: Sized;
    spec fn reldensity(a: Self, b: Self) -> Option<int> where Self: Sized;
    spec fn known(a: Self) -> bool where Self: Sized;
//@end
//@impl ChainSel
    open spec fn selected(tip: Self, cs: Seq<Self>, n: nat) -> Option<Self> { after(tip, cs, n) }
    open spec fn wins(tip: Self, c: Self) -> Option<bool> { if last(tip) is None || last(c) is None { None } else { Some(longer(last(tip)->Some_0, last(c)->Some_0)) } }
    open spec fn forked_late(a: Self, b: Self) -> Option<bool> { if last(a) is None || last(b) is None { None } else { Some(short_range(last(a)->Some_0.state(), last(b)->Some_0.state())) } }
    open spec fn reldensity(a: Self, b: Self) -> Option<int> { if last(a) is None || last(b) is None { None } else { density(last(a)->Some_0.state(), last(b)->Some_0.state()) } }
    open spec fn known(a: Self) -> bool { last(a) is Some }
//@end
//@fn ChainSelection::select_secure_chain
    ensures
        r is Ok ==> Self::selected(*old(self), candidates@, candidates@.len()) == Some(*final(self)),
        r is Err ==> Self::selected(*old(self), candidates@, candidates@.len()) is None && exists|n: nat| n < candidates@.len() && #[trigger] Self::selected(*old(self), candidates@, n) == Some(*final(self)),
//@end
//@fn ChainSelection::select_longer_chain
    ensures
        r is Ok <==> Self::wins(*old(self), candidate) is Some,
        r is Ok ==> *final(self) == (if Self::wins(*old(self), candidate) == Some(true) { candidate } else { *old(self) }),
        r is Err ==> *final(self) == *old(self),
//@end
//@fn ChainSelection::is_short_range
    ensures r is Ok <==> Self::forked_late(*self, *candidate) is Some, r is Ok ==> Self::forked_late(*self, *candidate) == Some(r->Ok_0),
//@end
//@fn ChainSelection::relative_min_window_density
    ensures
        r is Ok <==> Self::reldensity(*self, *candidate) is Some, r is Ok ==> Self::reldensity(*self, *candidate) == Some(r->Ok_0 as int),
        r is Err ==> r->Err_0 == (if Self::known(*self) && Self::known(*candidate) { ConsensusError::CandidatesMissingSubWindowDensities } else { ConsensusError::ConsensusStateNotFound }),
//@end
//@fn ChainSelection::config
    ensures r.k.0 == 290, r.slots_per_epoch.0 == 7140, r.slots_per_sub_window.0 == 7, r.delta.0 == 0, r.sub_windows_per_window.0 == 11, r.grace_period_end.0 == 1440,
//@end
//@fn ChainSel::select_secure_chain
//@attr #[verifier::loop_isolation(false)]
//@loop 0
    invariant
        vx_i0 <= vx_s0@.len(), vx_s0@ == candidates@, after(*old(self), candidates@, vx_i0 as nat) == Some(*self),
    decreases vx_s0@.len() - vx_i0
//@body 0
    proof {
        assert(after(*old(self), candidates@, (vx_i0 + 1) as nat) == step(*self, candidates@[vx_i0 as int]));
        assert(Self::selected(*old(self), candidates@, vx_i0 as nat) == Some(*self));
        if step(*self, candidates@[vx_i0 as int]) is None { after_none(*old(self), candidates@, (vx_i0 + 1) as nat, candidates@.len()); }
    }
//@loop 1
    invariant vx_i1 <= vx_s1@.len(), forall|j: int| 0 <= j < vx_i1 && (!vx_a1 || j < vx_i1 - 1) ==> #[trigger] vx_s1@[j] <= 7, vx_a1 ==> vx_i1 > 0 && vx_s1@[vx_i1 - 1] > 7,
    decreases vx_s1@.len() - vx_i1
//@end
//@fn ChainSel::select_longer_chain
//@entry
    broadcast use str_cmp_antisym;
    proof { reveal(longer); string_order(); }
//@end
//@fn ChainSel::is_short_range
//@entry
    proof { reveal(short_range); }
//@end
//@fn ChainSel::config
//@end
//@fn ChainSel::relative_min_window_density
//@attr #[verifier::loop_isolation(false)]
//@loop 0
    invariant
        0 <= shift_count <= shifts(*tip_state, *chain_b), shifts(*tip_state, *chain_b) <= 11,
        projected_window@ == emptied(tip_state.sub_window_densities@, own_window(*tip_state), shifts(*tip_state, *chain_b) - shift_count),
        rel_sub_window == nth(own_window(*tip_state), shifts(*tip_state, *chain_b) - shift_count),
        forall|k: int| 1 <= k <= shifts(*tip_state, *chain_b) - shift_count ==> #[trigger] nth(own_window(*tip_state), k) < tip_state.sub_window_densities@.len(),
    decreases shift_count
//@body 0
    proof { assert(nth(own_window(*tip_state), shifts(*tip_state, *chain_b) - shift_count + 1) == (rel_sub_window + 1) % 11);
        if (rel_sub_window + 1) % 11 < tip_state.sub_window_densities@.len() { emptied_step(tip_state.sub_window_densities@, own_window(*tip_state), shifts(*tip_state, *chain_b) - shift_count); } }
//@loop 1
    invariant vx_i1 <= vx_s1@.len(), vx_a1 == imin(total(vx_s1@.take(vx_i1 as int)), 0xffff_ffff),
    decreases vx_s1@.len() - vx_i1
//@entry
    broadcast use {emptied_zero, total_all};
    proof { reveal(density); }
//@body 1
    proof { total_step(vx_s1@, vx_i1 as int); total_nonneg(vx_s1@.take(vx_i1 as int)); }
//@end
//@sub . cmp ( =>> . vx_cmp (
//@sub . clone ( ) =>> . vx_clone ( )
//@rw iter
//@rw option_map
//@rw for_vec
//@emit base/src/consensus_state.rs impl:=implConsensusState only=sub_window_densities as=ConsensusState
//@emit base/src/protocol_state.rs trait:ProtocolStateHeader only=get_height,min_window_density,sub_window_densities,consensus_state,state_hash_fp
//@sub self . state_hash_fp ( ) =>> self . vx_hash ( )
//@emit base/src/protocol_state.rs impl:=implProtocolStateHeaderforProtocolStateLegacy only=get_height,min_window_density,sub_window_densities,consensus_state,state_hash_fp as=PsLegacy
//@emit base/src/protocol_state.rs impl:=implProtocolStateHeaderforProtocolState only=get_height,min_window_density,sub_window_densities,consensus_state,state_hash_fp as=PsNew
//@nosub
//@sub . cmp ( =>> . vx_cmp (
//@sub . clone ( ) =>> . vx_clone ( )
//@emit consensus/src/common.rs impl:=implConsensusConstants only=mainnet as=ConsensusConstants
//@emit consensus/src/common.rs impl:=impl<T>ProtocolStateChain<T>whereT:ProtocolStateHeader, as=Chain
//@sub trait ChainSelection { =>> trait ChainSelection : Sized {
//@emit consensus/src/common.rs trait:ChainSelection
//@emit consensus/src/common.rs impl:ChainSelectionforProtocolStateChain as=ChainSel
} // verus!
fn main() {}
