//@include prelude_core.rs
//@nosub
// ------------------------------------------------------------ dependencies, assumed
/// an error; every error the readers meet becomes one
#[verifier::external_body]
#[derive(Debug)]
pub struct JErr { _x: () }
/// serde_json::Value: what it is as a string or a boolean, and its members
#[verifier::external_body]
pub struct Value { _x: () }
impl Value {
    pub uninterp spec fn str(&self) -> Option<Seq<char>>;
    pub uninterp spec fn boolean(&self) -> Option<bool>;
    pub uninterp spec fn has(&self, k: Seq<char>) -> Value;
    #[verifier::external_body] pub fn at(&self, k: &str) -> (r: &Value) ensures *r == self.has(k@) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&Value>) ensures r is Some ==> *r->Some_0 == self.has(k@), r is None ==> self.has(k@).str() is None && self.has(k@).boolean() is None { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: Option<&str>) ensures (r is Some) == (self.str() is Some), r is Some ==> r->Some_0@ == self.str()->Some_0 { unimplemented!() }
    #[verifier::external_body] pub fn as_bool(&self) -> (r: Option<bool>) ensures r == self.boolean() { unimplemented!() }
}
/// Option::unwrap_or_default, at the types the readers use it
pub trait VxOr<T> { spec fn or_is(self, r: T) -> bool; fn vx_or_default(self) -> (r: T) ensures self.or_is(r); }
impl<'a> VxOr<&'a str> for Option<&'a str> { open spec fn or_is(self, r: &'a str) -> bool { r@ == txt_of(match self { Some(s) => Some(s@), None => None }) } #[verifier::external_body] fn vx_or_default(self) -> (r: &'a str) { unimplemented!() } }
impl VxOr<bool> for Option<bool> { open spec fn or_is(self, r: bool) -> bool { r == bool_of(self) } fn vx_or_default(self) -> (r: bool) { match self { Some(b) => b, None => false } } }
pub open spec fn txt_of(o: Option<Seq<char>>) -> Seq<char> { match o { Some(s) => s, None => Seq::empty() } }
pub open spec fn bool_of(o: Option<bool>) -> bool { match o { Some(b) => b, None => false } }
/// FromStr, from_address, from_hex, ...: what a text denotes, if anything
pub uninterp spec fn parsed<F>(s: Seq<char>) -> Option<F>;
pub open spec fn reads<F>(s: Seq<char>, r: core::result::Result<F, JErr>) -> bool { (r is Ok <==> parsed::<F>(s) is Some) && (r is Ok ==> r->Ok_0 == parsed::<F>(s)->Some_0) }
pub trait VxParse { fn vx_parse<F>(&self) -> (r: core::result::Result<F, JErr>); }
impl VxParse for str { #[verifier::external_body] fn vx_parse<F>(&self) -> (r: core::result::Result<F, JErr>) ensures reads::<F>(self@, r) { unimplemented!() } }
/// a hash taken from a member: it must be a string
pub open spec fn member<F>(v: Value) -> Option<F> { match v.str() { Some(s) => parsed::<F>(s), None => None } }
impl Value { #[verifier::external_body] pub fn vx_try_into<F>(&self) -> (r: core::result::Result<F, JErr>) ensures r is Ok <==> member::<F>(*self) is Some, r is Ok ==> r->Ok_0 == member::<F>(*self)->Some_0 { unimplemented!() } }
#[verifier::external_body] pub fn vx_any() -> (r: JErr) { unimplemented!() }
pub uninterp spec fn default_of<T>() -> T;
#[verifier::external_body] pub fn vx_default<T>() -> (r: T) ensures r == default_of::<T>() { unimplemented!() }
pub trait VxInto<T>: Sized { spec fn into_is(self, r: T) -> bool; fn vx_into(self) -> (r: T) ensures self.into_is(r); }
impl VxInto<Length> for u32 { open spec fn into_is(self, r: Length) -> bool { r.0 == self } fn vx_into(self) -> (r: Length) { Length(self) } }
impl VxInto<GlobalSlotNumber> for u32 { open spec fn into_is(self, r: GlobalSlotNumber) -> bool { r.0 == self } fn vx_into(self) -> (r: GlobalSlotNumber) { GlobalSlotNumber(self) } }
impl VxInto<Amount> for u64 { open spec fn into_is(self, r: Amount) -> bool { r.0 == self } fn vx_into(self) -> (r: Amount) { Amount(self) } }
macro_rules! opaque { ($($t:ident $f:ident),*) => { verus! { $(
    #[verifier::external_body] pub struct $t { _x: () }
    impl $t { #[verifier::external_body] pub fn $f(s: &str) -> (r: core::result::Result<$t, JErr>) ensures reads::<$t>(s@, r) { unimplemented!() } }
)* } } }
opaque!(StateHash from_str, LedgerHash from_str, ChainHash from_str, CoinBaseHash from_str, EpochSeed from_str, AuxHash from_str, PendingCoinbaseAuxHash from_str, CompressedPubKey from_address, VrfOutputTruncated from_base58_str, BodyReference from_hex, AuthRequired from_str, TokenSymbol vx, ZkApp vx, ZkAppUri vx, ProtocolConstants vx, BlockchainStateRegistersLocalState vx);
/// the text and the boolean of a member
pub open spec fn tx(v: Value, k: Seq<char>) -> Seq<char> { txt_of(v.has(k).str()) }
pub open spec fn bo(v: Value, k: Seq<char>) -> bool { bool_of(v.has(k).boolean()) }
/// what the text of a member denotes
pub open spec fn rd<F>(v: Value, k: Seq<char>) -> Option<F> { parsed::<F>(tx(v, k)) }
/// every reader: the value the document describes, if it describes one
pub trait FromGraphQLJson: Sized {
    spec fn good(j: Value) -> bool;
    spec fn is(&self, j: Value) -> bool;
    fn from_graphql_json(json: &Value) -> (r: core::result::Result<Self, JErr>)
        ensures r is Ok <==> Self::good(*json), r is Ok ==> r->Ok_0.is(*json);
}
//@rw index_str
//@sub numbers :: GlobalSlotNumber =>> GlobalSlotNumber
//@sub serde_json :: Value =>> Value
//@sub anyhow :: Result < Self > =>> core :: result :: Result < Self , JErr >
//@sub . unwrap_or_default ( ) =>> . vx_or_default ( )
//@sub . parse ( ) =>> . vx_parse ( )
//@sub . parse :: < u32 > ( ) =>> . vx_parse :: < u32 > ( )
//@sub . parse :: < u64 > ( ) =>> . vx_parse :: < u64 > ( )
//@sub . try_into ( ) =>> . vx_try_into ( )
//@sub . into ( ) =>> . vx_into ( )
//@sub Default :: default ( ) =>> vx_default ( )
//@sub use std :: str :: FromStr ; =>>
//@sub where Self : Sized , =>>
//@sub where Self : Sized =>>
//@sub vec ! [ 1 . vx_into ( ) =>> vec ! [ 1u32 . vx_into ( )
//@sub , 7 . vx_into ( ) =>> , 7u32 . vx_into ( )
//@sub slots_per_epoch : 7140 . =>> slots_per_epoch : 7140u32 .
//@sub impl TryFrom < & Value > for LedgerHash =>> impl LedgerHash
//@sub impl TryFrom < & Value > for CoinBaseHash =>> impl CoinBaseHash
//@sub impl TryFrom < & Value > for AuxHash =>> impl AuxHash
//@sub impl TryFrom < & Value > for PendingCoinbaseAuxHash =>> impl PendingCoinbaseAuxHash
//@sub type Error = anyhow :: Error ; =>>
//@sub fn try_from ( v =>> pub fn try_from ( v
//@sub Result < Self , Self :: Error > =>> core :: result :: Result < Self , JErr >
//@fn OfLedgerHash::try_from
    ensures r is Ok <==> member::<LedgerHash>(*v) is Some, r is Ok ==> r->Ok_0 == member::<LedgerHash>(*v)->Some_0,
//@end
//@fn OfCoinBaseHash::try_from
    ensures r is Ok <==> member::<CoinBaseHash>(*v) is Some, r is Ok ==> r->Ok_0 == member::<CoinBaseHash>(*v)->Some_0,
//@end
//@fn OfAuxHash::try_from
    ensures r is Ok <==> member::<AuxHash>(*v) is Some, r is Ok ==> r->Ok_0 == member::<AuxHash>(*v)->Some_0,
//@end
//@fn OfPendingCoinbaseAuxHash::try_from
    ensures r is Ok <==> member::<PendingCoinbaseAuxHash>(*v) is Some, r is Ok ==> r->Ok_0 == member::<PendingCoinbaseAuxHash>(*v)->Some_0,
//@end
//@impl ReadPermissions
open spec fn good(j: Value) -> bool {
    &&& rd::<AuthRequired>(j, "editState"@) is Some && rd::<AuthRequired>(j, "send"@) is Some && rd::<AuthRequired>(j, "receive"@) is Some && rd::<AuthRequired>(j, "setDelegate"@) is Some
    &&& rd::<AuthRequired>(j, "setPermissions"@) is Some && rd::<AuthRequired>(j, "setVerificationKey"@) is Some && rd::<AuthRequired>(j, "setZkappUri"@) is Some && rd::<AuthRequired>(j, "editSequenceState"@) is Some
    &&& rd::<AuthRequired>(j, "setTokenSymbol"@) is Some && rd::<AuthRequired>(j, "incrementNonce"@) is Some && rd::<AuthRequired>(j, "setVotingFor"@) is Some
}
open spec fn is(&self, j: Value) -> bool {
    &&& Some(self.edit_state) == rd::<AuthRequired>(j, "editState"@) && Some(self.send) == rd::<AuthRequired>(j, "send"@) && Some(self.receive) == rd::<AuthRequired>(j, "receive"@) && Some(self.set_delegate) == rd::<AuthRequired>(j, "setDelegate"@)
    &&& Some(self.set_permissions) == rd::<AuthRequired>(j, "setPermissions"@) && Some(self.set_verification_key) == rd::<AuthRequired>(j, "setVerificationKey"@) && Some(self.set_zkapp_uri) == rd::<AuthRequired>(j, "setZkappUri"@) && Some(self.edit_sequence_state) == rd::<AuthRequired>(j, "editSequenceState"@)
    &&& Some(self.set_token_symbol) == rd::<AuthRequired>(j, "setTokenSymbol"@) && Some(self.increment_nonce) == rd::<AuthRequired>(j, "incrementNonce"@) && Some(self.set_voting_for) == rd::<AuthRequired>(j, "setVotingFor"@)
}
//@end
//@impl ReadTimedData
open spec fn good(j: Value) -> bool { rd::<u64>(j, "initialMinimumBalance"@) is Some && rd::<u64>(j, "cliffTime"@) is Some && rd::<u64>(j, "cliffAmount"@) is Some && rd::<u64>(j, "vestingPeriod"@) is Some && rd::<u64>(j, "vestingIncrement"@) is Some }
open spec fn is(&self, j: Value) -> bool { Some(self.initial_minimum_balance.0) == rd::<u64>(j, "initialMinimumBalance"@) && Some(self.cliff_time.0) == rd::<u64>(j, "cliffTime"@) && Some(self.cliff_amount.0) == rd::<u64>(j, "cliffAmount"@) && Some(self.vesting_period.0) == rd::<u64>(j, "vestingPeriod"@) && Some(self.vesting_increment.0) == rd::<u64>(j, "vestingIncrement"@) }
//@end
//@impl ReadTiming
open spec fn good(j: Value) -> bool { true }
/// timed exactly when the document has all five numbers
open spec fn is(&self, j: Value) -> bool { match *self { Timing::Timed(d) => d.is(j), Timing::Untimed => !<TimedData as FromGraphQLJson>::good(j) } }
//@end
//@impl ReadAccount
open spec fn good(j: Value) -> bool {
    &&& rd::<CompressedPubKey>(j, "publicKey"@) is Some && rd::<u64>(j, "token"@) is Some && rd::<u64>(j.has("balance"@), "total"@) is Some && rd::<u32>(j, "nonce"@) is Some && rd::<ChainHash>(j, "receiptChainHash"@) is Some
    &&& (j.has("delegate"@).str() is Some ==> rd::<CompressedPubKey>(j, "delegate"@) is Some) && rd::<StateHash>(j, "votingFor"@) is Some && <Permissions as FromGraphQLJson>::good(j.has("permissions"@))
}
open spec fn is(&self, j: Value) -> bool {
    &&& Some(self.public_key) == rd::<CompressedPubKey>(j, "publicKey"@) && Some(self.token_id.0) == rd::<u64>(j, "token"@) && Some(self.balance.0) == rd::<u64>(j.has("balance"@), "total"@) && Some(self.nonce.0) == rd::<u32>(j, "nonce"@) && Some(self.receipt_chain_hash) == rd::<ChainHash>(j, "receiptChainHash"@)
    &&& self.delegate == (if j.has("delegate"@).str() is Some { rd::<CompressedPubKey>(j, "delegate"@) } else { None }) && Some(self.voting_for) == rd::<StateHash>(j, "votingFor"@)
    &&& self.timing.is(j.has("timing"@)) && self.permissions.is(j.has("permissions"@))
    &&& self.token_permissions == (if bo(j, "isTokenOwner"@) { TokenPermissions::TokenOwned { disable_new_accounts: bo(j, "isDisabled"@) } } else { TokenPermissions::NotOwned { account_disabled: bo(j, "isDisabled"@) } })
}
//@end
//@impl ReadEpochLedger
open spec fn good(j: Value) -> bool { rd::<LedgerHash>(j, "hash"@) is Some && rd::<u64>(j, "totalCurrency"@) is Some }
open spec fn is(&self, j: Value) -> bool { Some(self.hash) == rd::<LedgerHash>(j, "hash"@) && Some(self.total_currency.0) == rd::<u64>(j, "totalCurrency"@) }
//@end
//@impl ReadEpochData
open spec fn good(j: Value) -> bool { <EpochLedger as FromGraphQLJson>::good(j.has("ledger"@)) && rd::<EpochSeed>(j, "seed"@) is Some && rd::<StateHash>(j, "startCheckpoint"@) is Some && rd::<StateHash>(j, "lockCheckpoint"@) is Some && rd::<u32>(j, "epochLength"@) is Some }
open spec fn is(&self, j: Value) -> bool { self.ledger.is(j.has("ledger"@)) && Some(self.seed) == rd::<EpochSeed>(j, "seed"@) && Some(self.start_checkpoint) == rd::<StateHash>(j, "startCheckpoint"@) && Some(self.lock_checkpoint) == rd::<StateHash>(j, "lockCheckpoint"@) && Some(self.epoch_length.0) == rd::<u32>(j, "epochLength"@) }
//@end
//@impl ReadConsensusState
open spec fn good(j: Value) -> bool {
    &&& rd::<u32>(j, "blockHeight"@) is Some && rd::<u32>(j, "epochCount"@) is Some && rd::<u32>(j, "minWindowDensity"@) is Some && rd::<VrfOutputTruncated>(j, "lastVrfOutput"@) is Some && rd::<u64>(j, "totalCurrency"@) is Some && rd::<u32>(j, "slot"@) is Some && rd::<u32>(j, "slotSinceGenesis"@) is Some
    &&& <EpochData as FromGraphQLJson>::good(j.has("stakingEpochData"@)) && <EpochData as FromGraphQLJson>::good(j.has("nextEpochData"@))
    &&& rd::<CompressedPubKey>(j, "blockStakeWinner"@) is Some && rd::<CompressedPubKey>(j, "blockCreator"@) is Some && rd::<CompressedPubKey>(j, "coinbaseReceiever"@) is Some
}
open spec fn is(&self, j: Value) -> bool {
    &&& Some(self.blockchain_length.0) == rd::<u32>(j, "blockHeight"@) && Some(self.epoch_count.0) == rd::<u32>(j, "epochCount"@) && Some(self.min_window_density.0) == rd::<u32>(j, "minWindowDensity"@) && Some(self.last_vrf_output) == rd::<VrfOutputTruncated>(j, "lastVrfOutput"@) && Some(self.total_currency.0) == rd::<u64>(j, "totalCurrency"@)
    &&& Some(self.curr_global_slot.slot_number.0) == rd::<u32>(j, "slot"@) && Some(self.global_slot_since_genesis.0) == rd::<u32>(j, "slotSinceGenesis"@)
    &&& self.staking_epoch_data.is(j.has("stakingEpochData"@)) && self.next_epoch_data.is(j.has("nextEpochData"@))
    &&& self.has_ancestor_in_same_checkpoint_window == bo(j, "hasAncestorInSameCheckpointWindow"@) && self.supercharge_coinbase == bo(j, "superchargedCoinbase"@)
    &&& Some(self.block_stake_winner) == rd::<CompressedPubKey>(j, "blockStakeWinner"@) && Some(self.block_creator) == rd::<CompressedPubKey>(j, "blockCreator"@) && Some(self.coinbase_receiver) == rd::<CompressedPubKey>(j, "coinbaseReceiever"@)
}
//@end
//@impl ReadBlockchainState
open spec fn good(j: Value) -> bool {
    &&& member::<LedgerHash>(j.has("stagedLedgerHash"@)) is Some && member::<AuxHash>(j.has("stagedLedgerAuxHash"@)) is Some && member::<PendingCoinbaseAuxHash>(j.has("stagedLedgerPendingCoinbaseAux"@)) is Some && member::<CoinBaseHash>(j.has("stagedLedgerPendingCoinbaseHash"@)) is Some
    &&& member::<LedgerHash>(j.has("genesisLedgerHash"@)) is Some && member::<LedgerHash>(j.has("snarkedLedgerHash"@)) is Some && rd::<u64>(j, "utcDate"@) is Some && rd::<BodyReference>(j, "bodyReference"@) is Some
}
open spec fn is(&self, j: Value) -> bool {
    &&& Some(self.staged_ledger_hash.non_snark.ledger_hash) == member::<LedgerHash>(j.has("stagedLedgerHash"@)) && Some(self.staged_ledger_hash.non_snark.aux_hash) == member::<AuxHash>(j.has("stagedLedgerAuxHash"@)) && Some(self.staged_ledger_hash.non_snark.pending_coinbase_aux) == member::<PendingCoinbaseAuxHash>(j.has("stagedLedgerPendingCoinbaseAux"@)) && Some(self.staged_ledger_hash.pending_coinbase_hash) == member::<CoinBaseHash>(j.has("stagedLedgerPendingCoinbaseHash"@))
    &&& Some(self.genesis_ledger_hash) == member::<LedgerHash>(j.has("genesisLedgerHash"@)) && Some(self.registers.ledger) == member::<LedgerHash>(j.has("snarkedLedgerHash"@)) && Some(self.timestamp.0) == rd::<u64>(j, "utcDate"@) && Some(self.body_reference) == rd::<BodyReference>(j, "bodyReference"@)
}
//@end
//@impl ReadProtocolStateBody
open spec fn good(j: Value) -> bool { parsed::<StateHash>("3NLUmnTBMCeExeWErijZ2GeLnjLtBgsDjN3qM8M8gcJDtk8k89xf"@) is Some && <BlockchainState as FromGraphQLJson>::good(j.has("blockchainState"@)) && <ConsensusState as FromGraphQLJson>::good(j.has("consensusState"@)) }
open spec fn is(&self, j: Value) -> bool { self.blockchain_state.is(j.has("blockchainState"@)) && self.consensus_state.is(j.has("consensusState"@)) }
//@end
//@impl ReadProtocolState
open spec fn good(j: Value) -> bool { rd::<StateHash>(j, "previousStateHash"@) is Some && <ProtocolStateBody as FromGraphQLJson>::good(j) }
open spec fn is(&self, j: Value) -> bool { Some(self.previous_state_hash) == rd::<StateHash>(j, "previousStateHash"@) && self.body.is(j) }
//@end
//@emit base/src/numbers.rs struct:TokenId
//@emit base/src/numbers.rs struct:Length
//@emit base/src/numbers.rs struct:Amount
//@emit base/src/numbers.rs struct:AccountNonce
//@emit base/src/numbers.rs struct:GlobalSlotNumber
//@emit base/src/numbers.rs struct:BlockTime
//@emit base/src/global_slot.rs struct:GlobalSlot
//@emit crypto/src/hash/types.rs struct:StagedLedgerHash
//@emit crypto/src/hash/types.rs struct:NonSnarkStagedLedgerHash
//@emit crypto/src/hash/types.rs macro:impl_from_json_value_for_hash(LedgerHash) as=OfLedgerHash
//@emit crypto/src/hash/types.rs macro:impl_from_json_value_for_hash(CoinBaseHash) as=OfCoinBaseHash
//@emit crypto/src/hash/types.rs macro:impl_from_json_value_for_hash(AuxHash) as=OfAuxHash
//@emit crypto/src/hash/types.rs macro:impl_from_json_value_for_hash(PendingCoinbaseAuxHash) as=OfPendingCoinbaseAuxHash
//@emit base/src/account/permissions.rs struct:Permissions
//@emit base/src/account/permissions.rs impl:=implFromGraphQLJsonforPermissions as=ReadPermissions
//@emit base/src/account/timing.rs struct:TimedData
//@emit base/src/account/timing.rs enum:Timing
//@emit base/src/account/timing.rs impl:=implFromGraphQLJsonforTimedData as=ReadTimedData
//@emit base/src/account/timing.rs impl:=implFromGraphQLJsonforTiming as=ReadTiming
//@emit base/src/account/token_permissions.rs enum:TokenPermissions
//@emit base/src/account/mod.rs struct:Account
//@emit base/src/account/mod.rs impl:=implFromGraphQLJsonforAccount as=ReadAccount
//@emit base/src/epoch_data.rs struct:EpochLedger
//@emit base/src/epoch_data.rs struct:EpochData
//@emit base/src/epoch_data.rs impl:=implFromGraphQLJsonforEpochLedger as=ReadEpochLedger
//@emit base/src/epoch_data.rs impl:=implFromGraphQLJsonforEpochData as=ReadEpochData
//@emit base/src/consensus_state.rs struct:ConsensusState
//@emit base/src/consensus_state.rs impl:=implFromGraphQLJsonforConsensusState as=ReadConsensusState
//@emit base/src/blockchain_state_registers.rs struct:BlockchainStateRegisters
//@emit base/src/blockchain_state.rs struct:BlockchainState
//@emit base/src/blockchain_state.rs impl:=implFromGraphQLJsonforBlockchainState as=ReadBlockchainState
//@emit base/src/protocol_state.rs struct:ProtocolStateBody
//@emit base/src/protocol_state.rs struct:ProtocolState
//@emit base/src/protocol_state.rs impl:=implFromGraphQLJsonforProtocolStateBody as=ReadProtocolStateBody
//@emit base/src/protocol_state.rs impl:=implFromGraphQLJsonforProtocolState as=ReadProtocolState
} // verus!
fn main() {}
