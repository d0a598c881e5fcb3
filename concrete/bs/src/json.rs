//! every reader of a GraphQL document, against documents with a different value under every key
use crate::harness::*;
use crate::layout::G;
use crate::rng::Rng;
use mina_crypto::hash::*;
use mina_rs_base::account::*;
use mina_rs_base::epoch_data::*;
use mina_rs_base::from_graphql_json::FromGraphQLJson;
use mina_rs_base::types::*;
use proof_systems::mina_signer::CompressedPubKey;
use serde_json::{json, Map, Value};
use std::fmt::Debug;
/// a hash with its text, written with the version byte of its kind
pub fn b58(v: u8, b: &[u8]) -> String { bs58::encode(b).with_check_version(v).into_string() }
pub fn hash_text(v: u8, b: &[u8; 32]) -> String { let mut x = vec![1u8]; x.extend(b); b58(v, &x) }
/// one member of a document: its path, a good value, and whether the reader must refuse a malformed one
struct M { path: Vec<&'static str>, v: Value, must: bool, num: bool }
fn set(o: &mut Value, p: &[&'static str], v: Value) { if p.len() == 1 { o.as_object_mut().unwrap().insert(p[0].into(), v); } else { let c = o.as_object_mut().unwrap().entry(p[0]).or_insert(Value::Object(Map::new())); set(c, &p[1..], v) } }
struct D<'a> { r: &'a mut Rng, m: Vec<M> }
impl<'a> D<'a> {
    fn put(&mut self, path: &[&'static str], v: Value, must: bool, num: bool) { self.m.push(M { path: path.to_vec(), v, must, num }) }
    fn n64(&mut self, p: &[&'static str]) -> u64 { let n = self.r.edge_u64(); self.put(p, json!(n.to_string()), true, true); n }
    fn n32(&mut self, p: &[&'static str]) -> u32 { let n = self.r.edge_u64() as u32; self.put(p, json!(n.to_string()), true, true); n }
    fn flag(&mut self, p: &[&'static str]) -> bool { let b = self.r.bool(); if b || self.r.bool() { self.put(p, json!(b), false, false); } b }
    fn raw(&mut self) -> [u8; 32] { let b = G { r: self.r, legacy: false }.h().2; b }
    fn hash(&mut self, v: u8, p: &[&'static str]) -> HashV { let b = self.raw(); self.put(p, json!(hash_text(v, &b)), true, false); mina_serialization_types::v1::HashV1::from(b) }
    fn bytes(&mut self, v: u8, p: &[&'static str]) -> Vec<u8> { let n = if self.r.one_in(6) { self.r.below(50) } else { 32 }; let b: Vec<u8> = (0..n).map(|_| self.r.next() as u8).collect(); self.put(p, json!(b58(v, &b)), true, false); b }
    fn key(&mut self, p: &[&'static str], must: bool) -> CompressedPubKey { let k = G { r: self.r, legacy: false }.key().0; self.put(p, json!(k.into_address()), must, false); k }
    fn auth(&mut self, p: &[&'static str]) -> &'static str { let a = *self.r.pick(&["None", "Either", "Proof", "Signature", "Both", "Impossible"]); self.put(p, json!(a), true, false); a }
    fn doc(&mut self) -> Value {
        let mut o = Value::Object(Map::new());
        for i in (1..self.m.len()).rev() { let j = self.r.below(i as u64 + 1) as usize; self.m.swap(i, j); }
        for m in &self.m { set(&mut o, &m.path, m.v.clone()); }
        o
    }
    /// the document, read; then each required member in turn missing, of another kind, or malformed
    fn check<T: FromGraphQLJson + Debug>(&mut self, what: &str, show: impl Fn(&T) -> String, want: String) -> Out {
        let o = self.doc();
        match caught(|| T::from_graphql_json(&o)) {
            Err(e) => return Broken(format!("reading {what} from {o} panics ({e})")),
            Ok(Err(e)) => return Broken(format!("{what} is not read from {o}: {e}")),
            Ok(Ok(v)) => { let got = show(&v); if got != want { return Broken(format!("{what} read from {o} has {got}, the document says {want}")) } }
        }
        let i = self.r.below(self.m.len() as u64) as usize; let (path, must, num) = (self.m[i].path.clone(), self.m[i].must, self.m[i].num);
        let bad = match self.r.below(5) { 0 => Value::Null, 1 => json!("!"), 2 => json!(""), 3 => json!([1]), _ => if num { json!("99999999999999999999999") } else { json!("3NKeMoncuHab5ScarV5ViyF16cJPT4taWNSaTLS64Dp67wuXigPZx") } };
        let mut p = o.clone(); set(&mut p, &path, bad.clone());
        match caught(|| T::from_graphql_json(&p).is_ok()) {
            Err(e) => Broken(format!("reading {what} panics ({e}) when {path:?} is {bad}: {p}")),
            Ok(true) if must => Broken(format!("{what} is read although {path:?} is {bad}: {p}")),
            _ => Held(true, format!("{what} {}", o.to_string().chars().take(100).collect::<String>())),
        }
    }
}
type HashV = mina_serialization_types::v1::HashV1;
pub fn permissions(_: u64, r: &mut Rng) -> Out {
    let mut d = D { r, m: vec![] };
    let w = perm(&mut d, &[]);
    d.check::<Permissions>("Permissions", show_perm, w)
}
const PERM: [&str; 11] = ["editState", "send", "receive", "setDelegate", "setPermissions", "setVerificationKey", "setZkappUri", "editSequenceState", "setTokenSymbol", "incrementNonce", "setVotingFor"];
fn perm(d: &mut D, pre: &[&'static str]) -> String { format!("{:?}", PERM.iter().map(|k| { let mut p = pre.to_vec(); p.push(k); d.auth(&p).to_string() }).collect::<Vec<_>>()) }
fn show_perm(p: &Permissions) -> String { format!("{:?}", [&p.edit_state, &p.send, &p.receive, &p.set_delegate, &p.set_permissions, &p.set_verification_key, &p.set_zkapp_uri, &p.edit_sequence_state, &p.set_token_symbol, &p.increment_nonce, &p.set_voting_for].iter().map(|a| format!("{a:?}")).collect::<Vec<_>>()) }
const TIM: [&str; 5] = ["initialMinimumBalance", "cliffTime", "cliffAmount", "vestingPeriod", "vestingIncrement"];
fn show_timed(t: &timing::TimedData) -> String { format!("{:?}", [t.initial_minimum_balance.0, t.cliff_time.0, t.cliff_amount.0, t.vesting_period.0, t.vesting_increment.0]) }
fn show_timing(t: &Timing) -> String { match t { Timing::Untimed => "untimed".into(), Timing::Timed(t) => show_timed(t) } }
pub fn timed(_: u64, r: &mut Rng) -> Out {
    let mut d = D { r, m: vec![] };
    let w: Vec<u64> = TIM.iter().map(|k| d.n64(&[k])).collect();
    let o = d.doc();
    match Timing::from_graphql_json(&o) { Ok(Timing::Timed(t)) if show_timed(&t) == format!("{w:?}") => {} t => return Broken(format!("the timing of {o} is {t:?}, expected {w:?}")) }
    let k = *d.r.pick(&TIM); let mut p = o.clone(); p.as_object_mut().unwrap().insert(k.into(), Value::Null);
    if !matches!(Timing::from_graphql_json(&p), Ok(Timing::Untimed)) { return Broken(format!("the timing of {p} is not Untimed")) }
    d.check::<timing::TimedData>("TimedData", show_timed, format!("{w:?}"))
}
pub fn account(_: u64, r: &mut Rng) -> Out {
    let mut d = D { r, m: vec![] };
    let k = d.key(&["publicKey"], true); let t = d.n64(&["token"]); let b = d.n64(&["balance", "total"]); let n = d.n32(&["nonce"]);
    let rc = d.hash(5, &["receiptChainHash"]); let vf = d.hash(0x10, &["votingFor"]);
    let del = if d.r.bool() { Some(d.key(&["delegate"], false)) } else { if d.r.bool() { d.put(&["delegate"], Value::Null, false, false); } None };
    let (own, dis) = (d.flag(&["isTokenOwner"]), d.flag(&["isDisabled"]));
    let tim = if d.r.bool() { let w: Vec<u64> = TIM.iter().map(|k| { let n = d.r.edge_u64(); d.put(&["timing", k], json!(n.to_string()), false, true); n }).collect(); format!("{w:?}") } else { for k in TIM { d.put(&["timing", k], Value::Null, false, false); } "untimed".into() };
    let p = perm(&mut d, &["permissions"]);
    let tp = if own { format!("TokenOwned {dis}") } else { format!("NotOwned {dis}") };
    let w = format!("{k:?} {t} {b} {n} {:?} {del:?} {:?} {tim} {p} {tp}", ChainHash::from(rc), StateHash::from(vf));
    d.check::<Account>("Account", |a| format!("{:?} {} {} {} {:?} {:?} {:?} {} {} {}", a.public_key, a.token_id.0, a.balance.0, a.nonce.0, a.receipt_chain_hash, a.delegate, a.voting_for, show_timing(&a.timing), show_perm(&a.permissions), match &a.token_permissions { TokenPermissions::TokenOwned { disable_new_accounts } => format!("TokenOwned {disable_new_accounts}"), TokenPermissions::NotOwned { account_disabled } => format!("NotOwned {account_disabled}") }), w)
}
fn epoch(d: &mut D, pre: &[&'static str]) -> EpochData {
    let q = |k: &[&'static str]| { let mut p = pre.to_vec(); p.extend(k); p };
    let l = EpochLedger { hash: d.hash(5, &q(&["ledger", "hash"])).into(), total_currency: Amount(d.n64(&q(&["ledger", "totalCurrency"]))) };
    EpochData { ledger: l, seed: d.hash(0x0d, &q(&["seed"])).into(), start_checkpoint: d.hash(0x10, &q(&["startCheckpoint"])).into(), lock_checkpoint: d.hash(0x10, &q(&["lockCheckpoint"])).into(), epoch_length: Length(d.n32(&q(&["epochLength"]))) }
}
pub fn epochs(_: u64, r: &mut Rng) -> Out {
    let mut d = D { r, m: vec![] };
    let e = epoch(&mut d, &[]);
    d.check::<EpochData>("EpochData", |x| format!("{x:?}"), format!("{e:?}"))
}
/// everything a state document carries
fn shown(s: &ProtocolState) -> String {
    let (b, c) = (&s.body.blockchain_state, &s.body.consensus_state);
    format!("{:?} | {:?} {:?} {:?} {:?} {:?} | {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?}", s.previous_state_hash, b.staged_ledger_hash, b.genesis_ledger_hash, b.registers.ledger, b.timestamp, b.body_reference,
        c.blockchain_length, c.epoch_count, c.min_window_density, c.last_vrf_output, c.total_currency, c.curr_global_slot.slot_number, c.global_slot_since_genesis, c.staking_epoch_data, c.next_epoch_data, c.has_ancestor_in_same_checkpoint_window, c.supercharge_coinbase, c.block_stake_winner, c.block_creator, c.coinbase_receiver)
}
pub fn state(_: u64, r: &mut Rng) -> Out {
    let mut d = D { r, m: vec![] }; let mut s = ProtocolState::default();
    s.previous_state_hash = d.hash(0x10, &["previousStateHash"]).into();
    let b = &mut s.body.blockchain_state; const B: &str = "blockchainState"; const C: &str = "consensusState";
    b.staged_ledger_hash = StagedLedgerHash { non_snark: NonSnarkStagedLedgerHash { ledger_hash: d.hash(5, &[B, "stagedLedgerHash"]).into(), aux_hash: AuxHash(d.bytes(0x0e, &[B, "stagedLedgerAuxHash"])), pending_coinbase_aux: PendingCoinbaseAuxHash(d.bytes(0x0f, &[B, "stagedLedgerPendingCoinbaseAux"])) }, pending_coinbase_hash: d.hash(0x0c, &[B, "stagedLedgerPendingCoinbaseHash"]).into() };
    b.genesis_ledger_hash = d.hash(5, &[B, "genesisLedgerHash"]).into(); b.registers.ledger = d.hash(5, &[B, "snarkedLedgerHash"]).into();
    b.timestamp = BlockTime(d.n64(&[B, "utcDate"]));
    let br = d.raw(); d.put(&[B, "bodyReference"], json!(hexs(&br)), true, false); b.body_reference = BodyReference(br);
    let c = &mut s.body.consensus_state;
    c.blockchain_length = Length(d.n32(&[C, "blockHeight"])); c.epoch_count = Length(d.n32(&[C, "epochCount"])); c.min_window_density = Length(d.n32(&[C, "minWindowDensity"]));
    let v: Vec<u8> = d.raw().to_vec(); let mut vt = vec![32u8]; vt.extend(&v); d.put(&[C, "lastVrfOutput"], json!(b58(0x15, &vt)), true, false); c.last_vrf_output = VrfOutputTruncated(v);
    c.total_currency = Amount(d.n64(&[C, "totalCurrency"])); c.curr_global_slot.slot_number = GlobalSlotNumber(d.n32(&[C, "slot"])); c.global_slot_since_genesis = GlobalSlotNumber(d.n32(&[C, "slotSinceGenesis"]));
    c.staking_epoch_data = epoch(&mut d, &[C, "stakingEpochData"]); c.next_epoch_data = epoch(&mut d, &[C, "nextEpochData"]);
    c.has_ancestor_in_same_checkpoint_window = d.flag(&[C, "hasAncestorInSameCheckpointWindow"]); c.supercharge_coinbase = d.flag(&[C, "superchargedCoinbase"]);
    c.block_stake_winner = d.key(&[C, "blockStakeWinner"], true); c.block_creator = d.key(&[C, "blockCreator"], true); c.coinbase_receiver = d.key(&[C, "coinbaseReceiever"], true);
    let w = shown(&s);
    d.check::<ProtocolState>("ProtocolState", shown, w)
}
pub fn hexs(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
