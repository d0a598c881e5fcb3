//! the oracle input of every type, against a layout written down independently
use crate::harness::*;
use crate::ro::*;
use crate::rng::Rng;
use ark_ff::{BigInteger256, Fp};
use mina_crypto::hash::*;
use mina_rs_base::account::*;
use mina_rs_base::types::*;
use mina_rs_base::user_commands::memo::SignedCommandMemo;
use mina_rs_base::user_commands::signed_command::*;
use mina_rs_base::user_commands::*;
use mina_serialization_types::v1::HashV1;
use num::BigUint;
use proof_systems::mina_hasher::{sponge, Hashable, ROInput};
use proof_systems::mina_signer::{CompressedPubKey, NetworkId};
use proof_systems::{ChunkedROInput, ToChunkedROInput};
use sha2::{Digest, Sha256};
macro_rules! want { ($c:expr, $($f:tt)*) => { if !$c { return Broken(format!($($f)*)) } } }
#[derive(Clone, Debug)] pub enum It { F(BigUint), N(u64, u32), B(bool), Y(Vec<u8>) }
pub use It::*;
type L = Vec<It>;
fn cat(v: Vec<L>) -> L { v.into_iter().flatten().collect() }
type Packed = (Vec<BigUint>, Vec<(BigUint, u32)>);
fn chunks(l: &L) -> Packed {
    let (mut f, mut p) = (vec![], vec![]);
    for i in l { match i { F(x) => f.push(x.clone()), N(n, w) => p.push((BigUint::from(*n), *w)), B(b) => p.push((BigUint::from(*b as u8), 1)), Y(v) => for x in v { for k in 0..8 { p.push((BigUint::from((x >> k) & 1), 1)) } } } }
    (f, p)
}
type Plain = (Vec<BigUint>, Vec<bool>);
fn plain(l: &L) -> Plain {
    let (mut f, mut p) = (vec![], vec![]);
    for i in l { match i { F(x) => f.push(x.clone()), N(n, w) => for k in 0..*w { p.push((n >> k) & 1 == 1) }, B(b) => p.push(*b), Y(v) => for x in v { for k in 0..8 { p.push((x >> k) & 1 == 1) } } } }
    (f, p)
}
fn seen(r: &ROInput) -> Plain { (r.parts().0.iter().map(|x| big(*x)).collect(), r.parts().1.to_vec()) }
fn seen_chunks(c: &ChunkedROInput) -> Packed { (c.fields.iter().map(|x| big(*x)).collect(), c.packed.iter().map(|(x, w)| (big(*x), *w)).collect()) }
fn kimchi(dom: &str, l: &L) -> Fp { let (f, p) = chunks(l); sponge(1, &Some(dom.into()), &model(&f, &p).iter().map(fp).collect::<Vec<_>>()) }
fn legacy(dom: &str, l: &L) -> Fp {
    let (f, b) = plain(l);
    let mut v: Vec<Fp> = f.iter().map(fp).collect();
    for c in b.chunks(254) { let mut w = [0u64; 4]; for (i, x) in c.iter().enumerate() { if *x { w[i / 64] |= 1 << (i % 64) } } v.push(BigInteger256::new(w).into()); }
    sponge(0, &Some(dom.into()), &v)
}
/// values with the layout expected of them
pub struct G<'a> { pub r: &'a mut Rng, pub legacy: bool }
fn le(v: &BigUint) -> [u8; 32] { let mut b = v.to_bytes_le(); b.resize(32, 0); b.try_into().unwrap() }
impl<'a> G<'a> {
    pub fn n32(&mut self) -> u32 { self.r.edge_u64() as u32 }
    pub fn n64(&mut self) -> u64 { self.r.edge_u64() }
    pub fn h(&mut self) -> (HashV1, L, [u8; 32]) { let v = elem(self.r); (HashV1::from(le(&v)), vec![F(v.clone())], le(&v)) }
    pub fn length(&mut self) -> (Length, L) { let n = self.n32(); (Length(n), vec![N(n as u64, 32)]) }
    pub fn amount(&mut self) -> (Amount, L) { let n = self.n64(); (Amount(n), vec![N(n, 64)]) }
    pub fn time(&mut self) -> (BlockTime, L) { let n = self.n64(); (BlockTime(n), vec![N(n, 64)]) }
    pub fn token(&mut self) -> (TokenId, L) { let n = self.n64(); (TokenId(n), if self.legacy { vec![N(n, 64)] } else { vec![F(BigUint::from(n))] }) }
    pub fn key(&mut self) -> (CompressedPubKey, L) { let x = elem(self.r); let b = self.r.bool(); (CompressedPubKey { x: fp(&x), is_odd: b }, vec![F(x), B(b)]) }
    pub fn bytes(&mut self, n: u64) -> Vec<u8> { (0..n).map(|_| self.r.next() as u8).collect() }
    pub fn staged(&mut self) -> (StagedLedgerHash, L) {
        let (h, _, b) = self.h(); let (p, pl, _) = self.h();
        let (m, n) = (if self.r.one_in(8) { self.r.below(40) } else { 32 }, if self.r.one_in(8) { self.r.below(40) } else { 32 });
        let (aux, pen) = (self.bytes(m), self.bytes(n));
        let mut s = Sha256::new(); let mut hb = b.to_vec(); hb.reverse(); s.update(&hb); s.update(&aux); s.update(&pen);
        let d = s.finalize().to_vec();
        (StagedLedgerHash { non_snark: NonSnarkStagedLedgerHash { ledger_hash: h.into(), aux_hash: AuxHash(aux), pending_coinbase_aux: PendingCoinbaseAuxHash(pen) }, pending_coinbase_hash: p.into() }, cat(vec![vec![Y(d)], pl]))
    }
    pub fn epoch(&mut self) -> (EpochData, L) {
        let ((h, hl, _), (t, tl)) = (self.h(), self.amount()); let ((s, sl, _), (c, cl, _), (k, kl, _)) = (self.h(), self.h(), self.h()); let (n, nl) = self.length();
        (EpochData { ledger: EpochLedger { hash: h.into(), total_currency: t }, seed: s.into(), start_checkpoint: c.into(), lock_checkpoint: k.into(), epoch_length: n }, cat(vec![sl, cl, nl, hl, tl, kl]))
    }
    pub fn constants(&mut self) -> (ProtocolConstants, L) {
        let ((a, al), (b, bl), (c, cl), (d, dl), (t, tl)) = (self.length(), self.length(), self.length(), self.length(), self.time());
        (ProtocolConstants { k: a, delta: b, slots_per_epoch: c, slots_per_sub_window: d, genesis_state_timestamp: t }, cat(vec![al, bl, cl, dl, tl]))
    }
    pub fn vrf(&mut self) -> (VrfOutputTruncated, L) {
        let n = match self.r.below(6) { 0 => self.r.below(32), 1 => 31, 2 => 33, _ => 32 }; let v = self.bytes(n);
        let l = if n <= 31 { vec![Y(v.clone())] } else { let mut l = vec![Y(v[..31].to_vec())]; for k in 0..5 { l.push(B((v[31] >> k) & 1 == 1)) } l };
        (VrfOutputTruncated(v), l)
    }
    pub fn consensus(&mut self) -> (ConsensusState, L) {
        let ((a, al), (b, bl), (c, cl)) = (self.length(), self.length(), self.length());
        let n = if self.r.one_in(3) { 11 } else { self.r.below(14) }; let d: Vec<(Length, L)> = (0..n).map(|_| self.length()).collect();
        let (v, vl) = self.vrf(); let (t, tl) = self.amount(); let (s, g) = (self.n32(), self.n32()); let (e, el) = self.length();
        let (st, stl) = self.epoch(); let (nx, nxl) = self.epoch(); let (x, y) = (self.r.bool(), self.r.bool());
        let ((k1, l1), (k2, l2), (k3, l3)) = (self.key(), self.key(), self.key());
        (ConsensusState { blockchain_length: a, epoch_count: b, min_window_density: c, sub_window_densities: d.iter().map(|p| p.0).collect(), last_vrf_output: v, total_currency: t, curr_global_slot: GlobalSlot { slot_number: GlobalSlotNumber(s), slots_per_epoch: e }, global_slot_since_genesis: GlobalSlotNumber(g), staking_epoch_data: st, next_epoch_data: nx, has_ancestor_in_same_checkpoint_window: x, block_stake_winner: k1, block_creator: k2, coinbase_receiver: k3, supercharge_coinbase: y },
         cat(vec![al, bl, cl, cat(d.into_iter().map(|p| p.1).collect()), vl, tl, vec![N(s as u64, 32)], el, vec![N(g as u64, 32), B(x), B(y)], stl, nxl, l1, l2, l3]))
    }
    pub fn body(&mut self) -> (ProtocolStateBody, L) {
        let (c, cl) = self.constants(); let (g, gl, _) = self.h(); let (s, sl) = self.staged(); let ((gh, ghl, _), (rl, rll, _), (ll, lll, _)) = (self.h(), self.h(), self.h());
        let fs: Vec<(Field, L)> = (0..4).map(|_| { let (_, l, b) = self.h(); (Field::from(&b[..]), l) }).collect();
        let (t, tl) = self.token(); let (a, sgn, ok, pi) = (self.n64(), self.r.bool(), self.r.bool(), self.n32()); let (tm, tml) = self.time(); let br = self.bytes(32);
        let (cs, csl) = self.consensus();
        let b = BlockchainState { staged_ledger_hash: s, genesis_ledger_hash: gh.into(), registers: BlockchainStateRegisters { ledger: rl.into(), pending_coinbase_stack: (), local_state: BlockchainStateRegistersLocalState { stack_frame: fs[0].0.clone(), call_stack: fs[1].0.clone(), transaction_commitment: fs[2].0.clone(), full_transaction_commitment: fs[3].0.clone(), token_id: t, excess: SignedAmount(a, sgn), ledger: ll.into(), success: ok, party_index: MinaIndex(pi), failure_status_tbl: vec![] } }, timestamp: tm, body_reference: BodyReference(br.clone().try_into().unwrap()) };
        (ProtocolStateBody { constants: c, genesis_state_hash: g.into(), blockchain_state: b, consensus_state: cs },
         cat(vec![cl, gl, sl, ghl, rll, cat(fs.into_iter().map(|f| f.1).collect()), tl, vec![N(a, 64), B(sgn)], lll, vec![N(pi as u64, 32), B(ok)], tml, vec![Y(br)], csl]))
    }
    pub fn body_legacy(&mut self) -> (ProtocolStateBodyLegacy, L) {
        let (c, cl) = self.constants(); let (g, gl, _) = self.h(); let (s, sl) = self.staged(); let ((sn, snl, _), (gh, ghl, _)) = (self.h(), self.h()); let ((t, tl), (tm, tml)) = (self.token(), self.time()); let (cs, csl) = self.consensus();
        (ProtocolStateBodyLegacy { constants: c, genesis_state_hash: g.into(), blockchain_state: BlockchainStateLegacy { staged_ledger_hash: s, snarked_ledger_hash: sn.into(), genesis_ledger_hash: gh.into(), snarked_next_available_token: t, timestamp: tm }, consensus_state: cs },
         cat(vec![cl, gl, sl, snl, ghl, tl, tml, csl]))
    }
    pub fn auth(&mut self) -> (AuthRequired, L) {
        let (a, f) = match self.r.below(6) { 0 => (AuthRequired::None, [true, false, true]), 1 => (AuthRequired::Either, [false, false, true]), 2 => (AuthRequired::Proof, [false, false, false]), 3 => (AuthRequired::Signature, [false, true, true]), 4 => (AuthRequired::Both, [false, true, false]), _ => (AuthRequired::Impossible, [true, true, false]) };
        (a, f.iter().map(|b| B(*b)).collect())
    }
    pub fn account(&mut self) -> (Account, L) {
        let p: Vec<(AuthRequired, L)> = (0..11).map(|_| self.auth()).collect(); let q: Vec<AuthRequired> = p.iter().map(|x| x.0.clone()).collect(); let pl = cat(p.into_iter().map(|x| x.1).collect());
        let (tm, tml) = if self.r.bool() { (Timing::Untimed, vec![B(false), N(0, 64), N(0, 32), N(0, 64), N(1, 32), N(0, 64)]) } else {
            let (a, b, c) = (self.n64(), self.n64(), self.n64()); let (s, v) = (self.n32(), self.n32());
            (Timing::Timed(mina_rs_base::account::timing::TimedData { initial_minimum_balance: Amount(a), cliff_time: BlockTime(s as u64), cliff_amount: Amount(b), vesting_period: BlockTime(v as u64), vesting_increment: Amount(c) }), vec![B(true), N(a, 64), N(s as u64, 32), N(b, 64), N(v as u64, 32), N(c, 64)]) };
        let (vf, vfl, _) = self.h(); let (_, rl, rb) = self.h(); let (d, dl) = if self.r.one_in(3) { (None, vec![F(BigUint::from(0u8)), B(false)]) } else { let (k, l) = self.key(); (Some(k), l) };
        let nonce = self.n32(); let (bal, ball) = self.amount();
        let mut sym = [0u8; 32]; let n = self.r.below(7) as usize; for i in 0..n { sym[i] = self.r.next() as u8 } let sn = sym[..6].iter().rev().fold(0u64, |a, b| a << 8 | *b as u64);
        let (b, own) = (self.r.bool(), self.r.bool()); let tp = if own { TokenPermissions::TokenOwned { disable_new_accounts: b } } else { TokenPermissions::NotOwned { account_disabled: b } };
        let (tok, tokl) = self.token(); let (k, kl) = self.key();
        let zk: Option<ZkApp> = if self.r.bool() { None } else { Some(ZkApp::borrow_default().clone()) }; let uri: Option<ZkAppUri> = if self.r.bool() { None } else { Some(ZkAppUri::borrow_default().clone()) };
        let c = |w: [u64; 4]| F(w.iter().rev().fold(BigUint::from(0u8), |a, b| (a << 64) + b));
        let z1 = [17818364107179681741, 14791875366151232437, 6753084239224090698, 2060674656258731539]; let z2 = [17064760232198382013, 7053532856486746066, 14503003448090529760, 2522938464542289201];
        let mut zl: L = vec![c(z1), c(z1), c(z1), c(z1), c(z1), c(z2)]; zl.extend((0..8).map(|_| F(BigUint::from(0u8)))); zl.extend([N(0, 1), N(0, 32), N(0, 32)]);
        let (zf, uf) = (kimchi("CodaZkappAccount", &zl), kimchi("MinaZkappUri", &vec![N(1, 1)]));
        let perms = Permissions { edit_state: q[0].clone(), send: q[1].clone(), receive: q[2].clone(), set_delegate: q[3].clone(), set_permissions: q[4].clone(), set_verification_key: q[5].clone(), set_zkapp_uri: q[6].clone(), edit_sequence_state: q[7].clone(), set_token_symbol: q[8].clone(), increment_nonce: q[9].clone(), set_voting_for: q[10].clone() };
        (Account { public_key: k, token_id: tok, balance: bal, token_permissions: tp, token_symbol: sym.into(), nonce: AccountNonce(nonce), receipt_chain_hash: rb.into(), delegate: d, voting_for: vf.into(), timing: tm, permissions: perms, zkapp: zk, zkapp_uri: uri },
         cat(vec![vec![F(big(uf)), F(big(zf))], pl, tml, vfl, dl, rl, vec![N(nonce as u64, 32)], ball, vec![N(sn, 48), N(own as u64 + 2 * b as u64, 2)], tokl, kl]))
    }
    pub fn command(&mut self) -> (SignedCommandPayload, L) {
        let (k, _) = self.key(); let ((a, _), (b, _)) = (self.key(), self.key()); let (fee, ft, nonce, until) = (self.n64(), self.n64(), self.n32(), self.n32());
        let n = if self.r.one_in(6) { self.r.below(50) } else { 34 }; let memo = self.bytes(n); let (tok, am, pay) = (self.n64(), self.n64(), self.r.bool());
        let common = SignedCommandPayloadCommon { fee: Amount(fee), fee_token: TokenId(ft), fee_payer_pk: k.clone(), nonce: AccountNonce(nonce), valid_until: GlobalSlotNumber(until), memo: SignedCommandMemo(memo.clone()) };
        let l = vec![F(big(k.x)), F(big(a.x)), F(big(b.x)), N(fee, 64), N(ft, 64), B(k.is_odd), N(nonce as u64, 32), N(until as u64, 32), Y(memo), B(false), B(false), B(!pay), B(a.is_odd), B(b.is_odd), N(if pay { tok } else { 1 }, 64), N(if pay { am } else { 0 }, 64), B(false)];
        let body = if pay { SignedCommandPayloadBody::PaymentPayload(payment::PaymentPayload { source_pk: a, receiver_pk: b, token_id: TokenId(tok), amount: Amount(am) }) } else { SignedCommandPayloadBody::StakeDelegation(StakeDelegation::SetDelegate { delegator: a, new_delegate: b }) };
        (SignedCommandPayload { common, body }, l)
    }
}
fn ch<T: ToChunkedROInput>(what: &str, v: &T, l: &L) -> Result<(), String> {
    let got = match caught(|| seen_chunks(&v.to_chunked_roinput())) { Ok(g) => g, Err(e) => return Err(format!("the input of this {what} panics ({e}); layout {l:x?}")) };
    let w = chunks(l);
    if got != w { let i = (0..w.1.len().max(got.1.len())).find(|i| got.1.get(*i) != w.1.get(*i)); let j = (0..w.0.len().max(got.0.len())).find(|i| got.0.get(*i) != w.0.get(*i)); return Err(format!("the chunked input of this {what} differs from its layout at field {j:?}, packed element {i:?} ({:?} instead of {:?}); layout {l:x?}", i.and_then(|i| got.1.get(i)), i.and_then(|i| w.1.get(i)))) }
    Ok(())
}
fn ro<T: Hashable>(what: &str, v: &T, l: &L) -> Result<(), String> {
    let got = match caught(|| seen(&v.to_roinput())) { Ok(g) => g, Err(e) => return Err(format!("the input of this {what} panics ({e}); layout {l:x?}")) };
    let w = plain(l);
    if got != w { let i = (0..w.1.len().max(got.1.len())).find(|i| got.1.get(*i) != w.1.get(*i)); let j = (0..w.0.len().max(got.0.len())).find(|i| got.0.get(*i) != w.0.get(*i)); return Err(format!("the input of this {what} differs from its layout at field {j:?}, bit {i:?}; layout {l:x?}")) }
    Ok(())
}
fn packed<T: Hashable>(what: &str, v: &T, l: &L) -> Result<(), String> { let (f, p) = chunks(l); ro(what, v, &model(&f, &p).into_iter().map(F).collect()) }
fn dom<T: Hashable>(what: &str, d: T::D, w: Option<&str>) -> Result<(), String> { let g = T::domain_string(d); if g.as_deref() != w { return Err(format!("the domain of {what} is {g:?}")) } Ok(()) }
macro_rules! ok { ($e:expr) => { if let Err(e) = $e { return Broken(e) } } }
fn brief(l: &L) -> String { let s = format!("{l:x?}"); s.chars().take(120).collect() }
pub fn parts(_: u64, r: &mut Rng) -> Out {
    for legacy in [false, true] {
        let mut g = G { r: &mut *r, legacy };
        macro_rules! one { ($w:expr, $e:expr) => {{ let (v, l) = $e; if legacy { ok!(ro($w, &v, &l)) } else { ok!(ch($w, &v, &l)) } }} }
        one!("Length", g.length()); one!("Amount", g.amount()); one!("BlockTime", g.time()); one!("TokenId", g.token()); one!("StagedLedgerHash", g.staged()); one!("EpochData", g.epoch()); one!("ProtocolConstants", g.constants()); one!("VrfOutputTruncated", g.vrf());
        let n = g.n32(); one!("AccountNonce", (AccountNonce(n), vec![N(n as u64, 32)])); one!("GlobalSlotNumber", (GlobalSlotNumber(n), vec![N(n as u64, 32)]));
        one!("StateHash", { let (h, l, _) = g.h(); (StateHash::from(h), l) }); one!("LedgerHash", { let (h, l, _) = g.h(); (LedgerHash::from(h), l) }); one!("ChainHash", { let (_, l, b) = g.h(); (ChainHash::from(b), l) }); one!("CoinBaseHash", { let (h, l, _) = g.h(); (CoinBaseHash::from(h), l) }); one!("EpochSeed", { let (h, l, _) = g.h(); (EpochSeed::from(h), l) });
        let f = fp(&elem(g.r)); let h = StateHash::from(&f);
        want!(h == StateHash::from(HashV1::from(le(&big(f)))), "the state hash of {:x} has other bytes", big(f));
    }
    let mut g = G { r, legacy: false };
    let (v, l) = g.auth(); ok!(ch("AuthRequired", &v, &l));
    let (k, l) = g.key(); ok!(ch("key", &CompressedPubKeyHashableWrapper(&k), &l)); ok!(ch("optional key", &CompressedPubKeyOptionHashableWrapper(&Some(k)), &l));
    Held(true, brief(&l))
}
pub fn state(_: u64, r: &mut Rng) -> Out {
    let mut g = G { r, legacy: false };
    let (b, l) = g.body(); ok!(ch("ProtocolStateBody", &b, &l)); ok!(packed("ProtocolStateBody", &b, &l)); ok!(dom::<ProtocolStateBody>("ProtocolStateBody", (), Some("CodaProtoStateBody")));
    let (p, mut pl, _) = g.h(); pl.push(F(big(kimchi("CodaProtoStateBody", &l))));
    let s = ProtocolState { previous_state_hash: p.into(), body: b };
    ok!(ch("ProtocolState", &s, &pl)); ok!(packed("ProtocolState", &s, &pl)); ok!(dom::<ProtocolState>("ProtocolState", (), Some("CodaProtoState")));
    let w = kimchi("CodaProtoState", &pl);
    want!(s.state_hash_fp() == w && s.state_hash() == StateHash::from(HashV1::from(le(&big(w)))), "the state hash is not the hash of the state; layout {l:x?}");
    Held(true, brief(&l))
}
pub fn legacy_state(_: u64, r: &mut Rng) -> Out {
    let mut g = G { r, legacy: true };
    let (b, l) = g.body_legacy(); ok!(ro("ProtocolStateBodyLegacy", &b, &l)); ok!(dom::<ProtocolStateBodyLegacy>("ProtocolStateBodyLegacy", (), Some("CodaProtoStateBody")));
    let (p, mut pl, _) = g.h(); pl.push(F(big(legacy("CodaProtoStateBody", &l))));
    let s = ProtocolStateLegacy { previous_state_hash: p.into(), body: b };
    ok!(ro("ProtocolStateLegacy", &s, &pl)); ok!(dom::<ProtocolStateLegacy>("ProtocolStateLegacy", (), Some("CodaProtoState")));
    let w = legacy("CodaProtoState", &pl);
    want!(s.state_hash_fp() == w && s.state_hash() == StateHash::from(HashV1::from(le(&big(w)))), "the legacy state hash is not the hash of the state; layout {l:x?}");
    Held(true, brief(&l))
}
pub fn account(_: u64, r: &mut Rng) -> Out {
    let mut g = G { r, legacy: false };
    let (a, l) = g.account(); ok!(ch("Account", &a, &l)); ok!(packed("Account", &a, &l)); ok!(dom::<Account>("Account", (), Some("CodaAccount")));
    Held(true, brief(&l[13..].to_vec()))
}
pub fn command(_: u64, r: &mut Rng) -> Out {
    let mut g = G { r, legacy: true };
    let (c, l) = g.command(); ok!(ro("SignedCommandPayload", &c, &l));
    ok!(dom::<SignedCommandPayload>("SignedCommandPayload", NetworkId::MAINNET, Some("MinaSignatureMainnet"))); ok!(dom::<SignedCommandPayload>("SignedCommandPayload", NetworkId::TESTNET, Some("CodaSignature")));
    Held(true, brief(&l))
}
