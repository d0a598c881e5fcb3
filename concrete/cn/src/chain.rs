use crate::harness::*;
use crate::rng::Rng;
use mina_consensus::common::*;
use mina_consensus::error::ConsensusError;
use mina_rs_base::types::*;
use proof_systems::mina_hasher::Fp;
use std::cmp::Ordering;
macro_rules! want { ($c:expr, $($f:tt)*) => { if !$c { return Broken(format!($($f)*)) } } }

#[derive(Clone, Debug, Eq, PartialEq, Default)]
pub struct St { cs: ConsensusState, fp: Fp, k: ProtocolConstants }
impl ProtocolStateHeader for St {
    fn get_height(&self) -> Length { self.cs.blockchain_length }
    fn min_window_density(&self) -> Length { self.cs.min_window_density }
    fn sub_window_densities(&self) -> &Vec<Length> { &self.cs.sub_window_densities }
    fn consensus_state(&self) -> &ConsensusState { &self.cs }
    fn constants(&self) -> &ProtocolConstants { &self.k }
    fn state_hash_fp(&self) -> Fp { self.fp }
}
type Chain = ProtocolStateChain<St>;
fn u(r: &mut Rng) -> u32 { match r.below(6) { 0 => r.next() as u32, 1 => u32::MAX - r.below(3) as u32, 2 => r.below(3) as u32, _ => r.edge_u64() as u32 } }
fn st(r: &mut Rng) -> St {
    let mut s = St::default();
    let c = &mut s.cs;
    c.blockchain_length = Length(if r.one_in(6) { u(r) } else { 10 + r.below(3) as u32 });
    c.epoch_count = Length(if r.one_in(6) { u(r) } else { 5 + r.below(3) as u32 });
    c.min_window_density = Length(if r.one_in(6) { u(r) } else { r.below(80) as u32 });
    let n = if r.one_in(8) { r.size(15, 400) as usize } else { 11 };
    c.sub_window_densities = (0..n).map(|_| Length(if r.one_in(70) { u(r) } else { r.below(8) as u32 })).collect();
    let vl = if r.bool() { 1 } else { r.size(3, 200) }; c.last_vrf_output = VrfOutputTruncated((0..vl).map(|_| if r.bool() { r.below(3) as u8 } else { r.next() as u8 }).collect());
    let spe = if r.one_in(10) { u(r) } else { 7140 };
    let base = c.epoch_count.0.wrapping_mul(7140);
    let slot = match r.below(8) { 0 => u(r), 1 => base.wrapping_add(4758 + r.below(4) as u32), 2 => r.below(1600) as u32, _ => base.wrapping_add(r.below(7140) as u32) };
    c.curr_global_slot = GlobalSlot { slot_number: GlobalSlotNumber(slot), slots_per_epoch: Length(spe) };
    c.staking_epoch_data.lock_checkpoint = StateHash(r.below(3));
    c.next_epoch_data.lock_checkpoint = StateHash(r.below(3));
    c.staking_epoch_data.start_checkpoint = StateHash(r.below(3));
    c.next_epoch_data.start_checkpoint = StateHash(r.below(3));
    s.fp = if r.bool() { Fp([r.below(3), 0, 0, r.below(2)]) } else { Fp([r.next(), r.next(), r.next(), r.next()]) };
    s
}
/// a state that differs from s in a few places, so that all the ties are reached
fn near(r: &mut Rng, s: &St) -> St {
    let o = st(r); let mut n = s.clone();
    for _ in 0..r.below(4) { match r.below(9) {
        0 => n.cs.blockchain_length = o.cs.blockchain_length, 1 => n.cs.epoch_count = o.cs.epoch_count, 2 => n.cs.min_window_density = o.cs.min_window_density,
        3 => n.cs.sub_window_densities = o.cs.sub_window_densities.clone(), 4 => n.cs.last_vrf_output = o.cs.last_vrf_output.clone(), 5 => n.cs.curr_global_slot = o.cs.curr_global_slot.clone(),
        6 => n.cs.staking_epoch_data = o.cs.staking_epoch_data.clone(), 7 => n.cs.next_epoch_data = o.cs.next_epoch_data.clone(), _ => n.fp = o.fp,
    } }
    n
}
fn chain(r: &mut Rng, top: St) -> Chain { let mut v = vec![]; if r.one_in(3) { for _ in 0..r.size(3, 300) { v.push(st(r)) } } v.push(top); ProtocolStateChain(v) }
fn show(c: &Chain) -> String { match c.0.last() { None => "empty chain".into(), Some(s) => { let c = &s.cs; format!("[length {} epoch {} min density {} sub densities {:?} vrf {:?} slot {}/{} checkpoints {} {} hash {:x?}]", c.blockchain_length.0, c.epoch_count.0, c.min_window_density.0, c.sub_window_densities.iter().map(|x| x.0).collect::<Vec<_>>(), c.last_vrf_output.0, c.curr_global_slot.slot_number.0, c.curr_global_slot.slots_per_epoch.0, c.staking_epoch_data.lock_checkpoint.0, c.next_epoch_data.lock_checkpoint.0, s.fp.0) } } }

// ---- the rules, written from their description
const SPE: u64 = 7140;
const SUB: u32 = 11;
fn r_density(a: &ConsensusState, b: &ConsensusState) -> Option<u32> {
    let (sa, sb) = (a.curr_global_slot.slot_number.0 as u64, b.curr_global_slot.slot_number.0 as u64);
    let top = sa.max(sb);
    if top < 1440 { return Some(a.min_window_density.0) }
    let empty = (top - sa.saturating_sub(1)).min(SUB as u64);
    let cur = (sa / SUB as u64) % SUB as u64;
    let gone: Vec<u64> = (1..=empty).map(|k| (cur + k) % SUB as u64).collect();
    if gone.iter().any(|g| *g as usize >= a.sub_window_densities.len()) { return None }
    let sum: u64 = a.sub_window_densities.iter().enumerate().filter(|(i, _)| !gone.contains(&(*i as u64))).map(|(_, d)| d.0 as u64).sum();
    Some((a.min_window_density.0 as u64).min(sum) as u32)
}
fn r_short(a: &ConsensusState, b: &ConsensusState) -> bool {
    if a.epoch_count == b.epoch_count { return a.staking_epoch_data.lock_checkpoint == b.staking_epoch_data.lock_checkpoint }
    let (hi, lo) = if a.epoch_count.0 > b.epoch_count.0 { (a, b) } else { (b, a) };
    let late = lo.curr_global_slot.slots_per_epoch.0 != 0 && (lo.curr_global_slot.slot_number.0 % lo.curr_global_slot.slots_per_epoch.0) as u64 >= SPE * 2 / 3;
    hi.epoch_count.0 as u64 == lo.epoch_count.0 as u64 + 1 && late && hi.staking_epoch_data.lock_checkpoint == lo.next_epoch_data.lock_checkpoint
}
fn r_longer(tip: &St, c: &St) -> bool {
    let key = |s: &St| (s.cs.blockchain_length.0, s.cs.last_vrf_output.digest(), [s.fp.0[3], s.fp.0[2], s.fp.0[1], s.fp.0[0]]);
    key(c).cmp(&key(tip)) == Ordering::Greater
}
/// does c replace tip (None: the comparison is an error)
fn r_choose(tip: &St, c: &St) -> Option<bool> {
    if r_short(&tip.cs, &c.cs) { return Some(r_longer(tip, c)) }
    if c.cs.sub_window_densities.len() != 11 || c.cs.sub_window_densities.iter().any(|d| d.0 > 7) { return Some(false) }
    let (dt, dc) = (r_density(&tip.cs, &c.cs)?, r_density(&c.cs, &tip.cs)?);
    Some(dc > dt || dc == dt && r_longer(tip, c))
}

pub fn push(_: u64, r: &mut Rng) -> Out {
    let mut c = Chain::default();
    let mut model: Vec<St> = vec![];
    let mut trace = String::new();
    want!(c.top().is_none() && c.genesis_block().is_none() && c.length() == 0 && c.global_slot().is_none() && c.epoch_slot().is_none() && c.consensus_state().is_none() && c.state_hash().is_none() && c.last_vrf_hash_digest() == Err(ConsensusError::TopBlockNotFound), "an empty chain has content");
    let mut rejected = false;
    for _ in 0..2 + r.below(8) {
        let mut s = st(r);
        if let Some(t) = model.last() { let h = t.cs.blockchain_length.0; s.cs.blockchain_length = Length(match r.below(6) { 0 => h, 1 => h.wrapping_add(2), 2 => u(r), 3 => h.wrapping_sub(1), _ => h.wrapping_add(1) }); }
        let h = s.cs.blockchain_length.0 as u64;
        let ok = model.last().map(|t| t.cs.blockchain_length.0 as u64 + 1 == h).unwrap_or(true);
        trace.push_str(&format!(" {h}"));
        let g = caught(|| c.push(s.clone()));
        want!(g == Ok(if ok { Ok(()) } else { Err(ConsensusError::InvalidHeight) }), "heights{trace}: push gives {g:?}, expected it to be accepted: {ok}");
        if ok { model.push(s) } else { rejected = true }
        want!(c.0 == model, "heights{trace}: the chain now is {:?}", c.0.iter().map(|s| s.cs.blockchain_length.0).collect::<Vec<_>>());
        let t = model.last().unwrap();
        want!(c.top() == Some(t) && c.genesis_block() == model.first() && c.consensus_state() == Some(&t.cs) && c.length() == t.cs.blockchain_length.0 as usize && c.global_slot() == Some(&t.cs.curr_global_slot) && c.state_hash() == Some(t.fp), "heights{trace}: the accessors do not describe the last block");
        let gs = &t.cs.curr_global_slot;
        let w = if gs.slots_per_epoch.0 == 0 { None } else { Some(gs.slot_number.0 - gs.slot_number.0 / gs.slots_per_epoch.0 * gs.slots_per_epoch.0) };
        let g = caught(|| c.epoch_slot());
        want!(g == Ok(w), "epoch_slot of {gs:?} is {g:?}, expected {w:?}");
        let w: String = t.cs.last_vrf_output.digest().iter().map(|b| format!("{b:02x}")).collect();
        want!(c.last_vrf_hash_digest() == Ok(w.clone()), "the digest is {:?}, expected {w}", c.last_vrf_hash_digest());
    }
    Held(rejected, trace)
}
/// long histories: the chain keeps every block, however many there are and wherever the heights start
pub fn long(n: u64, r: &mut Rng) -> Out {
    let len = if n == 0 { 5000 } else { 1 + r.size(1500, 40_000) };
    let start = match r.below(4) { 0 => 0, 1 => r.edge_u64() as u32, 2 => 1, _ => r.dict_num() as u32 };
    let mut c = Chain::default();
    let mut model: Vec<St> = vec![];
    let mk = |i: u64| -> Option<St> { let h = start as u64 + i; if h > u32::MAX as u64 { return None } let mut s = St::default(); s.cs.blockchain_length = Length(h as u32); s.fp = Fp([i, 0, 0, 0]); Some(s) };
    for i in 0..len {
        let s = match mk(i) { Some(s) => s, None => break };
        let h = s.cs.blockchain_length.0;
        if r.one_in(50) { let mut w = s.clone(); w.cs.blockchain_length = Length(match r.below(3) { 0 => h.wrapping_add(1), 1 => h.wrapping_sub(1), _ => r.edge_u64() as u32 }); if i > 0 && w.cs.blockchain_length.0 != h { let g = caught(|| c.push(w.clone())); want!(g == Ok(Err(ConsensusError::InvalidHeight)), "after heights {start}..{h}, height {} gives {g:?}", w.cs.blockchain_length.0); } }
        let g = caught(|| c.push(s.clone()));
        want!(g == Ok(Ok(())), "after heights {start}..{h}, height {h} gives {g:?}");
        model.push(s);
        want!(c.0.len() == model.len() && c.top() == model.last() && c.genesis_block() == model.first() && c.length() == h as usize, "after pushing heights {start}..={h}: {} blocks, first {:?}, top {:?}", c.0.len(), c.genesis_block().map(|s| s.cs.blockchain_length.0), c.top().map(|s| s.cs.blockchain_length.0));
    }
    want!(c.0 == model, "after pushing {} blocks from height {start} the chain is not those blocks", model.len());
    Held(true, format!("{} blocks from {start}", model.len()))
}
pub fn longer(_: u64, r: &mut Rng) -> Out {
    let a = st(r); let b = near(r, &a);
    let (ca, cb) = (chain(r, a.clone()), chain(r, b.clone()));
    let mut g = ca.clone();
    match caught(|| g.select_longer_chain(cb.clone())) { Ok(Ok(())) => (), x => return Broken(format!("{} against {}: {x:?}", show(&ca), show(&cb))) }
    let w = if r_longer(&a, &b) { &cb } else { &ca };
    want!(&g == w, "tip {} candidate {}: selected {}", show(&ca), show(&cb), show(&g));
    let mut e = Chain::default();
    want!(e.select_longer_chain(ca.clone()) == Err(ConsensusError::ConsensusStateNotFound) && e.0.is_empty(), "an empty tip");
    let mut e = ca.clone();
    want!(e.select_longer_chain(Chain::default()) == Err(ConsensusError::ConsensusStateNotFound) && e == ca, "an empty candidate");
    Held(a != b, show(&cb))
}
pub fn short_range(_: u64, r: &mut Rng) -> Out {
    let a = st(r); let b = if r.bool() { near(r, &a) } else { st(r) };
    let (ca, cb) = (chain(r, a.clone()), chain(r, b.clone()));
    let w = r_short(&a.cs, &b.cs);
    let g = (caught(|| ca.is_short_range(&cb)), caught(|| cb.is_short_range(&ca)));
    want!(g == (Ok(Ok(w)), Ok(Ok(w))), "is_short_range of {} and {} is {g:?}, expected {w}", show(&ca), show(&cb));
    Held(a.cs.epoch_count != b.cs.epoch_count, format!("{w} {}", show(&cb)))
}
fn choose(r: &mut Rng, tip: St, cands: Vec<St>) -> Out {
    let t0 = chain(r, tip.clone());
    let mut cs: Vec<Chain> = cands.iter().map(|c| chain(r, c.clone())).collect();
    if r.one_in(40) { let k = r.below(cs.len() as u64 + 1) as usize; cs.insert(k, Chain::default()); }
    let mut want_tip = t0.clone(); let mut err = false; let mut changes = 0;
    for c in &cs { if c.0.is_empty() { err = true; break } match r_choose(want_tip.0.last().unwrap(), c.0.last().unwrap()) { None => { err = true; break } Some(true) => { want_tip = c.clone(); changes += 1 } Some(false) => () } }
    let mut g = t0.clone();
    let x = caught(|| g.select_secure_chain(cs.clone()));
    let d = || format!("tip {} candidates {}", show(&t0), cs.iter().map(show).collect::<Vec<_>>().join(" "));
    let x = match x { Ok(x) => x, Err(e) => return Broken(format!("{}: panicked: {e}", d())) };
    want!(x.is_err() == err, "{}: gives {x:?}, expected an error: {err}", d());
    want!(g == want_tip || err && (g == t0 || cs.contains(&g)), "{}: selected {} expected {}", d(), show(&g), show(&want_tip));
    Held(changes > 0 || cs.len() > 1, d())
}
pub fn secure(_: u64, r: &mut Rng) -> Out {
    let t = st(r);
    let n = r.size(4, 60);
    let c = (0..n).map(|_| if r.bool() { near(r, &t) } else { st(r) }).collect();
    choose(r, t, c)
}
/// forks that are not short range, with densities that decide
pub fn long_range(_: u64, r: &mut Rng) -> Out {
    let mut t = st(r);
    t.cs.epoch_count = Length(20); t.cs.staking_epoch_data.lock_checkpoint = StateHash(7);
    let slot = 7140 * 20 + r.below(100) as u32;
    t.cs.curr_global_slot = GlobalSlot { slot_number: GlobalSlotNumber(slot), slots_per_epoch: Length(7140) };
    t.cs.sub_window_densities.resize(11, Length(3));
    let c = (0..1 + r.below(3)).map(|_| {
        let mut c = near(r, &t);
        c.cs.staking_epoch_data.lock_checkpoint = StateHash(8);
        if r.bool() { c.cs.curr_global_slot.slot_number = GlobalSlotNumber(slot.wrapping_add(r.below(25) as u32).wrapping_sub(12)); }
        match r.below(10) { 0 => { c.cs.sub_window_densities.pop(); } 1 => c.cs.sub_window_densities.push(Length(7)), 2 => { let k = r.below(c.cs.sub_window_densities.len() as u64); if let Some(d) = c.cs.sub_window_densities.get_mut(k as usize) { *d = Length(8 + r.below(2) as u32) } }
            3 => for d in c.cs.sub_window_densities.iter_mut() { *d = Length(7) }, 4 => { c.cs.min_window_density = Length(t.cs.min_window_density.0.wrapping_add(r.below(3) as u32).wrapping_sub(1)); } _ => () }
        c
    }).collect();
    choose(r, t, c)
}
fn dens(a: St, b: St, r: &mut Rng) -> Out {
    let (ca, cb) = (chain(r, a.clone()), chain(r, b.clone()));
    let w = r_density(&a.cs, &b.cs).ok_or(ConsensusError::CandidatesMissingSubWindowDensities);
    let g = match caught(|| ca.relative_min_window_density(&cb)) { Ok(g) => g, Err(e) => return Broken(format!("density of {} relative to {}: panicked: {e}", show(&ca), show(&cb))) };
    want!(g == w, "density of {} relative to {} is {g:?}, expected {w:?}", show(&ca), show(&cb));
    want!(Chain::default().relative_min_window_density(&ca).is_err() && ca.relative_min_window_density(&Chain::default()).is_err(), "density of an empty chain");
    Held(w != Ok(a.cs.min_window_density.0), show(&ca))
}
pub fn density(_: u64, r: &mut Rng) -> Out { let a = st(r); let b = if r.bool() { near(r, &a) } else { st(r) }; dens(a, b, r) }
pub fn density_slots(n: u64, r: &mut Rng) -> Out {
    let mut a = st(r); let mut b = near(r, &a);
    a.cs.min_window_density = Length(70 + r.below(9) as u32);
    let s = match r.below(4) { 0 => 1425 + r.below(30) as u32, 1 => u32::MAX - 30 + r.below(31) as u32, _ => 1440 + (n % 2000) as u32 };
    a.cs.curr_global_slot.slot_number = GlobalSlotNumber(s);
    b.cs.curr_global_slot.slot_number = GlobalSlotNumber(s.wrapping_add(r.below(40) as u32).wrapping_sub(20));
    if !r.one_in(10) { a.cs.sub_window_densities.resize(11, Length(5)); }
    dens(a, b, r)
}
