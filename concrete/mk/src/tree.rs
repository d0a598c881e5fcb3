use crate::harness::*;
use crate::rng::Rng;
use mina_merkle::*;
use proof_systems::mina_hasher::{sponge, Fp, Hashable, ROInput};
use proof_systems::FpJson;
use std::marker::PhantomData;
macro_rules! want { ($c:expr, $($f:tt)*) => { if !$c { return Broken(format!($($f)*)) } } }

fn mix(w: &[u64]) -> u64 { let mut h = 0x9E3779B97F4A7C15u64; for x in w { h ^= *x; h = h.wrapping_mul(0xBF58476D1CE4E5B9); h ^= h >> 29; h = h.wrapping_mul(0x94D049BB133111EB); h ^= h >> 32; } h }
// ---- hash functions used in the histories: collision free up to 2^-64
/// depends on everything it is told about the node
pub struct FullHasher; pub struct FullMerger;
impl MerkleHasher for FullHasher { type Item = u64; type Hash = u64; fn hash(i: &u64, m: MerkleTreeNodeMetadata) -> u64 { mix(&[1, *i, m.depth() as u64, m.height() as u64]) } }
impl MerkleMerger for FullMerger { type Hash = u64; fn merge(h: [Option<u64>; 2], m: MerkleTreeNodeMetadata) -> Option<u64> { full_merge(h, m.depth() as u64, m.height() as u64) } }
fn full_merge(h: [Option<u64>; 2], d: u64, ht: u64) -> Option<u64> { Some(mix(&[2, h[0].is_some() as u64, h[0].unwrap_or(0), h[1].is_some() as u64, h[1].unwrap_or(0), d, ht])) }
/// depends on the height only (what the shipped ones do)
pub struct HtHasher; pub struct HtMerger;
impl MerkleHasher for HtHasher { type Item = u64; type Hash = u64; fn hash(i: &u64, m: MerkleTreeNodeMetadata) -> u64 { mix(&[1, *i, 0, m.height() as u64]) } }
impl MerkleMerger for HtMerger { type Hash = u64; fn merge(h: [Option<u64>; 2], m: MerkleTreeNodeMetadata) -> Option<u64> { full_merge(h, 0, m.height() as u64) } }
/// nothing below gives nothing
pub struct NoneMerger;
impl MerkleMerger for NoneMerger { type Hash = u64; fn merge(h: [Option<u64>; 2], m: MerkleTreeNodeMetadata) -> Option<u64> { none_merge(h, m.depth() as u64, m.height() as u64) } }
fn none_merge(h: [Option<u64>; 2], d: u64, ht: u64) -> Option<u64> { if h == [None, None] { None } else { full_merge(h, d, ht) } }

// ---- independent definition: the root of the complete tree of height h over the leaves
type Mg = fn([Option<u64>; 2], u64, u64) -> Option<u64>;
fn sub(leaves: &[u64], at: usize, h: u32, d: u32, with_depth: bool, mg: Mg) -> Option<u64> {
    let dd = if with_depth { d as u64 } else { 0 };
    if h == 0 { return leaves.get(at).map(|x| mix(&[1, *x, dd, 0])); }
    let half = 1usize << (h - 1);
    mg([sub(leaves, at, h - 1, d + 1, with_depth, mg), sub(leaves, at + half, h - 1, d + 1, with_depth, mg)], dd, h as u64)
}
fn need(n: usize) -> u32 { let mut h = 0; while (1usize << h) < n { h += 1 } h }
fn size(r: &mut Rng) -> usize { match r.below(8) { 0 => r.below(3) as usize, 1..=4 => r.below(14) as usize, 5 => r.below(70) as usize, 6 => r.size(70, 3000) as usize, _ => { let k = 1usize << r.below(8); (k + r.below(3) as usize).saturating_sub(1) } } }

fn step<T: MerkleTree<Item = u64, Hash = u64>>(t: &mut T, all: &mut Vec<u64>, r: &mut Rng, cap: usize, trace: &mut String) {
    let n = size(r).min(cap - all.len());
    let mut b: Vec<u64> = (0..n).map(|_| if r.one_in(3) { r.below(3) } else { r.next() }).collect();
    if n > 0 && r.one_in(3) { b.truncate(1); t.add(b[0]); trace.push_str(" add") } else { t.add_batch(b.clone()); trace.push_str(&format!(" batch{}", b.len())); }
    all.extend(b);
}
macro_rules! run { ($tree:expr, $cap:expr, $r:expr, $h:expr, $root:expr, $name:expr) => {{
    let (mut t, r, mut all, mut trace) = ($tree, $r, vec![], String::from($name));
    for _ in 0..2 + r.below(7) {
        match r.below(6) {
            0 | 1 if !all.is_empty() => { let i = r.below(all.len() as u64) as usize; let _ = t.get_proof(i); trace.push_str(&format!(" proof{i}")); }
            2 => { let _ = t.root(); trace.push_str(" root"); }
            _ => step(&mut t, &mut all, r, $cap, &mut trace),
        }
        want!(t.count() == all.len(), "{trace}: count is {} after {} leaves", t.count(), all.len());
        let h: u32 = $h(all.len());
        want!(t.height() == h, "{trace}: height is {} with {} leaves, expected {h}", t.height(), all.len());
        if r.bool() { let w: Option<u64> = $root(&all[..]); let g = t.root(); want!(g == w, "{trace}: root of {} leaves is {g:?}, expected {w:?}", all.len()); }
    }
    let w: Option<u64> = $root(&all[..]);
    let g = t.root(); want!(g == w, "{trace}: root of {} leaves is {g:?}, expected {w:?}", all.len());
    Held(all.len() > 1, trace)
}} }
pub fn histories(_: u64, r: &mut Rng) -> Out {
    run!(MinaMerkleTree::<u64, u64, FullHasher, FullMerger, VariableHeightMode>::with_capacity(r.below(20) as usize), usize::MAX, r, need, |l: &[u64]| sub(l, 0, need(l.len()), 0, true, full_merge), "variable")
}
pub fn histories_none(_: u64, r: &mut Rng) -> Out {
    run!(MinaMerkleTree::<u64, u64, FullHasher, NoneMerger, VariableHeightMode>::default(), usize::MAX, r, need, |l: &[u64]| sub(l, 0, need(l.len()), 0, true, none_merge), "none")
}
pub fn histories_fixed(_: u64, r: &mut Rng) -> Out {
    let h = if r.below(4) == 0 { r.size(40, 62) as u32 } else { r.below(9) as u32 };
    // a tree of fixed height h extends the stored one: hash functions see heights, and an empty right half is "no hash"
    fn root(l: &[u64], h: u32) -> Option<u64> { let v = need(l.len()); let mut x = sub(l, 0, v, 0, false, full_merge); for k in v + 1..=h { x = full_merge([x, None], 0, k as u64) } x }
    run!(MinaMerkleTree::<u64, u64, HtHasher, HtMerger, FixedHeightMode>::new(h), 1usize << h.min(9), r, |_| h, |l: &[u64]| root(l, h), &format!("fixed{h}"))
}

// ---- the shipped hashers and mergers, over a stand-in sponge
#[derive(Clone, Debug, PartialEq)]
pub struct Leaf(u64);
impl Hashable for Leaf { type D = (); fn to_roinput(&self) -> ROInput { ROInput::new().append_field(Fp::from(self.0)) } fn domain_string(_: ()) -> Option<String> { Some("leaf".into()) } }
const EMPTY_LEGACY: Fp = Fp([618825277339585648, 17206846358602357477, 11135808194678189552, 2326690702673829595]);
const EMPTY_KIMCHI: Fp = Fp([17222659083400437799, 16271203913493378952, 8137184135467838648, 1525063794952698544]);
fn full(kind: u64, l: &[u64], at: usize, h: u32) -> Fp {
    if h == 0 { return match l.get(at) { Some(x) => sponge(kind, &Some("leaf".into()), &[Fp::from(*x)]), None => if kind == 1 { EMPTY_LEGACY } else { EMPTY_KIMCHI } } }
    let left = full(kind, l, at, h - 1);
    // two empty halves are the same
    let right = if at >= l.len() { left.clone() } else { full(kind, l, if h > 40 { usize::MAX } else { at + (1 << (h - 1)) }, h - 1) };
    sponge(kind, &Some(format!("CodaMklTree{:03}", h - 1)), &[left, right])
}
pub fn poseidon(_: u64, r: &mut Rng) -> Out {
    let h = if r.below(6) == 0 { 1 + r.size(40, 61) as u32 } else { 1 + r.below(7) as u32 };
    let n = 1 + r.below(1 << h.min(7)) as usize;
    let l: Vec<u64> = (0..n).map(|_| r.next()).collect();
    macro_rules! one { ($hs:ty, $mg:ty, $kind:expr) => {{
        let mut t = MinaMerkleTree::<Leaf, Fp, $hs, $mg, FixedHeightMode>::new(h);
        let cut = r.below(n as u64 + 1) as usize;
        t.add_batch(l[..cut].iter().map(|x| Leaf(*x))); if r.bool() { let _ = t.root(); } t.add_batch(l[cut..].iter().map(|x| Leaf(*x)));
        let (g, w) = (t.root(), Some(full($kind, &l, 0, h)));
        want!(g == w, "the root of {n} leaves in a tree of height {h} (sponge {}) is not the root of the tree filled up with empty accounts", $kind);
        let i = r.below(n as u64) as usize;
        let p = t.get_proof(i); want!(p.map(|p| p.verify(&w.unwrap())) == Some(true), "the proof of leaf {i} of {n}, height {h} (sponge {}) does not verify", $kind);
        let mut t = MinaMerkleTree::<Leaf, Fp, $hs, $mg, VariableHeightMode>::new();
        t.add_batch(l.iter().map(|x| Leaf(*x)));
        let (g, w) = (t.root(), Some(full($kind, &l, 0, need(n))));
        want!(g == w, "the root of {n} leaves (sponge {}) is not the root of the tree filled up with empty accounts", $kind);
    }} }
    one!(MinaPoseidonMerkleHasherLegacy<Leaf>, MinaPoseidonMerkleMergerLegacy, 1);
    one!(MinaPoseidonMerkleHasher<Leaf>, MinaPoseidonMerkleMerger, 2);
    let k = r.size(2000, u32::MAX as u64) as u32;
    let (a, b) = (prefixes::make_prefix_merkle_tree(k), prefixes::make_prefix_coinbase_merkle_tree(k));
    want!(a == format!("CodaMklTree{k:03}") && b == format!("CodaCbMklTree{k:03}"), "prefixes of height {k}: {a} {b}");
    Held(n < 1 << h, format!("height {h} leaves {n}"))
}

// ---- proofs
type Proof = DefaultMerkleProof<u64, u64, HtHasher, HtMerger>;
/// what a proof proves, computed from its public content alone
fn ref_root(p: &Proof) -> Option<u64> {
    let mut i = p.index as u128;
    if i == 0 || p.peer_indices.len() != p.peer_hashes.len() { return None }
    let n = p.peer_indices.len();
    let mut x = Some(mix(&[1, p.item, 0, 0]));
    for k in 0..n {
        if i == 0 { return None }
        let left = i % 2 == 1;
        let sib = if left { i + 1 } else { i - 1 };
        if p.peer_indices[k] as u128 != sib { return None }
        x = full_merge(if left { [x, p.peer_hashes[k]] } else { [p.peer_hashes[k], x] }, 0, k as u64 + 1);
        i = (i - 1) / 2;
    }
    if i == 0 { x } else { None }
}
fn show(p: &Proof) -> String { format!("proof of item {} at {} with peers {:?} {:?}", p.item, p.index, p.peer_indices, p.peer_hashes) }
fn judge(p: &Proof, root: u64) -> Result<bool, String> {
    let w = ref_root(p);
    let g = caught(|| p.root_hash()).map_err(|e| format!("{}: root_hash panicked: {e}", show(p)))?;
    if g.as_ref().ok() != w.as_ref() { return Err(format!("{}: root_hash is {g:?}, expected {w:?}", show(p))) }
    let v = caught(|| p.verify(&root)).map_err(|e| format!("{}: verify panicked: {e}", show(p)))?;
    if v != (w == Some(root)) { return Err(format!("{}: verify against {root:#x} is {v}, the proof hashes to {w:?}", show(p))) }
    Ok(v)
}
fn some_tree(r: &mut Rng) -> (Vec<u64>, u32, Option<u64>, Box<dyn FnMut(usize) -> Option<Proof>>) {
    let n = 1 + size(r);
    let l: Vec<u64> = (0..n).map(|_| r.next()).collect();
    let mid = r.below(n as u64 + 1) as usize;
    if r.bool() {
        let h = need(n) + r.below(4) as u32;
        let mut t = MinaMerkleTree::<u64, u64, HtHasher, HtMerger, FixedHeightMode>::new(h);
        t.add_batch(l[..mid].to_vec()); if r.bool() { let _ = t.root(); } t.add_batch(l[mid..].to_vec());
        let root = if r.bool() { t.root() } else { let v = need(n); let mut x = sub(&l, 0, v, 0, false, full_merge); for k in v + 1..=h { x = full_merge([x, None], 0, k as u64) } x };
        (l, h, root, Box::new(move |i| t.get_proof(i)))
    } else {
        let mut t = MinaMerkleTree::<u64, u64, HtHasher, HtMerger, VariableHeightMode>::new();
        t.add_batch(l[..mid].to_vec()); if r.bool() { let _ = t.root(); } t.add_batch(l[mid..].to_vec());
        let root = sub(&l, 0, need(n), 0, false, full_merge);
        (l, need(n), root, Box::new(move |i| t.get_proof(i)))
    }
}
pub fn genuine(_: u64, r: &mut Rng) -> Out {
    let (l, h, root, mut get) = some_tree(r);
    let n = l.len();
    let mut done = 0;
    for i in 0..n {
        if i > 4 && i + 3 < n && !r.one_in(n as u64 / 4 + 1) { continue }
        let p = match caught(|| get(i)) { Ok(p) => p, Err(e) => return Broken(format!("get_proof({i}) of {n} leaves at height {h} panicked: {e}")) };
        match p {
            None => want!(h == 0, "no proof for leaf {i} of {n} at height {h}"),
            Some(p) => {
                want!(p.index == (1usize << h) - 1 + i && p.item == l[i] && p.peer_indices.len() == h as usize, "{}: it should prove leaf {i} of {n} at height {h}", show(&p));
                match judge(&p, root.unwrap()) { Ok(v) => want!(v, "{}: does not verify against the root of its tree ({n} leaves, height {h})", show(&p)), Err(e) => return Broken(e) }
                done += 1;
            }
        }
    }
    Held(done > 0, format!("{n} leaves height {h} {done} proofs"))
}
fn a_proof(r: &mut Rng) -> Option<(Proof, u64, usize)> {
    let (l, h, root, mut get) = some_tree(r);
    if h == 0 { return None }
    let i = r.below(l.len() as u64) as usize;
    get(i).map(|p| (p, root.unwrap(), l.len()))
}
/// one field of a genuine proof is changed: it may verify only if it still proves what it says
pub fn tampered(_: u64, r: &mut Rng) -> Out {
    let Some((mut p, root, n)) = a_proof(r) else { return Held(false, "no proof".into()) };
    let (i0, it0) = (p.index, p.item);
    for _ in 0..1 + r.below(2) {
        let k = r.below(p.peer_indices.len().max(1) as u64) as usize;
        let m = p.peer_indices.len() > k && p.peer_hashes.len() > k;
        match r.below(11) {
            0 => p.index = p.index.wrapping_add(1), 1 => p.index = p.index.wrapping_sub(1), 2 => { let top = if r.bool() { 12 } else { 64 }; p.index ^= 1 << r.below(top) },
            3 => p.item = if r.bool() { r.edge_u64() } else { p.item.wrapping_add(r.below(3)) }, 4 if m => p.peer_hashes[k] = if r.bool() { None } else { Some(r.next()) },
            5 if m => p.peer_indices[k] = p.peer_indices[k].wrapping_add(r.below(5) as usize).wrapping_sub(2),
            6 => { p.peer_hashes.pop(); if r.bool() { p.peer_indices.pop(); } }
            7 => { p.peer_indices.push(r.below(4) as usize); if r.bool() { p.peer_hashes.push(None); } }
            8 if m => { let j = r.below(p.peer_hashes.len() as u64) as usize; p.peer_hashes.swap(k, j); }
            9 if m => { p.peer_indices.remove(0); p.peer_hashes.remove(0); }
            _ => p.index = 0,
        }
    }
    match judge(&p, root) {
        Err(e) => Broken(e),
        Ok(v) => { want!(!v || (p.index == i0 && p.item == it0), "{}: verifies, but item {it0} is at {i0} ({n} leaves)", show(&p)); Held(!v, format!("{} at {}", p.peer_indices.len(), p.index)) }
    }
}
/// the same item and siblings presented at another place
pub fn forged_index(_: u64, r: &mut Rng) -> Out {
    let Some((mut p, root, n)) = a_proof(r) else { return Held(false, "no proof".into()) };
    let i0 = p.index;
    let len = p.peer_indices.len();
    p.index = match r.below(4) { 0 => (1usize << len) - 1 + r.below(1 << len) as usize, 1 => i0 + 2 * r.below(4) as usize, 2 => i0.saturating_sub(2 * r.below(4) as usize), _ => r.below(4 * n as u64) as usize };
    // siblings renumbered to fit the claimed place, completely or in part
    let mut i = p.index;
    for k in 0..len { if i == 0 { break } if !r.one_in(6) { p.peer_indices[k] = if i % 2 == 1 { i + 1 } else { i - 1 }; } i = (i - 1) / 2; }
    if r.one_in(3) { let k = r.below(len as u64) as usize; p.peer_indices[k] = p.peer_indices[k].wrapping_add(2).wrapping_sub(4 * r.below(2) as usize); }
    match judge(&p, root) { Err(e) => Broken(e), Ok(v) => { want!(!v || p.index == i0, "{}: verifies, but the item is at {i0} ({n} leaves)", show(&p)); Held(p.index != i0, format!("{} at {}", len, p.index)) } }
}
pub fn arbitrary(_: u64, r: &mut Rng) -> Out {
    let h = r.below(66) as usize;
    let index = match r.below(4) { 0 => r.next() as usize, 1 => r.edge_u64() as usize, 2 => r.below(40) as usize, _ => usize::MAX - r.below(3) as usize };
    let mut i = index;
    let n = if r.bool() { let mut k = 0; let mut j = i; while j > 0 { j = (j - 1) / 2; k += 1 } k } else { h };
    let mut pi = vec![];
    for _ in 0..n { let sib = if i % 2 == 1 { i.wrapping_add(1) } else { i.wrapping_sub(1) }; pi.push(if r.one_in(40) { r.edge_u64() as usize } else { sib }); i = i.saturating_sub(1) / 2; }
    let m = if r.one_in(8) { r.below(5) as usize } else { n };
    let ph = (0..m).map(|_| if r.one_in(4) { None } else { Some(r.next()) }).collect();
    let p = Proof { index, item: r.next(), peer_indices: pi, peer_hashes: ph, _hasher: PhantomData, _merger: PhantomData };
    let root = match ref_root(&p) { Some(x) if r.bool() => x, _ => r.next() };
    match judge(&p, root) { Err(e) => Broken(e), Ok(_) => Held(p.index > 0, format!("{} {}", p.index, p.peer_indices.len())) }
}

// ---- geometry
fn geo(i: usize, h: u32) -> Result<(), String> {
    let mut d = 0; let mut first = 0usize; // nodes of depth d: first ..= 2*first
    while i > first.saturating_mul(2) { first = 2 * first + 1; d += 1 }
    if d > h { return Ok(()) }
    let m = caught(|| MerkleTreeNodeMetadata::new(i, h)).map_err(|e| format!("node {i} in a tree of height {h}: {e}"))?;
    if (m.depth(), m.height()) != (d, h - d) { return Err(format!("node {i} in a tree of height {h}: depth {} height {}, expected {d} and {}", m.depth(), m.height(), h - d)) }
    Ok(())
}
pub fn indices(n: u64, r: &mut Rng) -> Out {
    for i in n * 64..(n + 1) * 64 { if let Err(e) = geo(i as usize, 20 + r.below(40) as u32) { return Broken(e) } }
    Held(true, format!("{}..", n * 64))
}
pub fn boundaries(n: u64, r: &mut Rng) -> Out {
    let k = (n % 65) as u32;
    let b = if k == 64 { 0usize } else { 1usize << k };
    let i = b.wrapping_add(r.below(9) as usize).wrapping_sub(5);
    if let Err(e) = geo(i, 64 + r.below(9) as u32) { return Broken(e) }
    if let Err(e) = geo(r.next() as usize >> r.below(64), 64) { return Broken(e) }
    Held(true, format!("{i}"))
}
#[derive(Clone)]
struct Z;
struct ZH; struct ZM;
impl MerkleHasher for ZH { type Item = Z; type Hash = u8; fn hash(_: &Z, _: MerkleTreeNodeMetadata) -> u8 { 0 } }
impl MerkleMerger for ZM { type Hash = u8; fn merge(_: [Option<u8>; 2], _: MerkleTreeNodeMetadata) -> Option<u8> { None } }
pub fn heights(n: u64, r: &mut Rng) -> Out {
    let k = n % 20;
    let c = if n < 40 { n } else { ((1u64 << k) + r.below(5)).saturating_sub(2) } as usize;
    let mut t = MinaMerkleTree::<Z, u8, ZH, ZM, VariableHeightMode>::new();
    let a = r.below(c as u64 + 1) as usize;
    t.add_batch(vec![Z; a]); want!(t.height() == need(a) && t.count() == a, "{a} leaves: height {}, expected {}", t.height(), need(a));
    t.add_batch(vec![Z; c - a]); want!(t.height() == need(c) && t.count() == c, "{c} leaves: height {}, expected {}", t.height(), need(c));
    Held(c > 1, format!("{a}+{}", c - a))
}

struct UH; struct UM;
impl MerkleHasher for UH { type Item = (); type Hash = (); fn hash(_: &(), _: MerkleTreeNodeMetadata) {} }
impl MerkleMerger for UM { type Hash = (); fn merge(_: [Option<()>; 2], _: MerkleTreeNodeMetadata) -> Option<()> { None } }
/// heights of trees of up to 2^25 leaves, around every power of two and every literal of the code
pub fn large_heights(n: u64, r: &mut Rng) -> Out {
    let k = [16u64, 24, 25, 23, 20, 22, 17, 21, 18, 19][n as usize % 10];
    let c = if n < 20 { (1u64 << k) + n / 10 } else { let s = r.size(1 << 16, 1 << 25); s.max(1) } as usize;
    let mut t = MinaMerkleTree::<(), (), UH, UM, VariableHeightMode>::new();
    let a = if r.bool() { c - 1 } else { r.below(c as u64 + 1) as usize };
    t.add_batch(vec![(); a]); want!(t.height() == need(a) && t.count() == a, "{a} leaves: height {}, expected {}", t.height(), need(a));
    t.add_batch(vec![(); c - a]); want!(t.height() == need(c) && t.count() == c, "{a} leaves and then {} more: height {}, expected {}", c - a, t.height(), need(c));
    Held(true, format!("{a}+{}", c - a))
}

// ---- paths
type PProof = DefaultMerkleProof<Leaf, Fp, MinaPoseidonMerkleHasher<Leaf>, MinaPoseidonMerkleMerger>;
fn fp(r: &mut Rng) -> Fp { Fp([r.next(), r.next(), r.next(), r.next()]) }
fn path_root(item: u64, bits: &[(bool, Fp)]) -> Fp {
    let mut x = sponge(2, &Some("leaf".into()), &[Fp::from(item)]);
    for (k, (left, s)) in bits.iter().enumerate() { let d = Some(format!("CodaMklTree{k:03}")); x = if *left { sponge(2, &d, &[x, *s]) } else { sponge(2, &d, &[*s, x]) }; }
    x
}
fn to_path(bits: &[(bool, Fp)]) -> MerklePath { MerklePath(bits.iter().map(|(l, s)| if *l { MerklePathNode { left: Some(FpJson(*s)), right: None } } else { MerklePathNode { left: None, right: Some(FpJson(*s)) } }).collect()) }
pub fn path_genuine(_: u64, r: &mut Rng) -> Out {
    let n = match r.below(4) { 0 => 1 + r.below(63), 1 if r.bool() => 1 + r.size(63, 62), 1 => 20, _ => 1 + r.below(12) } as usize;
    let bits: Vec<(bool, Fp)> = (0..n).map(|_| (r.bool(), fp(r))).collect();
    let item = r.next();
    let path = to_path(&bits);
    let p: PProof = match caught(|| path.to_proof(Leaf(item))) { Ok(Ok(p)) => p, x => return Broken(format!("a path of {n} nodes gives {:?}", x.map(|y| y.map(|_| ()).map_err(|e| e.to_string())))) };
    // the leaf's place: reading from the root, left is 0 and right is 1
    let row = bits.iter().rev().fold(0usize, |a, (l, _)| a * 2 + !*l as usize);
    let idx = (1usize << n) - 1 + row;
    want!(p.index == idx, "a path of {n} nodes {:?}: index {}, expected {idx}", bits.iter().map(|b| b.0).collect::<Vec<_>>(), p.index);
    let mut i = idx;
    for k in 0..n { let s = if i % 2 == 1 { i + 1 } else { i - 1 }; want!(p.peer_indices.get(k) == Some(&s) && p.peer_hashes.get(k) == Some(&Some(bits[k].1)), "peer {k} of a path of {n} nodes: {:?} {:?}, expected node {s}", p.peer_indices.get(k), p.peer_hashes.get(k)); i = (i - 1) / 2; }
    want!(p.peer_indices.len() == n && p.peer_hashes.len() == n && p.item == Leaf(item), "a path of {n} nodes gives {} peers", p.peer_indices.len());
    let root = path_root(item, &bits);
    want!(p.verify(&root), "the proof of a path of {n} nodes does not verify against the root the path leads to");
    let mut other = bits.clone(); let k = r.below(n as u64) as usize; if r.bool() { other[k].0 = !other[k].0 } else { other[k].1 = fp(r) }
    want!(!p.verify(&path_root(item, &other)), "the proof of a path of {n} nodes verifies against another root");
    let js = serde_json::to_value(&path).unwrap();
    want!(serde_json::from_value::<MerklePath>(js.clone()).ok() == Some(path.clone()), "the path does not survive JSON: {js}");
    want!(js.as_array().map(|a| a.iter().enumerate().all(|(k, o)| o["left"].is_string() == bits[k].0 && o["right"].is_string() != bits[k].0)) == Some(true), "the path is written as {js}");
    Held(true, format!("{n} {row}"))
}
pub fn path_malformed(_: u64, r: &mut Rng) -> Out {
    let n = match r.below(6) { 0 => 0, 1 => 60 + r.below(10), 2 => r.size(30, 400), _ => 1 + r.below(14) } as usize;
    let bits: Vec<(bool, Fp)> = (0..n).map(|_| (r.bool(), fp(r))).collect();
    let mut path = to_path(&bits);
    let bad = n > 0 && r.bool();
    if bad { let k = r.below(n as u64) as usize; path.0[k] = if r.bool() { MerklePathNode { left: None, right: None } } else { MerklePathNode { left: Some(FpJson(fp(r))), right: Some(FpJson(fp(r))) } }; }
    for (k, nd) in path.0.iter().enumerate() {
        let w = match (&nd.left, &nd.right) { (Some(_), None) => Some(true), (None, Some(_)) => Some(false), _ => None };
        let g = nd.has_left_child().ok();
        want!(g == w, "has_left_child of node {k}: {g:?}, expected {w:?}");
    }
    let g: Result<anyhow_ok, String> = caught(|| { let p: Result<PProof, _> = path.to_proof(Leaf(1)); p.is_ok() });
    match g { Err(e) => Broken(format!("a path of {n} nodes (malformed node: {bad}) panicked: {e}")), Ok(ok) => { let w = n > 0 && n < 64 && !bad; want!(ok == w, "a path of {n} nodes (malformed node: {bad}) is accepted: {ok}, expected {w}"); Held(!w, format!("{n} {bad}")) } }
}
#[allow(non_camel_case_types)] type anyhow_ok = bool;
