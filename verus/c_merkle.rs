//@include prelude_core.rs
global size_of usize == 8;
use std::cmp::Ordering;
use std::marker::PhantomData;
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl<T: Clone> VxClone for T { #[verifier::external_body] fn vx_clone(&self) -> (r: T) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_eqh<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body]
pub fn vx_vec_fill<T>(x: Option<T>, n: usize) -> (r: Vec<Option<T>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x { unimplemented!() }
/// consuming iteration hands out the elements in order
#[verifier::external_body]
pub fn vx_nth<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }

pub proof fn p2_pos(n: nat) ensures p2(n) >= 1, n >= 1 ==> p2(n) >= 2 && p2(n) % 2 == 0, decreases n { if n > 0 { p2_pos((n - 1) as nat); } }
pub proof fn p2_mono(a: nat, b: nat) requires a <= b ensures p2(a) <= p2(b) decreases b { if a < b { p2_mono(a, (b - 1) as nat); } }
pub proof fn p2_strict(a: nat, b: nat) requires a < b ensures p2(a) < p2(b) { p2_mono(a, (b - 1) as nat); p2_pos(a); p2_pos((b - 1) as nat); }
pub proof fn p2_vals() ensures p2(60) == 0x1000000000000000, p2(62) == 0x4000000000000000, p2(63) == 0x8000000000000000, p2(64) == 0x10000000000000000, p2(0) == 1, p2(1) == 2
{ assert(p2(60) == 0x1000000000000000 && p2(62) == 0x4000000000000000 && p2(63) == 0x8000000000000000 && p2(64) == 0x10000000000000000 && p2(0) == 1 && p2(1) == 2) by (compute); }
pub mod shl { use vstd::prelude::*; verus! {
pub open spec fn p2(n: nat) -> nat decreases n { if n == 0 { 1 } else { 2 * p2((n - 1) as nat) } }
pub broadcast proof fn one_shl(n: usize) requires n < 64 ensures #[trigger] (1usize << n) == p2(n as nat) decreases n
{ if n > 0 { one_shl((n - 1) as usize); assert(1usize << n == 2 * (1usize << ((n - 1) as usize))) by (bit_vector) requires 0 < n < 64; } else { assert(1usize << 0usize == 1) by (bit_vector); } }
pub broadcast proof fn one_shl32(n: u32) requires n < 64 ensures #[trigger] (1usize << n) == p2(n as nat)
{ let k = n as usize; one_shl(k); }
pub broadcast proof fn half_usize(n: usize) ensures #[trigger] (n >> 1usize) == n / 2 { assert(n >> 1usize == n / 2) by (bit_vector); }
pub broadcast proof fn odd_usize(n: usize) ensures #[trigger] (n & 1) == n % 2 { assert(n & 1 == n % 2) by (bit_vector); }
} }
use shl::{p2, one_shl, one_shl32, half_usize, odd_usize};
broadcast use {vx_bits, one_shl, one_shl32, half_usize, odd_usize};
pub assume_specification [<usize>::pow] (b: usize, e: u32) -> (r: usize)
    requires b == 2, e < 64
    ensures r == p2(e as nat);
pub assume_specification [<usize>::leading_zeros] (x: usize) -> (r: u32)
    ensures r <= 64, x == 0 ==> r == 64, x > 0 ==> r < 64 && p2((63 - r) as nat) <= x < p2((64 - r) as nat);

// ------------------------------------------------------------ geometry
pub open spec fn par(i: int) -> int { (i - 1) / 2 }
pub open spec fn sib(i: int) -> int { if i % 2 == 0 { i - 1 } else { i + 1 } }
#[via_fn]
proof fn lvld_dec(i: int, d: int) { if i > 0 && d >= 1 { assert((i - 1) / d < i) by (nonlinear_arith) requires i > 0, d >= 1; assert((i - 1) / d >= 0) by (nonlinear_arith) requires i > 0, d >= 1; } }
/// distance to the root in a complete tree of degree d, following parents
pub open spec fn lvld(i: int, d: int) -> nat decreases i via lvld_dec { if i <= 0 || d < 1 { 0 } else { 1 + lvld((i - 1) / d, d) } }
pub open spec fn lvl(i: int) -> nat { lvld(i, 2) }
pub proof fn lvl_bound(i: int, d: int, n: nat) requires i < p2(n + 1) - 1, d >= 2 ensures lvld(i, d) <= n decreases n
{
    if i > 0 { if n == 0 { assert(p2(1) == 2 * p2(0)); } else {
        assert((i - 1) / d <= (i - 1) / 2) by (nonlinear_arith) requires i > 0, d >= 2;
        lvl_bound((i - 1) / d, d, (n - 1) as nat); } }
}
pub proof fn lvl_exact(i: int, n: nat) requires p2(n) - 1 <= i < p2(n + 1) - 1 ensures lvl(i) == n decreases n
{ p2_pos(n); if n > 0 { p2_pos((n - 1) as nat); lvl_exact(par(i), (n - 1) as nat); } }
pub open spec fn meta(i: int, h: nat) -> MerkleTreeNodeMetadata { MerkleTreeNodeMetadata { depth: lvl(i) as u32, height: (h - lvl(i)) as u32 } }
pub open spec fn anc(a: int, x: int) -> bool decreases x { x > 0 && (a == par(x) || anc(a, par(x))) }
pub open spec fn anc_self(a: int, x: int) -> bool { a == x || anc(a, x) }
pub proof fn anc_par(c: int, x: int) requires anc_self(c, x), c > 0 ensures anc(par(c), x) decreases x
{ if c != x { if c != par(x) { anc_par(c, par(x)); } else { assert(anc(par(c), par(x))); } } }
pub proof fn anc_lt(a: int, x: int) requires anc(a, x) ensures 0 <= a < x decreases x { if a != par(x) { anc_lt(a, par(x)); } }
pub open spec fn nodes_of(h: nat) -> int { p2(h) - 1 }
/// smallest height whose bottom level holds n leaves
pub open spec fn height_for(n: int, h: nat) -> bool { if n < 2 { h == 0 } else { h >= 1 && p2((h - 1) as nat) < n <= p2(h) } }
pub proof fn height_unique(n: int, a: nat, b: nat) requires height_for(n, a), height_for(n, b) ensures a == b
{ if a < b { p2_mono(a, (b - 1) as nat); } else if b < a { p2_mono(b, (a - 1) as nat); } }

// ------------------------------------------------------------ the hash of a tree of leaves
pub open spec fn th<I, H, Hr: MerkleHasher<Item = I, Hash = H>, Mg: MerkleMerger<Hash = H>>(it: Seq<I>, h: nat, i: int) -> Option<H>
    decreases (if i < nodes_of(h) { nodes_of(h) - i } else { 0 })
{
    if i < 0 { None }
    else if i < nodes_of(h) { Mg::merge_spec(th::<I, H, Hr, Mg>(it, h, 2 * i + 1), th::<I, H, Hr, Mg>(it, h, 2 * i + 2), meta(i, h)) }
    else if i - nodes_of(h) < it.len() { Some(Hr::hash_spec(it[i - nodes_of(h)], meta(i, h))) }
    else { None }
}
/// root of a tree of fixed height: missing right halves above the stored tree
pub open spec fn raise<I, H, Hr: MerkleHasher<Item = I, Hash = H>, Mg: MerkleMerger<Hash = H>>(it: Seq<I>, h: nat, to: nat) -> Option<H>
    decreases to
{
    if to <= h { th::<I, H, Hr, Mg>(it, h, 0) } else { Mg::merge_spec(raise::<I, H, Hr, Mg>(it, h, (to - 1) as nat), None, MerkleTreeNodeMetadata { depth: 0, height: to as u32 }) }
}
pub open spec fn items_of<I, H>(l: Seq<(I, Option<H>)>) -> Seq<I> { Seq::new(l.len(), |j: int| l[j].0) }
/// everything below i is cached and right
pub open spec fn full<I, H, Hr: MerkleHasher<Item = I, Hash = H>, Mg: MerkleMerger<Hash = H>>(nodes: Seq<Option<H>>, l: Seq<(I, Option<H>)>, h: nat, i: int) -> bool
    decreases (if i < nodes_of(h) { nodes_of(h) - i } else { 0 })
{
    if i < 0 { false }
    else if i < nodes_of(h) { nodes[i] == th::<I, H, Hr, Mg>(items_of(l), h, i) && full::<I, H, Hr, Mg>(nodes, l, h, 2 * i + 1) && full::<I, H, Hr, Mg>(nodes, l, h, 2 * i + 2) }
    else if i - nodes_of(h) < l.len() { l[i - nodes_of(h)].1 == Some(Hr::hash_spec(l[i - nodes_of(h)].0, meta(i, h))) }
    else { true }
}
pub open spec fn leaf_ok<I, H, Hr: MerkleHasher<Item = I, Hash = H>>(l: Seq<(I, Option<H>)>, h: nat, j: int) -> bool {
    l[j].1 is Some ==> l[j].1 == Some(Hr::hash_spec(l[j].0, meta(nodes_of(h) + j, h)))
}
pub open spec fn cache_ok<I, H, Hr: MerkleHasher<Item = I, Hash = H>, Mg: MerkleMerger<Hash = H>>(nodes: Seq<Option<H>>, l: Seq<(I, Option<H>)>, h: nat) -> bool {
    &&& h <= 60 && nodes.len() == nodes_of(h) && height_for(l.len() as int, h)
    &&& forall|i: int| #![trigger nodes[i]] 0 <= i < nodes.len() && nodes[i] is Some ==> full::<I, H, Hr, Mg>(nodes, l, h, i)
    &&& forall|j: int| #![trigger l[j]] 0 <= j < l.len() ==> leaf_ok::<I, H, Hr>(l, h, j)
}
/// the cache only gained right values
pub open spec fn gained<I, H, Hr: MerkleHasher<Item = I, Hash = H>, Mg: MerkleMerger<Hash = H>>(n0: Seq<Option<H>>, l0: Seq<(I, Option<H>)>, n1: Seq<Option<H>>, l1: Seq<(I, Option<H>)>, h: nat) -> bool {
    &&& n0.len() == n1.len() && l0.len() == l1.len() && items_of(l0) =~= items_of(l1)
    &&& forall|i: int| 0 <= i < n0.len() ==> #[trigger] n1[i] == n0[i] || n1[i] == th::<I, H, Hr, Mg>(items_of(l0), h, i)
    &&& forall|j: int| 0 <= j < l0.len() ==> (#[trigger] l1[j]).1 == l0[j].1 || l1[j].1 == Some(Hr::hash_spec(l0[j].0, meta(nodes_of(h) + j, h)))
}
pub broadcast proof fn full_gained<I, H, Hr: MerkleHasher<Item = I, Hash = H>, Mg: MerkleMerger<Hash = H>>(n0: Seq<Option<H>>, l0: Seq<(I, Option<H>)>, n1: Seq<Option<H>>, l1: Seq<(I, Option<H>)>, h: nat, i: int)
    requires #[trigger] gained::<I, H, Hr, Mg>(n0, l0, n1, l1, h), #[trigger] full::<I, H, Hr, Mg>(n0, l0, h, i), n0.len() == nodes_of(h)
    ensures full::<I, H, Hr, Mg>(n1, l1, h, i)
    decreases (if i < nodes_of(h) { nodes_of(h) - i } else { 0 })
{
    if 0 <= i < nodes_of(h) { full_gained::<I, H, Hr, Mg>(n0, l0, n1, l1, h, 2 * i + 1); full_gained::<I, H, Hr, Mg>(n0, l0, n1, l1, h, 2 * i + 2); assert(n1[i] == n0[i] || n1[i] == th::<I, H, Hr, Mg>(items_of(l0), h, i)); }
    else if i - nodes_of(h) < l0.len() { assert(items_of(l0)[i - nodes_of(h)] == items_of(l1)[i - nodes_of(h)]); }
}
pub broadcast proof fn gained_trans<I, H, Hr: MerkleHasher<Item = I, Hash = H>, Mg: MerkleMerger<Hash = H>>(n0: Seq<Option<H>>, l0: Seq<(I, Option<H>)>, n1: Seq<Option<H>>, l1: Seq<(I, Option<H>)>, n2: Seq<Option<H>>, l2: Seq<(I, Option<H>)>, h: nat)
    requires #[trigger] gained::<I, H, Hr, Mg>(n0, l0, n1, l1, h), #[trigger] gained::<I, H, Hr, Mg>(n1, l1, n2, l2, h)
    ensures gained::<I, H, Hr, Mg>(n0, l0, n2, l2, h)
{
    assert(items_of(l0) == items_of(l1));
    assert forall|i: int| 0 <= i < n0.len() implies #[trigger] n2[i] == n0[i] || n2[i] == th::<I, H, Hr, Mg>(items_of(l0), h, i) by { assert(n1[i] == n0[i] || n1[i] == th::<I, H, Hr, Mg>(items_of(l0), h, i)); }
    assert forall|j: int| 0 <= j < l0.len() implies (#[trigger] l2[j]).1 == l0[j].1 || l2[j].1 == Some(Hr::hash_spec(l0[j].0, meta(nodes_of(h) + j, h))) by { assert(l1[j].1 == l1[j].1); assert(items_of(l0)[j] == items_of(l1)[j]); }
}
pub broadcast proof fn set_node<I, H, Hr: MerkleHasher<Item = I, Hash = H>, Mg: MerkleMerger<Hash = H>>(n: Seq<Option<H>>, l: Seq<(I, Option<H>)>, h: nat, i: int, x: Option<H>)
    requires #[trigger] cache_ok::<I, H, Hr, Mg>(n, l, h), 0 <= i < n.len(), full::<I, H, Hr, Mg>(n, l, h, 2 * i + 1), full::<I, H, Hr, Mg>(n, l, h, 2 * i + 2), x == th::<I, H, Hr, Mg>(items_of(l), h, i)
    ensures cache_ok::<I, H, Hr, Mg>(#[trigger] n.update(i, x), l, h), gained::<I, H, Hr, Mg>(n, l, n.update(i, x), l, h), full::<I, H, Hr, Mg>(n.update(i, x), l, h, i)
{
    let m = n.update(i, x);
    assert(gained::<I, H, Hr, Mg>(n, l, m, l, h));
    full_gained::<I, H, Hr, Mg>(n, l, m, l, h, 2 * i + 1); full_gained::<I, H, Hr, Mg>(n, l, m, l, h, 2 * i + 2);
    assert forall|k: int| #![trigger m[k]] 0 <= k < m.len() && m[k] is Some implies full::<I, H, Hr, Mg>(m, l, h, k) by { if k != i { assert(n[k] == m[k]); full_gained::<I, H, Hr, Mg>(n, l, m, l, h, k); } }
}
pub broadcast proof fn set_leaf<I, H, Hr: MerkleHasher<Item = I, Hash = H>, Mg: MerkleMerger<Hash = H>>(n: Seq<Option<H>>, l: Seq<(I, Option<H>)>, h: nat, j: int, e: (I, Option<H>))
    requires #[trigger] cache_ok::<I, H, Hr, Mg>(n, l, h), 0 <= j < l.len(), e.0 == l[j].0, e.1 == Some(Hr::hash_spec(e.0, meta(nodes_of(h) + j, h)))
    ensures cache_ok::<I, H, Hr, Mg>(n, #[trigger] l.update(j, e), h), gained::<I, H, Hr, Mg>(n, l, n, l.update(j, e), h), full::<I, H, Hr, Mg>(n, l.update(j, e), h, nodes_of(h) + j)
{
    let m = l.update(j, e); p2_pos(h);
    assert(items_of(l) =~= items_of(m));
    assert(gained::<I, H, Hr, Mg>(n, l, n, m, h));
    assert forall|k: int| #![trigger n[k]] 0 <= k < n.len() && n[k] is Some implies full::<I, H, Hr, Mg>(n, m, h, k) by { full_gained::<I, H, Hr, Mg>(n, l, n, m, h, k); }
    assert forall|k: int| #![trigger m[k]] 0 <= k < m.len() implies leaf_ok::<I, H, Hr>(m, h, k) by { if k != j { assert(leaf_ok::<I, H, Hr>(l, h, k)) by { assert(l[k] == l[k]); } } }
}
/// a full tree: every node below the root is full
pub proof fn full_at<I, H, Hr: MerkleHasher<Item = I, Hash = H>, Mg: MerkleMerger<Hash = H>>(n: Seq<Option<H>>, l: Seq<(I, Option<H>)>, h: nat, i: int)
    requires full::<I, H, Hr, Mg>(n, l, h, 0), 0 <= i <= 2 * nodes_of(h)
    ensures full::<I, H, Hr, Mg>(n, l, h, i)
    decreases i
{ if i > 0 { full_at::<I, H, Hr, Mg>(n, l, h, par(i)); } }
pub broadcast proof fn full_leaf<I, H, Hr: MerkleHasher<Item = I, Hash = H>, Mg: MerkleMerger<Hash = H>>(n: Seq<Option<H>>, l: Seq<(I, Option<H>)>, h: nat, j: int)
    requires #[trigger] full::<I, H, Hr, Mg>(n, l, h, 0), 0 <= j < l.len() <= p2(h)
    ensures (#[trigger] l[j]).1 == th::<I, H, Hr, Mg>(items_of(l), h, nodes_of(h) + j)
{ p2_pos(h); full_at::<I, H, Hr, Mg>(n, l, h, nodes_of(h) + j); }
/// leaves appended outside a subtree do not change it
pub proof fn th_frame<I, H, Hr: MerkleHasher<Item = I, Hash = H>, Mg: MerkleMerger<Hash = H>>(a: Seq<I>, b: Seq<I>, h: nat, i: int)
    requires a.len() <= b.len(), b.len() <= p2(h), forall|j: int| 0 <= j < a.len() ==> a[j] == b[j], forall|j: int| a.len() <= j < b.len() ==> !#[trigger] anc_self(i, nodes_of(h) + j)
    ensures th::<I, H, Hr, Mg>(a, h, i) == th::<I, H, Hr, Mg>(b, h, i)
    decreases (if i < nodes_of(h) { nodes_of(h) - i } else { 0 })
{
    if 0 <= i < nodes_of(h) {
        assert forall|j: int| a.len() <= j < b.len() implies !#[trigger] anc_self(2 * i + 1, nodes_of(h) + j) by { if anc_self(2 * i + 1, nodes_of(h) + j) { anc_par(2 * i + 1, nodes_of(h) + j); assert(anc_self(i, nodes_of(h) + j)); } }
        assert forall|j: int| a.len() <= j < b.len() implies !#[trigger] anc_self(2 * i + 2, nodes_of(h) + j) by { if anc_self(2 * i + 2, nodes_of(h) + j) { anc_par(2 * i + 2, nodes_of(h) + j); assert(anc_self(i, nodes_of(h) + j)); } }
        th_frame::<I, H, Hr, Mg>(a, b, h, 2 * i + 1); th_frame::<I, H, Hr, Mg>(a, b, h, 2 * i + 2);
    } else if i >= nodes_of(h) { if a.len() <= i - nodes_of(h) < b.len() { assert(anc_self(i, nodes_of(h) + (i - nodes_of(h)))); } }
}
pub proof fn full_frame<I, H, Hr: MerkleHasher<Item = I, Hash = H>, Mg: MerkleMerger<Hash = H>>(n0: Seq<Option<H>>, l0: Seq<(I, Option<H>)>, n1: Seq<Option<H>>, l1: Seq<(I, Option<H>)>, h: nat, i: int)
    requires
        full::<I, H, Hr, Mg>(n0, l0, h, i), n0.len() == nodes_of(h), n1.len() == n0.len(), l0.len() <= l1.len(), l1.len() <= p2(h),
        forall|j: int| 0 <= j < l0.len() ==> l0[j] == l1[j], forall|j: int| l0.len() <= j < l1.len() ==> !#[trigger] anc_self(i, nodes_of(h) + j),
        forall|k: int| 0 <= k < n0.len() && (forall|j: int| l0.len() <= j < l1.len() ==> !#[trigger] anc_self(k, nodes_of(h) + j)) ==> #[trigger] n1[k] == n0[k],
    ensures full::<I, H, Hr, Mg>(n1, l1, h, i)
    decreases (if i < nodes_of(h) { nodes_of(h) - i } else { 0 })
{
    let a = items_of(l0); let b = items_of(l1);
    th_frame::<I, H, Hr, Mg>(a, b, h, i);
    if i < nodes_of(h) {
        assert(n1[i] == n0[i]);
        assert forall|j: int| l0.len() <= j < l1.len() implies !#[trigger] anc_self(2 * i + 1, nodes_of(h) + j) by { if anc_self(2 * i + 1, nodes_of(h) + j) { anc_par(2 * i + 1, nodes_of(h) + j); assert(anc_self(i, nodes_of(h) + j)); } }
        assert forall|j: int| l0.len() <= j < l1.len() implies !#[trigger] anc_self(2 * i + 2, nodes_of(h) + j) by { if anc_self(2 * i + 2, nodes_of(h) + j) { anc_par(2 * i + 2, nodes_of(h) + j); assert(anc_self(i, nodes_of(h) + j)); } }
        full_frame::<I, H, Hr, Mg>(n0, l0, n1, l1, h, 2 * i + 1); full_frame::<I, H, Hr, Mg>(n0, l0, n1, l1, h, 2 * i + 2);
    } else if i - nodes_of(h) < l1.len() { if l0.len() <= i - nodes_of(h) { assert(anc_self(i, nodes_of(h) + (i - nodes_of(h)))); } }
}

// ------------------------------------------------------------ proofs
pub open spec fn row(i: int, k: nat) -> int decreases k { if k == 0 { i } else { row(i, (k - 1) as nat) / 2 } }
pub open spec fn up(i: int, k: nat) -> int decreases k { if k == 0 { i } else { par(up(i, (k - 1) as nat)) } }
/// the running hash of a proof after k siblings
pub open spec fn fold<I, H, Hr: MerkleHasher<Item = I, Hash = H>, Mg: MerkleMerger<Hash = H>>(idx: int, item: I, s: Seq<Option<H>>, n: nat, k: nat) -> Option<H>
    decreases k
{
    if k == 0 { Some(Hr::hash_spec(item, meta(idx, n))) }
    else {
        let below = fold::<I, H, Hr, Mg>(idx, item, s, n, (k - 1) as nat);
        let c = up(idx, (k - 1) as nat);
        if c % 2 == 1 { Mg::merge_spec(below, s[k - 1], meta(par(c), n)) } else { Mg::merge_spec(s[k - 1], below, meta(par(c), n)) }
    }
}
/// a proof names exactly the sibling on every level between the leaf and the root
pub open spec fn well_formed<H>(idx: int, pi: Seq<usize>, ph: Seq<Option<H>>) -> bool {
    &&& idx > 0 && pi.len() == lvl(idx) && ph.len() == pi.len()
    &&& forall|k: int| 0 <= k < pi.len() ==> #[trigger] pi[k] == sib(up(idx, k as nat))
}
pub proof fn up_row(h: nat, i: int, k: nat)
    requires 0 <= i < p2(h), k <= h
    ensures up(nodes_of(h) + i, k) == p2((h - k) as nat) - 1 + row(i, k), 0 <= row(i, k) < p2((h - k) as nat)
    decreases k
{
    if k > 0 { up_row(h, i, (k - 1) as nat); p2_pos((h - k) as nat); assert(p2((h - k + 1) as nat) == 2 * p2((h - k) as nat)); }
}
pub proof fn row_zero(h: nat, i: int, k: nat) requires 0 <= i < p2(h), k >= h ensures row(i, k) == 0 decreases k
{ if k == h { up_row(h, i, h); } else { row_zero(h, i, (k - 1) as nat); } }
pub proof fn lvl_up(i: int, k: nat) requires k <= lvl(i), i >= 0 ensures lvl(up(i, k)) == lvl(i) - k, up(i, k) >= 0 decreases k { if k > 0 { lvl_up(i, (k - 1) as nat); } }
/// hashes look at the height of a node only, as all hashers and mergers of the project do
pub open spec fn height_only<I, H, Hr: MerkleHasher<Item = I, Hash = H>, Mg: MerkleMerger<Hash = H>>() -> bool {
    &&& forall|x: I, a: MerkleTreeNodeMetadata, b: MerkleTreeNodeMetadata| a.height == b.height ==> #[trigger] Hr::hash_spec(x, a) == #[trigger] Hr::hash_spec(x, b)
    &&& forall|l: Option<H>, r: Option<H>, a: MerkleTreeNodeMetadata, b: MerkleTreeNodeMetadata| a.height == b.height ==> #[trigger] Mg::merge_spec(l, r, a) == #[trigger] Mg::merge_spec(l, r, b)
}
/// the siblings a proof of leaf i must carry
pub open spec fn siblings<I, H, Hr: MerkleHasher<Item = I, Hash = H>, Mg: MerkleMerger<Hash = H>>(it: Seq<I>, h: nat, i: int, s: Seq<Option<H>>) -> bool {
    forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] == (if k < h { th::<I, H, Hr, Mg>(it, h, sib(up(nodes_of(h) + i, k as nat))) } else { None })
}
pub proof fn lvl_leaf(f: nat, i: int, k: nat)
    requires 0 <= i < p2(f), k <= f
    ensures lvl(up(nodes_of(f) + i, k)) == f - k, up(nodes_of(f) + i, k) >= 0, k < f ==> up(nodes_of(f) + i, k) > 0,
{ p2_pos(f); lvl_exact(nodes_of(f) + i, f); lvl_up(nodes_of(f) + i, k); }
pub proof fn parity(h: nat, f: nat, i: int, k: nat)
    requires 0 <= i < p2(h), h <= f, k < f
    ensures k < h ==> up(nodes_of(f) + i, k) % 2 == up(nodes_of(h) + i, k) % 2, k >= h ==> up(nodes_of(f) + i, k) % 2 == 1,
{
    p2_mono(h, f); up_row(f, i, k); p2_pos((f - k) as nat);
    if k < h { up_row(h, i, k); p2_pos((h - k) as nat); } else { row_zero(h, i, k); }
}
/// folding the siblings of leaf i gives the root
pub proof fn fold_is_root<I, H, Hr: MerkleHasher<Item = I, Hash = H>, Mg: MerkleMerger<Hash = H>>(it: Seq<I>, h: nat, f: nat, i: int, s: Seq<Option<H>>, k: nat)
    requires
        0 <= i < it.len() <= p2(h), h <= f <= 60, k <= f, s.len() == f, siblings::<I, H, Hr, Mg>(it, h, i, s),
        f == h || height_only::<I, H, Hr, Mg>(),
    ensures
        fold::<I, H, Hr, Mg>(nodes_of(f) + i, it[i], s, f, k) == (if k <= h { th::<I, H, Hr, Mg>(it, h, up(nodes_of(h) + i, k)) } else { raise::<I, H, Hr, Mg>(it, h, k) }),
    decreases k
{
    p2_mono(h, f); p2_pos(h);
    lvl_leaf(f, i, k);
    if k <= h { lvl_leaf(h, i, k); assert(meta(up(nodes_of(f) + i, k), f).height == meta(up(nodes_of(h) + i, k), h).height); }
    else { assert(meta(up(nodes_of(f) + i, k), f).height == k); }
    if k == 0 {
    } else {
        let j = (k - 1) as nat;
        fold_is_root::<I, H, Hr, Mg>(it, h, f, i, s, j);
        parity(h, f, i, j);
        let c = up(nodes_of(f) + i, j); let b = up(nodes_of(h) + i, j);
        let x = s[j as int];
        assert(par(c) == up(nodes_of(f) + i, k) && par(b) == up(nodes_of(h) + i, k));
        if j < h { fold_step_in::<I, H, Hr, Mg>(it, h, f, i, s, k); } else {
            assert(x is None);
            if j == h { up_row(h, i, h); assert(p2(0) == 1); assert(b == 0); }
            assert(raise::<I, H, Hr, Mg>(it, h, j) == fold::<I, H, Hr, Mg>(nodes_of(f) + i, it[i], s, f, j));
            assert(Mg::merge_spec(raise::<I, H, Hr, Mg>(it, h, j), None, meta(par(c), f)) == Mg::merge_spec(raise::<I, H, Hr, Mg>(it, h, j), None, MerkleTreeNodeMetadata { depth: 0, height: k as u32 }));
        }
    }
}
proof fn fold_step_in<I, H, Hr: MerkleHasher<Item = I, Hash = H>, Mg: MerkleMerger<Hash = H>>(it: Seq<I>, h: nat, f: nat, i: int, s: Seq<Option<H>>, k: nat)
    requires
        0 <= i < it.len() <= p2(h), h <= f <= 60, 1 <= k <= h, s.len() == f, siblings::<I, H, Hr, Mg>(it, h, i, s),
        f == h || height_only::<I, H, Hr, Mg>(),
        fold::<I, H, Hr, Mg>(nodes_of(f) + i, it[i], s, f, (k - 1) as nat) == th::<I, H, Hr, Mg>(it, h, up(nodes_of(h) + i, (k - 1) as nat)),
        up(nodes_of(f) + i, (k - 1) as nat) % 2 == up(nodes_of(h) + i, (k - 1) as nat) % 2,
        meta(up(nodes_of(f) + i, k), f).height == meta(up(nodes_of(h) + i, k), h).height,
    ensures fold::<I, H, Hr, Mg>(nodes_of(f) + i, it[i], s, f, k) == th::<I, H, Hr, Mg>(it, h, up(nodes_of(h) + i, k)),
{
    let j = (k - 1) as nat;
    let c = up(nodes_of(f) + i, j); let b = up(nodes_of(h) + i, j); let p = par(b);
    up_row(h, i, j); up_row(h, i, k); p2_pos((h - j) as nat); p2_pos((h - k) as nat);
    p2_strict((h - k) as nat, h);
    assert(p2((h - k + 1) as nat) == 2 * p2((h - k) as nat));
    p2_mono((h - j) as nat, h);
    assert(0 <= p < nodes_of(h));
    assert(s[j as int] == th::<I, H, Hr, Mg>(it, h, sib(b)));
    assert(par(c) == up(nodes_of(f) + i, k));
    if b % 2 == 1 { assert(b == 2 * p + 1 && sib(b) == 2 * p + 2); } else { assert(b == 2 * p + 2 && sib(b) == 2 * p + 1); }
}
/// no collisions: a parent determines its children
pub open spec fn injective<H, Mg: MerkleMerger<Hash = H>>() -> bool {
    forall|a: Option<H>, b: Option<H>, c: Option<H>, d: Option<H>, m: MerkleTreeNodeMetadata| #[trigger] Mg::merge_spec(a, b, m) == #[trigger] Mg::merge_spec(c, d, m) ==> a == c && b == d
}
/// what a proof proves: with a collision free merger, whatever folds to the root of a tree of leaves is the hash of the leaf at that very index
pub proof fn proof_is_sound<I, H, Hr: MerkleHasher<Item = I, Hash = H>, Mg: MerkleMerger<Hash = H>>(it: Seq<I>, h: nat, idx: int, item: I, s: Seq<Option<H>>, k: nat)
    requires
        injective::<H, Mg>(), h <= 60, 0 < idx, lvl(idx) == h, s.len() == h, k <= h,
        fold::<I, H, Hr, Mg>(idx, item, s, h, h) == th::<I, H, Hr, Mg>(it, h, 0),
    ensures
        fold::<I, H, Hr, Mg>(idx, item, s, h, k) == th::<I, H, Hr, Mg>(it, h, up(idx, k)),
        k == 0 ==> idx >= nodes_of(h) && idx - nodes_of(h) < it.len() && Hr::hash_spec(it[idx - nodes_of(h)], meta(idx, h)) == Hr::hash_spec(item, meta(idx, h)),
    decreases h - k
{
    p2_pos(h); lvl_up(idx, k); lvl_lo(idx, h); lvl_up(idx, h); 
    if k == h { if up(idx, h) > 0 { assert(lvl(up(idx, h)) >= 1); } } else {
        proof_is_sound::<I, H, Hr, Mg>(it, h, idx, item, s, k + 1);
        let c = up(idx, k); let p = par(c);
        assert(lvl(c) == h - k); assert(c > 0);
        assert(p == up(idx, k + 1));
        lvl_up(idx, k + 1);
        lvl_hi(p, (h - k - 1) as nat);
        p2_mono((h - k) as nat, h);
        assert(0 <= p < nodes_of(h));
        if c % 2 == 1 { assert(c == 2 * p + 1); } else { assert(c == 2 * p + 2); }
    }
}
pub proof fn lvl_lo(i: int, n: nat) requires i >= 0, lvl(i) >= n ensures i >= p2(n) - 1 decreases n
{ p2_pos(n); if n > 0 { lvl_lo(par(i), (n - 1) as nat); } }
pub proof fn lvl_hi(i: int, n: nat) requires i >= 0, lvl(i) <= n ensures i < p2(n + 1) - 1 decreases n
{ p2_pos(n); assert(p2(n + 1) == 2 * p2(n)); if n > 0 && i > 0 { lvl_hi(par(i), (n - 1) as nat); } }
pub open spec fn ht(n: int) -> nat { choose|h: nat| height_for(n, h) }
pub proof fn ht_is(n: int, h: nat) requires height_for(n, h) ensures ht(n) == h { assert(height_for(n, ht(n))); height_unique(n, h, ht(n)); }
pub open spec fn cleared(k: int, a: int, b: int) -> bool { exists|x: int| a <= x < b && #[trigger] anc(k, x) }
/// appending leaves below the same height after clearing their ancestors
pub broadcast proof fn batch_same<I, H, Hr: MerkleHasher<Item = I, Hash = H>, Mg: MerkleMerger<Hash = H>>(n0: Seq<Option<H>>, l0: Seq<(I, Option<H>)>, n1: Seq<Option<H>>, e: Seq<(I, Option<H>)>, h: nat)
    requires
        #[trigger] cache_ok::<I, H, Hr, Mg>(n0, l0, h), n1.len() == n0.len(), height_for((l0.len() + e.len()) as int, h),
        forall|j: int| 0 <= j < e.len() ==> (#[trigger] e[j]).1 is None,
        forall|k: int| 0 <= k < n0.len() ==> #[trigger] n1[k] == (if cleared(k, nodes_of(h) + l0.len(), nodes_of(h) + l0.len() + e.len()) { None } else { n0[k] }),
    ensures #[trigger] cache_ok::<I, H, Hr, Mg>(n1, l0 + e, h)
{
    let l1 = l0 + e; let a = nodes_of(h) + l0.len(); let b = a + e.len();
    p2_pos(h);
    assert forall|i: int| #![trigger n1[i]] 0 <= i < n1.len() && n1[i] is Some implies full::<I, H, Hr, Mg>(n1, l1, h, i) by {
        assert(!cleared(i, a, b)); assert(n0[i] == n1[i]);
        assert forall|j: int| l0.len() <= j < l1.len() implies !#[trigger] anc_self(i, nodes_of(h) + j) by { if anc(i, nodes_of(h) + j) { assert(cleared(i, a, b)); } }
        assert forall|k: int| 0 <= k < n0.len() && (forall|j: int| l0.len() <= j < l1.len() ==> !#[trigger] anc_self(k, nodes_of(h) + j)) implies #[trigger] n1[k] == n0[k] by {
            if cleared(k, a, b) { let x = choose|x: int| a <= x < b && #[trigger] anc(k, x); assert(anc_self(k, nodes_of(h) + (x - nodes_of(h)))); } }
        full_frame::<I, H, Hr, Mg>(n0, l0, n1, l1, h, i);
    }
    assert forall|j: int| #![trigger l1[j]] 0 <= j < l1.len() implies leaf_ok::<I, H, Hr>(l1, h, j) by { if j < l0.len() { assert(l1[j] == l0[j]); assert(leaf_ok::<I, H, Hr>(l0, h, j)); } else { assert(l1[j] == e[j - l0.len()]); } }
}

//@impl MerkleHasher
    spec fn hash_spec(item: Self::Item, m: MerkleTreeNodeMetadata) -> Self::Hash;
//@end
//@impl MerkleMerger
    spec fn merge_spec(l: Option<Self::Hash>, r: Option<Self::Hash>, m: MerkleTreeNodeMetadata) -> Option<Self::Hash>;
//@end
//@impl HeightMode
    spec fn fixed(&self) -> Option<u32>;
//@end
//@impl FixedMode
    open spec fn fixed(&self) -> Option<u32> { Some(self.0) }
//@end
//@impl VariableMode
    open spec fn fixed(&self) -> Option<u32> { None }
//@end
//@fn MerkleHasher::hash
    ensures r == Self::hash_spec(*item, metadata),
//@end
//@fn MerkleMerger::merge
    ensures r == Self::merge_spec(hashes@[0], hashes@[1], metadata),
//@end
//@fn HeightMode::fixed_height
    ensures r == self.fixed(),
//@end
//@known FixedMode::fixed_height VariableMode::fixed_height
//@fn MerkleTreeNodeMetadata::new
    requires lvl(node_index as int) <= tree_height,
    ensures r == meta(node_index as int, tree_height as nat),
//@entry
    proof { p2_vals(); lvl_bound(node_index as int, 2, 64); }
//@end
//@fn MerkleTreeNodeMetadata::depth
    ensures r == self.depth,
//@end
//@fn MerkleTreeNodeMetadata::height
    ensures r == self.height,
//@end
//@fn depth
    requires DEGREE >= 2,
    ensures r == lvld(index as int, DEGREE as int), r <= 64,
//@loop 0
    invariant DEGREE >= 2, depth + lvld(node as int, DEGREE as int) == lvld(index as int, DEGREE as int), lvld(index as int, DEGREE as int) <= 64,
    decreases node
//@body 0
    proof { assert((node - 1) / (DEGREE as int) < node) by (nonlinear_arith) requires node > 0, DEGREE >= 2; }
//@entry
    proof { p2_vals(); lvl_bound(index as int, DEGREE as int, 64); }
//@end
//@fn height
    requires DEGREE >= 2, lvld(index as int, DEGREE as int) <= height_,
    ensures r == height_ - lvld(index as int, DEGREE as int),
//@end
//@fn calculate_height
    ensures height_for(size as int, r as nat), r <= 64, size <= p2(60) ==> r <= 60,
//@entry
    proof { p2_vals(); if size >= 2 { assert forall|e: nat| #[trigger] p2(e) <= (size - 1) && size <= p2(60) implies e < 60 by { if e >= 60 { p2_mono(60, e); } }
        assert forall|e: nat| #[trigger] p2(e) == 1 implies e == 0 by { if e > 0 { p2_pos(e); } } } }
//@end
//@fn calculate_node_count
    requires height < 64,
    ensures r == nodes_of(height as nat),
//@entry
    proof { p2_pos(height as nat); }
//@end
//@fn calculate_parent_index
    requires index > 0,
    ensures r == par(index as int),
//@end
//@fn Tree::clear_dirty_hashes
    requires 0 <= leaf_index <= 2 * old(self).nodes@.len(), leaf_index > 0 ==> par(leaf_index as int) < old(self).nodes@.len(),
    ensures
        final(self).mode == old(self).mode, final(self).variable_height == old(self).variable_height, final(self).leafs == old(self).leafs, final(self).nodes@.len() == old(self).nodes@.len(),
        forall|i: int| 0 <= i < old(self).nodes@.len() ==> #[trigger] final(self).nodes@[i] == (if anc(i, leaf_index as int) { None } else { old(self).nodes@[i] }),
//@loop 0
    invariant
        self.mode == old(self).mode, self.variable_height == old(self).variable_height, self.leafs == old(self).leafs, self.nodes@.len() == old(self).nodes@.len(),
        parent > 0 ==> par(parent as int) < self.nodes@.len(), anc_self(parent as int, leaf_index as int),
        forall|i: int| 0 <= i < old(self).nodes@.len() ==> #[trigger] self.nodes@[i] == (if anc(i, leaf_index as int) && !anc(i, parent as int) { None } else { old(self).nodes@[i] }),
    decreases parent
//@body 0
    proof { anc_par(parent as int, leaf_index as int); if anc(par(parent as int), par(parent as int)) { anc_lt(par(parent as int), par(parent as int)); } }
//@end
//@fn Tree::calculate_hash_if_needed
    requires cache_ok::<Item, Hash, Hasher, Merger>(old(self).nodes@, old(self).leafs@, old(self).variable_height as nat), index <= 2 * old(self).nodes@.len(),
    ensures
        final(self).mode == old(self).mode, final(self).variable_height == old(self).variable_height,
        cache_ok::<Item, Hash, Hasher, Merger>(final(self).nodes@, final(self).leafs@, final(self).variable_height as nat),
        gained::<Item, Hash, Hasher, Merger>(old(self).nodes@, old(self).leafs@, final(self).nodes@, final(self).leafs@, old(self).variable_height as nat),
        full::<Item, Hash, Hasher, Merger>(final(self).nodes@, final(self).leafs@, old(self).variable_height as nat, index as int),
        r == th::<Item, Hash, Hasher, Merger>(items_of(old(self).leafs@), old(self).variable_height as nat, index as int),
    decreases 2 * old(self).nodes@.len() + 1 - index,
//@entry
    broadcast use {full_gained, gained_trans, set_node, set_leaf};
    proof { p2_vals(); p2_mono(self.variable_height as nat, 60); lvl_bound(index as int, 2, self.variable_height as nat); }
//@end
//@impl MerkleProof
    spec fn claimed(&self) -> Option<Self::Hash>;
//@end
//@fn MerkleProof::root_hash
    ensures r is Ok <==> self.claimed() is Some, r is Ok ==> self.claimed() == Some(r->Ok_0),
//@end
//@fn MerkleProof::verify
    ensures r == (self.claimed() == Some(*root_hash)),
//@end
//@impl Proof
    open spec fn claimed(&self) -> Option<Hash> {
        if well_formed(self.index as int, self.peer_indices@, self.peer_hashes@) { fold::<Item, Hash, Hasher, Merger>(self.index as int, self.item, self.peer_hashes@, self.peer_indices@.len(), self.peer_indices@.len()) } else { None }
    }
//@end
//@fn ProofNew::new
    requires index > 0, peer_indices@.len() == peer_hashes@.len(), peer_indices@.len() > 0,
    ensures r.index == index, r.item == item, r.peer_indices == peer_indices, r.peer_hashes == peer_hashes,
//@end
//@fn Proof::root_hash
//@loop 0
    invariant
        self.index > 0, self.peer_indices@.len() == lvl(self.index as int), self.peer_hashes@.len() == self.peer_indices@.len(), self.peer_indices@.len() <= 64,
        index == up(self.index as int, i as nat), lvl(index as int) == self.peer_indices@.len() - i,
        forall|k: int| 0 <= k < i ==> #[trigger] self.peer_indices@[k] == sib(up(self.index as int, k as nat)),
        hash_opt == fold::<Item, Hash, Hasher, Merger>(self.index as int, self.item, self.peer_hashes@, self.peer_indices@.len(), i as nat),
//@body 0
    proof { assert(up(self.index as int, (i + 1) as nat) == par(index as int)); }
//@end
//@fn get_parent_index
    requires index > 0,
    ensures r == par(index as int),
//@end
//@fn get_ordered_siblings
    requires index > 0,
    ensures
        r is Ok <==> sibling_index == sib(index as int),
        r is Ok ==> r->Ok_0@[0] == (if index % 2 == 1 { hash } else { sibling_hash }) && r->Ok_0@[1] == (if index % 2 == 1 { sibling_hash } else { hash }),
//@end
//@fn Tree::get_proof
    requires
        cache_ok::<Item, Hash, Hasher, Merger>(old(self).nodes@, old(self).leafs@, old(self).variable_height as nat), index < old(self).leafs@.len(),
        old(self).mode.fixed() is Some ==> old(self).variable_height <= old(self).mode.fixed()->Some_0 <= 60,
    ensures
        final(self).mode == old(self).mode, final(self).variable_height == old(self).variable_height, items_of(final(self).leafs@) == items_of(old(self).leafs@),
        cache_ok::<Item, Hash, Hasher, Merger>(final(self).nodes@, final(self).leafs@, final(self).variable_height as nat),
        r is Some <==> th::<Item, Hash, Hasher, Merger>(items_of(old(self).leafs@), old(self).variable_height as nat, 0) is Some && tree_height(*old(self)) > 0,
        r is Some ==> proves(r->Some_0, items_of(old(self).leafs@), old(self).variable_height as nat, tree_height(*old(self)), index as int),
//@loop 0
    invariant
        cache_ok::<Item, Hash, Hasher, Merger>(self.nodes@, self.leafs@, self.variable_height as nat), full::<Item, Hash, Hasher, Merger>(self.nodes@, self.leafs@, self.variable_height as nat, 0),
        self.mode == old(self).mode, self.variable_height == old(self).variable_height, items_of(self.leafs@) == items_of(old(self).leafs@),
        th::<Item, Hash, Hasher, Merger>(items_of(self.leafs@), self.variable_height as nat, 0) is Some,
        index < self.leafs@.len(), *item == self.leafs@[index as int].0, height_above == tree_height(*self), 1 <= height_above <= 60, self.variable_height <= height_above,
        index_with_offset == nodes_of(height_above as nat) + index,
        peer_indices@.len() == peer_hashes@.len(), 1 <= peer_indices@.len() <= height_above,
        parent_index_with_offset == up(nodes_of(height_above as nat) + index, peer_indices@.len()),
        peer_indices@.len() < height_above ==> parent_index_with_offset > 0,
        peer_indices@.len() <= self.variable_height ==> parent_index == up(nodes_of(self.variable_height as nat) + index, peer_indices@.len()),
        peer_indices@.len() >= self.variable_height ==> parent_index == 0,
        siblings::<Item, Hash, Hasher, Merger>(items_of(self.leafs@), self.variable_height as nat, index as int, peer_hashes@),
        forall|k: int| 0 <= k < peer_indices@.len() ==> #[trigger] peer_indices@[k] == sib(up(nodes_of(height_above as nat) + index, k as nat)),
    decreases height_above - peer_indices@.len()
//@body 0
    proof {
        p2_vals();
        let k = peer_indices@.len(); let f = height_above as nat; let h = self.variable_height as nat;
        p2_mono(h, f); lvl_leaf(f, index as int, k);
        if k < f { parity(h, f, index as int, k); lvl_leaf(f, index as int, k + 1); }
        up_row(f, index as int, k); p2_mono((f - k) as nat, 60);
        if k < f { up_row(f, index as int, k + 1); p2_pos((f - k) as nat); }
        if k < h {
            lvl_leaf(h, index as int, k); up_row(h, index as int, k); up_row(h, index as int, k + 1); p2_pos((h - k) as nat);
            p2_mono((h - k) as nat, h);
            let b = up(nodes_of(h) + index, k);
            full_at::<Item, Hash, Hasher, Merger>(self.nodes@, self.leafs@, h, b); full_at::<Item, Hash, Hasher, Merger>(self.nodes@, self.leafs@, h, sib(b));
            p2_mono((h - k + 1) as nat, h); assert(p2((h - k + 1) as nat) == 2 * p2((h - k) as nat));
        }
        if k + 1 == h { up_row(h, index as int, h); assert(p2(0) == 1); }
    }
//@entry
    broadcast use {full_gained, gained_trans, full_leaf};
    proof {
        p2_vals();
        let f = tree_height(*self); let h = self.variable_height as nat;
        p2_mono(h, f); p2_mono(f, 60); p2_pos(f); p2_pos(h);
        assert(items_of(self.leafs@)[index as int] == self.leafs@[index as int].0);
        lvl_leaf(f, index as int, 0); if f > 0 { lvl_leaf(f, index as int, 1); parity(h, f, index as int, 0); up_row(f, index as int, 1); }
        lvl_leaf(h, index as int, 0); if h > 0 { lvl_leaf(h, index as int, 1); up_row(h, index as int, 1); }
        if h == 1 { assert(p2(0) == 1); }
        if f > 0 { lvl_leaf(f, index as int, 0); }
    }
//@end
//@impl MerkleTree
    spec fn wf(&self) -> bool;
    spec fn leaves(&self) -> Seq<Self::Item>;
    /// the root as a function of the leaves (and the mode) alone
    spec fn root_of(&self) -> Option<Self::Hash>;
    spec fn tall(&self) -> nat;
    spec fn grown(&self, old: &Self) -> bool;
//@end
//@impl VariableTree
    open spec fn wf(&self) -> bool { cache_ok::<Item, Hash, Hasher, Merger>(self.nodes@, self.leafs@, self.variable_height as nat) }
    open spec fn leaves(&self) -> Seq<Item> { items_of(self.leafs@) }
    open spec fn root_of(&self) -> Option<Hash> { th::<Item, Hash, Hasher, Merger>(self.leaves(), ht(self.leaves().len() as int), 0) }
    open spec fn tall(&self) -> nat { ht(self.leaves().len() as int) }
    open spec fn grown(&self, old: &Self) -> bool { true }
//@end
//@impl FixedTree
    open spec fn wf(&self) -> bool { cache_ok::<Item, Hash, Hasher, Merger>(self.nodes@, self.leafs@, self.variable_height as nat) }
    open spec fn leaves(&self) -> Seq<Item> { items_of(self.leafs@) }
    open spec fn root_of(&self) -> Option<Hash> { raise::<Item, Hash, Hasher, Merger>(self.leaves(), ht(self.leaves().len() as int), self.mode.0 as nat) }
    open spec fn tall(&self) -> nat { self.mode.0 as nat }
    open spec fn grown(&self, old: &Self) -> bool { self.mode == old.mode }
//@end
//@fn MerkleTree::height
    requires self.wf(),
    ensures r == self.tall(),
//@end
//@fn MerkleTree::count
    requires self.wf(),
    ensures r == self.leaves().len(),
//@end
//@fn MerkleTree::root
    requires old(self).wf(), ht(old(self).leaves().len() as int) <= old(self).tall(),
    ensures r == old(self).root_of(), final(self).wf(), final(self).leaves() == old(self).leaves(), final(self).grown(old(self)),
//@end
//@fn MerkleTree::add
    requires old(self).wf(), old(self).leaves().len() + 1 <= p2(60),
    ensures final(self).wf(), final(self).leaves() =~= old(self).leaves().push(item), final(self).grown(old(self)),
//@end
//@fn MerkleTree::add_batch
    requires old(self).wf(), old(self).leaves().len() + items@.len() <= p2(60),
    ensures final(self).wf(), final(self).leaves() =~= old(self).leaves() + items@, final(self).grown(old(self)),
//@end
//@known VariableTree::count VariableTree::add_batch FixedTree::height FixedTree::count FixedTree::add_batch
//@fn VariableTree::height
//@entry
    proof { ht_is(self.leafs@.len() as int, self.variable_height as nat); }
//@end
//@fn VariableTree::root
//@entry
    proof { ht_is(self.leafs@.len() as int, self.variable_height as nat); }
//@end
//@fn FixedTree::root
//@loop 0
    invariant
        self.variable_height < fixed_height == self.mode.0, cache_ok::<Item, Hash, Hasher, Merger>(self.nodes@, self.leafs@, self.variable_height as nat), items_of(self.leafs@) == items_of(old(self).leafs@), self.mode == old(self).mode,
        ht(self.leafs@.len() as int) == self.variable_height,
        hash == raise::<Item, Hash, Hasher, Merger>(items_of(self.leafs@), self.variable_height as nat, (self.variable_height + vx_it0.index@) as nat),
//@body 0
    proof { assert(lvl(0) == 0); }
//@entry
    proof { ht_is(self.leafs@.len() as int, self.variable_height as nat); assert(lvl(0) == 0); }
//@end
//@fn add_batch
    requires cache_ok::<Item, Hash, Hasher, Merger>(old(tree).nodes@, old(tree).leafs@, old(tree).variable_height as nat), old(tree).leafs@.len() + items@.len() <= p2(60),
    ensures
        cache_ok::<Item, Hash, Hasher, Merger>(final(tree).nodes@, final(tree).leafs@, final(tree).variable_height as nat), final(tree).mode == old(tree).mode,
        items_of(final(tree).leafs@) =~= items_of(old(tree).leafs@) + items@,
//@loop 0
    invariant
        vx_i0 <= vx_s0@.len(), vx_s0@ == items@, vx_a0@.len() == vx_i0,
        forall|j: int| 0 <= j < vx_i0 ==> #[trigger] vx_a0@[j] == (items@[j], None::<Hash>),
    decreases vx_s0@.len() - vx_i0
//@loop 1
    invariant
        vx_i1 <= tree.leafs@.len(), tree.leafs@.len() == old(tree).leafs@.len(), tree.mode == old(tree).mode, items_of(tree.leafs@) =~= items_of(old(tree).leafs@),
        tree.variable_height == new_height, tree.nodes@.len() == nodes_of(new_height as nat), forall|k: int| 0 <= k < tree.nodes@.len() ==> #[trigger] tree.nodes@[k] is None,
        forall|j: int| 0 <= j < vx_i1 ==> (#[trigger] tree.leafs@[j]).1 is None,
    decreases tree.leafs@.len() - vx_i1
//@loop 2
    invariant
        start == nodes_of(new_height as nat) + old(tree).leafs@.len(), new_leaf_count == old(tree).leafs@.len() + leaves@.len(), new_leaf_count <= p2(new_height as nat), new_height <= 60,
        tree.leafs == old(tree).leafs, tree.mode == old(tree).mode, tree.variable_height == new_height, tree.nodes@.len() == nodes_of(new_height as nat), old(tree).nodes@.len() == tree.nodes@.len(),
        forall|k: int| 0 <= k < tree.nodes@.len() ==> #[trigger] tree.nodes@[k] == (if cleared(k, start as int, i as int) { None } else { old(tree).nodes@[k] }),
//@body 2
    proof {
        p2_vals(); p2_mono(new_height as nat, 60);
        assert forall|k: int| #[trigger] cleared(k, start as int, i + 1) == (cleared(k, start as int, i as int) || anc(k, i as int)) by {
            if cleared(k, start as int, i + 1) { let x = choose|x: int| start <= x < i + 1 && #[trigger] anc(k, x); } }
    }
//@entry
    broadcast use batch_same;
    proof { p2_vals(); }
//@end
//@fn MerklePathNode::has_left_child
    ensures r is Ok <==> valid_node(*self), r is Ok ==> r->Ok_0 == (self.left is Some),
//@end
//@fn MerklePath::to_proof
    ensures
        r is Ok <==> 1 <= self.0@.len() < 64 && (forall|k: int| 0 <= k < self.0@.len() ==> valid_node(#[trigger] self.0@[k])),
        r is Ok ==> follows(r->Ok_0, self.0@, item),
//@loop 0
    invariant
        vx_i0 <= vx_s0@.len(), vx_s0@ == self.0@, 1 <= vx_s0@.len() < 64,
        forall|k: int| vx_s0@.len() - vx_i0 <= k < vx_s0@.len() ==> valid_node(#[trigger] vx_s0@[k]),
        row_index == prow(vx_s0@, vx_s0@.len() - vx_i0), peer_indices@.len() == vx_i0, peer_hashes@.len() == vx_i0,
        forall|t: int| 0 <= t < vx_i0 ==> #[trigger] peer_indices@[t] == p2((vx_i0 - t) as nat) - 1 + flip(prow(vx_s0@, vx_s0@.len() - vx_i0 + t)),
        forall|t: int| 0 <= t < vx_i0 ==> #[trigger] peer_hashes@[t] == Some(node_hash(vx_s0@[vx_s0@.len() - vx_i0 + t])),
        vx_i0 > 0 ==> node_is_left == (vx_s0@[vx_s0@.len() - vx_i0].left is Some) && peer_index == peer_indices@[0],
    decreases vx_s0@.len() - vx_i0
//@body 0
    proof { p2_vals(); prow_bound(vx_s0@, vx_s0@.len() - vx_i0); prow_bound(vx_s0@, vx_s0@.len() - vx_i0 - 1); p2_mono((vx_i0 + 1) as nat, 63); p2_mono(vx_i0 as nat, 62); p2_pos((vx_i0 + 1) as nat); p2_pos(vx_i0 as nat); }
//@entry
    broadcast use path_up;
    proof { p2_vals(); if 1 <= self.0@.len() < 64 { path_geometry(self.0@); p2_mono(self.0@.len(), 63); } }
//@end
//@fn TreeDefault::default
    ensures r.variable_height == 0, r.leafs@.len() == 0, r.nodes@.len() == 0,
//@end
//@fn FixedNew::new
    ensures cache_ok::<Item, Hash, Hasher, Merger>(r.nodes@, r.leafs@, r.variable_height as nat), items_of(r.leafs@).len() == 0, r.mode.0 == height,
//@end
//@fn VariableNew::new
    ensures cache_ok::<Item, Hash, Hasher, Merger>(r.nodes@, r.leafs@, r.variable_height as nat), items_of(r.leafs@).len() == 0,
//@end
//@rw option_map
//@rw iter
//@sub . clone ( ) =>> . vx_clone ( )
//@emit merkle/src/metadata.rs struct:MerkleTreeNodeMetadata
//@emit merkle/src/metadata.rs impl:=implMerkleTreeNodeMetadata
//@emit merkle/src/metadata.rs fn:depth
//@emit merkle/src/metadata.rs fn:height
//@emit merkle/src/hasher.rs trait:MerkleHasher
//@emit merkle/src/merger.rs trait:MerkleMerger
//@emit merkle/src/tree_impl.rs fn:calculate_height
//@emit merkle/src/tree_impl.rs fn:calculate_node_count
//@emit merkle/src/tree_impl.rs fn:calculate_parent_index
//@emit merkle/src/tree_impl.rs trait:HeightMode
#[derive(Default)]
//@emit merkle/src/tree_impl.rs struct:FixedHeightMode
#[derive(Default)]
//@emit merkle/src/tree_impl.rs struct:VariableHeightMode
//@emit merkle/src/tree_impl.rs impl:HeightModeforFixedHeightMode as=FixedMode
//@emit merkle/src/tree_impl.rs impl:HeightModeforVariableHeightMode as=VariableMode
#[verifier::reject_recursive_types(Item)] #[verifier::reject_recursive_types(Hash)] #[verifier::reject_recursive_types(Hasher)] #[verifier::reject_recursive_types(Merger)] #[verifier::reject_recursive_types(Mode)]
//@emit merkle/src/tree_impl.rs struct:MinaMerkleTree
//@emit merkle/src/tree_impl.rs impl:impl<Item,Hash,Hasher,Merger,Mode>MinaMerkleTree<Item,Hash,Hasher,Merger,Mode>where as=Tree only=clear_dirty_hashes,calculate_hash_if_needed,get_proof
//@emit merkle/src/tree_impl.rs impl:Defaultfor as=TreeDefault
//@emit merkle/src/tree_impl.rs impl:impl<Item,Hash,Hasher,Merger>MinaMerkleTree<Item,Hash,Hasher,Merger,FixedHeightMode> as=FixedNew
//@emit merkle/src/tree_impl.rs impl:impl<Item,Hash,Hasher,Merger>MinaMerkleTree<Item,Hash,Hasher,Merger,VariableHeightMode> as=VariableNew
//@sub Default :: default ( ) =>> PhantomData
//@sub type Error : Error ; =>> type Error ;
//@sub & hash == root_hash =>> vx_eqh ( & hash , root_hash )
//@emit merkle/src/proof.rs trait:MerkleProof
//@emit merkle/src/proof.rs enum:MerkleProofError
#[verifier::reject_recursive_types(Item)] #[verifier::reject_recursive_types(Hash)] #[verifier::reject_recursive_types(Hasher)] #[verifier::reject_recursive_types(Merger)]
//@emit merkle/src/proof.rs struct:DefaultMerkleProof
//@emit merkle/src/proof.rs impl:impl<Item,Hash,Hasher,Merger>DefaultMerkleProof as=ProofNew
//@emit merkle/src/proof.rs impl:MerkleProofforDefaultMerkleProof as=Proof
//@emit merkle/src/proof.rs fn:get_parent_index
//@emit merkle/src/proof.rs fn:get_ordered_siblings
//@sub impl IntoIterator < Item = Item > =>> Vec < Item >
//@sub impl IntoIterator < Item = Self :: Item > =>> Vec < Self :: Item >
//@emit merkle/src/tree_impl.rs fn:add_batch
//@emit merkle/src/tree.rs trait:MerkleTree
//@emit merkle/src/tree_impl.rs impl:MerkleTreeforMinaMerkleTree<Item,Hash,Hasher,Merger,VariableHeightMode> as=VariableTree
//@emit merkle/src/tree_impl.rs impl:MerkleTreeforMinaMerkleTree<Item,Hash,Hasher,Merger,FixedHeightMode> as=FixedTree
//@sub anyhow :: Result =>> AnyRes
//@sub anyhow :: Error :: msg =>> vx_any
#[verifier::external_body] pub struct AnyErr {}
pub type AnyRes<T> = Result<T, AnyErr>;
#[verifier::external_body] pub fn vx_any(s: &str) -> AnyErr { unimplemented!() }
#[derive(Clone, Copy, Debug)] pub struct Fp { pub limbs: [u64; 4] }
#[verifier::external] impl PartialEq for Fp { fn eq(&self, o: &Fp) -> bool { self.limbs == o.limbs } }
#[derive(Clone, Copy)] pub struct FpJson(pub Fp);
//@emit merkle/src/path.rs struct:MerklePathNode
//@emit merkle/src/path.rs impl:=implMerklePathNode
//@emit merkle/src/path.rs struct:MerklePath
//@emit merkle/src/path.rs impl:=implMerklePath
pub open spec fn valid_node(n: MerklePathNode) -> bool { n.left is Some <==> n.right is None }
pub open spec fn node_hash(n: MerklePathNode) -> Fp { if n.left is Some { n.left->Some_0.0 } else { n.right->Some_0.0 } }
/// position in its row of the ancestor on level k of the path (0 = the leaf itself)
pub open spec fn prow(s: Seq<MerklePathNode>, k: int) -> int decreases s.len() - k { if k >= s.len() || k < 0 { 0 } else { 2 * prow(s, k + 1) + (if s[k].left is Some { 0int } else { 1 }) } }
pub open spec fn flip(r: int) -> int { if r % 2 == 0 { r + 1 } else { r - 1 } }
pub proof fn prow_bound(s: Seq<MerklePathNode>, k: int) requires 0 <= k <= s.len() ensures 0 <= prow(s, k) < p2((s.len() - k) as nat) decreases s.len() - k { if k < s.len() { prow_bound(s, k + 1); } }
pub broadcast proof fn path_up(s: Seq<MerklePathNode>, k: nat)
    requires k <= s.len()
    ensures #[trigger] up(nodes_of(s.len()) + prow(s, 0), k) == p2((s.len() - k) as nat) - 1 + prow(s, k as int)
    decreases k
{ p2_pos((s.len() - k) as nat); if k > 0 { path_up(s, (k - 1) as nat); prow_bound(s, (k - 1) as int); assert(p2((s.len() - k + 1) as nat) == 2 * p2((s.len() - k) as nat)); } }
pub proof fn path_geometry(s: Seq<MerklePathNode>)
    requires 1 <= s.len()
    ensures lvl(nodes_of(s.len()) + prow(s, 0)) == s.len(), nodes_of(s.len()) + prow(s, 0) > 0, 0 <= prow(s, 0) < p2(s.len()),
        forall|k: nat| k < s.len() ==> p2((s.len() - k) as nat) % 2 == 0 && #[trigger] prow(s, k as int) >= 0
{
    prow_bound(s, 0); p2_pos(s.len()); lvl_exact(nodes_of(s.len()) + prow(s, 0), s.len());
    assert forall|k: nat| k < s.len() implies p2((s.len() - k) as nat) % 2 == 0 && #[trigger] prow(s, k as int) >= 0 by { p2_pos((s.len() - k) as nat); prow_bound(s, k as int); }
}
pub open spec fn follows<Item, Hasher: MerkleHasher<Item = Item, Hash = Fp>, Merger: MerkleMerger<Hash = Fp>>(p: DefaultMerkleProof<Item, Fp, Hasher, Merger>, s: Seq<MerklePathNode>, item: Item) -> bool {
    &&& p.item == item && p.index == nodes_of(s.len()) + prow(s, 0) && p.peer_hashes@.len() == s.len()
    &&& well_formed(p.index as int, p.peer_indices@, p.peer_hashes@)
    &&& forall|k: int| 0 <= k < s.len() ==> #[trigger] p.peer_hashes@[k] == Some(node_hash(s[k]))
}
pub open spec fn tree_height<Item, Hash, Hasher: MerkleHasher<Item = Item, Hash = Hash>, Merger: MerkleMerger<Hash = Hash>, Mode: HeightMode>(t: MinaMerkleTree<Item, Hash, Hasher, Merger, Mode>) -> nat
    where Hash: Clone + PartialEq + std::fmt::Debug, Item: Clone
{ match t.mode.fixed() { Some(f) => f as nat, None => t.variable_height as nat } }
pub open spec fn proves<Item, Hash, Hasher: MerkleHasher<Item = Item, Hash = Hash>, Merger: MerkleMerger<Hash = Hash>>(p: DefaultMerkleProof<Item, Hash, Hasher, Merger>, it: Seq<Item>, h: nat, f: nat, i: int) -> bool
    where Hash: Clone + PartialEq
{
    p.index == nodes_of(f) + i && p.item == it[i] && well_formed(p.index as int, p.peer_indices@, p.peer_hashes@) && p.peer_hashes@.len() == f && siblings::<Item, Hash, Hasher, Merger>(it, h, i, p.peer_hashes@)
}
/// every proof the tree hands out is accepted for its root
pub proof fn proof_verifies<Item, Hash, Hasher: MerkleHasher<Item = Item, Hash = Hash>, Merger: MerkleMerger<Hash = Hash>>(p: DefaultMerkleProof<Item, Hash, Hasher, Merger>, it: Seq<Item>, h: nat, f: nat, i: int)
    where Hash: Clone + PartialEq + std::fmt::Debug
    requires proves(p, it, h, f, i), 0 <= i < it.len() <= p2(h), h <= f <= 60, f == h || height_only::<Item, Hash, Hasher, Merger>(),
    ensures p.claimed() == raise::<Item, Hash, Hasher, Merger>(it, h, f)
{ fold_is_root::<Item, Hash, Hasher, Merger>(it, h, f, i, p.peer_hashes@, f); if f == h { up_row(h, i, h); assert(p2(0) == 1); } }
} // verus!
fn main() {}
