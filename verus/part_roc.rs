// ------------------------------------------------------------ std, assumed
/// consuming iteration hands out the elements in order
#[verifier::external_body]
pub fn vx_nth<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
pub trait VxLe<const N: usize>: Sized { spec fn int(self) -> int; fn vx_le(self) -> (r: [u8; N]) ensures unle(r@) == self.int(); }
impl VxLe<4> for u32 { open spec fn int(self) -> int { self as int } #[verifier::external_body] fn vx_le(self) -> (r: [u8; 4]) { unimplemented!() } }
impl VxLe<8> for u64 { open spec fn int(self) -> int { self as int } #[verifier::external_body] fn vx_le(self) -> (r: [u8; 8]) { unimplemented!() } }
#[derive(Debug)]
pub struct AnyErr;
#[verifier::external_body]
pub fn vx_any() -> (r: AnyErr) { unimplemented!() }
impl From<FieldError> for AnyErr { #[verifier::external_body] fn from(e: FieldError) -> (r: AnyErr) { unimplemented!() } }
pub type AnyResult<T> = core::result::Result<T, AnyErr>;
// ------------------------------------------------------------ mina_hasher::ROInput, assumed
#[verifier::external_body]
pub struct ROInput { _x: u8 }
impl ROInput {
    pub uninterp spec fn fields(&self) -> Seq<Fp>;
    pub uninterp spec fn bits(&self) -> Seq<bool>;
    #[verifier::external_body] pub fn new() -> (r: ROInput) ensures r.fields() == Seq::<Fp>::empty(), r.bits() == Seq::<bool>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn append_field(self, f: Fp) -> (r: ROInput) ensures r.fields() == self.fields().push(f), r.bits() == self.bits() { unimplemented!() }
}

impl VxInto<ROInput> for ChunkedROInput {
    open spec fn into_ok(self) -> bool { self.view().fits() }
    open spec fn into_is(self, r: ROInput) -> bool { r.fields() == all_fields(self.view()) && r.bits() == Seq::<bool>::empty() }
    fn vx_into(self) -> (r: ROInput) { ROInput::from(self) }
}
// ------------------------------------------------------------ the packed form
impl ChunkedROInput {
    pub open spec fn view(self) -> Chunk { Chunk { fields: self.fields@, packed: self.packed@ } }
}
pub proof fn pack_step(sum: int, acc: nat, s: Seq<(Fp, u32)>, k: int)
    requires 0 <= k < s.len()
    ensures ({ let (f, n) = (s[k].0.val(), s[k].1 as nat); pack(sum, acc, s.skip(k)) == if acc + n < 255 { pack(sum * two(n) + f, acc + n, s.skip(k + 1)) } else { seq![fp(sum)] + pack(f, n, s.skip(k + 1)) } })
{ assert(s.skip(k).skip(1) =~= s.skip(k + 1)); assert(s.skip(k)[0] == s[k]); }
pub proof fn bits_push(s: Seq<bool>, b: bool) ensures bits(s.push(b)).packed == bits(s).packed.push((fp(if b { 1 } else { 0 }), 1u32)), none().plus(bits(s)) == bits(s), bits(Seq::empty()) == none()
{ assert(bits(s.push(b)).packed =~= bits(s).packed.push((fp(if b { 1 } else { 0 }), 1u32))); assert(none().plus(bits(s)).packed =~= bits(s).packed); assert(bits(Seq::<bool>::empty()).packed =~= none().packed); assert(none().plus(bits(s)).fields =~= none().fields); }
pub broadcast proof fn take_all<T>(s: Seq<T>, n: int) requires 0 <= n <= s.len() ensures n == s.len() ==> #[trigger] s.take(n) == s, n == 0 ==> s.take(n) == Seq::<T>::empty() { if n == s.len() { assert(s.take(n) =~= s); } if n == 0 { assert(s.take(n) =~= Seq::<T>::empty()); } }
pub proof fn take_more<T>(s: Seq<T>, n: int) requires 0 <= n < s.len() ensures s.take(n + 1) == s.take(n).push(s[n]) { assert(s.take(n + 1) =~= s.take(n).push(s[n])); }
pub broadcast proof fn plus_fld(c: Chunk, f: Fp) ensures (#[trigger] c.plus(fld(f))) == (Chunk { fields: c.fields.push(f), packed: c.packed }) { assert(c.plus(fld(f)).fields =~= c.fields.push(f)); assert(c.plus(fld(f)).packed =~= c.packed); }
pub broadcast proof fn plus_pk(c: Chunk, f: Fp, w: u32) ensures (#[trigger] c.plus(pk(f, w))) == (Chunk { fields: c.fields, packed: c.packed.push((f, w)) }) { assert(c.plus(pk(f, w)).packed =~= c.packed.push((f, w))); assert(c.plus(pk(f, w)).fields =~= c.fields); }
pub proof fn one_bit(b: bool) ensures bits_int(seq![b]) == (if b { 1int } else { 0 }) { reveal_with_fuel(bits_int, 3); assert(seq![b].skip(1).len() == 0); }

pub proof fn more_bits(c: Chunk, s: Seq<bool>, b: bool) ensures c.plus(bits(s)).plus(bit(b)) == c.plus(bits(s.push(b)))
{ let (x, y) = (c.plus(bits(s)).plus(bit(b)), c.plus(bits(s.push(b)))); assert(x.fields =~= y.fields); assert(x.packed =~= y.packed); }
pub proof fn no_bits(c: Chunk) ensures c.plus(bits(Seq::empty())) == c
{ let x = c.plus(bits(Seq::empty())); assert(x.fields =~= c.fields); assert(x.packed =~= c.packed); }
pub broadcast proof fn bytes_num(s: Seq<u8>) ensures bits_int(#[trigger] bytes_bits(s)) == unle(s), bytes_bits(s).len() == 8 * s.len(), 0 <= unle(s) < two(8 * s.len()) { bytes_int(s); bits_bound(bytes_bits(s)); }
pub proof fn small_mod(x: int, m: int) requires 0 <= x < m ensures x % m == x { vstd::arithmetic::div_mod::lemma_small_mod(x as nat, m as nat); }
pub proof fn into_step(c: Chunk, k: int, fields: Seq<Fp>, sum: Fp, acc: nat)
    requires 0 <= k < c.packed.len(), c.fits(), acc <= 254, 0 <= sum.val() < two(acc), fields + pack(sum.val(), acc, c.packed.skip(k)) == all_fields(c)
    ensures ({ let (f, n) = (c.packed[k].0, c.packed[k].1 as nat);
        if acc + n < 255 { let v = sum.val() * two(n) + f.val(); let h = sum.val() * two(n); fields + pack(v, acc + n, c.packed.skip(k + 1)) == all_fields(c) && 0 <= v < two(acc + n) && two(acc + n) <= two(254) && v < p() && v % p() == v && 0 <= h < p() && fp(h).val() == h && fp(v).val() == v }
        else { fields.push(sum) + pack(f.val(), n, c.packed.skip(k + 1)) == all_fields(c) && n <= 254 && 0 <= f.val() < two(n) } })
{
    fp_axioms(); two_vals(); pack_step(sum.val(), acc, c.packed, k);
    let (f, n) = (c.packed[k].0, c.packed[k].1 as nat);
    two_pos(n); two_pos(acc);
    if acc + n < 255 {
        two_sum(acc, n); two_mono(acc + n, 254);
        let (x, t, g) = (sum.val(), two(n), f.val());
        assert(0 <= x * t + g < two(acc + n) && 0 <= x * t) by (nonlinear_arith) requires 0 <= x < two(acc), 0 <= g < t, two(acc + n) == two(acc) * t, t >= 1;
        small_mod(x * t + g, p());
    } else { assert(fields + (seq![fp(sum.val())] + pack(f.val(), n, c.packed.skip(k + 1))) =~= fields.push(sum) + pack(f.val(), n, c.packed.skip(k + 1))); }
}
//@fn new
//@ret r
    ensures r.view() == none(),
//@end
//@fn append
//@ret r
    ensures r.view() == self.view().plus(other.view()),
//@loop 0
    invariant vx_i0 <= vx_s0@.len(), self_.fields@ == self.fields@ + vx_s0@.take(vx_i0 as int), self_.packed@ == self.packed@,
    decreases vx_s0@.len() - vx_i0
//@loop 1
    invariant vx_i1 <= vx_s1@.len(), self_.fields@ == self.view().plus(other.view()).fields, self_.packed@ == self.packed@ + vx_s1@.take(vx_i1 as int),
    decreases vx_s1@.len() - vx_i1
//@entry
    broadcast use take_all;
//@end
//@fn append_chunked
//@ret r
    requires other.ok(),
    ensures r.view() == self.view().plus(other.chunk()), other.chunk().fits(),
//@end
//@fn append_field
//@ret r
    ensures r.view() == self.view().plus(fld(f)),
//@entry
    broadcast use {plus_fld, plus_pk};
//@end
//@fn append_packed
//@ret r
    ensures r.view() == self.view().plus(pk(f, max_bits)),
//@entry
    broadcast use {plus_fld, plus_pk};
//@end
//@fn append_bytes
//@ret r
    ensures r.view() == self.view().plus(bits(bytes_bits(bytes@))),
//@loop 0
    invariant vx_i0 <= vx_s0@.len(), vx_s0@ == bytes_bits(bytes@), self_.view() == self.view().plus(bits(vx_s0@.take(vx_i0 as int))),
    decreases vx_s0@.len() - vx_i0
//@body 0
    proof { take_more(vx_s0@, vx_i0 as int); more_bits(self.view(), vx_s0@.take(vx_i0 as int), vx_s0@[vx_i0 as int]); }
//@entry
    broadcast use take_all;
    proof { no_bits(self.view()); }
//@end
//@fn append_bool
//@ret r
    ensures r.view() == self.view().plus(bit(b)),
//@entry
    proof { one_bit(b); two_vals(); assert(Seq::<bool>::empty().push(b) =~= seq![b]); }
//@end
//@fn append_u32
//@ret r
    ensures r.view() == self.view().plus(num(x as int, 32)),
//@entry
    broadcast use bytes_num;
    proof { two_vals(); two_mono(32, 254); }
//@end
//@fn append_u64
//@ret r
    ensures r.view() == self.view().plus(num(x as int, 64)),
//@entry
    broadcast use bytes_num;
    proof { two_vals(); two_mono(64, 254); }
//@end
//@fn shl
//@ret r
    requires n <= 254, f.val() * two(n as nat) < p(),
    ensures r == fp(f.val() * two(n as nat)),
//@entry
    proof { fp_axioms(); two_vals(); two_pos(n as nat); assert(f.val() * 1 == f.val()); assert(two(0) == 1);
        assert(f.val() * two(n as nat) >= 0) by (nonlinear_arith) requires f.val() >= 0, two(n as nat) >= 1;
        small_mod(f.val() * two(n as nat), two(256)); }
//@end
//@fn into_fields
//@ret r
    requires self.view().fits(),
    ensures r@ == all_fields(self.view()),
//@loop 0
    invariant
        vx_i0 <= vx_s0@.len(), vx_s0@ == self.packed@, self.view().fits(), size_in_bits == 255,
        acc_bits <= 254, 0 <= sum.val() < two(acc_bits as nat),
        fields@ + pack(sum.val(), acc_bits as nat, vx_s0@.skip(vx_i0 as int)) == all_fields(self.view()),
    decreases vx_s0@.len() - vx_i0
//@body 0
    proof { into_step(self.view(), vx_i0 as int, fields@, sum, acc_bits as nat); }
//@entry
    proof { fp_axioms(); two_vals(); assert(two(0) == 1); assert(self.packed@.skip(0) =~= self.packed@); }
//@end
//@fn bits_to_fp
//@ret r
    ensures bits@.len() <= 255 && bits_int(bits@) < p() <==> r is Ok,
        r is Ok ==> r->Ok_0 == fp(bits_int(bits@)),
//@entry
    broadcast use take_all;
    proof { if bits@.len() <= 255 { bits_padded(bits@, (255 - bits@.len()) as nat); } }
//@end
//@fn bits_to_fp_unsafe
//@ret r
    requires bits@.len() <= 255, bits_int(bits@) < p(),
    ensures r == fp(bits_int(bits@)),
//@end
//@fn ToChunkedROInput::to_chunked_roinput
//@ret r
    requires self.ok(),
    ensures r.view() == self.chunk(), self.chunk().fits(),
//@end
//@fn roinput
//@ret r
    requires self.ok(),
    ensures r.fields() == all_fields(self.chunk()), r.bits() == Seq::<bool>::empty(),
//@end
//@fn from
//@ret r
    requires i.view().fits(),
    ensures r.fields() == all_fields(i.view()), r.bits() == Seq::<bool>::empty(),
//@loop 0
    invariant vx_i0 <= vx_s0@.len(), roi.fields() == vx_s0@.take(vx_i0 as int), roi.bits() == Seq::<bool>::empty(), vx_s0@ == all_fields(i.view()),
    decreases vx_s0@.len() - vx_i0
//@body 0
    proof { take_more(vx_s0@, vx_i0 as int); }
//@entry
    broadcast use take_all;
//@end
//@impl ToChunkedROInput
    /// the input this value stands for
    spec fn chunk(&self) -> Chunk;
    /// what the value must satisfy for its input to be defined (field elements below the order)
    spec fn ok(&self) -> bool;
//@end
//@sub Default :: default ( ) =>> ChunkedROInput { fields : vec ! [ ] , packed : vec ! [ ] }
//@sub . to_le_bytes ( ) =>> . vx_le ( )
//@sub . as_bits :: < Lsb0 > ( ) . to_bitvec ( ) =>> . vx_bits ( )
//@sub . view_bits :: < Lsb0 > ( ) . to_bitvec ( ) =>> . vx_bits ( )
//@sub BitVec :: with_capacity =>> Vec :: < bool > :: with_capacity
//@sub BitVec :: new =>> Vec :: < bool > :: new
//@sub BitVec < u8 > =>> Vec < bool >
//@sub BitVec < u8 , Lsb0 > =>> Vec < bool >
//@sub anyhow :: Result =>> AnyResult
//@sub . resize ( =>> . vx_resize (
//@sub . into_vec ( ) =>> . vx_bytes ( )
//@sub . into ( ) =>> . vx_into ( )
//@rw extend
//@rw owned_iter
//@rw for_all
//@emit proof-systems-shim/src/roinput.rs struct:ChunkedROInput
//@emit proof-systems-shim/src/roinput.rs trait:ToChunkedROInput
//@emit proof-systems-shim/src/roinput.rs impl:=implChunkedROInput
//@sub impl From < ChunkedROInput > for ROInput =>> impl ROInput
//@emit proof-systems-shim/src/roinput.rs impl:From<ChunkedROInput>forROInput
