// ------------------------------------------------------------ powers of two
pub open spec fn two(n: nat) -> int decreases n { if n == 0 { 1 } else { 2 * two((n - 1) as nat) } }
pub proof fn two_pos(n: nat) ensures two(n) >= 1 decreases n { if n > 0 { two_pos((n - 1) as nat); } }
pub proof fn two_sum(a: nat, b: nat) ensures two(a + b) == two(a) * two(b) decreases b {
    if b > 0 { two_sum(a, (b - 1) as nat); assert(two(a + b) == 2 * two((a + b - 1) as nat)); assert(two(a) * (2 * two((b - 1) as nat)) == 2 * (two(a) * two((b - 1) as nat))) by (nonlinear_arith); }
    else { assert(two(a) * 1 == two(a)); }
}
pub proof fn two_mono(a: nat, b: nat) requires a <= b ensures two(a) <= two(b) decreases b - a { two_sum(a, (b - a) as nat); two_pos(a); two_pos((b - a) as nat); assert(two(a) * two((b - a) as nat) >= two(a)) by (nonlinear_arith) requires two(a) >= 1, two((b - a) as nat) >= 1; }
// ------------------------------------------------------------ the base field (ark_ff / mina_curves, assumed)
/// the order of the Pallas base field
pub open spec fn p() -> int { two(254) + 45560315531419706090280762371685220353 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Fp { _x: [u64; 4] }
impl Fp {
    pub uninterp spec fn val(&self) -> int;
    #[verifier::external_body] pub fn zero() -> (r: Fp) ensures r == fp(0) { unimplemented!() }
    #[verifier::external_body] pub fn one() -> (r: Fp) ensures r == fp(1) { unimplemented!() }
    #[verifier::external_body] pub fn size_in_bits() -> (r: usize) ensures r == 255 { unimplemented!() }
    /// little-endian, an error unless below the order
    #[verifier::external_body] pub fn from_bytes(b: &[u8]) -> (r: core::result::Result<Fp, FieldError>)
        ensures r is Ok <==> b@.len() == 32 && unle(b@) < p(), r is Ok ==> r->Ok_0 == fp(unle(b@)) { unimplemented!() }
}
#[derive(Debug)]
pub struct FieldError;
/// the element an integer stands for
pub uninterp spec fn fp(n: int) -> Fp;
pub axiom fn fp_axioms()
    ensures
        forall|n: int| #![trigger fp(n)] 0 <= n < p() ==> fp(n).val() == n,
        forall|f: Fp| #![trigger f.val()] 0 <= f.val() < p() && fp(f.val()) == f;
pub proof fn fp_inj(a: int, b: int) requires 0 <= a < p(), 0 <= b < p(), fp(a) == fp(b) ensures a == b { fp_axioms(); }
impl vstd::std_specs::ops::AddSpecImpl<Fp> for Fp {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Fp) -> bool { true }
    open spec fn add_spec(self, o: Fp) -> Fp { fp((self.val() + o.val()) % p()) }
}
impl core::ops::Add for Fp { type Output = Fp; #[verifier::external_body] fn add(self, o: Fp) -> (r: Fp) { unimplemented!() } }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct BigInteger256 { _x: [u64; 4] }
impl BigInteger256 {
    pub uninterp spec fn val(&self) -> int;
    #[verifier::external_body] pub fn muln(&mut self, n: u32) ensures n < 256 ==> final(self).val() == (old(self).val() * two(n as nat)) % two(256) { unimplemented!() }
}
/// a conversion written `.into()`: what it needs not to panic, and what it gives
pub trait VxInto<T>: Sized { spec fn into_ok(self) -> bool; spec fn into_is(self, r: T) -> bool; fn vx_into(self) -> (r: T) requires self.into_ok() ensures self.into_is(r); }
impl VxInto<BigInteger256> for Fp { open spec fn into_ok(self) -> bool { true } open spec fn into_is(self, r: BigInteger256) -> bool { r.val() == self.val() } #[verifier::external_body] fn vx_into(self) -> (r: BigInteger256) { unimplemented!() } }
/// panics unless below the order
impl VxInto<Fp> for BigInteger256 { open spec fn into_ok(self) -> bool { 0 <= self.val() < p() } open spec fn into_is(self, r: Fp) -> bool { r == fp(self.val()) } #[verifier::external_body] fn vx_into(self) -> (r: Fp) { unimplemented!() } }
// ------------------------------------------------------------ bit strings (bitvec, assumed)
/// the number a bit string stands for, least significant bit first
pub open spec fn bits_int(s: Seq<bool>) -> int decreases s.len() { if s.len() == 0 { 0 } else { (if s[0] { 1int } else { 0 }) + 2 * bits_int(s.skip(1)) } }
/// the bits of a byte, least significant first
pub open spec fn byte_bits(b: u8) -> Seq<bool> { Seq::new(8, |i: int| (b as int / two(i as nat)) % 2 == 1) }
pub open spec fn bytes_bits(s: Seq<u8>) -> Seq<bool> decreases s.len() { if s.len() == 0 { Seq::empty() } else { byte_bits(s[0]) + bytes_bits(s.skip(1)) } }
pub open spec fn reps(x: bool, n: nat) -> Seq<bool> { Seq::new(n, |i: int| x) }
pub trait VxBits { spec fn bytes(&self) -> Seq<u8>; fn vx_bits(&self) -> (r: Vec<bool>) ensures r@ == bytes_bits(self.bytes()); }
impl VxBits for [u8] { open spec fn bytes(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_bits(&self) -> (r: Vec<bool>) { unimplemented!() } }
impl<const N: usize> VxBits for [u8; N] { open spec fn bytes(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_bits(&self) -> (r: Vec<bool>) { unimplemented!() } }
pub trait VxBitVec: Sized { spec fn b(&self) -> Seq<bool>;
    fn vx_bytes(self) -> (r: Vec<u8>) ensures r@.len() == (self.b().len() + 7) / 8, unle(r@) == bits_int(self.b());
    fn vx_resize(&mut self, n: usize, x: bool) ensures final(self).b() == (if old(self).b().len() >= n { old(self).b().take(n as int) } else { old(self).b() + reps(x, (n - old(self).b().len()) as nat) });
}
impl VxBitVec for Vec<bool> { open spec fn b(&self) -> Seq<bool> { self@ } #[verifier::external_body] fn vx_bytes(self) -> (r: Vec<u8>) { unimplemented!() } #[verifier::external_body] fn vx_resize(&mut self, n: usize, x: bool) { unimplemented!() } }
pub proof fn bits_bound(s: Seq<bool>) ensures 0 <= bits_int(s) < two(s.len()) decreases s.len() { if s.len() > 0 { bits_bound(s.skip(1)); } }
pub proof fn bits_cat(a: Seq<bool>, b: Seq<bool>) ensures bits_int(a + b) == bits_int(a) + two(a.len()) * bits_int(b) decreases a.len() {
    if a.len() == 0 { assert(a + b =~= b); }
    else { assert((a + b).skip(1) =~= a.skip(1) + b); bits_cat(a.skip(1), b); let t = two(a.skip(1).len()); let y = bits_int(b); assert(2 * (t * y) == (2 * t) * y) by (nonlinear_arith); }
}
pub proof fn bits_zeros(s: Seq<bool>) requires forall|i: int| 0 <= i < s.len() ==> !s[i] ensures bits_int(s) == 0 decreases s.len() { if s.len() > 0 { bits_zeros(s.skip(1)); } }
pub proof fn bits_padded(s: Seq<bool>, n: nat) ensures bits_int(s + reps(false, n)) == bits_int(s) { bits_cat(s, reps(false, n)); bits_zeros(reps(false, n)); assert(two(s.len()) * 0 == 0); }
proof fn bit_step(n: int, k: nat) requires n >= 0 ensures (n / two(k)) / 2 == n / two(k + 1) { two_pos(k); assert(two(k + 1) == 2 * two(k)); assert(two(k) * 2 == 2 * two(k)); vstd::arithmetic::div_mod::lemma_div_denominator(n, two(k), 2); }
/// the bits of n from position k on
proof fn tail_int(b: u8, k: nat) requires k <= 8 ensures bits_int(byte_bits(b).skip(k as int)) == b as int / two(k) decreases 8 - k {
    let s = byte_bits(b).skip(k as int);
    if k == 8 { assert(two(8) == 256) by (compute); assert(s.len() == 0); }
    else { assert(s.skip(1) =~= byte_bits(b).skip(k as int + 1)); tail_int(b, k + 1); bit_step(b as int, k); assert(s[0] == ((b as int / two(k)) % 2 == 1)); }
}
pub proof fn byte_int(b: u8) ensures bits_int(byte_bits(b)) == b { tail_int(b, 0); assert(byte_bits(b).skip(0) =~= byte_bits(b)); assert(two(0) == 1); assert(b as int / 1 == b); }
pub proof fn bytes_int(s: Seq<u8>) ensures bits_int(bytes_bits(s)) == unle(s), bytes_bits(s).len() == 8 * s.len() decreases s.len() {
    if s.len() > 0 { bytes_int(s.skip(1)); byte_int(s[0]); bits_cat(byte_bits(s[0]), bytes_bits(s.skip(1))); assert(two(8) == 256) by (compute); }
}
/// the bits determine the bytes
pub proof fn bits_inj(a: Seq<u8>, b: Seq<u8>) requires bytes_bits(a) == bytes_bits(b) ensures a == b decreases a.len() {
    bytes_int(a); bytes_int(b);
    if a.len() > 0 {
        let (x, y) = (bytes_bits(a), bytes_bits(b));
        assert(x.take(8) =~= byte_bits(a[0])); assert(y.take(8) =~= byte_bits(b[0]));
        assert(x.skip(8) =~= bytes_bits(a.skip(1))); assert(y.skip(8) =~= bytes_bits(b.skip(1)));
        byte_int(a[0]); byte_int(b[0]);
        bits_inj(a.skip(1), b.skip(1));
        assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1));
    } else { assert(a =~= b); }
}
pub proof fn two_vals() ensures two(1) == 2, two(8) == 0x100, two(32) == 0x1_0000_0000, two(64) == 0x1_0000_0000_0000_0000, two(254) < p() < two(255), two(255) < two(256)
{ assert(two(1) == 2) by (compute); assert(two(8) == 0x100) by (compute); assert(two(32) == 0x1_0000_0000) by (compute); assert(two(64) == 0x1_0000_0000_0000_0000) by (compute);
  two_sum(126, 128); two_mono(126, 254); two_pos(254);  assert(two(126) > 45560315531419706090280762371685220353) by (compute); assert(two(255) == 2 * two(254)); assert(two(256) == 2 * two(255)); two_pos(255); }
// ------------------------------------------------------------ chunks
/// (the full-size elements, the packed elements with their widths)
pub ghost struct Chunk { pub fields: Seq<Fp>, pub packed: Seq<(Fp, u32)> }
pub open spec fn none() -> Chunk { Chunk { fields: Seq::empty(), packed: Seq::empty() } }
impl Chunk {
    pub open spec fn plus(self, o: Chunk) -> Chunk { Chunk { fields: self.fields + o.fields, packed: self.packed + o.packed } }
    pub open spec fn shape(self) -> (nat, nat) { (self.fields.len(), self.packed.len()) }
    /// every packed element is within its width, no width reaches the size of the field
    pub open spec fn fits(self) -> bool { forall|i: int| 0 <= i < self.packed.len() ==> self.packed[i].1 <= 254 && (#[trigger] self.packed[i]).0.val() < two(self.packed[i].1 as nat) }
}
pub open spec fn fld(f: Fp) -> Chunk { Chunk { fields: seq![f], packed: Seq::empty() } }
pub open spec fn pk(f: Fp, w: u32) -> Chunk { Chunk { fields: Seq::empty(), packed: seq![(f, w)] } }
pub open spec fn num(n: int, w: u32) -> Chunk { pk(fp(n), w) }
pub open spec fn bit(b: bool) -> Chunk { num(if b { 1 } else { 0 }, 1) }
pub open spec fn bits(s: Seq<bool>) -> Chunk { Chunk { fields: Seq::empty(), packed: Seq::new(s.len(), |i: int| (fp(if s[i] { 1 } else { 0 }), 1u32)) } }
pub broadcast proof fn plus_inj(a: Chunk, b: Chunk, c: Chunk, d: Chunk)
    requires #[trigger] a.plus(b) == #[trigger] c.plus(d), b.shape() == d.shape()
    ensures a == c, b == d
{
    let (x, y) = (a.plus(b), c.plus(d));
    assert(x.fields.len() == a.fields.len() + b.fields.len() && y.fields.len() == c.fields.len() + d.fields.len());
    assert(x.packed.len() == a.packed.len() + b.packed.len() && y.packed.len() == c.packed.len() + d.packed.len());
    assert(b.fields.len() == d.fields.len() && b.packed.len() == d.packed.len());
    assert(a.fields.len() == c.fields.len() && a.packed.len() == c.packed.len());
    assert(a.fields =~= x.fields.take(a.fields.len() as int)); assert(c.fields =~= y.fields.take(a.fields.len() as int));
    assert(b.fields =~= x.fields.skip(a.fields.len() as int)); assert(d.fields =~= y.fields.skip(a.fields.len() as int));
    assert(a.packed =~= x.packed.take(a.packed.len() as int)); assert(c.packed =~= y.packed.take(a.packed.len() as int));
    assert(b.packed =~= x.packed.skip(a.packed.len() as int)); assert(d.packed =~= y.packed.skip(a.packed.len() as int));
}
// ------------------------------------------------------------ packing
/// the packed elements appended to a running sum that occupies `acc` bits: what the packing must produce
pub open spec fn pack(sum: int, acc: nat, s: Seq<(Fp, u32)>) -> Seq<Fp> decreases s.len() {
    if s.len() == 0 { if acc > 0 { seq![fp(sum)] } else { Seq::empty() } }
    else if acc + s[0].1 < 255 { pack(sum * two(s[0].1 as nat) + s[0].0.val(), acc + s[0].1 as nat, s.skip(1)) }
    else { seq![fp(sum)] + pack(s[0].0.val(), s[0].1 as nat, s.skip(1)) }
}
pub open spec fn same_widths(a: Seq<(Fp, u32)>, b: Seq<(Fp, u32)>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).1 == b[i].1 }
pub open spec fn in_width(s: Seq<(Fp, u32)>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i].1 <= 254 && (#[trigger] s[i]).0.val() < two(s[i].1 as nat) }
/// packing loses nothing: two lists of the same widths that pack alike are alike
pub proof fn pack_inj(x: int, y: int, acc: nat, a: Seq<(Fp, u32)>, b: Seq<(Fp, u32)>)
    requires same_widths(a, b), in_width(a), in_width(b), acc <= 254, 0 <= x < two(acc), 0 <= y < two(acc), pack(x, acc, a) == pack(y, acc, b)
    ensures x == y, a == b
    decreases a.len()
{
    fp_axioms(); two_vals(); two_mono(acc, 254);
    if a.len() == 0 { assert(a =~= b); if acc > 0 { assert(pack(x, acc, a)[0] == fp(x)); assert(pack(y, acc, b)[0] == fp(y)); fp_inj(x, y); } else { assert(two(0) == 1); } }
    else {
        let n = a[0].1 as nat; let (f, g) = (a[0].0.val(), b[0].0.val());
        let (a1, b1) = (a.skip(1), b.skip(1));
        assert(b[0].1 == a[0].1);
        assert forall|i: int| 0 <= i < a1.len() implies (#[trigger] a1[i]).1 == b1[i].1 by { assert(a[i + 1].1 == b[i + 1].1); }
        assert(f < two(n) && g < two(n));
        two_pos(n); two_pos(acc);
        if acc + n < 255 {
            two_sum(acc, n);
            let t = two(n);
            assert(0 <= x * t + f < two(acc + n)) by (nonlinear_arith) requires 0 <= x < two(acc), 0 <= f < t, two(acc + n) == two(acc) * t, t >= 1;
            assert(0 <= y * t + g < two(acc + n)) by (nonlinear_arith) requires 0 <= y < two(acc), 0 <= g < t, two(acc + n) == two(acc) * t, t >= 1;
            pack_inj(x * t + f, y * t + g, acc + n, a1, b1);
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x * t + f, t, x, f); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x * t + f, t, y, g);
        } else {
            two_mono(n, 254);
            let (s1, s2) = (pack(x, acc, a), pack(y, acc, b));
            assert(s1[0] == fp(x) && s2[0] == fp(y)); fp_inj(x, y);
            assert(s1.skip(1) =~= pack(f, n, a1)); assert(s2.skip(1) =~= pack(g, n, b1));
            pack_inj(f, g, n, a1, b1);
        }
        assert(fp(a[0].0.val()) == a[0].0 && fp(b[0].0.val()) == b[0].0);
        assert(a =~= seq![a[0]] + a1); assert(b =~= seq![b[0]] + b1);
    }
}
pub open spec fn all_fields(c: Chunk) -> Seq<Fp> { c.fields + pack(0, 0, c.packed) }
/// the field elements of an input determine the input
pub proof fn fields_inj(a: Chunk, b: Chunk)
    requires a.shape() == b.shape(), same_widths(a.packed, b.packed), a.fits(), b.fits(), all_fields(a) == all_fields(b)
    ensures a == b
{
    let (x, y) = (all_fields(a), all_fields(b)); let n = a.fields.len() as int;
    assert(x.take(n) =~= a.fields); assert(y.take(n) =~= b.fields);
    assert(x.skip(n) =~= pack(0, 0, a.packed)); assert(y.skip(n) =~= pack(0, 0, b.packed));
    assert(two(0) == 1);
    pack_inj(0, 0, 0, a.packed, b.packed);
}
