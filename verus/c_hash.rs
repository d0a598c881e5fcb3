//@include prelude_core.rs
broadcast use vx_bits;
/// OCaml's hash_variant: 223-ary evaluation of the bytes, truncated to 31 bits
pub open spec fn eval223(b: Seq<u8>) -> int decreases b.len() {
    if b.len() == 0 { 0 } else { 223 * eval223(b.drop_last()) + b.last() as int }
}
pub open spec fn ocaml_hash(b: Seq<u8>) -> int { eval223(b) % 0x8000_0000 }
pub uninterp spec fn str_bytes(s: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub fn vx_as_bytes(s: &str) -> (r: &[u8]) ensures r@ == str_bytes(s@) { unimplemented!() }
pub proof fn eval_mono(b: Seq<u8>, i: int)
    requires 0 <= i <= b.len()
    ensures 0 <= eval223(b.take(i)) <= eval223(b)
    decreases b.len()
{
    if i == b.len() { assert(b.take(i) =~= b); eval_nonneg(b); }
    else { let c = b.drop_last(); eval_mono(c, i); assert(c.take(i) =~= b.take(i)); eval_nonneg(c); }
}
pub proof fn eval_nonneg(b: Seq<u8>) ensures 0 <= eval223(b) decreases b.len() { if b.len() > 0 { eval_nonneg(b.drop_last()); } }
pub open spec fn ascii(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> b[i] < 128 }
/// the domain on which the hash is claimed: every ASCII label of at most four characters is inside it
pub proof fn short_ascii_in_domain(b: Seq<u8>)
    requires b.len() <= 4, ascii(b)
    ensures 0 <= eval223(b) < 0x8000_0000, ocaml_hash(b) == eval223(b)
{ reveal_with_fuel(eval223, 6); }

//@fn caml_hash_variant
    requires eval223(str_bytes(label@)) < 0x8000_0000,
    ensures r as int == ocaml_hash(str_bytes(label@)),
//@loop 0
    invariant
        vx_i0 <= vx_s0@.len(), vx_s0@ == str_bytes(label@), eval223(vx_s0@) < 0x8000_0000,
        vx_a0 as int == eval223(vx_s0@.take(vx_i0 as int)),
    decreases vx_s0@.len() - vx_i0
//@entry
    proof { let b = str_bytes(label@); eval_nonneg(b); assert(b.take(b.len() as int) =~= b); }
//@body 0
    proof { eval_mono(vx_s0@, vx_i0 + 1); eval_mono(vx_s0@, vx_i0 as int); eval_nonneg(vx_s0@);
        assert(vx_s0@.take(vx_i0 + 1).drop_last() =~= vx_s0@.take(vx_i0 as int));
        assert(vx_s0@.take(vx_i0 as int + 1).last() == vx_s0@[vx_i0 as int]); }
//@end
//@rw iter
//@sub label . as_bytes ( ) =>> vx_as_bytes ( label )
//@emit protocol/bin-prot/src/polyvar/caml_hash_variant.rs type:VariantHash
//@emit protocol/bin-prot/src/polyvar/caml_hash_variant.rs fn:caml_hash_variant
} // verus!
fn main() {}
