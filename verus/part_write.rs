
//@fn bin_write_unit
    ensures r is Ok ==> final(self).out() =~= old(self).out() + seq![0u8],
//@end
//@fn bin_write_bool
    ensures r is Ok ==> final(self).out() =~= old(self).out() + seq![if b { 1u8 } else { 0u8 }],
//@end
//@fn bin_write_char
    ensures
        r is Ok ==> (c as u32) < 256 && final(self).out() =~= old(self).out() + seq![c as u8] && r->Ok_0 == 1,
        (c as u32) >= 256 ==> r is Err && final(self).out() == old(self).out(),
//@end
//@fn bin_write_integer
    ensures r is Ok ==> final(self).out() =~= old(self).out() + enc_int(n.int()) && r->Ok_0 == enc_int(n.int()).len(),
//@entry
    broadcast use le_len;
//@end
//@fn bin_write_nat0
    ensures r is Ok ==> final(self).out() =~= old(self).out() + enc_nat0(n.int()) && r->Ok_0 == enc_nat0(n.int()).len(),
//@entry
    broadcast use le_len;
//@end
//@fn bin_write_float32
    ensures r is Ok ==> final(self).out() =~= old(self).out() + le(f32_bits(*f), 4) && r->Ok_0 == 4,
//@entry
    broadcast use le_len;
//@end
//@fn bin_write_float64
    ensures r is Ok ==> final(self).out() =~= old(self).out() + le(f64_bits(*f), 8) && r->Ok_0 == 8,
//@entry
    broadcast use le_len;
//@end
//@fn bin_write_variant_index
    ensures r is Ok ==> final(self).out() =~= old(self).out() + seq![i] && r->Ok_0 == 1,
//@end
//@fn bin_write_polyvar_tag
    ensures r is Ok ==> final(self).out() =~= old(self).out() + enc_tag(i as int) && r->Ok_0 == 4,
//@entry
    broadcast use le_len;
    proof { lemma_tag_bits(i); }
//@end

pub struct TryFromIntError;
#[verifier::external_body]
pub fn vx_u32_from_char(c: char) -> (r: u32) ensures r == c as u32 { u32::from(c) }
#[verifier::external_body]
pub fn vx_u8_try_from(n: u32) -> (r: core::result::Result<u8, TryFromIntError>)
    ensures n < 256 ==> r is Ok && r->Ok_0 == n, n >= 256 ==> r is Err { unimplemented!() }
#[verifier::external_body]
pub fn vx_io_error<E>(k: io::ErrorKind, e: E) -> io::Error { unimplemented!() }
//@sub u8 :: try_from ( =>> vx_u8_try_from (
//@sub u32 :: from ( =>> vx_u32_from_char (
//@sub io :: Error :: new ( =>> vx_io_error (
//@rw result_map
//@sub io :: Write =>> Write
//@sub Into < i64 > =>> IntoI64
//@sub Into < u64 > =>> IntoU64
//@sub Result < =>> core :: result :: Result <
//@sub to_le_bytes =>> vx_to_le_bytes
//@sub to_be_bytes =>> vx_to_be_bytes
//@emit protocol/bin-prot/src/consts.rs const:CODE_NEG_INT8
//@emit protocol/bin-prot/src/consts.rs const:CODE_INT16
//@emit protocol/bin-prot/src/consts.rs const:CODE_INT32
//@emit protocol/bin-prot/src/consts.rs const:CODE_INT64
//@emit protocol/bin-prot/src/write_ext.rs trait:WriteBinProtExt
impl<W: Write + ?Sized> WriteBinProtExt for W {}
