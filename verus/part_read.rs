
//@fn bin_read_unit
    ensures
        r is Ok ==> took(old(self).rem(), final(self).rem(), 1) && old(self).rem()[0] == 0,
        old(self).reliable() ==> (r is Ok <==> old(self).rem().len() >= 1 && old(self).rem()[0] == 0),
        final(self).reliable() == old(self).reliable(),
//@end
//@fn bin_read_bool
    ensures
        r is Ok ==> took(old(self).rem(), final(self).rem(), 1) && old(self).rem()[0] == (if r->Ok_0 { 1u8 } else { 0u8 }),
        old(self).reliable() ==> (r is Ok <==> old(self).rem().len() >= 1 && old(self).rem()[0] <= 1),
        final(self).reliable() == old(self).reliable(),
//@end
//@fn bin_read_char
    ensures
        r is Ok ==> took(old(self).rem(), final(self).rem(), 1) && r->Ok_0 as u32 == old(self).rem()[0] as u32,
        old(self).reliable() ==> (r is Ok <==> old(self).rem().len() >= 1),
        final(self).reliable() == old(self).reliable(),
//@end
//@fn bin_read_integer
    ensures
        r is Ok ==> dec_int(old(self).rem()) is Some && dec_int(old(self).rem())->Some_0.0 == r->Ok_0.val()
            && took(old(self).rem(), final(self).rem(), dec_int(old(self).rem())->Some_0.1),
        old(self).reliable() && dec_int(old(self).rem()) is Some && T::fits(dec_int(old(self).rem())->Some_0.0) ==> r is Ok,
        old(self).reliable() && dec_int(old(self).rem()) is Some && !T::fits(dec_int(old(self).rem())->Some_0.0) ==> r is Err && r->Err_0 is DestinationIntegerOverflow,
        old(self).reliable() && old(self).rem().len() > 0 && bad_int_byte(old(self).rem()[0]) ==> r is Err && r->Err_0 is InvalidIntegerByte,
        final(self).reliable() == old(self).reliable(),
//@entry
    broadcast use skip_skip;
//@end
//@fn bin_read_nat0
    ensures
        r is Ok ==> dec_nat0(old(self).rem()) is Some && dec_nat0(old(self).rem())->Some_0.0 == r->Ok_0.val()
            && took(old(self).rem(), final(self).rem(), dec_nat0(old(self).rem())->Some_0.1),
        old(self).reliable() && dec_nat0(old(self).rem()) is Some && T::fits(dec_nat0(old(self).rem())->Some_0.0) ==> r is Ok,
        old(self).reliable() && dec_nat0(old(self).rem()) is Some && !T::fits(dec_nat0(old(self).rem())->Some_0.0) ==> r is Err && r->Err_0 is DestinationIntegerOverflow,
        old(self).reliable() && old(self).rem().len() > 0 && bad_nat0_byte(old(self).rem()[0]) ==> r is Err && r->Err_0 is InvalidIntegerByte,
        final(self).reliable() == old(self).reliable(),
//@entry
    broadcast use skip_skip;
//@end
//@fn bin_read_variant_index
    ensures
        r is Ok ==> took(old(self).rem(), final(self).rem(), 1) && r->Ok_0 == old(self).rem()[0],
        old(self).reliable() ==> (r is Ok <==> old(self).rem().len() >= 1),
        final(self).reliable() == old(self).reliable(),
//@end
//@fn bin_read_polyvar_tag
    ensures
        r is Ok ==> took(old(self).rem(), final(self).rem(), 4) && r->Ok_0 as int == unle(old(self).rem().take(4)) / 2,
        old(self).reliable() ==> (r is Ok <==> old(self).rem().len() >= 4),
        final(self).reliable() == old(self).reliable(),
//@entry
    assert(forall|x: u32| #[trigger] (x >> 1u32) == x / 2) by(bit_vector);
//@end
//@fn bin_read_bytes
    ensures
        r is Ok ==> dec_bytes(old(self).rem()) == Some((r->Ok_0@, (old(self).rem().len() - final(self).rem().len()) as nat))
            && took(old(self).rem(), final(self).rem(), dec_bytes(old(self).rem())->Some_0.1),
        old(self).reliable() ==> (r is Ok <==> dec_bytes(old(self).rem()) is Some),
        final(self).reliable() == old(self).reliable(),
//@entry
    broadcast use unle_bound, skip_skip, take_all, skip_none, cat_empty;
    proof { pow256_vals(); }
//@end
//@fn bin_read_string
    ensures
        r is Ok ==> dec_bytes(old(self).rem()) is Some && utf8(dec_bytes(old(self).rem())->Some_0.0) == Some(r->Ok_0@)
            && took(old(self).rem(), final(self).rem(), dec_bytes(old(self).rem())->Some_0.1),
        old(self).reliable() ==> (r is Ok <==> dec_bytes(old(self).rem()) is Some && utf8(dec_bytes(old(self).rem())->Some_0.0) is Some),
        final(self).reliable() == old(self).reliable(),
//@entry
    broadcast use unle_bound, skip_skip, take_all, skip_none, cat_empty;
    proof { pow256_vals(); }
//@end
/// UTF-8 decoding (std)
pub uninterp spec fn utf8(b: Seq<u8>) -> Option<Seq<char>>;
pub struct Utf8Error;
#[verifier::external_body]
pub fn vx_from_utf8(b: &Vec<u8>) -> (r: core::result::Result<String, Utf8Error>)
    ensures r is Ok <==> utf8(b@) is Some, r is Ok ==> utf8(b@) == Some(r->Ok_0@)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_io_error<E>(k: io::ErrorKind, e: E) -> io::Error { unimplemented!() }
#[verifier::external_body]
pub fn vx_io_error_from(k: io::ErrorKind) -> (r: Error) ensures r is Io { unimplemented!() }
#[verifier::external_body]
pub fn vx_u32_from_le(b: [u8; 4]) -> (r: u32) ensures r as int == unle(b@) { u32::from_le_bytes(b) }
#[verifier::external_body]
pub fn vx_u32_from_be(b: [u8; 4]) -> (r: u32) ensures r as int == unle(rev(b@)) { u32::from_be_bytes(b) }
impl From<io::Error> for Error {
    #[verifier::external_body]
    fn from(e: io::Error) -> (r: Self) ensures r is Io { Error::Io(e) }
}

#[verifier::external_body]
pub fn vx_to_string(s: String) -> (r: String) ensures r@ == s@ { s }
//@sub s . to_string ( ) =>> vx_to_string ( s )
//@sub io :: Read =>> Read
//@sub core :: result :: Result =>> core :: result :: Result
//@sub std :: str :: from_utf8 ( & buf ) =>> vx_from_utf8 ( & buf )
//@sub io :: Error :: new ( =>> vx_io_error (
//@sub io :: Error :: from ( io :: ErrorKind :: UnexpectedEof ) . into ( ) =>> vx_io_error_from ( io :: ErrorKind :: UnexpectedEof )
//@sub u32 :: from_le_bytes ( =>> vx_u32_from_le (
//@sub u32 :: from_be_bytes ( =>> vx_u32_from_be (
//@emit protocol/bin-prot/src/consts.rs const:CODE_NEG_INT8
//@emit protocol/bin-prot/src/consts.rs const:CODE_INT16
//@emit protocol/bin-prot/src/consts.rs const:CODE_INT32
//@emit protocol/bin-prot/src/consts.rs const:CODE_INT64
pub type Result<A> = core::result::Result<A, Error>;
//@emit protocol/bin-prot/src/error.rs enum:Error
//@emit protocol/bin-prot/src/read_ext.rs trait:ReadBinProtExt
impl<W: Read + ?Sized> ReadBinProtExt for W {}
