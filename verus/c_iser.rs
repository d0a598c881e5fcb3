// #[serde(with = "integer" / "nat0")]: the serialising half, for every serde back end
//@include prelude_core.rs
broadcast use vx_bits;
//@include prelude_io.rs
//@include part_write.rs
impl Write for Vec<u8> {
    open spec fn out(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn write(&mut self, buf: &[u8]) -> (r: core::result::Result<usize, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn write_all(&mut self, buf: &[u8]) -> (r: core::result::Result<(), io::Error>) { unimplemented!() }
    #[verifier::external_body] fn write_u8(&mut self, n: u8) -> (r: core::result::Result<(), io::Error>) { unimplemented!() }
    #[verifier::external_body] fn write_i8(&mut self, n: i8) -> (r: core::result::Result<(), io::Error>) { unimplemented!() }
    #[verifier::external_body] fn write_u16<B: ByteOrder>(&mut self, n: u16) -> (r: core::result::Result<(), io::Error>) { unimplemented!() }
    #[verifier::external_body] fn write_i16<B: ByteOrder>(&mut self, n: i16) -> (r: core::result::Result<(), io::Error>) { unimplemented!() }
    #[verifier::external_body] fn write_u32<B: ByteOrder>(&mut self, n: u32) -> (r: core::result::Result<(), io::Error>) { unimplemented!() }
    #[verifier::external_body] fn write_i32<B: ByteOrder>(&mut self, n: i32) -> (r: core::result::Result<(), io::Error>) { unimplemented!() }
    #[verifier::external_body] fn write_u64<B: ByteOrder>(&mut self, n: u64) -> (r: core::result::Result<(), io::Error>) { unimplemented!() }
    #[verifier::external_body] fn write_i64<B: ByteOrder>(&mut self, n: i64) -> (r: core::result::Result<(), io::Error>) { unimplemented!() }
}
/// a Vec accepts every byte
#[verifier::external_body]
pub fn vx_unwrap(r: core::result::Result<usize, io::Error>) -> (n: usize) ensures r is Ok && r->Ok_0 == n { unimplemented!() }
#[verifier::external_body]
pub fn vx_slice(v: &Vec<u8>) -> (r: &[u8]) ensures r@ == v@ { v }
pub trait Unsigned {}
/// any serde::Serializer: what it answers when handed `b` as bytes
pub trait Serializer: Sized {
    type Ok; type Error;
    spec fn answers(self, b: Seq<u8>, r: core::result::Result<Self::Ok, Self::Error>) -> bool;
    fn serialize_bytes(self, v: &[u8]) -> (r: core::result::Result<Self::Ok, Self::Error>) ensures self.answers(v@, r);
}
//@nosub
//@fn integer::serialize
    ensures s.answers(enc_int(n.int()), r),
//@end
//@fn nat0::serialize
    ensures s.answers(enc_nat0(n.int()), r),
//@end
//@sub serialize < T , S > ( n : & T =>> integer_serialize < T , S > ( n : & T
//@sub Result < S :: Ok , S :: Error > =>> core :: result :: Result < S :: Ok , S :: Error >
//@sub Into < i64 > =>> IntoI64
//@sub bytes . bin_write_integer ( * n ) . unwrap ( ) =>> vx_unwrap ( bytes . bin_write_integer ( * n ) )
//@sub bytes . bin_write_nat0 ( * n ) . unwrap ( ) =>> vx_unwrap ( bytes . bin_write_nat0 ( * n ) )
//@sub Vec :: < u8 > :: new ( ) =>> Vec :: new ( )
//@sub let mut bytes = Vec :: new ( ) =>> let mut bytes : Vec < u8 > = Vec :: new ( )
//@sub serialize_bytes ( & bytes ) =>> serialize_bytes ( vx_slice ( & bytes ) )
//@emit protocol/bin-prot/src/integers/integer.rs fn:serialize as=integer
//@nosub
//@sub serialize < T , S > ( n : & T =>> nat0_serialize < T , S > ( n : & T
//@sub Result < S :: Ok , S :: Error > =>> core :: result :: Result < S :: Ok , S :: Error >
//@sub Into < u64 > =>> IntoU64
//@sub bytes . bin_write_integer ( * n ) . unwrap ( ) =>> vx_unwrap ( bytes . bin_write_integer ( * n ) )
//@sub bytes . bin_write_nat0 ( * n ) . unwrap ( ) =>> vx_unwrap ( bytes . bin_write_nat0 ( * n ) )
//@sub Vec :: < u8 > :: new ( ) =>> Vec :: new ( )
//@sub let mut bytes = Vec :: new ( ) =>> let mut bytes : Vec < u8 > = Vec :: new ( )
//@sub serialize_bytes ( & bytes ) =>> serialize_bytes ( vx_slice ( & bytes ) )
//@emit protocol/bin-prot/src/integers/nat0.rs fn:serialize as=nat0
} // verus!
fn main() {}
