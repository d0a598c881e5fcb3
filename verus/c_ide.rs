// #[serde(with = "integer" / "nat0")]: the deserialising half, for every serde front end
//@include prelude_core.rs
broadcast use vx_bits;
//@include prelude_io.rs
//@include prelude_read.rs
//@include part_read.rs
/// std::io::Cursor over a slice: yields exactly the slice and fails only by ending
pub struct Cursor<'a>(pub &'a [u8], pub usize);
impl<'a> Cursor<'a> {
    #[verifier::external_body]
    pub fn new(b: &'a [u8]) -> (r: Self) ensures r.rem() == b@, r.reliable() { unimplemented!() }
}
impl<'a> Read for Cursor<'a> {
    uninterp spec fn rem(&self) -> Seq<u8>;
    uninterp spec fn reliable(&self) -> bool;
    #[verifier::external_body] fn read_exact(&mut self, buf: &mut [u8]) -> (r: core::result::Result<(), io::Error>) { unimplemented!() }
    #[verifier::external_body] fn read_u8(&mut self) -> (r: core::result::Result<u8, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn read_i8(&mut self) -> (r: core::result::Result<i8, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn read_u16<B: ByteOrder>(&mut self) -> (r: core::result::Result<u16, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn read_i16<B: ByteOrder>(&mut self) -> (r: core::result::Result<i16, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn read_u32<B: ByteOrder>(&mut self) -> (r: core::result::Result<u32, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn read_i32<B: ByteOrder>(&mut self) -> (r: core::result::Result<i32, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn read_u64<B: ByteOrder>(&mut self) -> (r: core::result::Result<u64, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn read_i64<B: ByteOrder>(&mut self) -> (r: core::result::Result<i64, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn read_f32<B: ByteOrder>(&mut self) -> (r: core::result::Result<f32, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn read_f64<B: ByteOrder>(&mut self) -> (r: core::result::Result<f64, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn vx_take_read_to_end(&mut self, n: u64, buf: &mut Vec<u8>) -> (r: core::result::Result<usize, io::Error>) { unimplemented!() }
}
pub struct PhantomData;
/// any serde error type
pub trait DeError: Sized { }
#[verifier::external_body]
pub fn vx_custom<E: DeError, M>(e: M) -> E { unimplemented!() }
pub trait Visitor: Sized { type Value;
    /// what the visitor answers to a byte string
    spec fn ok(self, b: Seq<u8>, v: Self::Value) -> bool;
    spec fn takes(self, b: Seq<u8>) -> bool;
    fn visit_bytes<E: DeError>(self, value: &[u8]) -> (r: core::result::Result<Self::Value, E>)
        ensures r is Ok ==> self.ok(value@, r->Ok_0), r is Ok <==> self.takes(value@);
}
pub trait Deserializer: Sized { type Error;
    /// the byte string it hands to the visitor, None: it fails by itself
    spec fn content(self) -> Option<Seq<u8>>;
    fn deserialize_bytes<V: Visitor>(self, v: V) -> (r: core::result::Result<V::Value, Self::Error>)
        ensures r is Ok <==> self.content() is Some && v.takes(self.content()->Some_0), r is Ok ==> v.ok(self.content()->Some_0, r->Ok_0);
}
//@impl IntegerVis
    open spec fn ok(self, b: Seq<u8>, v: T) -> bool { dec_int(b) is Some && dec_int(b)->Some_0.0 == v.val() }
    open spec fn takes(self, b: Seq<u8>) -> bool { dec_int(b) is Some && T::fits(dec_int(b)->Some_0.0) }
//@end
//@impl Nat0Vis
    open spec fn ok(self, b: Seq<u8>, v: T) -> bool { dec_nat0(b) is Some && dec_nat0(b)->Some_0.0 == v.val() }
    open spec fn takes(self, b: Seq<u8>) -> bool { dec_nat0(b) is Some && T::fits(dec_nat0(b)->Some_0.0) }
//@end
//@fn IntegerVis::visit_bytes
//@end
//@fn Nat0Vis::visit_bytes
//@end
//@fn integer::deserialize
    ensures
        r is Ok <==> d.content() is Some && dec_int(d.content()->Some_0) is Some && T::fits(dec_int(d.content()->Some_0)->Some_0.0),
        r is Ok ==> r->Ok_0.val() == dec_int(d.content()->Some_0)->Some_0.0,
//@end
//@fn nat0::deserialize
    ensures
        r is Ok <==> d.content() is Some && dec_nat0(d.content()->Some_0) is Some && T::fits(dec_nat0(d.content()->Some_0)->Some_0.0),
        r is Ok ==> r->Ok_0.val() == dec_nat0(d.content()->Some_0)->Some_0.0,
//@end
//@known IntegerVisitor::new
//@known Nat0Visitor::new
//@nosub
//@rw -result_map
//@sub PhantomData < T > =>> core :: marker :: PhantomData < T >
//@sub ( PhantomData ) =>> ( core :: marker :: PhantomData )
//@sub 'de , =>>
//@sub < 'de > =>>
//@sub Deserializer < 'de > =>> Deserializer
//@sub Result < Self :: Value , E > =>> core :: result :: Result < Self :: Value , E >
//@sub Result < T , D :: Error > =>> core :: result :: Result < T , D :: Error >
//@sub de :: Error , =>> DeError ,
//@sub de :: Error :: custom =>> vx_custom
//@sub deserialize < D , T > ( d : D ) =>> integer_deserialize < D , T > ( d : D )
//@sub deserialize <  D , T > ( d : D ) =>> integer_deserialize < D , T > ( d : D )
//@emit protocol/bin-prot/src/integers/integer.rs struct:IntegerVisitor
//@emit protocol/bin-prot/src/integers/integer.rs impl:=impl<T>IntegerVisitor<T>
//@emit protocol/bin-prot/src/integers/integer.rs impl:Visitor<'de>forIntegerVisitor as=IntegerVis only=visit_bytes
//@emit protocol/bin-prot/src/integers/integer.rs fn:deserialize as=integer
//@nosub
//@sub PhantomData < T > =>> core :: marker :: PhantomData < T >
//@sub ( PhantomData ) =>> ( core :: marker :: PhantomData )
//@sub 'de , =>>
//@sub < 'de > =>>
//@sub Result < Self :: Value , E > =>> core :: result :: Result < Self :: Value , E >
//@sub Result < T , D :: Error > =>> core :: result :: Result < T , D :: Error >
//@sub de :: Error , =>> DeError ,
//@sub de :: Error :: custom =>> vx_custom
//@emit protocol/bin-prot/src/integers/nat0.rs struct:Nat0Visitor
//@emit protocol/bin-prot/src/integers/nat0.rs impl:=impl<T>Nat0Visitor<T>
//@emit protocol/bin-prot/src/integers/nat0.rs impl:Visitor<'de>forNat0Visitor as=Nat0Vis only=visit_bytes
//@emit protocol/bin-prot/src/integers/nat0.rs fn:deserialize as=nat0
} // verus!
fn main() {}
