/// std::io::BufReader: the unread bytes are the buffered ones followed by the source's
pub struct BufReader<R> { pub buf: Vec<u8>, pub inner: R }
impl<R: Read> BufReader<R> {
    #[verifier::external_body]
    pub fn new(inner: R) -> (r: Self) ensures r.rem() == inner.rem(), r.reliable() == inner.reliable() { unimplemented!() }
    #[verifier::external_body]
    pub fn buffer(&self) -> (r: &[u8])
        ensures r@.len() <= self.rem().len(), r@ == self.rem().take(r@.len() as int), r@.len() <= isize::MAX
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fill_buf(&mut self) -> (r: core::result::Result<&[u8], io::Error>)
        ensures *final(self) == *old(self) || final(self).rem() == old(self).rem(),
            final(self).rem() == old(self).rem(), final(self).reliable() == old(self).reliable(),
            r is Ok ==> (r->Ok_0@.len() == 0 <==> old(self).rem().len() == 0) && r->Ok_0@.len() <= old(self).rem().len() && r->Ok_0@ == old(self).rem().take(r->Ok_0@.len() as int),
            old(self).reliable() ==> r is Ok,
    { unimplemented!() }
}
impl<R: Read> Read for BufReader<R> {
    closed spec fn rem(&self) -> Seq<u8> { self.buf@ + self.inner.rem() }
    closed spec fn reliable(&self) -> bool { self.inner.reliable() }
    #[verifier::external_body] fn read_exact(&mut self, buf: &mut [u8]) -> (r: core::result::Result<(), io::Error>) { unimplemented!() }
    #[verifier::external_body] fn vx_take_read_to_end(&mut self, n: u64, buf: &mut Vec<u8>) -> (r: core::result::Result<usize, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn read_u8(&mut self) -> (r: core::result::Result<u8, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn read_i8(&mut self) -> (r: core::result::Result<i8, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn read_u16<B: ByteOrder>(&mut self) -> (r: core::result::Result<u16, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn read_i16<B: ByteOrder>(&mut self) -> (r: core::result::Result<i16, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn read_u32<B: ByteOrder>(&mut self) -> (r: core::result::Result<u32, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn read_i32<B: ByteOrder>(&mut self) -> (r: core::result::Result<i32, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn read_u64<B: ByteOrder>(&mut self) -> (r: core::result::Result<u64, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn read_i64<B: ByteOrder>(&mut self) -> (r: core::result::Result<i64, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn read_f32<B: ByteOrder>(&mut self) -> (r: core::result::Result<f32, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn read_f64<B: ByteOrder>(&mut self) -> (r: core::result::Result<f64, io::Error>) { unimplemented!() }
}
