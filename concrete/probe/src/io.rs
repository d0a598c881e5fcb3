//! awkward but legal readers and writers
use crate::rng::Rng;
use std::io::{self, Read, Write};
/// gives out at most `k` bytes a call (k drawn anew each time), sometimes interrupted, and fails at `fail_at`
pub struct Frag<'a> { pub data: &'a [u8], pub pos: usize, pub rng: Rng, pub max: u64, pub interrupts: bool, pub fail_at: Option<usize>, pub reads: usize }
impl<'a> Frag<'a> {
    pub fn new(data: &'a [u8], rng: Rng, max: u64) -> Self { Frag { data, pos: 0, rng, max, interrupts: false, fail_at: None, reads: 0 } }
}
impl<'a> Read for Frag<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        if self.interrupts && self.rng.one_in(3) { return Err(io::Error::from(io::ErrorKind::Interrupted)); }
        let mut n = (1 + self.rng.below(self.max)) as usize;
        n = n.min(b.len()).min(self.data.len() - self.pos);
        if let Some(f) = self.fail_at { if self.pos >= f { return Err(io::Error::new(io::ErrorKind::Other, "injected")); } n = n.min(f - self.pos); }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// accepts at most a few bytes a call, sometimes interrupted, and fails once `fail_at` bytes are in
pub struct Short { pub out: Vec<u8>, pub rng: Rng, pub max: u64, pub interrupts: bool, pub fail_at: Option<usize> }
impl Short { pub fn new(rng: Rng, max: u64) -> Self { Short { out: vec![], rng, max, interrupts: false, fail_at: None } } }
impl Write for Short {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.interrupts && self.rng.one_in(3) { return Err(io::Error::from(io::ErrorKind::Interrupted)); }
        let mut n = ((1 + self.rng.below(self.max)) as usize).min(b.len());
        if let Some(f) = self.fail_at { if self.out.len() >= f && !b.is_empty() { return Err(io::Error::new(io::ErrorKind::Other, "injected")); } n = n.min(f - self.out.len()); }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
