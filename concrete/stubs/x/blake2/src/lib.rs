//! stand-in for blake2 0.10: BLAKE2b
pub mod digest {
    #[derive(Debug)] pub struct InvalidOutputSize;
    pub trait Update { fn update(&mut self, d: &[u8]); fn chain(mut self, d: impl AsRef<[u8]>) -> Self where Self: Sized { self.update(d.as_ref()); self } }
    pub trait VariableOutput: Sized { fn new(n: usize) -> Result<Self, InvalidOutputSize>; fn finalize_boxed(self) -> Box<[u8]>; fn finalize_variable(self, o: &mut [u8]) -> Result<(), InvalidOutputSize>; }
}
use digest::*;
pub struct Blake2bVar { n: usize, m: Vec<u8> }
const IV: [u64; 8] = [0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179];
const S: [[usize; 16]; 10] = [[0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15],[14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3],[11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4],[7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8],[9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13],[2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9],[12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11],[13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10],[6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5],[10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0]];
fn f(h: &mut [u64; 8], b: &[u8], t: u128, last: bool) {
    let mut m = [0u64; 16]; for i in 0..16 { m[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap()); }
    let mut v = [0u64; 16]; v[..8].copy_from_slice(h); v[8..].copy_from_slice(&IV); v[12] ^= t as u64; v[13] ^= (t >> 64) as u64; if last { v[14] = !v[14] }
    let mut g = |a: usize, b: usize, c: usize, d: usize, x: u64, y: u64| { v[a] = v[a].wrapping_add(v[b]).wrapping_add(x); v[d] = (v[d] ^ v[a]).rotate_right(32); v[c] = v[c].wrapping_add(v[d]); v[b] = (v[b] ^ v[c]).rotate_right(24); v[a] = v[a].wrapping_add(v[b]).wrapping_add(y); v[d] = (v[d] ^ v[a]).rotate_right(16); v[c] = v[c].wrapping_add(v[d]); v[b] = (v[b] ^ v[c]).rotate_right(63); };
    for r in 0..12 { let s = &S[r % 10]; for (i, (a, b, c, d)) in [(0,4,8,12),(1,5,9,13),(2,6,10,14),(3,7,11,15),(0,5,10,15),(1,6,11,12),(2,7,8,13),(3,4,9,14)].iter().enumerate() { g(*a, *b, *c, *d, m[s[2 * i]], m[s[2 * i + 1]]) } }
    for i in 0..8 { h[i] ^= v[i] ^ v[i + 8] }
}
impl Update for Blake2bVar { fn update(&mut self, d: &[u8]) { self.m.extend(d) } }
impl VariableOutput for Blake2bVar {
    fn new(n: usize) -> Result<Self, InvalidOutputSize> { if n == 0 || n > 64 { Err(InvalidOutputSize) } else { Ok(Self { n, m: vec![] }) } }
    fn finalize_boxed(self) -> Box<[u8]> {
        let mut h = IV; h[0] ^= 0x01010000 ^ self.n as u64;
        let k = self.m.len(); let blocks = if k == 0 { 1 } else { (k + 127) / 128 }; let mut m = self.m; m.resize(blocks * 128, 0);
        for i in 0..blocks { f(&mut h, &m[128 * i..128 * i + 128], if i + 1 == blocks { k as u128 } else { 128 * (i as u128 + 1) }, i + 1 == blocks); }
        h.iter().flat_map(|x| x.to_le_bytes()).take(self.n).collect()
    }
    fn finalize_variable(self, o: &mut [u8]) -> Result<(), InvalidOutputSize> { if o.len() != self.n { return Err(InvalidOutputSize) } o.copy_from_slice(&self.finalize_boxed()); Ok(()) }
}
