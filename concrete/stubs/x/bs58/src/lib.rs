//! stand-in for bs58 (Bitcoin alphabet, double SHA-256 checks)
use sha2::{Digest, Sha256};
const A: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
fn check(b: &[u8]) -> [u8; 4] { Sha256::digest(Sha256::digest(b))[..4].try_into().unwrap() }
pub mod encode {
    pub struct EncodeBuilder<'a, I: AsRef<[u8]>> { pub(crate) i: I, pub(crate) v: Option<Option<u8>>, pub(crate) p: std::marker::PhantomData<&'a ()> }
    impl<'a, I: AsRef<[u8]>> EncodeBuilder<'a, I> {
        pub fn with_check(mut self) -> Self { self.v = Some(None); self }
        pub fn with_check_version(mut self, v: u8) -> Self { self.v = Some(Some(v)); self }
        pub fn into_vec(self) -> Vec<u8> { self.into_string().into_bytes() }
        pub fn into_string(self) -> String {
            let mut b = vec![]; if let Some(Some(v)) = self.v { b.push(v) } b.extend(self.i.as_ref()); if self.v.is_some() { let c = super::check(&b); b.extend(c); }
            let mut d: Vec<u8> = vec![];
            for x in &b { let mut c = *x as u32; for y in d.iter_mut() { c += (*y as u32) << 8; *y = (c % 58) as u8; c /= 58; } while c > 0 { d.push((c % 58) as u8); c /= 58; } }
            let z = b.iter().take_while(|x| **x == 0).count();
            std::iter::repeat('1').take(z).chain(d.iter().rev().map(|x| super::A[*x as usize] as char)).collect()
        }
    }
}
pub mod decode {
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum Error { BufferTooSmall, InvalidCharacter { character: char, index: usize }, NonAsciiCharacter { index: usize }, InvalidChecksum { checksum: [u8; 4], expected_checksum: Option<[u8; 4]> }, InvalidVersion { ver: u8, expected_ver: u8 }, NoChecksum }
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{self:?}") } }
    impl std::error::Error for Error {}
    pub struct DecodeBuilder<'a, I: AsRef<[u8]>> { pub(crate) i: I, pub(crate) v: Option<Option<u8>>, pub(crate) p: std::marker::PhantomData<&'a ()> }
    impl<'a, I: AsRef<[u8]>> DecodeBuilder<'a, I> {
        pub fn with_check(mut self, v: Option<u8>) -> Self { self.v = Some(v); self }
        pub fn into_vec(self) -> Result<Vec<u8>, Error> {
            let s = self.i.as_ref(); let mut d: Vec<u8> = vec![];
            for (index, x) in s.iter().enumerate() {
                if *x > 127 { return Err(Error::NonAsciiCharacter { index }); }
                let mut c = super::A.iter().position(|y| y == x).ok_or(Error::InvalidCharacter { character: *x as char, index })? as u32;
                for y in d.iter_mut() { c += *y as u32 * 58; *y = c as u8; c >>= 8; } while c > 0 { d.push(c as u8); c >>= 8; } }
            let z = s.iter().take_while(|x| **x == b'1').count(); d.extend(std::iter::repeat(0).take(z)); d.reverse();
            if let Some(v) = self.v {
                if d.len() < 4 { return Err(Error::NoChecksum); }
                let k = d.len() - 4; let c: [u8; 4] = d[k..].try_into().unwrap(); let e = super::check(&d[..k]);
                if c != e { return Err(Error::InvalidChecksum { checksum: c, expected_checksum: Some(e) }); }
                d.truncate(k);
                if let Some(v) = v { if d.is_empty() || d[0] != v { return Err(Error::InvalidVersion { ver: *d.first().unwrap_or(&0), expected_ver: v }); } }
            }
            Ok(d)
        }
    }
}
pub fn encode<'a, I: AsRef<[u8]>>(i: I) -> encode::EncodeBuilder<'a, I> { encode::EncodeBuilder { i, v: None, p: Default::default() } }
pub fn decode<'a, I: AsRef<[u8]>>(i: I) -> decode::DecodeBuilder<'a, I> { decode::DecodeBuilder { i, v: None, p: Default::default() } }
