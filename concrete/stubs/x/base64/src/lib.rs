//! stand-in for base64 0.13 (padded, URL-safe and standard alphabets)
#[derive(Clone, Copy, Debug, PartialEq)] pub struct Config { url: bool, pad: bool }
pub const URL_SAFE: Config = Config { url: true, pad: true };
pub const URL_SAFE_NO_PAD: Config = Config { url: true, pad: false };
pub const STANDARD: Config = Config { url: false, pad: true };
pub const STANDARD_NO_PAD: Config = Config { url: false, pad: false };
#[derive(Clone, Debug, PartialEq, Eq)] pub enum DecodeError { InvalidByte(usize, u8), InvalidLength, InvalidLastSymbol(usize, u8) }
impl std::fmt::Display for DecodeError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{self:?}") } }
impl std::error::Error for DecodeError {}
fn al(c: Config) -> Vec<u8> { let mut v: Vec<u8> = (b'A'..=b'Z').chain(b'a'..=b'z').chain(b'0'..=b'9').collect(); v.extend(if c.url { b"-_" } else { b"+/" }); v }
pub fn encode_config<T: AsRef<[u8]>>(b: T, c: Config) -> String {
    let a = al(c); let mut s = String::new();
    for k in b.as_ref().chunks(3) { let n = (k[0] as u32) << 16 | (*k.get(1).unwrap_or(&0) as u32) << 8 | *k.get(2).unwrap_or(&0) as u32;
        for i in 0..4 { if i <= k.len() { s.push(a[(n >> (18 - 6 * i)) as usize & 63] as char) } else if c.pad { s.push('=') } } }
    s
}
pub fn decode_config<T: AsRef<[u8]>>(s: T, c: Config) -> Result<Vec<u8>, DecodeError> {
    let a = al(c); let s = s.as_ref(); let n = s.iter().rev().take_while(|x| **x == b'=').count();
    if n > 2 || (n > 0 && s.len() % 4 != 0) || (c.pad && s.len() % 4 != 0) { return Err(DecodeError::InvalidLength); }
    let s = &s[..s.len() - n]; if s.len() % 4 == 1 { return Err(DecodeError::InvalidLength); }
    let mut o = vec![]; let (mut acc, mut bits) = (0u32, 0);
    for (i, x) in s.iter().enumerate() { let v = a.iter().position(|y| y == x).ok_or(DecodeError::InvalidByte(i, *x))? as u32; acc = acc << 6 | v; bits += 6; if bits >= 8 { bits -= 8; o.push((acc >> bits) as u8); acc &= (1 << bits) - 1; } }
    if acc != 0 { return Err(DecodeError::InvalidLastSymbol(s.len() - 1, s[s.len() - 1])); }
    Ok(o)
}
pub fn encode<T: AsRef<[u8]>>(b: T) -> String { encode_config(b, STANDARD) }
pub fn decode<T: AsRef<[u8]>>(s: T) -> Result<Vec<u8>, DecodeError> { decode_config(s, STANDARD) }
