//! what the fixtures convert to, and the comparison
use crate::rng::Rng;
use versioned::Versioned;
/// content of field i in case k: distinct for distinct i
pub fn val(k: u64, i: u64) -> u64 { let mut r = Rng(k.wrapping_mul(977)); (r.next() & 0xffff_ffff_ffff_0000) | (i << 4) }
pub fn vals(k: u64, i: u64) -> Vec<u64> { let mut r = Rng(k ^ (i << 32)); (0..r.size(5, 20000)).map(|j| val(k, i) + j * 2 + 1).collect() }
pub fn opt(k: u64, i: u64) -> Option<u64> { if Rng(k ^ (i << 40) ^ 5).next() & 1 == 0 { None } else { Some(val(k, i)) } }
/// s and t denote the same: each converts to the other, directly and through up to four version wrappers
pub fn both<A, B>(s: A, t: B) -> Result<String, String>
where
    A: std::fmt::Debug + Clone + PartialEq + From<B> + From<Versioned<B, 3>> + From<Versioned<Versioned<B, 5>, 7>> + From<Versioned<Versioned<Versioned<B, 1>, 2>, 9>> + From<Versioned<Versioned<Versioned<Versioned<B, 4>, 6>, 8>, 65535>>,
    B: std::fmt::Debug + Clone + PartialEq + From<A>,
    Versioned<B, 3>: From<A>, Versioned<Versioned<B, 5>, 7>: From<A>, Versioned<Versioned<Versioned<B, 1>, 2>, 9>: From<A>, Versioned<Versioned<Versioned<Versioned<B, 4>, 6>, 8>, 65535>: From<A>,
{
    let b: B = s.clone().into();
    if b != t { return Err(format!("{s:?} becomes {b:?}, not {t:?}")) }
    let a: A = t.clone().into();
    if a != s { return Err(format!("{t:?} becomes {a:?}, not {s:?}")) }
    let v1: Versioned<B, 3> = s.clone().into();
    if v1.version != 3 || v1.t != t { return Err(format!("{s:?} becomes {v1:?}")) }
    let v2: Versioned<Versioned<B, 5>, 7> = s.clone().into();
    if v2.version != 7 || v2.t.version != 5 || v2.t.t != t { return Err(format!("{s:?} becomes {v2:?}")) }
    let v3: Versioned<Versioned<Versioned<B, 1>, 2>, 9> = s.clone().into();
    if v3.version != 9 || v3.t.version != 2 || v3.t.t.version != 1 || v3.t.t.t != t { return Err(format!("{s:?} becomes {v3:?}")) }
    let v4: Versioned<Versioned<Versioned<Versioned<B, 4>, 6>, 8>, 65535> = s.clone().into();
    if v4.version != 65535 || v4.t.version != 8 || v4.t.t.version != 6 || v4.t.t.t.version != 4 || v4.t.t.t.t != t { return Err(format!("{s:?} becomes {v4:?}")) }
    for (n, a) in [("1", A::from(v1)), ("2", A::from(v2)), ("3", A::from(v3)), ("4", A::from(v4))] {
        if a != s { return Err(format!("{s:?} comes back as {a:?} through {n} version wrappers")) }
    }
    Ok(format!("{s:?}"))
}
