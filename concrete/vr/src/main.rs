#[path = "../../common/harness.rs"] mod harness;
#[path = "../../common/rng.rs"] mod rng;
#[cfg(feature = "full")] mod lib_;
#[cfg(feature = "full")] mod fixtures;
mod ver;
use harness::{Group, Out, Held, Broken};
use rng::Rng;
#[global_allocator]
static A: harness::Counting = harness::Counting;
#[cfg(feature = "full")]
fn fix(i: u64, r: &mut Rng) -> Out {
    let (n, f) = fixtures::FIX[i as usize % fixtures::FIX.len()];
    match f(r.next() >> 8) { Ok(s) => Held(true, format!("{n}: {s}")), Err(e) => Broken(format!("{n}: {e}")) }
}
#[cfg(not(feature = "full"))]
fn fix(_: u64, _: &mut Rng) -> Out { Held(false, String::new()) }
fn groups(p: &str) -> Vec<Group> {
    match p {
        "C13" => vec![("wrap", 6000, ver::wrap), ("encode", 6000, ver::encode), ("macros", 4000, ver::macros)],
        "C14" => vec![("fixtures", 30000, fix)],
        _ => vec![],
    }
}
fn main() { harness::main_with(groups) }
