#![allow(dead_code)]
#[path = "../../common/harness.rs"] mod harness;
#[path = "../../common/rng.rs"] mod rng;
mod tree;
use harness::Group;
#[global_allocator]
static A: harness::Counting = harness::Counting;
fn groups(p: &str) -> Vec<Group> {
    use tree as t;
    match p {
        "C16" => vec![("histories", 6000, t::histories), ("fixed_height", 4000, t::histories_fixed), ("none_absorbing", 2500, t::histories_none), ("poseidon", 1500, t::poseidon)],
        "C17" => vec![("genuine", 3000, t::genuine), ("tampered", 9000, t::tampered), ("arbitrary", 15000, t::arbitrary), ("forged_index", 5000, t::forged_index)],
        "C18" => vec![("indices", 4096, t::indices), ("boundaries", 1300, t::boundaries), ("heights", 260, t::heights), ("large_heights", 40, t::large_heights)],
        "C19" => vec![("genuine", 4000, t::path_genuine), ("malformed", 8000, t::path_malformed)],
        _ => vec![],
    }
}
fn main() { harness::main_with(groups) }
