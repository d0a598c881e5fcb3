#![allow(dead_code)]
#[path = "../../common/harness.rs"] mod harness;
#[path = "../../common/rng.rs"] mod rng;
mod chain;
use harness::Group;
#[global_allocator]
static A: harness::Counting = harness::Counting;
fn groups(p: &str) -> Vec<Group> {
    use chain as c;
    match p {
        "C20" => vec![("push", 12000, c::push), ("long", 60, c::long)],
        "C21" => vec![("secure", 40000, c::secure), ("longer", 12000, c::longer), ("short_range", 15000, c::short_range), ("long_range", 15000, c::long_range)],
        "C22" => vec![("density", 40000, c::density), ("slots", 20000, c::density_slots)],
        _ => vec![],
    }
}
fn main() { harness::main_with(groups) }
