#![allow(dead_code)]
#[path = "../../common/harness.rs"] mod harness;
#[path = "../../common/rng.rs"] mod rng;
mod json;
mod layout;
mod ro;
mod text;
use harness::Group;
#[global_allocator]
static A: harness::Counting = harness::Counting;
fn groups(p: &str) -> Vec<Group> {
    match p {
        "C24" => vec![("pack", 4000, ro::pack), ("build", 3000, ro::build), ("bits", 4000, ro::bits)],
        "C23" => vec![("parts", 300, layout::parts), ("state", 250, layout::state), ("legacy_state", 250, layout::legacy_state)],
        "C25" => vec![("account", 400, layout::account)],
        "C26" => vec![("command", 1500, layout::command)],
        "C27" => vec![("permissions", 300, json::permissions), ("timed", 300, json::timed), ("account", 300, json::account), ("epochs", 300, json::epochs), ("state", 300, json::state)],
        "C28" => vec![("amounts", 6000, text::amounts), ("hashes", 3000, text::hashes), ("hexes", 2500, text::hexes), ("memos", 1500, text::memos), ("chars", 1500, text::chars), ("enums", 3000, text::enums)],
        _ => vec![],
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "known" { std::process::exit(text::known(&a[2])) }
    harness::main_with(groups)
}
