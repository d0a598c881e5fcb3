#[path = "../../common/harness.rs"] mod harness;
#[path = "../../common/rng.rs"] mod rng;
mod dynty; mod g_comp; mod g_layout; mod g_prim; mod many; mod io;
use harness::Group;
#[global_allocator]
static A: harness::Counting = harness::Counting;
fn groups(p: &str) -> Vec<Group> {
    use g_comp as c; use g_layout as l; use g_prim as g;
    match p {
        "C01" => vec![("int_enc_exhaustive", 430, g::int_enc_exh), ("int_enc_random", 20000, g::int_enc_rnd)],
        "C02" => vec![("int_dec_exhaustive", 512, g::int_dec_exh16), ("int_dec_lead", 12000, g::int_dec_lead), ("int_round", 12000, g::int_round)],
        "C03" => vec![("nat0_exhaustive", 340, g::nat0_exh), ("nat0_random", 15000, g::nat0_rnd), ("nat0_dec", 15000, g::nat0_dec), ("nat0_lengths", 600, g::nat0_len)],
        "C04" => vec![("scalars_exhaustive", 256, g::scalars_exh), ("chars", 4000, g::chars), ("floats", 8000, g::floats), ("options", 8000, g::opts)],
        "C05" => vec![("strings", 6000, g::str_round), ("payloads", 15000, g::str_bytes), ("lengths", 8000, g::str_lens)],
        "C06" => vec![("round_trip", 12000, c::round_all), ("enums", 4000, c::round_enum), ("mutated", 6000, c::mutated), ("derived", 4000, c::derived), ("big_enums", 4000, c::big_enums)],
        "C07" => vec![("lengths", 6000, c::hostile_lengths), ("random", 6000, c::hostile_random), ("mutated", 6000, c::hostile_mutated), ("layouts", 6000, l::hostile_layout), ("layout_lengths", 3000, l::hostile_layout_len), ("any_layout", 5000, l::any_layout)],
        "C08" => vec![("short_writes", 6000, c::short_writes), ("fragmented_reads", 6000, c::frag_reads), ("failing_io", 8000, c::failing_io)],
        "C09" => vec![("strict", 16000, c::strict)],
        "C10" => vec![("labels", 9000, c::hash_labels), ("tags", 9000, c::tags), ("round_trip", 6000, c::round_poly), ("derived", 6000, c::poly_derived), ("many", 900, c::poly_many), ("unknown", 6000, c::poly_unknown)],
        "C11" => vec![("decode_encode", 9000, l::round), ("mutated", 5000, l::mutated), ("values", 6000, l::value_enc), ("vectors", 600, l::vectors), ("typed_by_layout", 3000, l::hybrid), ("any_layout", 5000, l::any_layout)],
        "C12" => vec![("parse", 8000, l::parse), ("malformed", 4000, l::malformed), ("shipped", 8, l::shipped)],
        "C15" => vec![("index", 20000, l::index)],
        _ => vec![],
    }
}
/// inputs recorded in known_findings.json: exit 1 while they still fail
fn known(case: &str) -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    let ok = match case {
        // OCaml: hash_variant "Three" = 223-ary value of the bytes modulo 2^31
        "hash_three" => harness::caught(|| bin_prot::caml_hash_variant("Three")).map(|h| h as u64 == "Three".bytes().fold(0u64, |a, b| (a * 223 + b as u64) % (1 << 31))).unwrap_or(false),
        _ => false,
    };
    std::process::exit(if ok { 0 } else { 1 })
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "known" { known(&a[2]) }
    harness::main_with(groups)
}
