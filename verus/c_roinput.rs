//@include prelude_core.rs
broadcast use vx_bits;
//@include prelude_io.rs
//@include part_ro.rs
//@include part_roc.rs
} // verus!
fn main() {}
