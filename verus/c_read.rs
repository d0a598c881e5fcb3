//@include prelude_core.rs
broadcast use vx_bits;
//@include prelude_io.rs
//@include prelude_read.rs
//@include part_read.rs
} // verus!
fn main() {}
