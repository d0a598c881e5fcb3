//@include prelude_core.rs
broadcast use vx_bits;
//@include prelude_io.rs
//@include part_write.rs
} // verus!
fn main() {}
