//@include prelude_core.rs
broadcast use vx_bits;
//@include prelude_io.rs
//@include part_write.rs
//@include part_ser.rs
//@include part_compser.rs
} // verus!
fn main() {}
