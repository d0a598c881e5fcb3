pub mod pasta { pub use ark_ff::{Fp, Fq}; }
