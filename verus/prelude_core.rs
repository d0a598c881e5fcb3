#![allow(unused_imports, unused_variables, dead_code, unused_mut, unused_parens, unused_assignments, non_snake_case, unreachable_code)]
use vstd::prelude::*;
verus! {
// ---- panics are obligations: every reachable panic!/unimplemented!/assert! must be proved unreachable / true
#[verifier::external_body]
pub fn vx_panic<A>() -> (r: A) requires false, { panic!() }
#[verifier::external_body]
pub fn vx_assert(b: bool) requires b, { }
// ---- arithmetic written with shifts and masks: proved here, available everywhere
pub mod bits { use vstd::prelude::*; verus! {
pub broadcast proof fn mask_u8_1(n: u8) ensures #[trigger] (n & 0x1) == n % 0x2 { assert(n & 0x1 == n % 0x2) by (bit_vector); }
pub broadcast proof fn mask_u8_7f(n: u8) ensures #[trigger] (n & 0x7f) == n % 0x80 { assert(n & 0x7f == n % 0x80) by (bit_vector); }
pub broadcast proof fn mask_u8_ff(n: u8) ensures #[trigger] (n & 0xff) == n { assert(n & 0xff == n) by (bit_vector); }
pub broadcast proof fn half_u8(n: u8) ensures #[trigger] (n >> 1u8) == n / 2 { assert(n >> 1u8 == n / 2) by (bit_vector); }
pub broadcast proof fn mask_u16_1(n: u16) ensures #[trigger] (n & 0x1) == n % 0x2 { assert(n & 0x1 == n % 0x2) by (bit_vector); }
pub broadcast proof fn mask_u16_7f(n: u16) ensures #[trigger] (n & 0x7f) == n % 0x80 { assert(n & 0x7f == n % 0x80) by (bit_vector); }
pub broadcast proof fn mask_u16_ff(n: u16) ensures #[trigger] (n & 0xff) == n % 0x100 { assert(n & 0xff == n % 0x100) by (bit_vector); }
pub broadcast proof fn mask_u16_ffff(n: u16) ensures #[trigger] (n & 0xffff) == n { assert(n & 0xffff == n) by (bit_vector); }
pub broadcast proof fn half_u16(n: u16) ensures #[trigger] (n >> 1u16) == n / 2 { assert(n >> 1u16 == n / 2) by (bit_vector); }
pub broadcast proof fn mask_u32_1(n: u32) ensures #[trigger] (n & 0x1) == n % 0x2 { assert(n & 0x1 == n % 0x2) by (bit_vector); }
pub broadcast proof fn mask_u32_7f(n: u32) ensures #[trigger] (n & 0x7f) == n % 0x80 { assert(n & 0x7f == n % 0x80) by (bit_vector); }
pub broadcast proof fn mask_u32_ff(n: u32) ensures #[trigger] (n & 0xff) == n % 0x100 { assert(n & 0xff == n % 0x100) by (bit_vector); }
pub broadcast proof fn mask_u32_ffff(n: u32) ensures #[trigger] (n & 0xffff) == n % 0x10000 { assert(n & 0xffff == n % 0x10000) by (bit_vector); }
pub broadcast proof fn mask_u32_ffffffff(n: u32) ensures #[trigger] (n & 0xffffffff) == n { assert(n & 0xffffffff == n) by (bit_vector); }
pub broadcast proof fn half_u32(n: u32) ensures #[trigger] (n >> 1u32) == n / 2 { assert(n >> 1u32 == n / 2) by (bit_vector); }
pub broadcast proof fn mask_u64_1(n: u64) ensures #[trigger] (n & 0x1) == n % 0x2 { assert(n & 0x1 == n % 0x2) by (bit_vector); }
pub broadcast proof fn mask_u64_7f(n: u64) ensures #[trigger] (n & 0x7f) == n % 0x80 { assert(n & 0x7f == n % 0x80) by (bit_vector); }
pub broadcast proof fn mask_u64_ff(n: u64) ensures #[trigger] (n & 0xff) == n % 0x100 { assert(n & 0xff == n % 0x100) by (bit_vector); }
pub broadcast proof fn mask_u64_ffff(n: u64) ensures #[trigger] (n & 0xffff) == n % 0x10000 { assert(n & 0xffff == n % 0x10000) by (bit_vector); }
pub broadcast proof fn mask_u64_ffffffff(n: u64) ensures #[trigger] (n & 0xffffffff) == n % 0x100000000 { assert(n & 0xffffffff == n % 0x100000000) by (bit_vector); }
pub broadcast proof fn half_u64(n: u64) ensures #[trigger] (n >> 1u64) == n / 2 { assert(n >> 1u64 == n / 2) by (bit_vector); }
pub broadcast group vx_bits { mask_u8_1, mask_u8_7f, mask_u8_ff, half_u8, mask_u16_1, mask_u16_7f, mask_u16_ff, mask_u16_ffff, half_u16, mask_u32_1, mask_u32_7f, mask_u32_ff, mask_u32_ffff, mask_u32_ffffffff, half_u32, mask_u64_1, mask_u64_7f, mask_u64_ff, mask_u64_ffff, mask_u64_ffffffff, half_u64 }
} }
use bits::vx_bits;
// ---- text that only feeds error messages is opaque
#[verifier::external_body]
pub fn vx_format() -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn vx_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
