use vstd::prelude::*;
verus! {
//@include iceberg_transform.rs
#[verifier::external_body]
fn hash_bytes(v: &[u8]) -> (r: i32) ensures r == murmur(v@) { unimplemented!() }
proof fn thm_epoch() ensures year_is(1970, 0), year_is(1969, -1), month_is(0, 0), month_is(-1, -1), year_is(2024, 19782), month_is(649, 19782), jan1(2000) == 10957 {}
//@EXTRACTED@
} // verus!
fn main() {}
