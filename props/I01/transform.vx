file crates/sail-iceberg/src/utils/transform.rs
vrule macro format => vx_fmt()
vrule sub \.rem_euclid\( => .vx_rem_euclid(
vrule sub \.div_euclid\( => .vx_div_euclid(
vrule call chrono::NaiveDate::from_epoch_days => vx_from_epoch_days($0)
vrule sub \.unwrap_or_default\(\) => .vx_or_default()
vrule call i32::try_from => vx_i32_try_from($0)
vrule call Uuid::from_u128 => Uuid::vx_from_u128($0)
vrule chain to_le_bytes/0 => vx_le8($recv)
vrule chain to_be_bytes/0 => vx_be16($recv)
vrule chain as_bytes/0 => $recv.vx_as_bytes()
vrule sub value\.clone\(\) => vx_clone(&value)
const UNIX_EPOCH_YEAR

fn apply_transform
ret r
sub s\.chars\(\)\.take\(w as usize\)\.collect::<String>\(\) => vx_take(&s, w as usize)
spec <<<
requires legal(transform, *field_type, value),
ensures result_ok(transform, *field_type, value, r),
>>>

fn days_to_year
ret r
spec <<<
ensures year_is(1970 + r, days as int),
>>>

fn micros_to_year
ret r
spec <<<
ensures year_is(1970 + r, micros as int / DAY_US),
>>>

fn days_to_months
ret r
spec <<<
ensures month_is(r as int, days as int),
>>>

fn micros_to_months
ret r
spec <<<
ensures month_is(r as int, micros as int / DAY_US),
>>>

fn micros_to_days
ret r
spec <<<
ensures r == micros as int / DAY_US,
>>>

fn days_to_year_and_month
ret r
spec <<<
ensures year_is(r.0 as int, days as int), 0 <= r.1 < 12, mstart(r.0 as int, r.1 as int) <= days < mstart(r.0 as int, r.1 + 1),
    -7_000_000 <= r.0 <= 7_000_000,
>>>
tail <<<
proof {
    assert(days == 146_097 * cycles + date.d());
    assert forall|y: int| #[trigger] year_is(y, date.d()) implies year_is(y + 400 * cycles, days as int) && (forall|m: int| #[trigger] mstart(y + 400 * cycles, m) == mstart(y, m) + 146_097 * cycles)
    by { lemma_cycle(y, cycles as int); lemma_cycle(y + 1, cycles as int); }
}
>>>

fn hash_bytes
noverus

fn hash_int
ret r
spec <<<
ensures r == murmur(le8(v as int)),
>>>

fn hash_long
ret r
spec <<<
ensures r == murmur(le8(v as int)),
>>>

fn hash_decimal
attrs #[verifier::loop_isolation(false)]
ret r
sub &bytes\[start\.\.\] => vx_tail(&bytes, start)
spec <<<
ensures r == murmur(min_be(be16(v as int), v < 0)),
>>>
body-start <<<
proof { reveal_with_fuel(min_be, 2); axiom_be16_len(v as int); assert(be16(v as int).skip(0) =~= be16(v as int)); }
>>>
loop 0 <<<
invariant
    0 <= start <= 15, bytes@ == be16(v as int), bytes@.len() == 16, sign == (if v < 0 { 0xffu8 } else { 0u8 }),
    min_be(be16(v as int), v < 0) == min_be(bytes@.skip(start as int), v < 0),
decreases 15 - start
>>>
loop-start 0 <<<
proof { lemma_xor(bytes@[start + 1]); assert(bytes@.skip(start as int).skip(1) =~= bytes@.skip(start + 1)); }
>>>
loop-after 0 <<<
proof { if start < 15 { lemma_xor(bytes@[start + 1]); } }
>>>

fn bucket_n
ret r
spec <<<
requires 1 <= n <= i32::MAX,
ensures r == low31(hash) % (n as int), 0 <= r < n,
>>>
body-start <<<
proof { lemma_low31(hash); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(low31(hash), n as int); vstd::arithmetic::div_mod::lemma_mod_bound(low31(hash), n as int); }
>>>

fn bucket_int
ret r
spec <<<
requires 1 <= n <= i32::MAX,
ensures r == bucket_of(le8(v as int), n as int),
>>>
fn bucket_long
ret r
spec <<<
requires 1 <= n <= i32::MAX,
ensures r == bucket_of(le8(v as int), n as int),
>>>
fn bucket_decimal
ret r
spec <<<
requires 1 <= n <= i32::MAX,
ensures r == bucket_of(min_be(be16(v as int), v < 0), n as int),
>>>
fn bucket_str
ret r
spec <<<
requires 1 <= n <= i32::MAX,
ensures r == bucket_of(utf8(s@), n as int),
>>>
fn bucket_bytes
ret r
spec <<<
requires 1 <= n <= i32::MAX,
ensures r == bucket_of(b@, n as int),
>>>

file crates/sail-iceberg/src/spec/transform.rs
type Transform v=Copy,Clone n=Debug,PartialEq,Eq,Clone,Copy
fn Transform::result_type
ret r
sub input_type\.clone\(\) => vx_clone_type(input_type)
spec <<<
ensures r is Ok <==> accepts(*self, *input_type),
    r is Ok && *self != Transform::Unknown ==> r->Ok_0 == out_type(*self, *input_type),
>>>
fn Transform::preserves_order
ret r
spec <<<
ensures r == !(self is Void || self is Bucket || self is Unknown),
>>>
file crates/sail-iceberg/src/spec/types/mod.rs
type PrimitiveType n=Debug,PartialEq,Eq,Clone
