file crates/sail-function/src/scalar/array/spark_sequence.rs
rule macro exec_err => Err(vx_err())
rule macro exec_datafusion_err => vx_err()
vrule chain into/0 => $recv.vx_into()
vrule call T::try_from => T::vx_try_from($0)
vrule call i64::try_from => vx_i64_try_from($0)
vrule call i32::try_from => vx_i32_try_from($0)
vrule call usize::try_from => vx_usize_try_from($0)
vrule call i128::from => (($0) as i128)
vrule chain map_err/1 => vx_map_err($recv)
vrule chain ok_or_else/1 => vx_ok_or($recv)
const MAX_ROUNDED_ARRAY_LENGTH
stub reserve

fn valid_boundaries
ret r
spec <<<
ensures r == legal(start as int, stop as int, step as int),
>>>

fn illegal_sequence_boundaries
sig fn illegal_sequence_boundaries<T>(start: i64, stop: i64, step: i64) -> (r: Result<T>)
native-sig fn illegal_sequence_boundaries<T>(start: i64, stop: i64, step: impl std::fmt::Display) -> Result<T>
spec <<<
ensures r is Err,
>>>

fn collection_size_limit_error
ret r
spec <<<
ensures r is Err,
>>>

fn sequence_length
ret r
spec <<<
ensures length_is(start as int, stop as int, step as int, r),
>>>

fn sequence_length_with_display_step
sig fn sequence_length_with_display_step(start: i64, stop: i64, step: i64, display_step: i64) -> (r: Result<usize>)
native-sig fn sequence_length_with_display_step(start: i64, stop: i64, step: i64, display_step: impl std::fmt::Display) -> Result<usize>
spec <<<
ensures length_is(start as int, stop as int, step as int, r),
>>>
body-start <<<
proof {
    if step != 0 { lemma_length(start as int, stop as int, step as int); }
}
>>>

fn checked_batch_length
ret r
spec <<<
ensures match r { Ok(t) => t == current + additional && t <= 0x7fff_ffff, Err(_) => current + additional > 0x7fff_ffff },
>>>

fn extend_integral_values
attrs #[verifier::loop_isolation(false)]
sig fn extend_integral_values<T: VxInt>(values: &mut Vec<T>, start: T, step: T, length: usize) -> (r: Result<()>)
spec <<<
requires length <= 0x7fff_ffff,
ensures match r {
    Ok(_) => final(values)@.len() == old(values)@.len() + length
        && (forall|i: int| 0 <= i < old(values)@.len() ==> final(values)@[i] == old(values)@[i])
        && forall|j: int| old(values)@.len() <= j < old(values)@.len() + length ==> (#[trigger] final(values)@[j]).v() == elem(start.v(), step.v(), j - old(values)@.len()),
    Err(_) => exists|i: int| 0 <= i < length && !T::fits(#[trigger] elem(start.v(), step.v(), i)),
},
>>>
body-start <<<
let ghost old_values = values@;
let ghost (s0, t0) = (start.v(), step.v());
proof { start.small(); step.small(); }
>>>
loop 0 <<<
invariant
    length <= 0x7fff_ffff, start == s0, step == t0,
    -0x8000_0000_0000_0000 <= s0 <= 0x7fff_ffff_ffff_ffff, -0x8000_0000_0000_0000 <= t0 <= 0x7fff_ffff_ffff_ffff,
    values@.len() == old_values.len() + index,
    forall|i: int| 0 <= i < old_values.len() ==> values@[i] == old_values[i],
    forall|j: int| old_values.len() <= j < values@.len() ==> (#[trigger] values@[j]).v() == elem(s0, t0, j - old_values.len()),
>>>
loop-start 0 <<<
proof {
    assert(-0x8000_0000_0000_0000 * 0x7fff_ffff <= t0 * index <= 0x7fff_ffff_ffff_ffff * 0x7fff_ffff) by (nonlinear_arith)
        requires 0 <= index <= 0x7fff_ffff, -0x8000_0000_0000_0000 <= t0 <= 0x7fff_ffff_ffff_ffff;
    assert(t0 * index == index * t0) by (nonlinear_arith);
    assert(elem(s0, t0, index as int) == s0 + t0 * index);
}
>>>

fn integral_row_with_length
sig fn integral_row_with_length<T: VxInt>(start: T, step: T, length: usize) -> (r: Result<Vec<T>>)
spec <<<
requires length <= 0x7fff_ffff,
ensures r is Ok ==> r->Ok_0@.len() == length && forall|i: int| 0 <= i < length ==> (#[trigger] r->Ok_0@[i]).v() == elem(start.v(), step.v(), i),
>>>
tail <<<
>>>

fn integral_row
sig fn integral_row<T: VxInt>(start: T, stop: T, step: T, max_values: usize) -> (r: Result<Vec<T>>)
spec <<<
ensures r is Ok ==> ({
    let (a, b, s) = (start.v(), stop.v(), step.v());
    &&& legal(a, b, s)
    &&& r->Ok_0@.len() == count(a, b, s)
    &&& forall|i: int| 0 <= i < count(a, b, s) ==> (#[trigger] r->Ok_0@[i]).v() == elem(a, s, i)
}),
>>>

fn gen_sequence_i8
noverus
fn gen_sequence_i16
noverus
fn gen_sequence_i32
noverus
fn gen_sequence_i64
noverus
fn append_null_offset
noverus
fn list_array
noverus
fn append_row
noverus
fn invalid_sequence_arity
noverus
