file crates/sail-function/src/scalar/spark_cast_string_to_int32.rs
vrule chain is_ascii_digit/0 => vx_is_ascii_digit($recv)
vrule chain checked_neg/0 => vx_checked_neg($recv)

fn is_spark_trim_byte
ret r
spec <<<
ensures r == is_space(byte),
>>>

fn parse_spark_legacy_string_to_i32
sig fn parse_spark_legacy_string_to_i32(value: &Text) -> (r: Option<i32>)
spec <<<
requires value.bytes()@.len() < 0x7fff_ffff_ffff_ffff,
ensures cast_is(value.bytes()@, r),
>>>
body-start <<<
let ghost s = value.bytes()@;
>>>
loop 0 <<<
invariant bytes@ == s, s == value.bytes()@, offset <= bytes.len(), forall|i: int| 0 <= i < offset ==> is_space(#[trigger] s[i]),
decreases bytes.len() - offset,
>>>
before ^letmutend= <<<
let ghost lo = offset as int;
>>>
loop 1 <<<
invariant bytes@ == s, s == value.bytes()@, lo == offset, offset <= end < bytes.len(), forall|i: int| end < i < s.len() ==> is_space(#[trigger] s[i]),
decreases end,
>>>
before ^letnegative= <<<
let ghost hi = end as int + 1;
let ghost t = s.subrange(lo, hi);
proof { assert(trims(s, lo, hi)); assert(t.len() > 0 && t[0] == s[lo]); }
>>>
before ^letstop_value= <<<
let ghost b0 = offset as int;
let ghost body = t.subrange(b0 - lo, t.len() as int);
proof {
    assert(body == if signed(t) { t.subrange(1, t.len() as int) } else { t }) by { if !signed(t) { assert(body =~= t); } }
    assert(forall|i: int| 0 <= i < body.len() ==> #[trigger] body[i] == s[b0 + i]);
    assert(val(body.take(0)) == 0);
}
>>>
loop 2 <<<
invariant_except_break bytes@ == s, s == value.bytes()@, hi == end + 1, hi <= s.len(), b0 <= offset <= hi, body.len() == hi - b0, forall|i: int| 0 <= i < body.len() ==> #[trigger] body[i] == s[b0 + i],
    trims(s, lo, hi), t == s.subrange(lo, hi), t.len() > 0, signed(t) ==> t.len() > 1, body == (if signed(t) { t.subrange(1, t.len() as int) } else { t }),
    stop_value == -214748364, negative == (t[0] == 45u8),
    result == -val(body.take(offset - b0)), result <= 0,
    digits(body.take(offset - b0)), body.len() > 0,
    offset == hi ==> dot(body) == body.len() && digits(body) && body.take(body.len() as int) == body,
ensures bytes@ == s, s == value.bytes()@, hi == end + 1, hi <= s.len(), b0 <= offset <= hi, body.len() == hi - b0, forall|i: int| 0 <= i < body.len() ==> #[trigger] body[i] == s[b0 + i],
    trims(s, lo, hi), t == s.subrange(lo, hi), t.len() > 0, signed(t) ==> t.len() > 1, body == (if signed(t) { t.subrange(1, t.len() as int) } else { t }),
    negative == (t[0] == 45u8), result <= 0,
    dot(body) == (if offset == hi && digits(body) { body.len() as int } else { offset - b0 - 1 }),
    digits(body.take(dot(body))), result == -val(body.take(dot(body))), dot(body) < body.len() ==> offset == b0 + dot(body) + 1,
    0 <= dot(body) <= body.len(),
decreases hi - offset,
>>>
loop-start 2 <<<
proof {
    let k = offset - b0;
    lemma_step(body, k as int);
    assert(body.take(body.len() as int) =~= body);
    assert(!blank(s)) by { assert(!is_space(s[lo])); }
    if body[k] != 46 && !is_digit(body[k]) { assert(number(t) is None); }
    if is_digit(body[k]) && val(body.take(k + 1)) > 0x8000_0000 { assert(number(t) is None); }
}
>>>
loop-after 2 <<<
let ghost d = dot(body);
proof { lemma_dot(body); assert(body.take(body.len() as int) =~= body); }
>>>
loop 3 <<<
invariant bytes@ == s, s == value.bytes()@, hi == end + 1, hi <= s.len(), b0 <= offset <= hi, body.len() == hi - b0, forall|i: int| 0 <= i < body.len() ==> #[trigger] body[i] == s[b0 + i],
    trims(s, lo, hi), t == s.subrange(lo, hi), t.len() > 0, signed(t) ==> t.len() > 1, body == (if signed(t) { t.subrange(1, t.len() as int) } else { t }),
    d == dot(body), 0 <= d <= body.len(), d < body.len() ==> b0 + d + 1 <= offset, d == body.len() ==> offset == hi,
    forall|i: int| d < i < offset - b0 ==> is_digit(#[trigger] body[i]),
decreases hi - offset,
>>>
loop-start 3 <<<
proof { assert(d < body.len()); assert(body.subrange(d + 1, body.len() as int)[offset - b0 - d - 1] == body[offset - b0]);
    assert(!blank(s)) by { assert(!is_space(s[lo])); }
    if !is_digit(body[offset - b0]) { assert(number(t) is None); } }
>>>

fn parse_string_values
noverus
native-sig fn parse_string_values<'a>(values: impl Iterator<Item = Option<&'a str>>) -> Int32Array
