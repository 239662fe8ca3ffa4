use vstd::prelude::*;
verus! {
global size_of usize == 8;
// a UTF-8 string, read as its bytes
struct Text { b: Vec<u8> }
impl Text {
    spec fn bytes(&self) -> Vec<u8> { self.b }
    fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.bytes()@ { self.b.as_slice() }
}
fn vx_is_ascii_digit(b: u8) -> (r: bool) ensures r == is_digit(b) { b >= 48 && b <= 57 }
fn vx_checked_neg(x: i32) -> (r: Option<i32>) ensures r == (if x == i32::MIN { None::<i32> } else { Some((-x) as i32) }) { if x == i32::MIN { None } else { Some(-x) } }

// ---------- what the cast means ----------
spec fn is_space(b: u8) -> bool { b <= 32 || b == 127 }
spec fn is_digit(b: u8) -> bool { 48 <= b <= 57 }
spec fn digits(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
// decimal value of a digit string
spec fn val(s: Seq<u8>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { val(s.drop_last()) * 10 + (s.last() - 48) } }
// s[lo..hi] is s without the blanks at both ends
spec fn trims(s: Seq<u8>, lo: int, hi: int) -> bool {
    &&& 0 <= lo < hi <= s.len()
    &&& forall|i: int| 0 <= i < lo ==> is_space(#[trigger] s[i])
    &&& forall|i: int| hi <= i < s.len() ==> is_space(#[trigger] s[i])
    &&& !is_space(s[lo]) && !is_space(s[hi - 1])
}
spec fn signed(t: Seq<u8>) -> bool { t[0] == 45 || t[0] == 43 }
// position of the first '.', or the length
spec fn dot(b: Seq<u8>) -> int
    decreases b.len()
{ if b.len() == 0 { 0 } else if b[0] == 46 { 0 } else { 1 + dot(b.drop_first()) } }
// optional sign, digits, optionally a point and digits; not just a sign. The value is the integer part.
spec fn number(t: Seq<u8>) -> Option<int> {
    let b = if signed(t) { t.subrange(1, t.len() as int) } else { t };
    let d = dot(b);
    if b.len() == 0 || !digits(b.take(d)) || (d < b.len() && !digits(b.subrange(d + 1, b.len() as int))) { None }
    else {
        let v = if t[0] == 45 { -val(b.take(d)) } else { val(b.take(d)) };
        if -0x8000_0000 <= v <= 0x7fff_ffff { Some(v) } else { None }
    }
}
spec fn blank(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_space(#[trigger] s[i]) }
spec fn agrees(r: Option<i32>, w: Option<int>) -> bool {
    match (r, w) { (Some(a), Some(b)) => a == b, (None, None) => true, _ => false }
}
spec fn cast_is(s: Seq<u8>, r: Option<i32>) -> bool {
    if blank(s) { r is None } else { exists|lo: int, hi: int| #[trigger] trims(s, lo, hi) && agrees(r, number(s.subrange(lo, hi))) }
}
// the trimmed part is unique, so the specification determines the result
proof fn theorem_trim_unique(s: Seq<u8>, a: int, b: int, c: int, d: int)
    requires trims(s, a, b), trims(s, c, d),
    ensures a == c && b == d, !blank(s),
{
    assert(!is_space(s[a]) && !is_space(s[c]) && !is_space(s[b - 1]) && !is_space(s[d - 1]));
}
proof fn theorem_cast_determined(s: Seq<u8>, r: Option<i32>, q: Option<i32>)
    requires cast_is(s, r), cast_is(s, q),
    ensures r == q,
{
    if !blank(s) {
        let (a, b) = choose|lo: int, hi: int| #[trigger] trims(s, lo, hi) && agrees(r, number(s.subrange(lo, hi)));
        let (c, d) = choose|lo: int, hi: int| #[trigger] trims(s, lo, hi) && agrees(q, number(s.subrange(lo, hi)));
        theorem_trim_unique(s, a, b, c, d);
    }
}
proof fn lemma_dot(b: Seq<u8>)
    ensures 0 <= dot(b) <= b.len(), forall|i: int| 0 <= i < dot(b) ==> #[trigger] b[i] != 46, dot(b) < b.len() ==> b[dot(b)] == 46,
    decreases b.len()
{
    if b.len() > 0 && b[0] != 46 {
        lemma_dot(b.drop_first());
        assert forall|i: int| 0 <= i < dot(b) implies #[trigger] b[i] != 46 by { if i > 0 { assert(b.drop_first()[i - 1] == b[i]); } }
    }
}
proof fn lemma_dot_is(b: Seq<u8>, k: int)
    requires 0 <= k <= b.len(), forall|i: int| 0 <= i < k ==> #[trigger] b[i] != 46, k < b.len() ==> b[k] == 46,
    ensures dot(b) == k,
{ lemma_dot(b); }
proof fn lemma_val_mono(b: Seq<u8>, k: int, m: int)
    requires 0 <= k <= m <= b.len(), digits(b.take(m)),
    ensures 0 <= val(b.take(k)) <= val(b.take(m)),
    decreases m
{
    assert(b.take(0) =~= Seq::<u8>::empty());
    if m > 0 {
        assert(b.take(m).drop_last() =~= b.take(m - 1));
        assert(b.take(m).last() == b[m - 1]);
        assert(is_digit(b.take(m)[m - 1]));
        assert forall|i: int| 0 <= i < m - 1 implies is_digit(#[trigger] b.take(m - 1)[i]) by { assert(b.take(m)[i] == b.take(m - 1)[i]); }
        if k < m { lemma_val_mono(b, k, m - 1); } else { lemma_val_mono(b, m - 1, m - 1); }
    }
}
// everything one step of the digit loop needs, at position k of the body
proof fn lemma_step(b: Seq<u8>, k: int)
    requires 0 <= k < b.len(), digits(b.take(k)),
    ensures
        0 <= val(b.take(k)),
        b[k] == 46 ==> dot(b) == k && !digits(b),
        is_digit(b[k]) ==> digits(b.take(k + 1)) && val(b.take(k + 1)) == val(b.take(k)) * 10 + (b[k] - 48),
        b[k] != 46 && !is_digit(b[k]) ==> dot(b) > k && !digits(b.take(dot(b))),
        // once the value is out of range it stays out of range
        is_digit(b[k]) ==> dot(b) > k && (digits(b.take(dot(b))) ==> val(b.take(dot(b))) >= val(b.take(k + 1))),
        k + 1 == b.len() && is_digit(b[k]) ==> dot(b) == b.len() && digits(b),
{
    assert forall|i: int| 0 <= i < k implies #[trigger] b[i] != 46 && is_digit(b[i]) by { assert(b.take(k)[i] == b[i]); }
    lemma_val_mono(b, 0, k);
    assert(b.take(0) =~= Seq::<u8>::empty());
    lemma_dot(b);
    if b[k] == 46 { lemma_dot_is(b, k); assert(!is_digit(b[k])); }
    else {
        assert(dot(b) > k);
        assert(b.take(dot(b))[k] == b[k]);
        if is_digit(b[k]) {
            assert(b.take(k + 1).drop_last() =~= b.take(k));
            if digits(b.take(dot(b))) { lemma_val_mono(b, k + 1, dot(b)); }
            if k + 1 == b.len() { lemma_dot_is(b, k + 1); }
        }
    }
}

//@EXTRACTED@
} // verus!
fn main() {}
