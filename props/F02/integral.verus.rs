use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
verus! {
global size_of usize == 8;
//@include arith.rs
#[verifier::external_body]
struct DataFusionError { x: () }
#[verifier::external_body]
fn vx_err() -> DataFusionError { unimplemented!() }
type Result<T> = core::result::Result<T, DataFusionError>;
fn vx_map_err<T>(r: core::result::Result<T, ()>) -> (x: Result<T>)
    ensures r is Ok ==> x is Ok && x->Ok_0 == r->Ok_0, r is Err ==> x is Err
{ match r { Ok(v) => Ok(v), Err(_) => Err(vx_err()) } }
fn vx_ok_or<T>(r: Option<T>) -> (x: Result<T>)
    ensures r is Some ==> x is Ok && x->Ok_0 == r->Some_0, r is None ==> x is Err
{ match r { Some(v) => Ok(v), None => Err(vx_err()) } }
// integer conversions
fn vx_i64_try_from(x: i128) -> (r: core::result::Result<i64, ()>)
    ensures r is Ok <==> i64::MIN <= x <= i64::MAX, r is Ok ==> r->Ok_0 == x
{ if x >= i64::MIN as i128 && x <= i64::MAX as i128 { Ok(x as i64) } else { Err(()) } }
fn vx_i32_try_from(x: usize) -> (r: core::result::Result<i32, ()>)
    ensures r is Ok <==> x <= i32::MAX, r is Ok ==> r->Ok_0 == x
{ if x <= i32::MAX as usize { Ok(x as i32) } else { Err(()) } }
fn vx_usize_try_from(x: i128) -> (r: core::result::Result<usize, ()>)
    ensures r is Ok <==> 0 <= x <= usize::MAX, r is Ok ==> r->Ok_0 == x
{ if x >= 0 && x <= usize::MAX as i128 { Ok(x as usize) } else { Err(()) } }
// the element types of integral sequences: Copy + Into<i128> + TryFrom<i128>
trait VxInt: Copy {
    spec fn v(self) -> int;
    spec fn fits(x: int) -> bool;
    proof fn small(self) ensures -0x8000_0000_0000_0000 <= self.v() <= 0x7fff_ffff_ffff_ffff;
    fn vx_into(self) -> (r: i128) ensures r == self.v();
    fn vx_try_from(x: i128) -> (r: core::result::Result<Self, ()>) ensures r is Ok <==> Self::fits(x as int), r is Ok ==> r->Ok_0.v() == x;
}
impl VxInt for i64 {
    spec fn v(self) -> int { self as int }
    spec fn fits(x: int) -> bool { i64::MIN <= x <= i64::MAX }
    proof fn small(self) {}
    fn vx_into(self) -> i128 { self as i128 }
    fn vx_try_from(x: i128) -> core::result::Result<i64, ()> { if x >= i64::MIN as i128 && x <= i64::MAX as i128 { Ok(x as i64) } else { Err(()) } }
}
impl VxInt for i32 {
    spec fn v(self) -> int { self as int }
    spec fn fits(x: int) -> bool { i32::MIN <= x <= i32::MAX }
    proof fn small(self) {}
    fn vx_into(self) -> i128 { self as i128 }
    fn vx_try_from(x: i128) -> core::result::Result<i32, ()> { if x >= i32::MIN as i128 && x <= i32::MAX as i128 { Ok(x as i32) } else { Err(()) } }
}
impl VxInt for i16 {
    spec fn v(self) -> int { self as int }
    spec fn fits(x: int) -> bool { i16::MIN <= x <= i16::MAX }
    proof fn small(self) {}
    fn vx_into(self) -> i128 { self as i128 }
    fn vx_try_from(x: i128) -> core::result::Result<i16, ()> { if x >= i16::MIN as i128 && x <= i16::MAX as i128 { Ok(x as i16) } else { Err(()) } }
}
impl VxInt for i8 {
    spec fn v(self) -> int { self as int }
    spec fn fits(x: int) -> bool { i8::MIN <= x <= i8::MAX }
    proof fn small(self) {}
    fn vx_into(self) -> i128 { self as i128 }
    fn vx_try_from(x: i128) -> core::result::Result<i8, ()> { if x >= i8::MIN as i128 && x <= i8::MAX as i128 { Ok(x as i8) } else { Err(()) } }
}
#[verifier::external_body]
fn reserve<T>(values: &mut Vec<T>, additional: usize) -> (r: Result<()>)
    ensures final(values)@ == old(values)@
{ unimplemented!() }

// ---------- the property ----------
spec fn legal(a: int, b: int, s: int) -> bool { (s > 0 && a <= b) || (s < 0 && a >= b) || (s == 0 && a == b) }
// number of elements: a, a + s, .. while not past b
spec fn count(a: int, b: int, s: int) -> int {
    if s > 0 && b >= a { (b - a) / s + 1 } else if s < 0 && a >= b { (a - b) / (-s) + 1 } else if a == b { 1 } else { 0 }
}
spec fn max_len() -> int { 0x7fff_ffff - 15 }
spec fn length_is(a: int, b: int, s: int, r: Result<usize>) -> bool {
    match r {
        Ok(n) => legal(a, b, s) && n == count(a, b, s) && n <= max_len(),
        Err(_) => !legal(a, b, s) || count(a, b, s) > max_len() || !(-0x8000_0000_0000_0000 <= b - a <= 0x7fff_ffff_ffff_ffff),
    }
}
proof fn lemma_length(a: int, b: int, s: int)
    requires s != 0, -0x8000_0000_0000_0000 <= a <= 0x7fff_ffff_ffff_ffff, -0x8000_0000_0000_0000 <= b <= 0x7fff_ffff_ffff_ffff,
    ensures
        forall|x: int| #![trigger x / s] legal(a, b, s) && b > a && x == b - a ==> 0 <= x / s <= b - a && count(a, b, s) == x / s + 1,
        forall|x: int| #![trigger x / s] legal(a, b, s) && b < a && x == a - b ==> s < 0 && count(a, b, s) == -(x / s) + 1 && 0 <= -(x / s) <= a - b && (s != -1 ==> -(x / s) < a - b),
        a == b ==> count(a, b, s) == 1,
        s == -1 && a > b ==> count(a, b, s) == a - b + 1,
{
    if b >= a { lemma_tdiv(b - a, s); } else { lemma_tdiv(a - b, s); }
    assert(0int / s == 0) by (nonlinear_arith) requires s != 0;
    assert(0int / (-s) == 0) by (nonlinear_arith) requires s != 0;
    if b < a && s < -1 {
        let c = -s; lemma_fundamental_div_mod(a - b, c); lemma_mod_bound(a - b, c);
        let q = (a - b) / c;
        assert(q < a - b) by (nonlinear_arith) requires a - b == c * q + (a - b) % c, (a - b) % c >= 0, c >= 2, a - b > 0;
    }
    if s == -1 && a > b { assert((a - b) / 1 == a - b); assert(-s == 1); }
}
spec fn elem(a: int, s: int, i: int) -> int { a + i * s }
// what `count` means: the last element is not past b, the next one would be
proof fn theorem_sequence_inclusive(a: int, b: int, s: int)
    requires legal(a, b, s),
    ensures
        count(a, b, s) >= 1,
        s > 0 ==> a + (count(a, b, s) - 1) * s <= b < a + count(a, b, s) * s,
        s < 0 ==> a + (count(a, b, s) - 1) * s >= b > a + count(a, b, s) * s,
{
    let c = if s > 0 { s } else { -s };
    let d = if s > 0 { b - a } else { a - b };
    if s != 0 {
        lemma_fundamental_div_mod(d, c); lemma_mod_bound(d, c); lemma_div_pos_is_pos(d, c);
        let q = d / c;
        assert(q * s == if s > 0 { c * q } else { -(c * q) }) by (nonlinear_arith) requires c == if s > 0 { s } else { -s };
        assert((q + 1) * s == q * s + s) by (nonlinear_arith);
    }
}
// every element lies between the bounds, so it fits the element type
proof fn theorem_elements_between(a: int, b: int, s: int, i: int)
    requires legal(a, b, s), 0 <= i < count(a, b, s),
    ensures s >= 0 ==> a <= a + i * s <= b, s <= 0 ==> b <= a + i * s <= a,
{
    theorem_sequence_inclusive(a, b, s);
    let n = count(a, b, s);
    if s > 0 { assert(0 <= i * s <= (n - 1) * s) by (nonlinear_arith) requires 0 <= i <= n - 1, s > 0; }
    else if s < 0 { assert(0 >= i * s >= (n - 1) * s) by (nonlinear_arith) requires 0 <= i <= n - 1, s < 0; }
    else { assert(i * 0 == 0); }
}

//@EXTRACTED@
} // verus!
fn main() {}
