use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
verus! {
global size_of usize == 8;

// ---------- what range(start, end, step) means ----------
spec fn ceil_div(a: int, b: int) -> int { (a + b - 1) / b }
// number of elements of range(s, e, t)
spec fn cnt(s: int, e: int, t: int) -> int {
    if t > 0 { if e > s { ceil_div(e - s, t) } else { 0 } }
    else if t < 0 { if e < s { ceil_div(s - e, -t) } else { 0 } }
    else { 0 }
}
spec fn count(r: Range) -> int { cnt(r.start as int, r.end as int, r.step as int) }
spec fn seqof(s: int, t: int, n: int) -> Seq<int> { Seq::new(n as nat, |k: int| s + k * t) }
// the elements of the range, in order
spec fn elems(r: Range) -> Seq<int> { seqof(r.start as int, r.step as int, count(r)) }
spec fn remaining(it: RangeIterator) -> Seq<int> {
    seqof(it.current as int, it.range.step as int, cnt(it.current as int, it.range.end as int, it.range.step as int))
}
// partition p of np covers element indices [bound(n, p, np), bound(n, p + 1, np))
spec fn bound(n: int, p: int, np: int) -> int { p * n / np }

// ---------- the property as a lemma over the contract of the partition function ----------
// The concatenation of all partitions, in partition order, is the whole sequence; so the partitions are disjoint
// (by position), complete, and ordered, whatever the number of partitions is.
spec fn slice(r: Range, p: int, np: int) -> Seq<int> {
    elems(r).subrange(bound(count(r), p, np), bound(count(r), p + 1, np))
}
spec fn concat_upto(r: Range, p: int, np: int) -> Seq<int>
    decreases p
{
    if p <= 0 { Seq::empty() } else { concat_upto(r, p - 1, np) + slice(r, p - 1, np) }
}
proof fn lemma_bound(n: int, p: int, np: int)
    requires n >= 0, np > 0, 0 <= p <= np,
    ensures 0 <= bound(n, p, np) <= n, bound(n, 0, np) == 0, bound(n, np, np) == n,
        p < np ==> bound(n, p, np) <= bound(n, p + 1, np),
{
    assert(0 <= p * n) by (nonlinear_arith) requires n >= 0, p >= 0;
    assert(p * n <= np * n) by (nonlinear_arith) requires n >= 0, p <= np;
    assert(p * n <= (p + 1) * n) by (nonlinear_arith) requires n >= 0;
    lemma_div_is_ordered(p * n, np * n, np);
    lemma_div_is_ordered(p * n, (p + 1) * n, np);
    lemma_div_is_ordered(0, p * n, np);
    lemma_div_multiples_vanish(n, np);
    assert(np * n == n * np) by (nonlinear_arith);
    assert(0int / np == 0) by (nonlinear_arith) requires np > 0;
    assert(0 * n == 0);
}
proof fn lemma_cnt_nonneg(s: int, e: int, t: int)
    ensures cnt(s, e, t) >= 0,
{
    if t > 0 && e > s { lemma_div_pos_is_pos(e - s + t - 1, t); }
    if t < 0 && e < s { lemma_div_pos_is_pos(s - e - t - 1, -t); }
}
proof fn theorem_partitions_cover(r: Range, p: int, np: int)
    requires np > 0, 0 <= p <= np,
    ensures
        concat_upto(r, p, np) =~= elems(r).take(bound(count(r), p, np)),
        p == np ==> concat_upto(r, np, np) =~= elems(r),
    decreases p
{
    lemma_cnt_nonneg(r.start as int, r.end as int, r.step as int);
    lemma_bound(count(r), p, np);
    if p > 0 {
        lemma_bound(count(r), p - 1, np);
        theorem_partitions_cover(r, p - 1, np);
    }
}

// ---------- arithmetic facts used by the functions ----------
// s + k*t for 0 <= k < n are exactly the elements before the end, and element n is not
proof fn lemma_cnt(s: int, e: int, t: int)
    requires t != 0,
    ensures
        cnt(s, e, t) >= 0,
        cnt(s, e, t) == 0 <==> !(if t > 0 { e > s } else { e < s }),
        cnt(s, e, t) > 0 ==> if t > 0 { s + (cnt(s, e, t) - 1) * t < e <= s + cnt(s, e, t) * t }
            else { s + (cnt(s, e, t) - 1) * t > e >= s + cnt(s, e, t) * t },
{
    lemma_cnt_nonneg(s, e, t);
    let n = cnt(s, e, t);
    if t > 0 && e > s {
        let a = e - s + t - 1;
        lemma_fundamental_div_mod(a, t);
        lemma_mod_bound(a, t);
        assert(a == t * n + a % t);
        assert((n - 1) * t == t * n - t) by (nonlinear_arith);
        assert(n * t == t * n) by (nonlinear_arith);
        assert(n > 0) by (nonlinear_arith) requires a == t * n + a % t, a >= t, a % t < t, t > 0;
    }
    if t < 0 && e < s {
        let a = s - e - t - 1;
        let b = -t;
        lemma_fundamental_div_mod(a, b);
        lemma_mod_bound(a, b);
        assert(a == b * n + a % b);
        assert((n - 1) * t == -(b * n) + b) by (nonlinear_arith) requires b == -t;
        assert(n * t == -(b * n)) by (nonlinear_arith) requires b == -t;
        assert(n > 0) by (nonlinear_arith) requires a == b * n + a % b, a >= b, a % b < b, b > 0;
    }
}
// uniqueness: n is determined by where it stops
proof fn lemma_cnt_is(s: int, e: int, t: int, n: int)
    requires t != 0, n >= 0,
        t > 0 ==> (n == 0 ==> e <= s) && (n > 0 ==> s + (n - 1) * t < e <= s + n * t),
        t < 0 ==> (n == 0 ==> e >= s) && (n > 0 ==> s + (n - 1) * t > e >= s + n * t),
    ensures cnt(s, e, t) == n,
{
    lemma_cnt(s, e, t);
    let m = cnt(s, e, t);
    if n > 0 {
        if t > 0 {
            assert((n - 1) * t >= 0) by (nonlinear_arith) requires n >= 1, t > 0;
            assert(m == n) by (nonlinear_arith) requires t > 0, s + (n - 1) * t < e, e <= s + n * t, s + (m - 1) * t < e, e <= s + m * t;
        } else {
            assert((n - 1) * t <= 0) by (nonlinear_arith) requires n >= 1, t < 0;
            assert(m == n) by (nonlinear_arith) requires t < 0, s + (n - 1) * t > e, e >= s + n * t, s + (m - 1) * t > e, e >= s + m * t;
        }
    }
}
proof fn lemma_next(e: int, t: int, c: int)
    requires t != 0, -0x8000_0000_0000_0000 <= e <= 0x7fff_ffff_ffff_ffff, -0x8000_0000_0000_0000 <= c <= 0x7fff_ffff_ffff_ffff,
    ensures
        cnt(c, e, t) >= 0,
        cnt(c, e, t) == 0 <==> !(if t > 0 { e > c } else { e < c }),
        cnt(c, e, t) > 0 ==> cnt(c + t, e, t) == cnt(c, e, t) - 1
            && seqof(c + t, t, cnt(c, e, t) - 1) =~= seqof(c, t, cnt(c, e, t)).drop_first()
            && seqof(c, t, cnt(c, e, t))[0] == c,
        // stepping past the integer range is stepping past the end
        cnt(c, e, t) > 0 && (c + t > 0x7fff_ffff_ffff_ffff || c + t < -0x8000_0000_0000_0000) ==> cnt(c, e, t) == 1,
        cnt(e, e, t) == 0,
        seqof(e, t, 0).len() == 0,
{
    lemma_cnt(c, e, t);
    lemma_cnt(e, e, t);
    let n = cnt(c, e, t);
    if n > 0 {
        assert((n - 1) * t + t == n * t) by (nonlinear_arith);
        assert((n - 2) * t + t == (n - 1) * t) by (nonlinear_arith);
        if n == 1 { assert((n - 1) * t == 0) by (nonlinear_arith) requires n == 1; }
        lemma_cnt_is(c + t, e, t, n - 1);
        assert forall|k: int| 0 <= k < n - 1 implies #[trigger] seqof(c + t, t, n - 1)[k] == seqof(c, t, n).drop_first()[k] by {
            assert((k + 1) * t == k * t + t) by (nonlinear_arith);
        }
        assert(0 * t == 0);
        if n > 1 {
            if t > 0 { assert((n - 1) * t >= t) by (nonlinear_arith) requires n >= 2, t > 0; }
            else { assert((n - 1) * t <= t) by (nonlinear_arith) requires n >= 2, t < 0; }
        }
    }
}
spec fn clampi(x: int) -> int {
    if x > 0x7fff_ffff_ffff_ffff { 0x7fff_ffff_ffff_ffff } else if x < -0x8000_0000_0000_0000 { -0x8000_0000_0000_0000 } else { x }
}
proof fn lemma_partition(r: Range, p: int, np: int)
    requires r.step != 0, np > 0, 0 <= p < np, np <= 0x4000_0000_0000_0000,
    ensures ({
        let n = count(r);
        let s = r.start as int; let t = r.step as int;
        let lo = bound(n, p, np); let hi = bound(n, p + 1, np);
        let c = cnt(clampi(lo * t + s), clampi(hi * t + s), t);
        &&& 0 <= n <= 0x1_0000_0000_0000_0000
        &&& n > 0 ==> n == (if (if r.end > r.start { r.end - r.start } else { r.start - r.end }) % (if t > 0 { t } else { -t }) == 0
                { (if r.end > r.start { r.end - r.start } else { r.start - r.end }) / (if t > 0 { t } else { -t }) }
                else { (if r.end > r.start { r.end - r.start } else { r.start - r.end }) / (if t > 0 { t } else { -t }) + 1 })
        &&& n == 0 <==> !(if t > 0 { r.end > r.start } else { r.end < r.start })
        &&& 0 <= p * n <= 0x4000_0000_0000_0000 * 0x1_0000_0000_0000_0000
        &&& 0 <= (p + 1) * n <= 0x4000_0000_0000_0000 * 0x1_0000_0000_0000_0000
        &&& p * 0 == 0 && (p + 1) * 0 == 0 && 0int / np == 0 && 0 * t == 0
        &&& 0 <= lo <= hi <= n
        &&& -0x4_0000_0000_0000_0000 <= lo * t <= 0x4_0000_0000_0000_0000
        &&& -0x4_0000_0000_0000_0000 <= hi * t <= 0x4_0000_0000_0000_0000
        &&& c == hi - lo
        &&& seqof(clampi(lo * t + s), t, c) =~= elems(r).subrange(lo, hi)
    }),
{
    let s = r.start as int; let e = r.end as int; let t = r.step as int;
    let n = count(r);
    lemma_cnt(s, e, t);
    lemma_bound(n, p, np);
    lemma_bound(n, p + 1, np);
    let lo = bound(n, p, np); let hi = bound(n, p + 1, np);
    assert(0int / np == 0) by (nonlinear_arith) requires np > 0;
    assert(n <= 0x1_0000_0000_0000_0000) by {
        if n > 0 {
            if t > 0 { assert(n - 1 <= (n - 1) * t) by (nonlinear_arith) requires n >= 1, t >= 1; }
            else { assert(n - 1 <= -((n - 1) * t)) by (nonlinear_arith) requires n >= 1, t <= -1; }
        }
    }
    assert(0 <= p * n <= 0x4000_0000_0000_0000 * 0x1_0000_0000_0000_0000 && 0 <= (p + 1) * n <= 0x4000_0000_0000_0000 * 0x1_0000_0000_0000_0000) by (nonlinear_arith)
        requires 0 <= n <= 0x1_0000_0000_0000_0000, 0 <= p, p + 1 <= 0x4000_0000_0000_0000;
    if n > 0 {
        let d = if e > s { e - s } else { s - e };
        let a = if t > 0 { t } else { -t };
        lemma_fundamental_div_mod(d, a);
        lemma_mod_bound(d, a);
        lemma_div_pos_is_pos(d, a);
        if d % a == 0 {
            assert(d / a > 0) by (nonlinear_arith) requires d == a * (d / a), d > 0, a > 0, d / a >= 0;
            let q = d / a;
            assert((q - 1) * t + t == q * t) by (nonlinear_arith);
            assert(q * t == if t > 0 { a * q } else { -(a * q) }) by (nonlinear_arith) requires a == if t > 0 { t } else { -t };
            lemma_cnt_is(s, e, t, q);
        } else {
            let q = d / a + 1;
            assert((q - 1) * t == if t > 0 { a * (q - 1) } else { -(a * (q - 1)) }) by (nonlinear_arith) requires a == if t > 0 { t } else { -t };
            assert((q - 1) * t + t == q * t) by (nonlinear_arith);
            lemma_cnt_is(s, e, t, q);
        }
        // |lo*t|, |hi*t| <= |n*t| < |e-s| + |t|
        let nt = n * t;
        assert((n - 1) * t + t == n * t) by (nonlinear_arith);
        if t > 0 {
            assert(0 <= lo * t <= hi * t <= n * t) by (nonlinear_arith) requires 0 <= lo <= hi <= n, t > 0;
        } else {
            assert(0 >= lo * t >= hi * t >= n * t) by (nonlinear_arith) requires 0 <= lo <= hi <= n, t < 0;
        }
        let x = lo * t + s; let y = hi * t + s;
        // lo < hi means lo <= n - 1: the start is an element, and the end stops after hi - lo elements even when clamped
        if lo < hi {
            assert((hi - 1) * t + t == hi * t) by (nonlinear_arith);
            if t > 0 {
                assert(lo * t <= (hi - 1) * t <= (n - 1) * t) by (nonlinear_arith) requires 0 <= lo < hi <= n, t > 0;
            } else {
                assert(lo * t >= (hi - 1) * t >= (n - 1) * t) by (nonlinear_arith) requires 0 <= lo < hi <= n, t < 0;
            }
            assert(clampi(x) == x);
            assert(lo * t + (hi - lo) * t == hi * t) by (nonlinear_arith);
            assert(lo * t + (hi - lo - 1) * t == (hi - 1) * t) by (nonlinear_arith);
            lemma_cnt_is(x, clampi(y), t, hi - lo);
            assert forall|k: int| 0 <= k < hi - lo implies #[trigger] seqof(x, t, hi - lo)[k] == elems(r).subrange(lo, hi)[k] by {
                assert((lo + k) * t == lo * t + k * t) by (nonlinear_arith);
            }
        } else {
            lemma_cnt_is(clampi(x), clampi(y), t, 0);
        }
    } else {
        lemma_cnt_is(clampi(s), clampi(s), t, 0);
        assert(p * 0 == 0 && (p + 1) * 0 == 0);
    }
}
// std functions the code calls, verified stand-ins with their documented behaviour
fn vx_clamp(x: i128, lo: i128, hi: i128) -> (r: i128)
    requires lo <= hi,
    ensures r == if x < lo { lo } else if x > hi { hi } else { x },
{ if x < lo { lo } else if x > hi { hi } else { x } }
fn vx_abs(x: i128) -> (r: i128)
    requires x != i128::MIN,
    ensures r == if x < 0 { -x } else { x as int },
{ if x < 0 { -x } else { x } }

//@EXTRACTED@
} // verus!
fn main() {}
