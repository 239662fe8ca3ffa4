use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
global size_of usize == 8;
#[verifier::external_body]
fn vx_cmp_i128(a: &i128, b: &i128) -> (r: Option<Ordering>)
    ensures r == Some(if *a < *b { Ordering::Less } else if *a == *b { Ordering::Equal } else { Ordering::Greater })
{ unimplemented!() }
fn vx_checked_add(a: u64, b: u64) -> (r: Option<u64>)
    ensures r == (if a + b <= u64::MAX { Some((a + b) as u64) } else { None })
{ a.checked_add(b) }
struct DecimalScalar { unscaled: i128, number: u8 }
// a column value; sle is the order of values of one column, which floating-point NaN is not part of
#[verifier::external_body]
pub struct StatsScalar { x: () }
pub uninterp spec fn sle(a: StatsScalar, b: StatsScalar) -> bool;
pub uninterp spec fn nan(a: StatsScalar) -> bool;
axiom fn axiom_sle(a: StatsScalar, b: StatsScalar, c: StatsScalar)
    ensures sle(a, a), sle(a, b) || sle(b, a), sle(a, b) && sle(b, c) ==> sle(a, c);
impl PartialEq for StatsScalar {
    #[verifier::external_body]
    fn eq(&self, o: &StatsScalar) -> (r: bool) { unimplemented!() }
}
impl PartialOrd for StatsScalar {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &StatsScalar) -> (r: Option<Ordering>) { unimplemented!() }
}
pub open spec fn scmp(a: StatsScalar, b: StatsScalar) -> Option<Ordering> {
    if nan(a) || nan(b) { None } else if !sle(b, a) { Some(Ordering::Less) } else if sle(a, b) { Some(Ordering::Equal) } else { Some(Ordering::Greater) }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for StatsScalar {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &StatsScalar) -> bool { scmp(*self, *o) == Some(Ordering::Equal) }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for StatsScalar {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &StatsScalar) -> Option<Ordering> { scmp(*self, *o) }
}
// ---- what statistics say about the values of a column
spec fn nulls(v: Seq<Option<StatsScalar>>) -> nat decreases v.len() {
    if v.len() == 0 { 0 } else { nulls(v.drop_last()) + (if v.last() is None { 1nat } else { 0 }) }
}
spec fn bounds_ok(min: Option<StatsScalar>, max: Option<StatsScalar>, v: Seq<Option<StatsScalar>>) -> bool {
    &&& min is Some ==> !nan(min->Some_0) && forall|i: int| 0 <= i < v.len() && (#[trigger] v[i]) is Some && !nan(v[i]->Some_0) ==> sle(min->Some_0, v[i]->Some_0)
    &&& max is Some ==> !nan(max->Some_0) && forall|i: int| 0 <= i < v.len() && (#[trigger] v[i]) is Some && !nan(v[i]->Some_0) ==> sle(v[i]->Some_0, max->Some_0)
}
spec fn describes(s: AggregatedStats, v: Seq<Option<StatsScalar>>) -> bool {
    &&& s.null_count is Some ==> s.null_count->Some_0 == nulls(v)
    &&& s.all_null ==> forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is None
    &&& bounds_ok(s.min, s.max, v)
}
proof fn lemma_nulls(a: Seq<Option<StatsScalar>>, b: Seq<Option<StatsScalar>>)
    ensures nulls(a + b) == nulls(a) + nulls(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_nulls(a, b.drop_last()); }
}
proof fn sle_facts()
    ensures forall|a: StatsScalar, b: StatsScalar| #[trigger] sle(a, b) || sle(b, a),
        forall|a: StatsScalar, b: StatsScalar, c: StatsScalar| #[trigger] sle(a, b) && #[trigger] sle(b, c) ==> sle(a, c),
{
    assert forall|a: StatsScalar, b: StatsScalar| #[trigger] sle(a, b) || sle(b, a) by { axiom_sle(a, b, a); }
    assert forall|a: StatsScalar, b: StatsScalar, c: StatsScalar| #[trigger] sle(a, b) && #[trigger] sle(b, c) implies sle(a, c) by { axiom_sle(a, b, c); }
}
// bounds that are below (above) those of both sides, where a side without values has none to cover, hold for both sides together
spec fn covers(l: AggregatedStats, r: AggregatedStats, min: Option<StatsScalar>, max: Option<StatsScalar>) -> bool {
    &&& min is Some ==> (l.all_null || (l.min is Some && (nan(l.min->Some_0) || sle(min->Some_0, l.min->Some_0)))) && (r.all_null || (r.min is Some && (nan(r.min->Some_0) || sle(min->Some_0, r.min->Some_0))))
        && (min == l.min || min == r.min)
    &&& max is Some ==> (l.all_null || (l.max is Some && (nan(l.max->Some_0) || sle(l.max->Some_0, max->Some_0)))) && (r.all_null || (r.max is Some && (nan(r.max->Some_0) || sle(r.max->Some_0, max->Some_0))))
        && (max == l.max || max == r.max)
}
proof fn lemma_bounds(l: AggregatedStats, r: AggregatedStats, min: Option<StatsScalar>, max: Option<StatsScalar>, a: Seq<Option<StatsScalar>>, b: Seq<Option<StatsScalar>>)
    requires covers(l, r, min, max), describes(l, a), describes(r, b),
    ensures bounds_ok(min, max, a + b)
{
    sle_facts();
    let v = a + b;
    assert forall|i: int| 0 <= i < v.len() && (#[trigger] v[i]) is Some && !nan(v[i]->Some_0) && min is Some implies sle(min->Some_0, v[i]->Some_0) by {
        if i < a.len() { assert(v[i] == a[i]); } else { assert(v[i] == b[i - a.len()]); }
    }
    assert forall|i: int| 0 <= i < v.len() && (#[trigger] v[i]) is Some && !nan(v[i]->Some_0) && max is Some implies sle(v[i]->Some_0, max->Some_0) by {
        if i < a.len() { assert(v[i] == a[i]); } else { assert(v[i] == b[i - a.len()]); }
    }
}
//@EXTRACTED@
} // verus!
fn main() {}
