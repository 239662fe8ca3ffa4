use vstd::prelude::*;
verus! {
global size_of usize == 8;
type Result<T> = core::result::Result<T, DataFusionError>;
//@include arrow.rs
enum Poll<T> { Ready(T), Pending }
struct Context { x: u8 }
// the input of the operator: an arbitrary stream of batches; `delivered` is the history of the batches it has returned
#[verifier::external_body]
struct SendableRecordBatchStream { x: () }
impl SendableRecordBatchStream {
    uninterp spec fn delivered(&self) -> Seq<RecordBatch>;
    uninterp spec fn ended(&self) -> bool;
    #[verifier::external_body]
    fn poll_next(&mut self, cx: &mut Context) -> (r: Poll<Option<Result<RecordBatch>>>)
        ensures match r {
            Poll::Ready(Some(Ok(b))) => final(self).delivered() == old(self).delivered().push(b),
            Poll::Ready(None) => final(self).ended() && final(self).delivered() == old(self).delivered(),
            _ => final(self).delivered() == old(self).delivered(),
        },
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_int64_array(v: Vec<i64>) -> (r: ArrayRef)
    ensures r.ints() =~= v@.map_values(|x: i64| x as int),
{ unimplemented!() }
// (0..n).map(f).collect::<Vec<_>>()
fn vx_range_map_collect<F: Fn(usize) -> i64>(r: core::ops::Range<usize>, f: F) -> (v: Vec<i64>)
    requires r.start <= r.end, forall|i: usize| r.start <= i < r.end ==> f.requires((i,)),
    ensures v.len() == r.end - r.start, forall|k: int| 0 <= k < v.len() ==> f.ensures(((r.start + k) as usize,), #[trigger] v[k]),
{
    let mut v: Vec<i64> = Vec::new();
    let mut i = r.start;
    while i < r.end
        invariant r.start <= i <= r.end, v.len() == i - r.start,
            forall|i: usize| r.start <= i < r.end ==> f.requires((i,)),
            forall|k: int| 0 <= k < v.len() ==> f.ensures(((r.start + k) as usize,), #[trigger] v[k]),
        decreases r.end - i,
    {
        v.push(f(i));
        i = i + 1;
    }
    v
}

// row k of partition p gets the id p * 2^33 + k
spec fn id_of(p: int, k: int) -> int { p * 0x2_0000_0000 + k }
spec fn is_ids(s: Seq<int>, p: int, from: int, n: int) -> bool {
    s.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] s[i] == id_of(p, from + i)
}
impl MonotonicIdStream {
    spec fn wf(&self) -> bool { self.partition < 0x4000_0000 && self.offset <= 0x2_0000_0000 }
}
proof fn lemma_shift(p: usize)
    requires p < 0x4000_0000,
    ensures ((p as u64) << 33) == p * 0x2_0000_0000, ((p as u64) << 33) <= 0x4000_0000 * 0x2_0000_0000 - 0x2_0000_0000,
{
    let q = p as u64;
    assert((q << 33) == q * 0x2_0000_0000u64) by (bit_vector) requires q < 0x4000_0000u64;
}
// the property: ids are unique over all partitions and rows, increase within a partition, and are non-negative 64-bit integers
proof fn theorem_ids_unique(p: int, k: int, q: int, l: int)
    requires 0 <= p < 0x4000_0000, 0 <= q < 0x4000_0000, 0 <= k < 0x2_0000_0000, 0 <= l < 0x2_0000_0000,
    ensures id_of(p, k) == id_of(q, l) ==> p == q && k == l, p == q && k < l ==> id_of(p, k) < id_of(q, l),
        0 <= id_of(p, k) <= 0x7fff_ffff_ffff_ffff,
{}

//@EXTRACTED@
} // verus!
fn main() {}
