use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use std::sync::Arc;
use std::collections::VecDeque;
verus! {
global size_of usize == 8;
type Result<T> = core::result::Result<T, DataFusionError>;
//@include arrow.rs
enum Poll<T> { Ready(T), Pending }
struct Context { x: u8 }
struct TaskContext { x: u8 }
// an input stream: what it will still return, in order
#[verifier::external_body]
struct SendableRecordBatchStream { x: () }
impl SendableRecordBatchStream {
    uninterp spec fn rest(&self) -> Seq<Result<RecordBatch>>;
    #[verifier::external_body]
    fn poll_next(&mut self, cx: &mut Context) -> (r: Poll<Option<Result<RecordBatch>>>)
        ensures match r {
            Poll::Ready(Some(x)) => old(self).rest() == seq![x] + final(self).rest(),
            Poll::Ready(None) => old(self).rest().len() == 0 && final(self).rest().len() == 0,
            Poll::Pending => old(self).rest() == final(self).rest(),
        },
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_front_mut<'a>(v: &'a mut VecDeque<SendableRecordBatchStream>) -> (r: Option<&'a mut SendableRecordBatchStream>)
    ensures match r {
        Some(x) => old(v)@.len() > 0 && *x == old(v)@[0] && final(v)@ == old(v)@.update(0, *final(x)),
        None => old(v)@.len() == 0 && final(v)@ == old(v)@,
    },
{ v.front_mut() }
// the input plan: `run(i)` is the outcome of executing its partition i
#[verifier::external_body]
struct Plan { x: () }
impl Plan {
    uninterp spec fn parts(&self) -> usize;
    uninterp spec fn run(&self, i: usize) -> Result<SendableRecordBatchStream>;
    spec fn spec_execute(&self, i: usize, c: Arc<TaskContext>) -> Result<SendableRecordBatchStream> { self.run(i) }
    #[verifier::external_body]
    fn vx_partition_count(&self) -> (r: usize) ensures r == self.parts() { unimplemented!() }
    #[verifier::external_body]
    #[verifier::when_used_as_spec(spec_execute)]
    fn execute(&self, i: usize, c: Arc<TaskContext>) -> (r: Result<SendableRecordBatchStream>) ensures r == self.run(i) { unimplemented!() }
}
impl CoalesceExec {
    #[verifier::external_body]
    fn schema(&self) -> SchemaRef { unimplemented!() }
}
// (a..b).map(f).collect::<Result<VecDeque<_>>>()
fn vx_range_map_try_collect<F: Fn(usize) -> Result<SendableRecordBatchStream>>(r: core::ops::Range<usize>, f: F) -> (v: Result<VecDeque<SendableRecordBatchStream>>)
    requires r.start <= r.end, forall|i: usize| r.start <= i < r.end ==> f.requires((i,)),
    ensures match v {
        Ok(d) => d@.len() == r.end - r.start && forall|k: int| 0 <= k < d@.len() ==> f.ensures(((r.start + k) as usize,), Ok(#[trigger] d@[k])),
        Err(_) => true,
    },
{
    let mut d: VecDeque<SendableRecordBatchStream> = VecDeque::new();
    let mut i = r.start;
    while i < r.end
        invariant r.start <= i <= r.end, d@.len() == i - r.start,
            forall|i: usize| r.start <= i < r.end ==> f.requires((i,)),
            forall|k: int| 0 <= k < d@.len() ==> f.ensures(((r.start + k) as usize,), Ok(#[trigger] d@[k])),
        decreases r.end - i,
    {
        match f(i) {
            Ok(x) => { d.push_back(x); }
            Err(e) => { return Err(e); }
        }
        i = i + 1;
    }
    Ok(d)
}
// everything the streams will still return, one after the other
spec fn rest(v: Seq<SendableRecordBatchStream>) -> Seq<Result<RecordBatch>>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else { v[0].rest() + rest(v.drop_first()) }
}
proof fn lemma_rest(a: Seq<SendableRecordBatchStream>, b: Seq<SendableRecordBatchStream>)
    requires a.len() > 0, b.len() == a.len(), forall|k: int| 1 <= k < a.len() ==> a[k] == b[k],
    ensures rest(a) == a[0].rest() + rest(a.drop_first()), rest(b) == b[0].rest() + rest(a.drop_first()), b.drop_first() == a.drop_first(),
        b.subrange(1, b.len() as int) == b.drop_first(),
{
    assert(a.drop_first() =~= b.drop_first());
    assert(b.subrange(1, b.len() as int) =~= b.drop_first());
}
// output partition p of m reads the input partitions [cut(n, p, m), cut(n, p + 1, m))
spec fn cut(n: int, p: int, m: int) -> int { p * n / m }
proof fn lemma_cut(n: int, p: int, m: int)
    requires n >= 0, m > 0, 0 <= p < m,
    ensures 0 <= cut(n, p, m) <= cut(n, p + 1, m) <= n, cut(n, 0, m) == 0, cut(n, m, m) == n,
        m <= n ==> cut(n, p, m) < cut(n, p + 1, m),
        cut(n, p + 1, m) - cut(n, p, m) <= n / m + 1, cut(n, p + 1, m) - cut(n, p, m) >= n / m,
{
    assert(0 <= p * n <= (p + 1) * n <= m * n) by (nonlinear_arith) requires n >= 0, 0 <= p < m;
    lemma_div_is_ordered(0, p * n, m);
    lemma_div_is_ordered(p * n, (p + 1) * n, m);
    lemma_div_is_ordered((p + 1) * n, m * n, m);
    lemma_div_multiples_vanish(n, m);
    assert(m * n == n * m) by (nonlinear_arith);
    assert(0int / m == 0) by (nonlinear_arith) requires m > 0;
    let (a, b, c) = (p * n, (p + 1) * n, n);
    assert((p + 1) * n == p * n + n) by (nonlinear_arith);
    lemma_fundamental_div_mod(a, m); lemma_fundamental_div_mod(b, m); lemma_fundamental_div_mod(c, m);
    lemma_mod_bound(a, m); lemma_mod_bound(b, m); lemma_mod_bound(c, m);
    let (qa, qb, qc) = (a / m, b / m, c / m);
    assert(qb - qa - qc <= 1 && qb - qa - qc >= 0) by (nonlinear_arith)
        requires b == a + c, a == m * qa + a % m, b == m * qb + b % m, c == m * qc + c % m, 0 <= a % m < m, 0 <= b % m < m, 0 <= c % m < m, m > 0;
    if m <= n { assert(qc >= 1) by (nonlinear_arith) requires c == m * qc + c % m, 0 <= c % m < m, m <= c, m > 0; }
}
// the property: over all output partitions the inputs read are 0, 1, .., n - 1, in order, each exactly once
spec fn reads(n: int, m: int, p: int) -> Seq<int>
    decreases p
{
    if p <= 0 { Seq::empty() } else { reads(n, m, p - 1) + Seq::new((cut(n, p, m) - cut(n, p - 1, m)) as nat, |k: int| cut(n, p - 1, m) + k) }
}
proof fn theorem_coalesce_reads_each_input_once(n: int, m: int, p: int)
    requires n >= 0, m > 0, 0 <= p <= m,
    ensures reads(n, m, p) =~= Seq::new(cut(n, p, m) as nat, |k: int| k), p == m ==> cut(n, p, m) == n,
    decreases p
{
    if p > 0 { theorem_coalesce_reads_each_input_once(n, m, p - 1); lemma_cut(n, p - 1, m); if p == m { lemma_cut(n, m - 1, m); } }
    else { lemma_cut(n, 0, m); }
}

//@EXTRACTED@
} // verus!
fn main() {}
