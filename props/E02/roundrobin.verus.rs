use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
verus! {
global size_of usize == 8;
#[verifier::external_body]
struct DataFusionError { x: () }
#[verifier::external_body]
fn vx_err() -> DataFusionError { unimplemented!() }
type Result<T> = core::result::Result<T, DataFusionError>;
// A batch: its columns as sequences of abstract values, and its number of rows (kept apart: a batch may have no columns).
ghost struct Batch { cols: Seq<Seq<int>>, rows: nat }
impl Batch { spec fn ok(self) -> bool { forall|c: int| 0 <= c < self.cols.len() ==> (#[trigger] self.cols[c]).len() == self.rows } }
// trusted stand-ins for Arrow
#[verifier::external_body] struct RecordBatch { x: () }
#[verifier::external_body] struct SchemaRef { x: () }
#[verifier::external_body] struct Columns { x: () }
#[verifier::external_body] struct U32Array { x: () }
struct RecordBatchOptions { row_count: Option<usize> }
impl SchemaRef { #[verifier::external_body] fn clone(&self) -> SchemaRef { unimplemented!() } }
impl Columns { uninterp spec fn view(&self) -> Seq<Seq<int>>; }
impl U32Array {
    uninterp spec fn view(&self) -> Seq<int>;
    #[verifier::external_body] fn len(&self) -> (r: usize) ensures r == self.view().len() { unimplemented!() }
}
impl RecordBatchOptions {
    fn new() -> (r: Self) ensures r.row_count is None { RecordBatchOptions { row_count: None } }
    fn with_row_count(self, n: Option<usize>) -> (r: Self) ensures r.row_count == n { RecordBatchOptions { row_count: n } }
}
impl RecordBatch {
    uninterp spec fn view(&self) -> Batch;
    #[verifier::external_body] fn num_rows(&self) -> (r: usize) ensures r == self.view().rows { unimplemented!() }
    #[verifier::external_body] fn schema(&self) -> SchemaRef { unimplemented!() }
    #[verifier::external_body] fn columns(&self) -> (r: &Columns) ensures r.view() == self.view().cols { unimplemented!() }
    #[verifier::external_body]
    fn try_new_with_options(s: SchemaRef, c: Columns, o: &RecordBatchOptions) -> (r: Result<RecordBatch>)
        ensures r is Ok ==> r->Ok_0.view().cols == c.view() && (match o.row_count {
            Some(n) => r->Ok_0.view().rows == n,
            None => c.view().len() > 0 && r->Ok_0.view().rows == c.view()[0].len(),
        }),
    { unimplemented!() }
}
spec fn sel(cols: Seq<Seq<int>>, idx: Seq<int>) -> Seq<Seq<int>> {
    Seq::new(cols.len(), |c: int| Seq::new(idx.len(), |i: int| cols[c][idx[i]]))
}
#[verifier::external_body]
fn take_arrays(c: &Columns, idx: &U32Array, o: Option<()>) -> (r: Result<Columns>)
    requires forall|i: int, k: int| 0 <= i < idx.view().len() && 0 <= k < c.view().len() ==> 0 <= (#[trigger] idx.view()[i]) < (#[trigger] c.view()[k]).len(),
    ensures r is Ok ==> r->Ok_0.view() == sel(c.view(), idx.view()),
{ unimplemented!() }
spec fn ints(s: Seq<u32>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
#[verifier::external_body]
fn vx_u32_array(v: Vec<u32>) -> (r: U32Array) ensures r.view() == ints(v@) { unimplemented!() }
fn vx_clone_vec(v: &Vec<u32>) -> (r: Vec<u32>) ensures r@ == v@ { v.clone() }
fn vx_vec_of_vecs(n: usize) -> (r: Vec<Vec<u32>>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@ == Seq::<u32>::empty(),
{
    let mut v: Vec<Vec<u32>> = Vec::new();
    let mut i = 0;
    while i < n
        invariant i <= n, v@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] v@[k])@ == Seq::<u32>::empty(),
        decreases n - i,
    { let e: Vec<u32> = Vec::new(); assert(e@ =~= Seq::<u32>::empty()); v.push(e); i = i + 1; }
    v
}
// the caller's callback `f(partition, batch)`: an arbitrary consumer, with the history of what it was given
#[verifier::external_body] struct Sink { x: () }
impl Sink {
    uninterp spec fn log(&self) -> Seq<(int, Batch)>;
    #[verifier::external_body]
    fn call(&mut self, p: usize, b: RecordBatch) -> (r: Result<()>)
        ensures final(self).log() == old(self).log().push((p as int, b.view())),
    { unimplemented!() }
}

// ---------- the property ----------
// row i goes to partition (start + i) mod n; picks are the rows given to partition p, in order
spec fn picks(n: int, start: int, rows: int, p: int) -> Seq<int>
    decreases rows
{
    if rows <= 0 { Seq::empty() }
    else if (start + rows - 1) % n == p { picks(n, start, rows - 1, p).push(rows - 1) }
    else { picks(n, start, rows - 1, p) }
}
spec fn part(b: Batch, n: int, start: int, p: int) -> Batch {
    Batch { cols: sel(b.cols, picks(n, start, b.rows as int, p)), rows: picks(n, start, b.rows as int, p).len() }
}
// what the consumer gets for one batch: partitions 0..upto, skipping those without rows
spec fn deal(b: Batch, n: int, start: int, upto: int) -> Seq<(int, Batch)>
    decreases upto
{
    if upto <= 0 { Seq::empty() }
    else if picks(n, start, b.rows as int, upto - 1).len() == 0 { deal(b, n, start, upto - 1) }
    else { deal(b, n, start, upto - 1).push((upto - 1, part(b, n, start, upto - 1))) }
}
impl RowRoundRobinPartitioner {
    spec fn wf(&self) -> bool { 0 < self.num_partitions <= 0x7fff_ffff && self.next_idx < self.num_partitions }
}
proof fn lemma_start(i: int, n: int, m: int)
    requires 0 <= i < m, 0 < n <= 0x7fff_ffff, m <= 0x7fff_ffff,
    ensures 0 <= i * n <= 0x7fff_ffff * 0x7fff_ffff, 0 <= i * n / m < n,
{
    assert(0 <= i * n <= 0x7fff_ffff * 0x7fff_ffff) by (nonlinear_arith) requires 0 <= i <= 0x7fff_ffff, 0 <= n <= 0x7fff_ffff;
    lemma_fundamental_div_mod(i * n, m);
    lemma_mod_bound(i * n, m);
    lemma_div_pos_is_pos(i * n, m);
    let q = i * n / m; let rm = (i * n) % m;
    assert(q < n) by (nonlinear_arith) requires i * n == m * q + rm, 0 <= rm, i < m, n > 0, m > 0;
}
proof fn lemma_picks_in_range(n: int, start: int, rows: int, p: int)
    ensures forall|i: int| 0 <= i < picks(n, start, rows, p).len() ==> 0 <= #[trigger] picks(n, start, rows, p)[i] < rows,
    decreases rows
{
    if rows > 0 {
        lemma_picks_in_range(n, start, rows - 1, p);
        let (s, t) = (picks(n, start, rows - 1, p), picks(n, start, rows, p));
        assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] t[i] < rows by { if i < s.len() { assert(t[i] == s[i]); } }
    }
}
proof fn lemma_deal_trivial(b: Batch, n: int, start: int, upto: int)
    ensures b.rows == 0 ==> deal(b, n, start, upto) =~= Seq::<(int, Batch)>::empty(),
    decreases upto
{ if upto > 0 { lemma_deal_trivial(b, n, start, upto - 1); } }
proof fn lemma_picks_all(start: int, rows: int)
    requires rows >= 0,
    ensures picks(1, start, rows, 0) =~= Seq::new(rows as nat, |i: int| i),
    decreases rows
{ if rows > 0 { lemma_picks_all(start, rows - 1); assert((start + rows - 1) % 1 == 0); } }
proof fn lemma_deal_one(b: Batch, start: int)
    requires b.ok(),
    ensures b.rows > 0 ==> deal(b, 1, start, 1) =~= seq![(0int, b)],
{
    lemma_picks_all(start, b.rows as int);
    assert(deal(b, 1, start, 0) =~= Seq::<(int, Batch)>::empty());
    let s = sel(b.cols, picks(1, start, b.rows as int, 0));
    assert forall|c: int| 0 <= c < b.cols.len() implies #[trigger] s[c] == b.cols[c] by { assert(s[c] =~= b.cols[c]); }
    assert(s =~= b.cols);
    assert(part(b, 1, start, 0) == b);
}
// every row of the batch goes to exactly one partition, once, in order
proof fn theorem_each_row_once(n: int, start: int, rows: int, p: int, i: int)
    requires n > 0, 0 <= p < n, 0 <= i < rows,
    ensures
        picks(n, start, rows, p).contains(i) <==> (start + i) % n == p,
        picks(n, start, rows, p).no_duplicates(),
        forall|a: int, b: int| 0 <= a < b < picks(n, start, rows, p).len() ==> picks(n, start, rows, p)[a] < picks(n, start, rows, p)[b],
    decreases rows
{
    let s = picks(n, start, rows - 1, p);
    lemma_picks_in_range(n, start, rows - 1, p);
    if i < rows - 1 { theorem_each_row_once(n, start, rows - 1, p, i); }
    else if rows > 1 { theorem_each_row_once(n, start, rows - 1, p, 0); }
    let t = picks(n, start, rows, p);
    if (start + rows - 1) % n == p {
        assert(t == s.push(rows - 1));
        assert(t[t.len() - 1] == rows - 1);
        if s.contains(i) { let k = choose|k: int| 0 <= k < s.len() && s[k] == i; assert(t[k] == i); }
        if t.contains(i) && i < rows - 1 { let k = choose|k: int| 0 <= k < t.len() && t[k] == i; assert(s[k] == i); }
    }
}
// the rows of consecutive batches are spread evenly: after `rows` rows in total any two partitions differ by at most one row
proof fn lemma_balance(n: int, start: int, rows: int, p: int)
    requires n > 0, 0 <= p < n, rows >= 0,
    ensures rows <= picks(n, start, rows, p).len() * n + (p - start) % n < rows + n,
    decreases rows
{
    let off = (p - start) % n;
    lemma_mod_bound(p - start, n);
    if rows > 0 {
        lemma_balance(n, start, rows - 1, p);
        let l = picks(n, start, rows - 1, p).len() as int;
        let r = rows - 1;
        let v = l * n + off;
        // v is congruent to off, hence to r exactly when row r goes to p
        lemma_mod_multiples_vanish(l, off, n);
        assert(n * l + off == v) by (nonlinear_arith) requires v == l * n + off;
        lemma_small_mod(off as nat, n as nat);
        lemma_fundamental_div_mod(p - start, n);
        lemma_fundamental_div_mod(start + r, n);
        lemma_mod_bound(start + r, n);
        let (qa, qb) = ((p - start) / n, (start + r) / n);
        if v == r {
            // start + r = start + l*n + (p - start) - n*qa = p + n*(l - qa)
            assert(start + r == n * (l - qa) + p) by (nonlinear_arith) requires r == l * n + off, p - start == n * qa + off;
            lemma_mod_multiples_vanish(l - qa, p, n);
            lemma_small_mod(p as nat, n as nat);
            assert((start + r) % n == p);
            assert((l + 1) * n == l * n + n) by (nonlinear_arith);
        } else if (start + r) % n == p {
            // then v - r is a multiple of n strictly between 0 and n
            let k = l - qa - qb;
            assert(v - r == n * k) by (nonlinear_arith) requires v == l * n + off, p - start == n * qa + off, start + r == n * qb + p, k == l - qa - qb;
            assert(false) by (nonlinear_arith) requires v - r == n * k, 0 < v - r < n;
        }
    }
}
proof fn theorem_balanced(n: int, start: int, rows: int, p: int, q: int)
    requires n > 0, 0 <= p < n, 0 <= q < n, rows >= 0,
    ensures picks(n, start, rows, p).len() - picks(n, start, rows, q).len() <= 1,
{
    lemma_balance(n, start, rows, p);
    lemma_balance(n, start, rows, q);
    lemma_mod_bound(p - start, n);
    lemma_mod_bound(q - start, n);
    let (a, b) = (picks(n, start, rows, p).len() as int, picks(n, start, rows, q).len() as int);
    let (c, d) = ((p - start) % n, (q - start) % n);
    assert(a - b <= 1) by (nonlinear_arith) requires a * n + c < rows + n, rows <= b * n + d, 0 <= c, d < n, n > 0;
}
// and dealing continues across batches: a batch after r rows starts where the previous one stopped
proof fn theorem_continues(n: int, start: int, r: int, i: int)
    requires n > 0, r >= 0, i >= 0,
    ensures ((start + r) % n + i) % n == (start + (r + i)) % n,
{ lemma_add_mod_noop(start + r, i, n); lemma_add_mod_noop((start + r) % n, i, n); lemma_mod_twice(start + r, n); }

//@EXTRACTED@
} // verus!
fn main() {}
