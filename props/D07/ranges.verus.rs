use vstd::prelude::*;
verus! {
global size_of usize == 8;
#[verifier::external_body]
struct DeltaTableError { x: () }
#[verifier::external_body]
struct ArrowError { x: () }
impl DeltaTableError {
    #[verifier::external_body]
    fn schema(s: &str) -> Self { unimplemented!() }
}
#[verifier::external_body]
struct ScalarValue { x: () }
#[verifier::external_body]
struct DataType { x: () }
impl DataType {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
struct SortField { x: () }
impl SortField {
    #[verifier::external_body]
    fn new(t: DataType) -> Self { unimplemented!() }
}
// an array of values; value(i) is the value of row i, a null included
#[verifier::external_body]
struct ArrayRef { x: () }
impl ArrayRef {
    uninterp spec fn value(&self, i: int) -> ScalarValue;
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    fn data_type(&self) -> &DataType { unimplemented!() }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &ArrayRef) ensures *r == *self { unimplemented!() }
}
impl ScalarValue {
    #[verifier::external_body]
    fn from_array(a: &ArrayRef, i: usize) -> (r: Option<ScalarValue>) ensures r is Some ==> r->Some_0 == a.value(i as int) { unimplemented!() }
}
#[verifier::external_body]
struct SchemaRef { x: () }
impl SchemaRef {
    uninterp spec fn index(&self, name: Seq<char>) -> int;
    uninterp spec fn len(&self) -> nat;
    #[verifier::external_body]
    fn index_of(&self, name: &String) -> (r: core::result::Result<usize, ArrowError>) ensures r is Ok ==> r->Ok_0 == self.index(name@) && r->Ok_0 < self.len() { unimplemented!() }
}
#[verifier::external_body]
struct RecordBatch { x: () }
impl RecordBatch {
    uninterp spec fn cols(&self) -> Seq<ArrayRef>;
    uninterp spec fn rows(&self) -> nat;
    uninterp spec fn schema_of(&self) -> SchemaRef;
    #[verifier::external_body]
    fn num_rows(&self) -> (r: usize) ensures r == self.rows() { unimplemented!() }
    #[verifier::external_body]
    fn schema(&self) -> (r: SchemaRef) ensures r == self.schema_of(), r.len() == self.cols().len() { unimplemented!() }
    #[verifier::external_body]
    fn column(&self, i: usize) -> (r: &ArrayRef) requires i < self.cols().len() ensures *r == self.cols()[i as int] { unimplemented!() }
}
#[verifier::external_body]
fn vx_map_err<T>(r: core::result::Result<T, ArrowError>) -> (x: Result<T, DeltaTableError>)
    ensures r is Ok ==> x is Ok && x->Ok_0 == r->Ok_0, r is Err ==> x is Err
{ unimplemented!() }
#[verifier::external_body]
fn vx_ok_or<T>(r: Option<T>) -> (x: Result<T, DeltaTableError>)
    ensures r is Some ==> x is Ok && x->Ok_0 == r->Some_0, r is None ==> x is Err
{ unimplemented!() }
#[verifier::external_body]
fn vx_map<T, U, F: Fn(&T) -> U>(s: &Vec<T>, f: F) -> (r: Vec<U>)
    requires forall|i: int| 0 <= i < s@.len() ==> f.requires((&#[trigger] s@[i],)),
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> f.ensures((&s@[i],), #[trigger] r@[i]),
{ unimplemented!() }
#[verifier::external_body]
fn vx_try_map<T, U, F: Fn(&T) -> Result<U, DeltaTableError>>(s: &[T], f: F) -> (r: Result<Vec<U>, DeltaTableError>)
    requires forall|i: int| 0 <= i < s@.len() ==> f.requires((&#[trigger] s@[i],)),
    ensures r is Ok ==> r->Ok_0@.len() == s@.len() && forall|i: int| 0 <= i < s@.len() ==> f.ensures((&s@[i],), Ok(#[trigger] r->Ok_0@[i])),
{ unimplemented!() }
// a map with string keys in insertion order
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
struct IndexMap<K, V> { k: K, v: V }
impl IndexMap<String, ScalarValue> {
    uninterp spec fn m(&self) -> Map<Seq<char>, ScalarValue>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r.m() == Map::<Seq<char>, ScalarValue>::empty() { unimplemented!() }
}
// later entries replace earlier ones of the same name
#[verifier::external_body]
fn vx_zip(k: &[String], v: Vec<ScalarValue>) -> (r: IndexMap<String, ScalarValue>)
    ensures forall|i: int| 0 <= i < k@.len() && i < v@.len() && (forall|j: int| i < j < k@.len() ==> (#[trigger] k@[j])@ != k@[i]@)
        ==> r.m().contains_key(#[trigger] k@[i]@) && r.m()[k@[i]@] == v@[i],
{ unimplemented!() }
// the rows of some arrays in a comparable form: equal exactly if all their values are
#[derive(Clone, Copy)]
#[verifier::external_body]
struct VxRow { x: () }
impl VxRow { uninterp spec fn key(&self) -> Seq<ScalarValue>; }
spec fn key(cols: Seq<ArrayRef>, i: int) -> Seq<ScalarValue> { Seq::new(cols.len(), |c: int| cols[c].value(i)) }
#[verifier::external_body]
fn vx_row_eq(a: &VxRow, b: &VxRow) -> (r: bool) ensures r == (a.key() =~= b.key()) { unimplemented!() }
#[verifier::external_body]
struct Rows { x: () }
impl Rows {
    uninterp spec fn cols(&self) -> Seq<ArrayRef>;
    uninterp spec fn rows(&self) -> nat;
    #[verifier::external_body]
    fn num_rows(&self) -> (r: usize) ensures r == self.rows() { unimplemented!() }
    #[verifier::external_body]
    fn row(&self, i: usize) -> (r: VxRow) requires i < self.rows() ensures r.key() == key(self.cols(), i as int) { unimplemented!() }
}
#[verifier::external_body]
struct RowConverter { x: () }
uninterp spec fn arr_len(a: Seq<ArrayRef>) -> nat;
impl RowConverter {
    #[verifier::external_body]
    fn new(f: Vec<SortField>) -> core::result::Result<RowConverter, ArrowError> { unimplemented!() }
    #[verifier::external_body]
    fn convert_columns(&self, a: &Vec<ArrayRef>) -> (r: core::result::Result<Rows, ArrowError>)
        ensures r is Ok ==> r->Ok_0.cols() == a@ && r->Ok_0.rows() == arr_len(a@)
    { unimplemented!() }
}
// the arrays of a batch have one value per row
axiom fn axiom_lengths(b: RecordBatch, a: Seq<ArrayRef>)
    requires a.len() > 0, forall|i: int| 0 <= i < a.len() ==> b.cols().contains(#[trigger] a[i]),
    ensures arr_len(a) == b.rows();
// ---- the contracts
spec fn distinct(n: Seq<String>) -> bool { forall|i: int, j: int| 0 <= i < j < n.len() ==> (#[trigger] n[j])@ != (#[trigger] n[i])@ }
// the ranges are non-empty and follow each other from a to b
spec fn tiles(r: Seq<PartitionRange>, a: int, b: int) -> bool decreases r.len() {
    if r.len() == 0 { a == b } else { r.last().end == b && r.last().start < b && tiles(r.drop_last(), a, r.last().start as int) }
}
// every row of the range has the range's partition values
spec fn filed(v: RecordBatch, names: Seq<String>, r: PartitionRange) -> bool {
    forall|c: int, i: int| #![trigger names[c], col_value(v, v.schema_of().index(names[c]@), i)] 0 <= c < names.len() && r.start <= i < r.end ==>
        r.partition_values.m().contains_key(names[c]@) && r.partition_values.m()[names[c]@] == col_value(v, v.schema_of().index(names[c]@), i)
}
spec fn col_value(v: RecordBatch, c: int, i: int) -> ScalarValue { v.cols()[c].value(i) }
proof fn lemma_key(a: Seq<ArrayRef>, i: int, j: int, c: int)
    requires key(a, i) == key(a, j), 0 <= c < a.len(),
    ensures a[c].value(i) == a[c].value(j)
{
    let k = key(a, i); assert(k[c] == a[c].value(i)); assert(key(a, j)[c] == a[c].value(j));
}
//@EXTRACTED@
} // verus!
fn main() {}
