// Trusted stand-ins for the Arrow types the code under contract handles: opaque values with an abstract view.
#[verifier::external_body]
struct DataFusionError { x: () }
#[verifier::external_body]
struct ArrowError { x: () }
#[verifier::external_body]
fn vx_err() -> (r: DataFusionError) { unimplemented!() }
#[verifier::external_body]
struct ArrayRef { x: () }
impl ArrayRef {
    // the integer values of an integer array without nulls
    uninterp spec fn ints(&self) -> Seq<int>;
}
#[verifier::external_body]
struct SchemaRef { x: () }
impl SchemaRef {
    uninterp spec fn index(&self, name: Seq<char>) -> int;
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    fn index_of(&self, name: &String) -> (r: Result<usize>) ensures r is Ok ==> r->Ok_0 == self.index(name@) { unimplemented!() }
}
#[verifier::external_body]
struct RecordBatch { x: () }
impl RecordBatch {
    uninterp spec fn cols(&self) -> Seq<ArrayRef>;
    uninterp spec fn rows(&self) -> nat;
    #[verifier::external_body]
    fn num_rows(&self) -> (r: usize) ensures r == self.rows(), r <= 0x1_0000_0000_0000 { unimplemented!() }
    #[verifier::external_body]
    fn vx_columns(&self) -> (r: Vec<ArrayRef>) ensures r@ == self.cols() { unimplemented!() }
    #[verifier::external_body]
    fn try_new(schema: SchemaRef, cols: Vec<ArrayRef>) -> (r: core::result::Result<RecordBatch, ArrowError>)
        ensures r is Ok ==> r->Ok_0.cols() == cols@
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_map_err<T>(r: core::result::Result<T, ArrowError>) -> (x: Result<T>)
    ensures r is Ok ==> x is Ok && x->Ok_0 == r->Ok_0, r is Err ==> x is Err
{ unimplemented!() }
