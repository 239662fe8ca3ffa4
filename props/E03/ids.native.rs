//@extern arrow_array
//@extern arrow_schema
use std::{pin::Pin, sync::Arc, task::{Context, Poll}};
use arrow_array::{ArrayRef, Int64Array, RecordBatch, Array, cast::AsArray, types::Int64Type, RecordBatchOptions};
use arrow_schema::{DataType, Field, Schema, SchemaRef};
type Result<T> = std::result::Result<T, VErr>;
struct Src(Vec<Option<RecordBatch>>); // None = pending
impl Src { fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Result<RecordBatch>>> {
    if self.0.is_empty() { return Poll::Ready(None) }
    match self.0.remove(0) { Some(b) => Poll::Ready(Some(Ok(b))), None => Poll::Pending }
} }
type SendableRecordBatchStream = Pin<Box<Src>>;
struct SchemaX;
//@EXTRACTED@
fn run(p: usize, sizes: &[Option<usize>], col: usize, ncols: usize, start: u64) -> std::result::Result<(), String> {
    let mut f: Vec<Field> = (0..ncols).map(|i| Field::new(format!("c{i}"), DataType::Int64, false)).collect();
    let ins = Arc::new(Schema::new(f.clone()));
    f.insert(col, Field::new("id", DataType::Int64, false));
    let outs: SchemaRef = Arc::new(Schema::new(f));
    let mut tag = 0i64;
    let batches: Vec<Option<RecordBatch>> = sizes.iter().map(|s| s.map(|n| {
        let cols: Vec<ArrayRef> = (0..ncols).map(|c| Arc::new(Int64Array::from_iter_values((0..n as i64).map(|k| tag + k * 10 + c as i64))) as ArrayRef).collect();
        tag += n as i64 * 10;
        RecordBatch::try_new_with_options(ins.clone(), cols, &RecordBatchOptions::new().with_row_count(Some(n))).unwrap()
    })).collect();
    let mut s = MonotonicIdStream::new(Box::pin(Src(batches)), outs, "id".to_string(), p).map_err(|e| e.0)?;
    s.offset = start;
    let mut k = start as i128;
    let w = std::task::Waker::noop(); let mut cx = Context::from_waker(&w);
    let mut seen = 0i64;
    for (bi, sz) in sizes.iter().enumerate() {
        match (Pin::new(&mut s).poll_next(&mut cx), sz) {
            (Poll::Pending, None) => {}
            (Poll::Ready(Some(Ok(b))), Some(n)) => {
                vcheck!(b.num_rows() == *n, "batch {bi} has {} rows, want {n}", b.num_rows());
                vcheck!(k + (*n as i128) <= 1 << 33, "ids of batch {bi} pass 2^33 rows");
                let ids = b.column(col).as_primitive::<Int64Type>();
                for i in 0..*n {
                    let want = ((p as i128) << 33) + k + i as i128;
                    vcheck!(ids.value(i) as i128 == want, "batch {bi} row {i}: id {} want {want}", ids.value(i));
                    for c in 0..ncols { let j = if c < col { c } else { c + 1 };
                        let v = b.column(j).as_primitive::<Int64Type>().value(i);
                        vcheck!(v == seen + i as i64 * 10 + c as i64, "batch {bi} row {i} column {c} changed to {v}"); }
                }
                seen += *n as i64 * 10; k += *n as i128;
            }
            (Poll::Ready(Some(Err(_))), Some(n)) => { vcheck!(k + *n as i128 > 1 << 33, "error at batch {bi} (row {k}) before 2^33 rows"); return Ok(()) }
            (Poll::Ready(None), x) => return Err(format!("ended at batch {bi} ({x:?})")),
            (_, x) => return Err(format!("wrong poll result at batch {bi} ({x:?})")),
        }
    }
    vcheck!(matches!(Pin::new(&mut s).poll_next(&mut cx), Poll::Ready(None)), "does not end");
    Ok(())
}
fn main() {
    let mut t = T::new();
    let ps = [0usize, 1, 2, 3, 7, 255, 1 << 16, (1 << 30) - 1];
    let starts = [0u64, 1, 5, u32::MAX as u64 - 3, 1 << 32, (1 << 33) - 10, (1 << 33) - 4, (1 << 33) - 1, 1 << 33];
    for _ in 0..t.n(20000) {
        let p = *t.pick(&ps); let start = *t.pick(&starts);
        let nb = t.below(6) as usize; let ncols = t.below(4) as usize; let col = t.below(ncols as u64 + 1) as usize;
        let sizes: Vec<Option<usize>> = (0..nb).map(|_| match t.below(6) { 0 => None, 1 => Some(0), 2 => Some(1), 3 => Some(4), _ => Some(t.below(20) as usize) }).collect();
        t.case("MonotonicIdStream", || format!("partition={p} batches={sizes:?} id column={col} of {ncols} rows already numbered={start}"), || run(p, &sizes, col, ncols, start));
    }
    t.finish()
}
