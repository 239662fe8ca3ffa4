//@extern arrow_array
//@extern arrow_schema
//@extern arrow_select
use std::sync::{Arc, Mutex};
use arrow_array::{ArrayRef, Int64Array, StringArray, PrimitiveArray, RecordBatch, Array, cast::AsArray, types::{Int64Type, UInt32Type}, RecordBatchOptions};
use arrow_schema::{DataType, Field, Schema};
use arrow_select::take::take_arrays;
type Result<T> = std::result::Result<T, VErr>;
struct Chan { got: Vec<RecordBatch>, open: bool, cap: usize }
struct Sender<T> { c: Arc<Mutex<Chan>>, p: std::marker::PhantomData<T> }
impl<T> Clone for Sender<T> { fn clone(&self) -> Self { Sender { c: self.c.clone(), p: self.p } } }
impl Sender<Result<RecordBatch>> {
    fn is_closed(&self) -> bool { !self.c.lock().unwrap().open }
    fn send(&self, b: Result<RecordBatch>) -> std::result::Result<(), ()> {
        let mut c = self.c.lock().unwrap();
        if c.got.len() >= c.cap { c.open = false; }
        if !c.open { return Err(()) }
        c.got.push(b.unwrap()); Ok(()) }
}
//@EXTRACTED@
fn batch(from: i64, n: usize, ncols: usize) -> RecordBatch {
    let mut f = vec![]; let mut c: Vec<ArrayRef> = vec![];
    for k in 0..ncols { if k % 2 == 0 { f.push(Field::new(format!("c{k}"), DataType::Int64, true)); c.push(Arc::new(Int64Array::from_iter_values(from..from + n as i64))); }
        else { f.push(Field::new(format!("c{k}"), DataType::Utf8, true)); c.push(Arc::new(StringArray::from_iter_values((from..from + n as i64).map(|x| x.to_string())))); } }
    RecordBatch::try_new_with_options(Arc::new(Schema::new(f)), c, &RecordBatchOptions::new().with_row_count(Some(n))).unwrap()
}
fn rows(b: &RecordBatch, ncols: usize) -> std::result::Result<Vec<i64>, String> {
    vcheck!(b.num_columns() == ncols, "columns lost");
    if ncols == 0 { return Ok(vec![-1; b.num_rows()]) }
    let v: Vec<i64> = b.column(0).as_primitive::<Int64Type>().values().to_vec();
    if ncols > 1 { for (i, s) in b.column(1).as_string::<i32>().iter().enumerate() { vcheck!(s == Some(v[i].to_string().as_str()), "columns no longer agree in row {i}"); } }
    Ok(v)
}
fn run(sizes: &[usize], np: usize, ip: usize, nip: usize, ncols: usize, caps: &[usize]) -> std::result::Result<(), String> {
    let mut p = match RowRoundRobinPartitioner::new(np, ip, nip) { Ok(p) => p, Err(_) => { vcheck!(np == 0 || nip == 0, "refused"); return Ok(()) } };
    vcheck!(np > 0 && nip > 0, "accepted {np} output and {nip} input partitions");
    let start = ip * np / nip;
    let mut q = p.clone();
    let chans: Vec<Arc<Mutex<Chan>>> = (0..np).map(|i| Arc::new(Mutex::new(Chan { got: vec![], open: true, cap: caps[i % caps.len()] }))).collect();
    let mut senders: Vec<Option<Sender<Result<RecordBatch>>>> = chans.iter().map(|c| Some(Sender { c: c.clone(), p: std::marker::PhantomData })).collect();
    let mut next: usize = 0; let mut counts = vec![0usize; np]; let mut expect: Vec<Vec<Vec<i64>>> = vec![vec![]; np];
    for (bi, &n) in sizes.iter().enumerate() {
        let b = batch(next as i64, n, ncols);
        let mut got: Vec<(usize, Vec<i64>)> = vec![];
        let mut e = None;
        p.partition(b.clone(), |k, b| { match rows(&b, ncols) { Ok(r) => got.push((k, r)), Err(x) => e = Some(x) }; Ok(()) }).map_err(|e| e.0)?;
        if let Some(e) = e { return Err(e) }
        let mut want: Vec<(usize, Vec<i64>)> = vec![];
        for k in 0..np { let r: Vec<i64> = (next..next + n).filter(|i| (start + i) % np == k).map(|i| if ncols == 0 { -1 } else { i as i64 }).collect(); if !r.is_empty() { want.push((k, r)) } }
        for (k, r) in &want { counts[*k] += r.len(); }
        got.sort_by_key(|x| x.0);
        vcheck!(got == want, "batch {bi}: partitions got {got:?} want {want:?}");
        let (mx, mn) = (counts.iter().max().unwrap(), counts.iter().min().unwrap());
        vcheck!(mx - mn <= 1, "unbalanced {counts:?}");
        // the same batch through the channels of the exchange
        if prune_closed_round_robin_senders(&mut senders) {
            let parts = partition_round_robin_batch(&mut q, b, np).map_err(|e| e.0)?;
            vcheck!(parts.len() == np, "{} outputs", parts.len());
            for (k, r) in want { expect[k].push(r); }
            let active = send_round_robin_partitions(&mut senders, parts);
            vcheck!(active == senders.iter().any(|s| s.is_some()), "reports active={active}");
        } else { vcheck!(chans.iter().all(|c| !c.lock().unwrap().open), "stops although an output is open"); }
        for s in senders.iter().enumerate() { vcheck!(s.1.is_some() || !chans[s.0].lock().unwrap().open, "open output {} dropped", s.0); }
        next += n;
    }
    for k in 0..np {
        let c = chans[k].lock().unwrap(); let cap = caps[k % caps.len()];
        let g: Vec<Vec<i64>> = c.got.iter().map(|b| rows(b, ncols)).collect::<std::result::Result<_, _>>()?;
        let m = expect[k].len().min(cap);
        vcheck!(g[..] == expect[k][..m.min(expect[k].len())], "output {k} received {g:?} want {:?}", expect[k]);
    }
    Ok(())
}
fn main() {
    let mut t = T::new();
    for np in 0..6usize { for nip in 0..4usize { for ip in 0..nip.max(1) { for n in [0usize, 1, 2, 3, 5, 12] {
        t.case("RowRoundRobinPartitioner", || format!("{n} rows, then 4, to {np} from partition {ip} of {nip}"), || run(&[n, 4], np, ip, nip, 2, &[99])); } } } }
    for _ in 0..t.n(6000) {
        let np = t.below(12) as usize + 1; let nip = t.below(9) as usize + 1; let ip = t.below(nip as u64) as usize; let ncols = t.below(3) as usize;
        let nb = t.below(6); let sizes: Vec<usize> = (0..nb).map(|_| match t.below(5) { 0 => 0, 1 => 1, 2 => np, _ => t.below(40) as usize }).collect();
        let caps: Vec<usize> = (0..np).map(|_| if t.below(4) == 0 { t.below(3) as usize } else { 99 }).collect();
        t.case("RowRoundRobinPartitioner", || format!("batches of {sizes:?} rows, {ncols} columns, to {np} from partition {ip} of {nip}, output capacities {caps:?}"), || run(&sizes, np, ip, nip, ncols, &caps));
    }
    t.finish()
}
