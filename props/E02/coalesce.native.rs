use std::{pin::Pin, sync::Arc, task::{Context, Poll}, collections::VecDeque};
type Result<T> = std::result::Result<T, VErr>;
type RecordBatch = (usize, usize); // (input partition, batch number)
type SchemaRef = ();
struct TaskContext;
#[derive(Clone)]
enum Ev { Batch, Pending, Error }
struct Src { part: usize, ev: Vec<Ev>, k: usize, n: usize }
impl Src { fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Result<RecordBatch>>> {
    let k = self.k; if k >= self.ev.len() { return Poll::Ready(None) } self.k += 1;
    match self.ev[k] { Ev::Batch => { self.n += 1; Poll::Ready(Some(Ok((self.part, self.n - 1)))) } Ev::Pending => Poll::Pending, Ev::Error => Poll::Ready(Some(Err(VErr("e".into())))) }
} }
type SendableRecordBatchStream = Pin<Box<Src>>;
struct Plan { parts: Vec<Vec<Ev>> }
struct Pt(usize); impl Pt { fn partition_count(&self) -> usize { self.0 } }
impl Plan { fn output_partitioning(&self) -> Pt { Pt(self.parts.len()) }
    fn execute(&self, i: usize, _c: Arc<TaskContext>) -> Result<SendableRecordBatchStream> { if i >= self.parts.len() { return Err(vx_err()) } Ok(Box::pin(Src { part: i, ev: self.parts[i].clone(), k: 0, n: 0 })) } }
impl CoalesceExec { fn schema(&self) -> SchemaRef {} }
//@EXTRACTED@
fn run(parts: Vec<Vec<Ev>>, m: usize) -> std::result::Result<(), String> {
    let n = parts.len();
    let e = CoalesceExec { input: Arc::new(Plan { parts: parts.clone() }), output_partitions: m };
    let w = std::task::Waker::noop(); let mut cx = Context::from_waker(&w);
    let mut got: Vec<String> = vec![];
    vcheck!(e.execute(m, Arc::new(TaskContext)).is_err(), "partition {m} out of {m} accepted");
    if m > n { vcheck!(e.execute(0, Arc::new(TaskContext)).is_err(), "coalesce may not increase the partition count"); return Ok(()) }
    let mut sizes = vec![];
    for p in 0..m {
        let mut s = match e.execute(p, Arc::new(TaskContext)) { Ok(s) => s, Err(_) => return Err(format!("partition {p} refused")) };
        sizes.push(s.inputs.len());
        let mut fuel = 10000;
        loop { fuel -= 1; vcheck!(fuel > 0, "partition {p} does not end");
            match s.as_mut().poll_next(&mut cx) { Poll::Pending => got.push("pending".into()), Poll::Ready(None) => break, Poll::Ready(Some(Ok(b))) => got.push(format!("{b:?}")), Poll::Ready(Some(Err(_))) => got.push("error".into()) } }
        vcheck!(matches!(s.as_mut().poll_next(&mut cx), Poll::Ready(None)), "partition {p} resumes after its end");
    }
    let mut want = vec![];
    for (i, p) in parts.iter().enumerate() { let mut k = 0; for e in p { want.push(match e { Ev::Batch => { k += 1; format!("{:?}", (i, k - 1)) } Ev::Pending => "pending".into(), Ev::Error => "error".into() }) } }
    vcheck!(got == want, "got {got:?} want {want:?}");
    vcheck!(sizes.iter().all(|x| *x == n / m || *x == n / m + 1), "unbalanced {sizes:?}");
    Ok(())
}
fn main() {
    let mut t = T::new();
    for n in 0..14usize { for m in 1..16usize {
        let parts: Vec<Vec<Ev>> = (0..n).map(|i| (0..(i * 7 + m) % 4).map(|_| Ev::Batch).collect()).collect();
        t.case("CoalesceExec", || format!("{n} input partitions coalesced to {m}"), || run(parts.clone(), m));
    } }
    for _ in 0..t.n(4000) {
        let n = t.below(40) as usize; let m = t.below(20) as usize + 1;
        let parts: Vec<Vec<Ev>> = (0..n).map(|_| { let l = t.below(4); (0..l).map(|_| match t.below(6) { 0 => Ev::Pending, 1 => Ev::Error, _ => Ev::Batch }).collect() }).collect();
        t.case("CoalesceExec", || format!("inputs {:?} (batches, including pending polls and errors) coalesced to {m}", parts.iter().map(|p| p.len()).collect::<Vec<_>>()), || run(parts.clone(), m));
    }
    t.finish()
}
