file crates/sail-physical-plan/src/coalesce.rs
type CoalesceExec v= n= drop=properties
type CoalesceStream v= n=
rule macro internal_err => Err(vx_err())
vrule chain front_mut/0 => vx_front_mut(&mut $recv)
vrule chain as_mut/0.poll_next/1 => $recv.poll_next($0)
vrule chain output_partitioning/0.partition_count/0 => $recv.vx_partition_count()
vrule chain map/1.collect/0 => vx_range_map_try_collect($recv, $0{Result<SendableRecordBatchStream>;usize;})
vrule call Box::pin => $0
rule sub Self::Item => Result<RecordBatch>
rule sub Arc<dyn ExecutionPlan> => Arc<Plan>
stub CoalesceExec::schema CoalesceExec::name CoalesceStream::schema CoalesceExec::new

fn coalesced_input_range
ret r
spec <<<
requires output_partitions > 0, partition < output_partitions, (partition + 1) * input_partitions <= usize::MAX,
ensures r.0 == cut(input_partitions as int, partition as int, output_partitions as int),
    r.1 == cut(input_partitions as int, partition as int + 1, output_partitions as int),
>>>
body-start <<<
proof { assert(partition * input_partitions <= (partition + 1) * input_partitions) by (nonlinear_arith); }
>>>

fn CoalesceExec@ExecutionPlan::execute
sig fn execute(&self, partition: usize, context: Arc<TaskContext>) -> (r: Result<CoalesceStream>)
native-sig fn execute(&self, partition: usize, context: Arc<TaskContext>) -> Result<Pin<Box<CoalesceStream>>>
spec <<<
requires self.output_partitions <= 0x7fff_ffff, self.input.parts() <= 0x7fff_ffff,
ensures match r {
    Ok(s) => ({
        let n = self.input.parts() as int; let m = self.output_partitions as int; let lo = cut(n, partition as int, m); let hi = cut(n, partition as int + 1, m);
        &&& partition < m <= n
        &&& s.inputs@.len() == hi - lo
        &&& forall|k: int| 0 <= k < hi - lo ==> (#[trigger] self.input.run((lo + k) as usize)) == Ok::<SendableRecordBatchStream, DataFusionError>(s.inputs@[k])
    }),
    Err(_) => true,
},
>>>
body-start <<<
proof { if partition < self.output_partitions && self.output_partitions <= self.input.parts() { lemma_cut(self.input.parts() as int, partition as int, self.output_partitions as int); 
   let p = partition + 1; let i = self.input.parts(); assert(p * i <= 0x7fff_ffff * 0x7fff_ffff) by (nonlinear_arith) requires p <= 0x7fff_ffff, i <= 0x7fff_ffff, 0 <= p, 0 <= i; } }
>>>

fn CoalesceStream@Stream::poll_next
sig fn poll_next(&mut self, cx: &mut Context) -> (r: Poll<Option<Result<RecordBatch>>>)
spec <<<
ensures match r {
    Poll::Ready(Some(x)) => rest(old(self).inputs@) =~= seq![x] + rest(final(self).inputs@),
    Poll::Ready(None) => rest(old(self).inputs@).len() == 0 && rest(final(self).inputs@).len() == 0,
    Poll::Pending => rest(old(self).inputs@) =~= rest(final(self).inputs@),
},
>>>
loop 0 <<<
invariant rest(self.inputs@) =~= rest(old(self).inputs@),
decreases self.inputs@.len(),
>>>
loop-start 0 <<<
let ghost before = self.inputs@;
>>>
before ^matchpoll <<<
proof { lemma_rest(before, self.inputs@); }
>>>
