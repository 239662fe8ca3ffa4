file crates/sail-physical-plan/src/repartition.rs
type RowRoundRobinPartitioner v= n=Clone,Debug
rule macro internal_err => Err(vx_err())
vrule call f => f.call($0, $1)
vrule chain with_row_count/1 => $recv.with_row_count($0)
vrule sub vec!\[Vec::new\(\); self\.num_partitions\] => vx_vec_of_vecs(self.num_partitions)
vrule sub let indices_array: PrimitiveArray<UInt32Type> = partition_indices\.into\(\) => let indices_array = vx_u32_array(partition_indices)
vrule sub for \((\w+), (\w+)\) in (\w+)\.into_iter\(\)\.enumerate\(\) => let mut vx_i: usize = 0; while vx_i < $3.len()

fn RowRoundRobinPartitioner::new
ret r
spec <<<
requires num_input_partitions > 0 ==> input_partition < num_input_partitions, num_partitions <= 0x7fff_ffff, num_input_partitions <= 0x7fff_ffff,
ensures match r {
    Ok(s) => s.wf() && s.num_partitions == num_partitions && num_partitions > 0,
    Err(_) => num_partitions == 0 || num_input_partitions == 0,
},
>>>
body-start <<<
proof { if num_partitions > 0 && num_input_partitions > 0 { lemma_start(input_partition as int, num_partitions as int, num_input_partitions as int); } }
>>>

fn RowRoundRobinPartitioner::partition
sig fn partition(&mut self, batch: RecordBatch, f: &mut Sink) -> (r: Result<()>)
spec <<<
requires old(self).wf(), batch.view().ok(), batch.view().rows <= 0xffff_ffff,
ensures final(self).wf(), final(self).num_partitions == old(self).num_partitions,
    r is Ok ==> final(f).log() =~= old(f).log() + deal(batch.view(), old(self).num_partitions as int, old(self).next_idx as int, old(self).num_partitions as int),
    r is Ok ==> final(self).next_idx == (old(self).next_idx + batch.view().rows) % old(self).num_partitions as int,
>>>
body-start <<<
let ghost n = self.num_partitions as int;
let ghost start = self.next_idx as int;
let ghost rows = batch.view().rows as int;
let ghost log0 = f.log();
proof {
    lemma_deal_trivial(batch.view(), n, start, n);
    assert(rows == 0 ==> (start + rows) % n == start) by { vstd::arithmetic::div_mod::lemma_small_mod(start as nat, n as nat); }
    if n == 1 { lemma_deal_one(batch.view(), start); assert((start + rows) % 1 == 0); }
}
>>>
loop 0 <<<
invariant self.wf(), self.num_partitions == n, self.next_idx == start, batch.view().rows == rows, rows <= 0xffff_ffff, n > 0,
    indices@.len() == n,
    forall|p: int| 0 <= p < n ==> ints((#[trigger] indices@[p])@) =~= picks(n, start, row_index as int, p),
>>>
loop 1 <<<
invariant self.wf(), self.num_partitions == n, batch.view().rows == rows, rows <= 0xffff_ffff, n > 0, batch.view().ok(),
    self.next_idx == (start + rows) % n,
    indices@.len() == n,
    forall|p: int| 0 <= p < n ==> ints((#[trigger] indices@[p])@) =~= picks(n, start, rows, p),
    f.log() =~= log0 + deal(batch.view(), n, start, vx_i as int), vx_i <= n,
decreases n - vx_i,
>>>
loop-start 1 <<<
let partition = vx_i; vx_i = vx_i + 1;
let partition_indices = vx_clone_vec(&indices[partition]);
proof { lemma_picks_in_range(n, start, rows, partition as int); assert(ints(partition_indices@) =~= picks(n, start, rows, partition as int));
  assert(ints(partition_indices@).len() == partition_indices@.len());
  assert forall|i: int| 0 <= i < partition_indices@.len() implies 0 <= #[trigger] partition_indices@[i] < rows by { assert(ints(partition_indices@)[i] == partition_indices@[i] as int); } }
>>>

fn partition_round_robin_batch
noverus

fn send_round_robin_partitions
noverus

fn prune_closed_round_robin_senders
noverus
