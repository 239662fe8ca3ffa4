file crates/sail-physical-plan/src/monotonic_id.rs
type MonotonicIdStream v= n=
rule macro exec_err => Err(vx_err())
rule macro internal_err => Err(vx_err())
vrule chain as_mut/0.poll_next/1 => $recv.poll_next($0)
vrule chain columns/0.to_vec/0 => $recv.vx_columns()
vrule chain map_err/1 => vx_map_err($recv)
vrule chain map/1.collect/0 => vx_range_map_collect($recv, $0{i64;usize;@p0 < len})
vrule sub Arc::new\(Int64Array::from\((\w+)\)\) as ArrayRef => vx_int64_array($1)
vrule sub Self::Item => Result<RecordBatch>
nrule sub Self::Item => Result<RecordBatch>
stub MonotonicIdStream::schema

fn MonotonicIdStream::new
ret r
sig fn new(input: SendableRecordBatchStream, schema: SchemaRef, column_name: String, partition: usize) -> (r: Result<Self>)
spec <<<
requires partition < 0x4000_0000,
ensures match r {
    Ok(s) => s.wf() && s.partition == partition && s.offset == 0 && s.input == input && s.schema == schema && s.col_idx == schema.index(column_name@),
    Err(_) => true,
},
>>>

fn MonotonicIdStream::make_ids
ret r
spec <<<
requires old(self).wf(), len <= 0x1_0000_0000_0000,
ensures
    final(self).wf(),
    final(self).partition == old(self).partition, final(self).col_idx == old(self).col_idx, final(self).schema == old(self).schema,
    final(self).input == old(self).input,
    match r {
        Ok(a) => is_ids(a.ints(), old(self).partition as int, old(self).offset as int, len as int) && final(self).offset == old(self).offset + len
            && final(self).offset <= 0x2_0000_0000,
        Err(_) => final(self).offset == old(self).offset && old(self).offset + len > 0x2_0000_0000,
    },
>>>
body-start <<<
proof { lemma_shift(self.partition); assert((1u64 << 33) == 0x2_0000_0000u64) by (bit_vector); }
>>>

fn MonotonicIdStream@Stream::poll_next
ret r
sig fn poll_next(&mut self, cx: &mut Context) -> (r: Poll<Option<Result<RecordBatch>>>)
spec <<<
requires old(self).wf(),
ensures
    final(self).wf(),
    final(self).partition == old(self).partition, final(self).col_idx == old(self).col_idx, final(self).schema == old(self).schema,
    match r {
        // a row batch: the input batch just received, unchanged, with the next ids inserted at the id column
        Poll::Ready(Some(Ok(out))) => ({
            let d = final(self).input.delivered();
            let b = d.last();
            &&& d == old(self).input.delivered().push(b)
            &&& final(self).offset == old(self).offset + b.rows()
            &&& exists|ids: ArrayRef| is_ids(#[trigger] ids.ints(), old(self).partition as int, old(self).offset as int, b.rows() as int)
                && out.cols() =~= b.cols().insert(old(self).col_idx as int, ids)
        }),
        // the end of the input is passed on, and only that
        Poll::Ready(None) => final(self).input.ended() && final(self).offset == old(self).offset && final(self).input.delivered() == old(self).input.delivered(),
        Poll::Pending => final(self).offset == old(self).offset && final(self).input.delivered() == old(self).input.delivered(),
        Poll::Ready(Some(Err(_))) => true,
    },
>>>
