file crates/sail-delta-lake/src/writer/partitioning.rs
vrule macro format => vx_fmt()
vrule chain iter/0.map/1.collect/0 => vx_map($recv, $0)
vrule chain iter/0.cloned/0.zip/1.collect/0 => vx_zip($recv, $0)
vrule chain map_err/1 => vx_map_err($recv)
vrule chain ok_or_else/1 => vx_ok_or($recv)
vrule sub cur != prev => !vx_row_eq(&cur, &prev)
type PartitionRange

fn partition_ranges
ret r
sub vx_map\(physical_partition_columns, => vx_try_map(physical_partition_columns,
sub vx_map\(partition_indices, => vx_map(&partition_indices,
sub vx_map\(partition_arrays, => vx_map(&partition_arrays,
sub \|name\| => |name: &String| -> (x: Result<usize, DeltaTableError>) ensures x is Ok ==> x->Ok_0 == schema.index(name@) && x->Ok_0 < schema.len(),
sub \|&idx\| values\.column\(idx\)\.clone\(\) => |idx: &usize| -> (x: ArrayRef) requires *idx < values.cols().len() ensures x == values.cols()[*idx as int], { values.column(*idx).clone() }
sub \|a\| SortField::new\(a\.data_type\(\)\.clone\(\)\) => |a: &ArrayRef| -> (x: SortField) { SortField::new(a.data_type().clone()) }
spec <<<
requires distinct(physical_partition_columns@),
ensures r is Ok ==> tiles(r->Ok_0@, 0, values.rows() as int) && forall|k: int| 0 <= k < r->Ok_0@.len() ==> filed(*values, physical_partition_columns@, #[trigger] r->Ok_0@[k]),
>>>
before ^letsort_fields <<<
proof { axiom_lengths(*values, partition_arrays@); }
>>>
before ^push_partition_range\(.*num_rows <<<
proof { assert forall|c: int, j: int| #![trigger partition_indices@[c], col_value(*values, partition_indices@[c] as int, j)] 0 <= c < partition_indices@.len() && start <= j < rows.rows() implies
    col_value(*values, partition_indices@[c] as int, j) == col_value(*values, partition_indices@[c] as int, start as int) by { lemma_key(partition_arrays@, j, start as int, c); } }
>>>
after ^partitions\.push <<<
proof { assert(partitions@.drop_last() =~= Seq::<PartitionRange>::empty()); assert(tiles(partitions@.drop_last(), 0, 0)); }
>>>
loop-start 0 <<<
proof { assert forall|c: int, j: int| #![trigger partition_indices@[c], col_value(*values, partition_indices@[c] as int, j)] 0 <= c < partition_indices@.len() && start <= j < i implies
    col_value(*values, partition_indices@[c] as int, j) == col_value(*values, partition_indices@[c] as int, start as int) by { lemma_key(partition_arrays@, j, start as int, c); } }
>>>
loop 0 it <<<
invariant
    it.seq().len() == rows.rows() - 1, forall|k: int| 0 <= k < it.seq().len() ==> it.seq()[k] == k + 1,
    rows.rows() == values.rows(), rows.cols() == partition_arrays@, distinct(physical_partition_columns@),
    partition_indices@.len() == physical_partition_columns@.len(), partition_arrays@.len() == partition_indices@.len(),
    forall|c: int| 0 <= c < partition_indices@.len() ==> #[trigger] partition_indices@[c] == values.schema_of().index(physical_partition_columns@[c]@) && partition_indices@[c] < values.cols().len(),
    forall|c: int| 0 <= c < partition_indices@.len() ==> #[trigger] partition_arrays@[c] == values.cols()[partition_indices@[c] as int],
    0 <= start <= it.index@, prev.key() == key(partition_arrays@, start as int),
    start < values.rows(),
    tiles(partitions@, 0, start as int),
    forall|k: int| 0 <= k < partitions@.len() ==> filed(*values, physical_partition_columns@, #[trigger] partitions@[k]),
    forall|j: int| start <= j <= it.index@ ==> #[trigger] key(partition_arrays@, j) == key(partition_arrays@, start as int),
>>>

fn push_partition_range
ret r
sub vx_map\(partition_indices, => vx_try_map(partition_indices,
sub \|&idx\| => |idx: &usize| -> (x: Result<ScalarValue, DeltaTableError>) requires *idx < values.cols().len() ensures x is Ok ==> x->Ok_0 == values.cols()[*idx as int].value(start as int),
sub values\.column\(idx\) => values.column(*idx)
spec <<<
requires distinct(physical_partition_columns@), start < values.rows(), start <= end <= values.rows(),
    partition_indices@.len() == physical_partition_columns@.len(),
    forall|c: int| 0 <= c < partition_indices@.len() ==> #[trigger] partition_indices@[c] == values.schema_of().index(physical_partition_columns@[c]@) && partition_indices@[c] < values.cols().len(),
    forall|c: int, j: int| #![trigger partition_indices@[c], col_value(*values, partition_indices@[c] as int, j)] 0 <= c < partition_indices@.len() && start <= j < end ==> col_value(*values, partition_indices@[c] as int, j) == col_value(*values, partition_indices@[c] as int, start as int),
ensures r is Ok ==> (if start == end { final(out)@ == old(out)@ } else {
        final(out)@.len() > 0 && final(out)@ == old(out)@.push(final(out)@.last()) && final(out)@.drop_last() == old(out)@ && final(out)@.last().start == start && final(out)@.last().end == end
            && filed(*values, physical_partition_columns@, final(out)@.last()) }),
>>>
