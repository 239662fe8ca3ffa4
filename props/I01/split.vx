file crates/sail-iceberg/src/operations/write/partition.rs
type PartitionBatchResult n=Clone,Debug
fn scalar_to_literal
noverus
fn field_name_from_id
noverus
fn build_partition_dir
noverus
fn split_record_batch_by_partition
noverus
file crates/sail-iceberg/src/utils/conversions.rs
fn array_value_to_literal
noverus
file crates/sail-iceberg/src/utils/transform.rs
const UNIX_EPOCH_YEAR
fn apply_transform
noverus
file crates/sail-iceberg/src/spec/transform.rs
type Transform n=Debug,PartialEq,Eq,Clone,Copy
file crates/sail-iceberg/src/spec/types/mod.rs
type PrimitiveType n=Debug,PartialEq,Eq,Clone
