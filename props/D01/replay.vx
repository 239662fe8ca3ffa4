file crates/sail-delta-lake/src/delta_log/segment.rs
stub try_read_checksum_header validate_and_build_header read_last_checkpoint_hint_from_store read_checkpoint_header_from_checkpoint_file read_checkpoint_rows_from_checkpoint_file get_actions resolve_commit_timestamp_from_actions sidecar_log_path sidecar_file_path ReconciledHeaderState ReconciledCheckpointState
const CHECKSUM_LOOKBACK_WINDOW
type ReplayedTableHeader n=Clone,Debug
type ResolvedLogSegment n=Debug
type LogSegmentResolver n=Clone
nrule sub \.find\(\|\((\w+), (\w+)\)\| => .find(|($1, $2): &&(i64, ObjectMeta)|
fn LogSegmentResolver::new
fn LogSegmentResolver::has_catalog_managed_commits_in_range
fn LogSegmentResolver::resolve_catalog_managed_commit_files
fn LogSegmentResolver::resolve_for_header
fn LogSegmentResolver::resolve_for_full_state
fn list_log_files
fn select_checkpoint_candidate
file crates/sail-delta-lake/src/delta_log/listing.rs
fn delta_log_top_level_filename
fn parse_checksum_version_from_location
fn parse_commit_version_from_location
fn parse_checkpoint_version_from_location
fn parse_compacted_json_versions_from_location
fn read_last_checkpoint_version_from_store
fn v2_checkpoint_path_from_hint
fn list_delta_log_entries_from
file crates/sail-delta-lake/src/spec/log.rs
const DELTA_LOG_DIR
const LAST_CHECKPOINT_FILE
fn delta_log_root_path
fn last_checkpoint_path
fn delta_log_prefix_path
fn parse_version_prefix
fn parse_commit_version
fn parse_checksum_version
fn parse_checkpoint_version
fn is_uuid_checkpoint_filename
fn is_json_checkpoint_filename
fn parse_compacted_json_versions
file crates/sail-delta-lake/src/snapshot/config.rs
type CatalogManagedCommitFile n=Clone,Debug
type CatalogManagedCommitSet n=Clone,Debug
fn CatalogManagedCommitSet::latest_replay_version
fn catalog_managed_commit_path
fn catalog_managed_commit_file_name
file crates/sail-delta-lake/src/delta_log/replay.rs
fn is_json_checkpoint_location
fn load_replayed_table_state
fn load_replayed_table_header
fn latest_replayable_version
file crates/sail-delta-lake/src/checkpoint/mod.rs
type ReplayEntry n=Clone
fn replay_commit_actions
fn replay_commit_actions_for_state
fn replay_commit_header_actions
fn replay_commit_actions_with_compactions
fn replay_commit_actions_with_compactions_for_state
fn replay_commit_header_actions_with_compactions
fn build_replay_sequence
file crates/sail-delta-lake/src/delta_log/segment_files.rs
stub inspect_checkpoint_main_file
type LogSegmentFiles n=Clone,Debug,Default
type LogSegmentResolveOptions n=Clone,Debug,Default
fn list_log_segment_files as kernel_list_log_segment_files
file crates/sail-delta-lake/src/physical_plan/planner/log_segment.rs
nrule call crate::snapshot::catalog_managed_commit_path => catalog_managed_commit_path($0)
fn list_log_segment_files
fn resolve_log_segment_files
fn merge_catalog_managed_commits_for_planner
fn parse_log_file_version
