file crates/sail-delta-lake/src/spec/actions.rs
type Action
type CommitAction
file crates/sail-delta-lake/src/spec/properties.rs
type IsolationLevel
file crates/sail-delta-lake/src/spec/operation.rs
type SaveMode v=Clone,Copy,PartialEq,Eq,Structural
type MergePredicate v=
type DeltaOperation v=
fn DeltaOperation::read_whole_table
ret r
spec <<<
ensures r == (self is Merge && self->Merge_predicate is None),
>>>
fn DeltaOperation::changes_data
ret r
spec <<<
ensures r == !(self is FileSystemCheck),
>>>
file crates/sail-delta-lake/src/transaction/mod.rs
vrule chain iter/0.all/1 => vx_all(&$recv, $0{bool})
fn CommitData::is_blind_append
ret r
spec <<<
ensures r ==> adds_only(*operation) && forall|k: int| 0 <= k < actions@.len() ==> only_adds(#[trigger] actions@[k]),
>>>
file crates/sail-delta-lake/src/transaction/conflict_checker.rs
vrule macro format => vx_fmt()
vrule sub "protocol changed"\.into\(\) => vx_fmt()
vrule sub ""\.into\(\) => vx_fmt()
vrule chain iter/0.any/1 => vx_any(&$recv, $0{bool})
vrule chain iter/0.find_map/1 => vx_find_map($recv, $0{Option<_>})
vrule chain iter/0.filter_map/1.collect/0 => vx_filter_map_set($recv, $0{Option<_>})
vrule chain iter/0.cloned/0.filter_map/1.collect/0 => VxCollect::vx_filter_map(&$recv, $0{Option<_>})
vrule chain intersection/1.next/0 => $recv.vx_common($0)
vrule chain intersection/1.collect/0 => $recv.vx_intersection($0)
vrule chain iter/0.map/1.collect/0 => vx_map_set(&$recv, $0{LogicalFileKey})
vrule chain iter/0.find/1.cloned/0 => vx_find(&$recv, $0{bool})
vrule sub \|&f\| => |f|
vrule sub files\.extend\( => vx_extend(&mut files, 
vrule chain iter/0.cloned/0 => vx_cloned($recv)
vrule chain map/1.collect/0 => vx_into_map_set($recv, $0{LogicalFileKey})
vrule chain as_ref/0.map/1 => vx_as_ref(&$recv).map($0{bool})
vrule chain as_ref/0 => vx_as_ref(&$recv)
type TransactionInfo
type WinningCommitSummary
type ConflictChecker

fn TransactionInfo::new
ret r
spec <<<
ensures r.ok(), r.actions == actions, r.read_snapshot == read_snapshot, r.read_whole_table == read_whole_table,
>>>
loop 0 it <<<
invariant it.seq().len() == actions@.len(), forall|k: int| 0 <= k < actions@.len() ==> *it.seq()[k] == actions@[k],
    forall|k: int| 0 <= k < it.index@ && (#[trigger] actions@[k]) is Txn ==> read_app_ids.s().contains(actions@[k]->Txn_0.app_id),
>>>

fn TransactionInfo::metadata_changed
ret r
spec <<<
ensures r == exists|k: int| 0 <= k < self.actions@.len() && (#[trigger] self.actions@[k]) is Metadata,
>>>

fn TransactionInfo::read_files
sig fn read_files(&self) -> (r: Result<Vec<Add>, CommitConflictError>)
spec <<<
ensures r is Ok, r->Ok_0@ == self.read_snapshot.files(),
>>>

fn TransactionInfo::read_whole_table
ret r
spec <<<
ensures r == self.read_whole_table,
>>>

fn TransactionInfo::protocol_action
ret r
spec <<<
ensures r is None ==> forall|k: int| 0 <= k < self.actions@.len() ==> !((#[trigger] self.actions@[k]) is Protocol),
    r is Some ==> exists|k: int| 0 <= k < self.actions@.len() && (#[trigger] self.actions@[k]) is Protocol && self.actions@[k]->Protocol_0 == *r->Some_0,
>>>

fn TransactionInfo::metadata_action
ret r
spec <<<
ensures r is None ==> forall|k: int| 0 <= k < self.actions@.len() ==> !((#[trigger] self.actions@[k]) is Metadata),
    r is Some ==> exists|k: int| 0 <= k < self.actions@.len() && (#[trigger] self.actions@[k]) is Metadata && self.actions@[k]->Metadata_0 == *r->Some_0,
>>>

fn TransactionInfo::domain_metadata_domains
ret r
spec <<<
ensures forall|k: int| 0 <= k < self.actions@.len() && (#[trigger] self.actions@[k]) is DomainMetadata ==> r.s().contains(self.actions@[k]->DomainMetadata_0.domain),
    forall|d: String| #[trigger] r.s().contains(d) ==> exists|k: int| 0 <= k < self.actions@.len() && (#[trigger] self.actions@[k]) is DomainMetadata && self.actions@[k]->DomainMetadata_0.domain == d,
>>>

fn WinningCommitSummary::metadata_updates
ret r
spec <<<
ensures forall|k: int| 0 <= k < self.actions@.len() && (#[trigger] self.actions@[k]) is Metadata ==> r@.contains(self.actions@[k]->Metadata_0),
>>>

fn WinningCommitSummary::app_level_transactions
ret r
spec <<<
ensures forall|k: int| 0 <= k < self.actions@.len() && (#[trigger] self.actions@[k]) is Txn ==> r.s().contains(self.actions@[k]->Txn_0.app_id),
>>>

fn WinningCommitSummary::protocol
ret r
spec <<<
ensures forall|k: int| 0 <= k < self.actions@.len() && (#[trigger] self.actions@[k]) is Protocol ==> r@.contains(self.actions@[k]->Protocol_0),
>>>

fn WinningCommitSummary::domain_metadata_domains
ret r
spec <<<
ensures forall|k: int| 0 <= k < self.actions@.len() && (#[trigger] self.actions@[k]) is DomainMetadata ==> r.s().contains(self.actions@[k]->DomainMetadata_0.domain),
>>>

fn WinningCommitSummary::removed_files
ret r
spec <<<
ensures forall|k: int| 0 <= k < self.actions@.len() && (#[trigger] self.actions@[k]) is Remove ==> r@.contains(self.actions@[k]->Remove_0),
>>>

fn WinningCommitSummary::added_files
ret r
spec <<<
ensures forall|k: int| 0 <= k < self.actions@.len() && (#[trigger] self.actions@[k]) is Add ==> r@.contains(self.actions@[k]->Add_0),
>>>

fn ConflictChecker::check_conflicts
ret r
spec <<<
requires self.txn_info.ok(),
ensures r is Ok ==> rebases(self.txn_info, self.winning_commit_summary, self.isolation_level),
>>>

fn ConflictChecker::check_protocol_compatibility
ret r
spec <<<
ensures r is Ok ==> same_protocol(self.txn_info, self.winning_commit_summary),
>>>
loop 0 <<<
invariant true,
>>>

fn ConflictChecker::check_no_metadata_updates
ret r
spec <<<
ensures r is Ok ==> same_metadata(self.txn_info, self.winning_commit_summary),
>>>

fn ConflictChecker::check_no_domain_metadata_conflicts
ret r
spec <<<
ensures r is Ok ==> other_domains(self.txn_info, self.winning_commit_summary),
>>>

fn ConflictChecker::check_for_deleted_files_against_current_txn_read_files
ret r
spec <<<
ensures r is Ok ==> read_files_kept(self.txn_info, self.winning_commit_summary),
>>>

fn ConflictChecker::check_for_deleted_files_against_current_txn_deleted_files
ret r
spec <<<
ensures r is Ok ==> no_double_remove(self.txn_info, self.winning_commit_summary),
>>>

fn ConflictChecker::check_for_updated_application_transaction_ids_that_current_txn_depends_on
ret r
spec <<<
requires self.txn_info.ok(),
ensures r is Ok ==> other_apps(self.txn_info, self.winning_commit_summary),
>>>

fn ConflictChecker::check_for_added_files_that_should_have_been_read_by_current_txn
ret r
spec <<<
ensures r is Ok ==> nothing_missed(self.txn_info, self.winning_commit_summary, self.isolation_level),
>>>

fn WinningCommitSummary::blind_append_added_files
ret r
spec <<<
ensures blind(*self) && adds(*self) ==> r@.len() > 0,
>>>

fn WinningCommitSummary::changed_data_added_files
ret r
spec <<<
ensures !blind(*self) && adds(*self) ==> r@.len() > 0,
>>>

fn WinningCommitSummary::is_blind_append
ret r
spec <<<
ensures r == (match self.commit_info { Some(c) => Some(c.is_blind_append == Some(true)), None => None }),
>>>

fn can_downgrade_to_snapshot_isolation
sig fn can_downgrade_to_snapshot_isolation<'a>(actions: &'a [Action], operation: &DeltaOperation, isolation_level: &IsolationLevel) -> (r: bool)
spec <<<
ensures r ==> forall|k: int| 0 <= k < actions@.len() ==> match #[trigger] actions@[k] { Action::Add(a) => !a.data_change, Action::Remove(a) => !a.data_change, _ => false },
>>>
loop 0 it <<<
invariant it.seq().len() == actions@.len(), forall|k: int| 0 <= k < actions@.len() ==> *it.seq()[k] == actions@[k],
    !data_changed && !has_non_file_actions ==> forall|k: int| 0 <= k < it.index@ ==> match #[trigger] actions@[k] { Action::Add(a) => !a.data_change, Action::Remove(a) => !a.data_change, _ => false },
>>>

stub logical_file_key LogicalFileKey DeletionVectorDescriptor
