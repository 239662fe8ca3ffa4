use vstd::prelude::*;
verus! {
global size_of usize == 8;
// text, compared by value
#[verifier::external_body]
pub struct String { x: () }
impl String {
    pub open spec fn clone_spec(&self) -> String { *self }
    #[verifier::external_body]
    #[verifier::when_used_as_spec(clone_spec)]
    fn clone(&self) -> (r: String) ensures r == self.clone_spec() { unimplemented!() }
}
#[verifier::external_body]
fn vx_fmt() -> (r: String) { unimplemented!() }
pub struct DeletionVectorDescriptor { x: () }
pub type LogicalFileKey = (String, Option<String>);
// the file a path and a deletion vector name
pub uninterp spec fn key(path: &String, dv: Option<&DeletionVectorDescriptor>) -> LogicalFileKey;
#[verifier::external_body]
#[verifier::when_used_as_spec(key)]
fn logical_file_key(path: &String, deletion_vector: Option<&DeletionVectorDescriptor>) -> (r: LogicalFileKey) ensures r == key(path, deletion_vector) { unimplemented!() }
pub open spec fn as_ref_spec<'a, X>(o: &'a Option<X>) -> Option<&'a X> { match o { Some(x) => Some(x), None => None } }
#[verifier::external_body]
#[verifier::when_used_as_spec(as_ref_spec)]
fn vx_as_ref<'a, X>(o: &'a Option<X>) -> (r: Option<&'a X>) ensures r == as_ref_spec(o) { o.as_ref() }

pub struct Add { path: String, deletion_vector: Option<DeletionVectorDescriptor>, data_change: bool }
pub struct Remove { path: String, deletion_vector: Option<DeletionVectorDescriptor>, data_change: bool }
#[verifier::external_body] pub struct AddCDCFile { x: () }
pub struct Transaction { app_id: String, version: i64 }
pub struct CommitInfo { is_blind_append: Option<bool> }
pub struct DomainMetadata { domain: String, configuration: String, removed: bool }
#[verifier::external_body] pub struct CheckpointMetadata { x: () }
#[verifier::external_body] pub struct Sidecar { x: () }
#[verifier::external_body] pub struct Metadata { x: () }
#[verifier::external_body] pub struct Protocol { x: () }
impl PartialEq for Metadata {
    #[verifier::external_body]
    fn eq(&self, o: &Metadata) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Metadata {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Metadata) -> bool { *self == *o }
}
impl PartialEq for Protocol {
    #[verifier::external_body]
    fn eq(&self, o: &Protocol) -> (r: bool) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Protocol {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Protocol) -> bool { *self == *o }
}
impl Protocol {
    #[verifier::external_body]
    fn min_reader_version(&self) -> i32 { unimplemented!() }
    #[verifier::external_body]
    fn min_writer_version(&self) -> i32 { unimplemented!() }
}
#[verifier::external_body]
pub struct DeltaSnapshot { x: () }
#[verifier::external_body]
pub struct TableProperties { x: () }
impl TableProperties {
    #[verifier::external_body]
    fn isolation_level(&self) -> IsolationLevel { unimplemented!() }
}
impl DeltaSnapshot {
    uninterp spec fn files(&self) -> Seq<Add>;
    #[verifier::external_body]
    fn adds(&self) -> (r: &Vec<Add>) ensures r@ == self.files() { unimplemented!() }
    #[verifier::external_body]
    fn protocol(&self) -> &Protocol { unimplemented!() }
    #[verifier::external_body]
    fn table_properties(&self) -> &TableProperties { unimplemented!() }
}
enum CommitConflictError { ProtocolChanged(String), MetadataChanged, ConcurrentDomainMetadata(String), ConcurrentAppend, ConcurrentDeleteRead, ConcurrentDeleteDelete, ConcurrentTransaction }
#[verifier::external_body]
struct DeltaError { x: () }
type DeltaResult<X> = Result<X, DeltaError>;
#[verifier::external_body]
struct Value { x: () }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
struct HashMap<K, V> { x: core::marker::PhantomData<(K, V)> }
struct CommitData { x: () }
// an operation whose rows are added whatever the table holds
spec fn adds_only(o: DeltaOperation) -> bool { o is Write && !(o->Write_mode is Overwrite) && o->Write_predicate is None }
spec fn only_adds(a: CommitAction) -> bool { a is Add || a is Txn || a is CommitInfo }
#[verifier::external_body]
fn vx_all<A, F: Fn(&A) -> bool>(v: &[A], f: F) -> (r: bool)
    requires forall|a: &A| f.requires((a,)),
    ensures r ==> forall|k: int| 0 <= k < v@.len() ==> f.ensures((&#[trigger] v@[k],), true),
        !r ==> exists|k: int| 0 <= k < v@.len() && f.ensures((&#[trigger] v@[k],), false)
{ unimplemented!() }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
struct HashSet<K> { x: core::marker::PhantomData<K> }
impl<K> HashSet<K> {
    uninterp spec fn s(&self) -> Set<K>;
    spec fn has_spec(&self, k: &K) -> bool { self.s().contains(*k) }
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r.s() == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: K) -> (r: bool) ensures final(self).s() == old(self).s().insert(k) { unimplemented!() }
    #[verifier::external_body]
    #[verifier::when_used_as_spec(has_spec)]
    fn contains(&self, k: &K) -> (r: bool) ensures r == self.has_spec(k) { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (forall|k: K| !#[trigger] self.s().contains(k)) { unimplemented!() }
    #[verifier::external_body]
    fn vx_common<'b>(&'b self, o: &'b HashSet<K>) -> (r: Option<&'b K>)
        ensures r is None ==> forall|k: K| #[trigger] self.s().contains(k) ==> !o.s().contains(k),
            r is Some ==> self.s().contains(*r->Some_0) && o.s().contains(*r->Some_0)
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_intersection<'b>(&'b self, o: &'b HashSet<K>) -> (r: HashSet<&'b K>)
        ensures forall|k: K| #[trigger] self.s().contains(k) && o.s().contains(k) ==> r.s().contains(&k),
            forall|k: &K| #[trigger] r.s().contains(k) ==> self.s().contains(*k) && o.s().contains(*k)
    { unimplemented!() }
}
trait VxCollect<X>: Sized {
    spec fn has(&self, x: X) -> bool;
    fn vx_filter_map<A, F: Fn(A) -> Option<X>>(v: &[A], f: F) -> (r: Self)
        requires forall|a: A| f.requires((a,)),
        ensures forall|k: int| #![trigger v@[k]] 0 <= k < v@.len() ==> exists|o: Option<X>| #[trigger] f.ensures((v@[k],), o) && (o is Some ==> r.has(o->Some_0)),
            forall|x: X| #[trigger] r.has(x) ==> exists|k: int| 0 <= k < v@.len() && f.ensures((#[trigger] v@[k],), Some(x));
}
impl<X> VxCollect<X> for Vec<X> {
    spec fn has(&self, x: X) -> bool { self@.contains(x) }
    #[verifier::external_body]
    fn vx_filter_map<A, F: Fn(A) -> Option<X>>(v: &[A], f: F) -> (r: Self) { unimplemented!() }
}
impl<X> VxCollect<X> for HashSet<X> {
    spec fn has(&self, x: X) -> bool { self.s().contains(x) }
    #[verifier::external_body]
    fn vx_filter_map<A, F: Fn(A) -> Option<X>>(v: &[A], f: F) -> (r: Self) { unimplemented!() }
}
#[verifier::external_body]
fn vx_any<A, F: Fn(&A) -> bool>(v: &[A], f: F) -> (r: bool)
    requires forall|a: &A| f.requires((a,)),
    ensures r ==> exists|k: int| 0 <= k < v@.len() && f.ensures((&#[trigger] v@[k],), true),
        !r ==> forall|k: int| 0 <= k < v@.len() ==> f.ensures((&#[trigger] v@[k],), false)
{ unimplemented!() }
#[verifier::external_body]
fn vx_find<A, F: Fn(&A) -> bool>(v: &[A], f: F) -> (r: Option<A>)
    requires forall|a: &A| f.requires((a,)),
    ensures r is Some ==> exists|k: int| 0 <= k < v@.len() && f.ensures((&#[trigger] v@[k],), true) && v@[k] == r->Some_0,
        r is None ==> forall|k: int| 0 <= k < v@.len() ==> f.ensures((&#[trigger] v@[k],), false)
{ unimplemented!() }
#[verifier::external_body]
fn vx_find_map<'a, A, X, F: Fn(&'a A) -> Option<X>>(v: &'a [A], f: F) -> (r: Option<X>)
    requires forall|a: &'a A| f.requires((a,)),
    ensures r is Some ==> exists|k: int| 0 <= k < v@.len() && f.ensures((&#[trigger] v@[k],), r),
        r is None ==> forall|k: int| 0 <= k < v@.len() ==> f.ensures((&#[trigger] v@[k],), None)
{ unimplemented!() }
#[verifier::external_body]
fn vx_filter_map_set<'a, A, X, F: Fn(&'a A) -> Option<X>>(v: &'a [A], f: F) -> (r: HashSet<X>)
    requires forall|a: &'a A| f.requires((a,)),
    ensures forall|k: int| #![trigger v@[k]] 0 <= k < v@.len() ==> exists|o: Option<X>| #[trigger] f.ensures((&v@[k],), o) && (o is Some ==> r.s().contains(o->Some_0)),
        forall|x: X| #[trigger] r.s().contains(x) ==> exists|k: int| 0 <= k < v@.len() && f.ensures((&#[trigger] v@[k],), Some(x))
{ unimplemented!() }
#[verifier::external_body]
fn vx_map_set<A, X, F: Fn(&A) -> X>(v: &[A], f: F) -> (r: HashSet<X>)
    requires forall|a: &A| f.requires((a,)),
    ensures forall|k: int| #![trigger v@[k]] 0 <= k < v@.len() ==> exists|o: X| #[trigger] f.ensures((&v@[k],), o) && r.s().contains(o),
{ unimplemented!() }
#[verifier::external_body]
fn vx_into_map_set<A, X, F: Fn(A) -> X>(v: Vec<A>, f: F) -> (r: HashSet<X>)
    requires forall|a: A| f.requires((a,)),
    ensures forall|k: int| #![trigger v@[k]] 0 <= k < v@.len() ==> exists|o: X| #[trigger] f.ensures((v@[k],), o) && r.s().contains(o),
{ unimplemented!() }
#[verifier::external_body]
fn vx_cloned<A>(v: &Vec<A>) -> (r: Vec<A>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body]
fn vx_extend<A>(v: &mut Vec<A>, w: Vec<A>) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }

// ---- what it takes for a transaction that read an older version to follow the winner
spec fn akey(a: Add) -> LogicalFileKey { key(&a.path, as_ref_spec(&a.deletion_vector)) }
spec fn rkey(a: Remove) -> LogicalFileKey { key(&a.path, as_ref_spec(&a.deletion_vector)) }
spec fn adds(w: WinningCommitSummary) -> bool { exists|k: int| 0 <= k < w.actions@.len() && (#[trigger] w.actions@[k]) is Add }
spec fn removes(w: WinningCommitSummary) -> bool { exists|k: int| 0 <= k < w.actions@.len() && (#[trigger] w.actions@[k]) is Remove }
spec fn blind(w: WinningCommitSummary) -> bool { w.commit_info is Some && w.commit_info->Some_0.is_blind_append == Some(true) }
spec fn sets_metadata(t: TransactionInfo) -> bool { exists|k: int| 0 <= k < t.actions@.len() && (#[trigger] t.actions@[k]) is Metadata }
impl<'a> TransactionInfo<'a> {
    // the applications whose progress the transaction records are known
    spec fn ok(&self) -> bool {
        forall|k: int| 0 <= k < self.actions@.len() && (#[trigger] self.actions@[k]) is Txn ==> self.read_app_ids.s().contains(self.actions@[k]->Txn_0.app_id)
    }
}
spec fn same_protocol(t: TransactionInfo, w: WinningCommitSummary) -> bool {
    forall|k: int| 0 <= k < w.actions@.len() && (#[trigger] w.actions@[k]) is Protocol ==>
        exists|j: int| 0 <= j < t.actions@.len() && (#[trigger] t.actions@[j]) is Protocol && t.actions@[j]->Protocol_0 == w.actions@[k]->Protocol_0
}
spec fn same_metadata(t: TransactionInfo, w: WinningCommitSummary) -> bool {
    forall|k: int| 0 <= k < w.actions@.len() && (#[trigger] w.actions@[k]) is Metadata ==>
        exists|j: int| 0 <= j < t.actions@.len() && (#[trigger] t.actions@[j]) is Metadata && t.actions@[j]->Metadata_0 == w.actions@[k]->Metadata_0
}
spec fn other_domains(t: TransactionInfo, w: WinningCommitSummary) -> bool {
    forall|k: int, j: int| 0 <= k < w.actions@.len() && (#[trigger] w.actions@[k]) is DomainMetadata && 0 <= j < t.actions@.len() && (#[trigger] t.actions@[j]) is DomainMetadata
        ==> t.actions@[j]->DomainMetadata_0.domain != w.actions@[k]->DomainMetadata_0.domain
}
spec fn other_apps(t: TransactionInfo, w: WinningCommitSummary) -> bool {
    forall|k: int, j: int| 0 <= k < w.actions@.len() && (#[trigger] w.actions@[k]) is Txn && 0 <= j < t.actions@.len() && (#[trigger] t.actions@[j]) is Txn
        ==> t.actions@[j]->Txn_0.app_id != w.actions@[k]->Txn_0.app_id
}
// no file the transaction saw is gone
spec fn read_files_kept(t: TransactionInfo, w: WinningCommitSummary) -> bool {
    &&& forall|k: int, i: int| 0 <= k < w.actions@.len() && (#[trigger] w.actions@[k]) is Remove && 0 <= i < t.read_snapshot.files().len()
        ==> akey(#[trigger] t.read_snapshot.files()[i]) != rkey(w.actions@[k]->Remove_0)
    &&& t.read_whole_table ==> !removes(w)
}
spec fn no_double_remove(t: TransactionInfo, w: WinningCommitSummary) -> bool {
    forall|k: int, j: int| 0 <= k < w.actions@.len() && (#[trigger] w.actions@[k]) is Remove && 0 <= j < t.actions@.len() && (#[trigger] t.actions@[j]) is Remove
        ==> rkey(t.actions@[j]->Remove_0) != rkey(w.actions@[k]->Remove_0)
}
// a transaction that read the whole table has not missed rows, except appends that its isolation level lets it ignore
spec fn nothing_missed(t: TransactionInfo, w: WinningCommitSummary, l: IsolationLevel) -> bool {
    t.read_whole_table && adds(w) ==> l is SnapshotIsolation || (l is WriteSerializable && blind(w) && !sets_metadata(t))
}
spec fn rebases(t: TransactionInfo, w: WinningCommitSummary, l: IsolationLevel) -> bool {
    same_protocol(t, w) && same_metadata(t, w) && other_domains(t, w) && other_apps(t, w) && read_files_kept(t, w) && no_double_remove(t, w) && nothing_missed(t, w, l)
}
// ---- the theorem: when the checks pass, the winner's files and those the transaction leaves are all there after both, and what it removes was still there to remove
spec fn winner_removes(w: WinningCommitSummary, x: LogicalFileKey) -> bool { exists|k: int| 0 <= k < w.actions@.len() && (#[trigger] w.actions@[k]) is Remove && rkey(w.actions@[k]->Remove_0) == x }
spec fn winner_adds(w: WinningCommitSummary, x: LogicalFileKey) -> bool { exists|k: int| 0 <= k < w.actions@.len() && (#[trigger] w.actions@[k]) is Add && akey(w.actions@[k]->Add_0) == x }
spec fn in_snapshot(t: TransactionInfo, x: LogicalFileKey) -> bool { exists|i: int| 0 <= i < t.read_snapshot.files().len() && akey(#[trigger] t.read_snapshot.files()[i]) == x }
spec fn after_winner(t: TransactionInfo, w: WinningCommitSummary, x: LogicalFileKey) -> bool { winner_adds(w, x) || (in_snapshot(t, x) && !winner_removes(w, x)) }
proof fn theorem_no_lost_update(t: TransactionInfo, w: WinningCommitSummary, l: IsolationLevel)
    requires rebases(t, w, l),
        // a transaction removes only files of the version it read
        forall|j: int| 0 <= j < t.actions@.len() && (#[trigger] t.actions@[j]) is Remove ==> in_snapshot(t, rkey(t.actions@[j]->Remove_0)),
    ensures
        forall|j: int| 0 <= j < t.actions@.len() && (#[trigger] t.actions@[j]) is Remove ==> after_winner(t, w, rkey(t.actions@[j]->Remove_0)),
        forall|x: LogicalFileKey| #[trigger] in_snapshot(t, x) ==> after_winner(t, w, x),
{
    assert forall|x: LogicalFileKey| #[trigger] in_snapshot(t, x) implies after_winner(t, w, x) by {
        if winner_removes(w, x) {
            let i = choose|i: int| 0 <= i < t.read_snapshot.files().len() && akey(#[trigger] t.read_snapshot.files()[i]) == x;
            let k = choose|k: int| 0 <= k < w.actions@.len() && (#[trigger] w.actions@[k]) is Remove && rkey(w.actions@[k]->Remove_0) == x;
            assert(akey(t.read_snapshot.files()[i]) != rkey(w.actions@[k]->Remove_0));
        }
    }
}
//@EXTRACTED@
} // verus!
fn main() {}
