//@extern uuid
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};
use uuid::Uuid;
// ---- stand-ins: an in-memory object store and actions that are just version numbers
type DeltaResult<T> = std::result::Result<T, DeltaError>;
type Result<T> = DeltaResult<T>;
#[derive(Clone, Debug)] enum DeltaError { Msg(String), MissingVersion }
type DeltaTableError = DeltaError;
impl DeltaError { fn generic(s: impl ToString) -> Self { DeltaError::Msg(s.to_string()) } fn generic_err(s: impl ToString) -> Self { DeltaError::Msg(s.to_string()) } }
impl std::fmt::Display for DeltaError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{self:?}") } }
impl From<ObjectStoreError> for DeltaError { fn from(e: ObjectStoreError) -> Self { DeltaError::Msg(format!("{e:?}")) } }
#[derive(Clone, Debug)] enum ObjectStoreError { NotFound { path: String }, NotSupported { x: u8 }, NotImplemented { x: u8 } }
impl std::fmt::Display for ObjectStoreError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{self:?}") } }
mod object_store { pub(crate) use super::ObjectStoreError as Error; }
mod datafusion { pub mod common { pub struct DataFusionError; #[allow(non_snake_case)] impl DataFusionError { pub fn External(b: Box<crate::DeltaError>) -> crate::DeltaError { *b } } pub mod runtime {} } }
mod delta_log { pub type LogStoreRef = std::sync::Arc<dyn crate::LogStore>; }
mod spec { pub(crate) use crate::{DeltaError, LastCheckpointHint}; }
mod snapshot { pub(crate) use crate::catalog_managed_commit_path; }
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)] struct Path(String);
impl Path { fn as_ref(&self) -> &str { &self.0 } fn filename(&self) -> Option<&str> { self.0.rsplit('/').next() } }
impl From<String> for Path { fn from(s: String) -> Path { Path(s.trim_matches('/').to_string()) } }
impl From<&str> for Path { fn from(s: &str) -> Path { Path(s.trim_matches('/').to_string()) } }
impl std::fmt::Display for Path { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
#[derive(Clone, Debug, PartialEq)] struct Ts(i64);
impl Ts { fn timestamp_millis(&self) -> i64 { self.0 } }
#[derive(Clone, Debug, PartialEq)] struct ObjectMeta { location: Path, last_modified: Ts, size: u64, e_tag: Option<String>, version: Option<String> }
#[derive(Clone, Debug)] struct Bytes(Vec<i64>);
struct Got(Bytes);
impl Got { fn bytes(self) -> std::result::Result<Bytes, ObjectStoreError> { Ok(self.0) } }
struct Listing(std::result::Result<Vec<ObjectMeta>, ObjectStoreError>);
impl Listing { fn try_collect<C: FromIterator<ObjectMeta>>(self) -> std::result::Result<C, ObjectStoreError> { self.0.map(|v| v.into_iter().collect()) } }
struct Delim { objects: Vec<ObjectMeta> }
trait ObjectStore {
    fn get(&self, p: &Path) -> std::result::Result<Got, ObjectStoreError>;
    fn head(&self, p: &Path) -> std::result::Result<ObjectMeta, ObjectStoreError>;
    fn list_with_offset(&self, p: Option<&Path>, o: &Path) -> Listing;
    fn list_with_delimiter(&self, p: Option<&Path>) -> std::result::Result<Delim, ObjectStoreError>;
    fn list(&self, p: Option<&Path>) -> Listing;
}
trait LogStore { fn object_store(&self, id: Option<Uuid>) -> Arc<dyn ObjectStore>; }
#[derive(Clone, Debug)] struct Store { files: BTreeMap<String, Vec<i64>>, order: bool, no_offset: bool, hint: Option<LastCheckpointHint> }
thread_local! { static HINT: std::cell::RefCell<Option<LastCheckpointHint>> = const { std::cell::RefCell::new(None) }; static APPLIED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
impl Store {
    fn meta(&self, k: &str) -> ObjectMeta { ObjectMeta { location: Path(k.to_string()), last_modified: Ts(k.len() as i64), size: 1, e_tag: None, version: None } }
    fn all(&self, p: &str, off: Option<&str>) -> Vec<ObjectMeta> {
        let mut v: Vec<ObjectMeta> = self.files.keys().filter(|k| k.starts_with(p) && off.map_or(true, |o| k.as_str() > o)).map(|k| self.meta(k)).collect();
        if self.order { v.reverse() }
        v
    }
}
impl ObjectStore for Store {
    fn get(&self, p: &Path) -> std::result::Result<Got, ObjectStoreError> { self.files.get(&p.0).map(|v| Got(Bytes(v.clone()))).ok_or(ObjectStoreError::NotFound { path: p.0.clone() }) }
    fn head(&self, p: &Path) -> std::result::Result<ObjectMeta, ObjectStoreError> { self.files.get(&p.0).map(|_| self.meta(&p.0)).ok_or(ObjectStoreError::NotFound { path: p.0.clone() }) }
    fn list_with_offset(&self, p: Option<&Path>, o: &Path) -> Listing { if self.no_offset { Listing(Err(ObjectStoreError::NotSupported { x: 0 })) } else { Listing(Ok(self.all(&p.unwrap().0, Some(&o.0)))) } }
    fn list_with_delimiter(&self, p: Option<&Path>) -> std::result::Result<Delim, ObjectStoreError> { Ok(Delim { objects: self.all(&p.unwrap().0, None) }) }
    fn list(&self, p: Option<&Path>) -> Listing { Listing(Ok(self.all(&p.unwrap().0, None))) }
}
struct Log(Arc<Store>);
impl LogStore for Log { fn object_store(&self, _: Option<Uuid>) -> Arc<dyn ObjectStore> { self.0.clone() } }
#[derive(Clone, Debug)] struct LastCheckpointV2 { path: String }
#[derive(Clone, Debug)] struct LastCheckpointHint { version: i64, v2_checkpoint: Option<LastCheckpointV2>, parts: Option<usize> }
fn read_last_checkpoint_hint_from_store(_s: Arc<dyn ObjectStore>) -> Option<LastCheckpointHint> { HINT.with(|h| h.borrow().clone()) }
mod serde_json { pub fn from_slice<T: super::FromB>(b: &super::Bytes) -> std::result::Result<T, String> { T::from_b(b) } }
trait FromB: Sized { fn from_b(b: &Bytes) -> std::result::Result<Self, String>; }
#[derive(Clone, Debug)] struct VersionChecksum { log: Vec<i64>, bad: bool }
// a checksum file holds the state of its version; a leading -1 marks a damaged one, -2 an invalid one
impl FromB for VersionChecksum { fn from_b(b: &Bytes) -> std::result::Result<Self, String> { if b.0.first() == Some(&-1) { Err("bad json".into()) } else { Ok(VersionChecksum { bad: b.0.first() == Some(&-2), log: b.0.clone() }) } } }
fn txns_of(v: &[i64]) -> HashMap<String, Transaction> { v.iter().enumerate().map(|(i, x)| (format!("{i:06}"), Transaction(*x))).collect() }
fn validate_and_build_header(version: i64, c: VersionChecksum) -> Option<ReplayedTableHeader> {
    if c.bad { return None }
    Some(ReplayedTableHeader { version, protocol: Protocol, metadata: Metadata, txns: Arc::new(txns_of(&c.log)), domain_metadata: Default::default(), commit_timestamps: Default::default() })
}
fn try_read_checksum_header(store: Arc<dyn ObjectStore>, version: i64) -> Option<ReplayedTableHeader> {
    let b = store.get(&Path(format!("_delta_log/{version:020}.crc"))).ok()?.0;
    validate_and_build_header(version, VersionChecksum::from_b(&b).ok()?)
}
#[derive(Clone, Debug)] struct Protocol; #[derive(Clone, Debug)] struct Metadata;
#[derive(Clone, Debug, PartialEq)] struct Transaction(i64);
#[derive(Clone, Debug, PartialEq)] struct DomainMetadata { domain: String }
#[derive(Clone, Debug, PartialEq)] struct Add(i64); #[derive(Clone, Debug, PartialEq)] struct Remove(i64);
#[derive(Clone, Debug)] struct Action(i64);
type CheckpointActionRow = Action;
#[derive(Clone, Debug)] struct ReplayedTableState { version: i64, protocol: Protocol, metadata: Metadata, txns: HashMap<String, Transaction>, domain_metadata: Vec<DomainMetadata>, adds: Vec<Add>, removes: Vec<Remove>, commit_timestamps: BTreeMap<i64, i64> }
#[derive(Clone, Debug, Default)] struct ReconciledCheckpointState { protocol: Option<Protocol>, metadata: Option<Metadata>, txns: HashMap<String, Transaction>, domain_metadata: HashMap<String, DomainMetadata>, adds: HashMap<String, Add>, removes: HashMap<String, Remove>, n: u64 }
#[derive(Clone, Debug, Default)] struct ReconciledHeaderState { protocol: Option<Protocol>, metadata: Option<Metadata>, txns: HashMap<String, Transaction>, domain_metadata: HashMap<String, DomainMetadata>, n: u64 }
trait ReplayActionState { fn protocol(&self) -> Option<&Protocol>; fn metadata(&self) -> Option<&Metadata>; fn apply_replay_action(&mut self, a: Action); }
impl ReplayActionState for ReconciledCheckpointState {
    fn protocol(&self) -> Option<&Protocol> { self.protocol.as_ref() } fn metadata(&self) -> Option<&Metadata> { self.metadata.as_ref() }
    fn apply_replay_action(&mut self, a: Action) { self.protocol = Some(Protocol); self.metadata = Some(Metadata); self.adds.insert(format!("{:06}", self.n), Add(a.0)); self.n += 1; }
}
impl ReconciledCheckpointState { fn apply_checkpoint_row(&mut self, a: Action) -> DeltaResult<()> { self.apply_replay_action(a); Ok(()) } }
impl ReplayActionState for ReconciledHeaderState {
    fn protocol(&self) -> Option<&Protocol> { self.protocol.as_ref() } fn metadata(&self) -> Option<&Metadata> { self.metadata.as_ref() }
    fn apply_replay_action(&mut self, a: Action) { self.protocol = Some(Protocol); self.metadata = Some(Metadata); self.txns.insert(format!("{:06}", self.n), Transaction(a.0)); self.n += 1; }
}
impl ReconciledHeaderState {
    fn apply_checkpoint_row(&mut self, a: Action) -> DeltaResult<()> { self.apply_replay_action(a); Ok(()) }
    fn from_header(h: &ReplayedTableHeader) -> Self { ReconciledHeaderState { protocol: Some(Protocol), metadata: Some(Metadata), n: h.txns.len() as u64, txns: (*h.txns).clone(), domain_metadata: HashMap::new() } }
}
fn get_actions(_v: i64, b: &Bytes) -> DeltaResult<Vec<Action>> { Ok(b.0.iter().map(|x| Action(*x)).collect()) }
fn resolve_commit_timestamp_from_actions(_v: i64, m: &ObjectMeta, _p: Option<&Protocol>, _m: Option<&Metadata>, _a: &[Action]) -> DeltaResult<i64> { Ok(m.last_modified.0) }
fn read_checkpoint_rows_from_checkpoint_file(s: Arc<dyn ObjectStore>, m: ObjectMeta) -> DeltaResult<Vec<Action>> { Ok(s.get(&m.location)?.0.0.iter().map(|x| Action(*x)).collect()) }
fn read_checkpoint_header_from_checkpoint_file(s: Arc<dyn ObjectStore>, m: ObjectMeta) -> DeltaResult<ReconciledHeaderState> { let mut st = ReconciledHeaderState::default(); for r in s.get(&m.location)?.0.0 { st.apply_replay_action(Action(r)) } Ok(st) }
#[derive(Clone)] struct Sidecar { path: String }
fn sidecar_log_path(s: &str) -> String { s.to_string() }
fn inspect_checkpoint_main_file(_s: Arc<dyn ObjectStore>, _m: ObjectMeta) -> DeltaResult<Vec<Sidecar>> { Ok(vec![]) }
struct PlannerContext<'a> { log: Arc<dyn LogStore>, cache: Mutex<HashMap<i64, LogSegmentFiles>>, p: std::marker::PhantomData<&'a ()> }
impl PlannerContext<'_> {
    fn get_cached_log_segment_files(&self, v: i64) -> Option<LogSegmentFiles> { self.cache.lock().unwrap().get(&v).cloned() }
    fn set_cached_log_segment_files(&self, v: i64, f: LogSegmentFiles) { self.cache.lock().unwrap().insert(v, f); }
    fn log_store(&self) -> DeltaResult<Arc<dyn LogStore>> { Ok(self.log.clone()) }
}
//@EXTRACTED@
#[derive(Clone, Debug)] struct Sc { store: Store, target: i64, hint: Option<LastCheckpointHint>, complete: bool, cps: Vec<i64>, base: Option<i64>, staged: Option<CatalogManagedCommitSet> }
fn uu(n: u64) -> String { format!("c13805b3-8c9f-45f0-b1e4-{:012x}", n) }
fn scenario(t: &mut T) -> Sc {
    let last = if t.below(12) == 0 { t.rng(100, 260) } else { t.rng(0, 24) };
    let mut files: BTreeMap<String, Vec<i64>> = BTreeMap::new();
    let f = |s: String| format!("_delta_log/{s}");
    let mut cps = vec![];
    for v in 0..=last { if t.below(if last > 50 { 40 } else { 6 }) == 0 { cps.push(v); } }
    // commits before the cleanup point are gone; cleanup never goes past the newest checkpoint
    let clean = if !cps.is_empty() && t.below(3) == 0 { *t.pick(&cps) } else { 0 };
    let mut complete = true;
    for v in clean..=last { if t.below(60) == 0 { complete = false; continue } files.insert(f(format!("{v:020}.json")), vec![v]); }
    cps.retain(|c| *c >= clean);
    let mut v2 = vec![];
    for &c in &cps {
        let rows: Vec<i64> = (0..=c).collect();
        match t.below(4) {
            0 => { let u = t.below(3); let p = format!("{c:020}.checkpoint.{}.{}", uu(u), if t.bool() { "parquet" } else { "json" }); v2.push((c, p.clone())); files.insert(f(p), rows); }
            _ => { files.insert(f(format!("{c:020}.checkpoint.parquet")), rows); }
        }
    }
    // half of a checkpoint in two parts: never usable on its own
    if t.below(6) == 0 { let c = t.rng(0, last); for p in 1..=2 { let n = c + 1; let rows: Vec<i64> = if p == 1 { (0..n / 2).collect() } else { (n / 2..n).collect() }; files.insert(f(format!("{c:020}.checkpoint.{p:010}.{:010}.parquet", 2)), rows); } }
    for _ in 0..t.below(4) { let s = t.rng(0, last); let e = t.rng(s, (s + 6).min(last)); if e > s { files.insert(f(format!("{s:020}.{e:020}.compacted.json")), (s..=e).collect()); } }
    for v in 0..=last { if t.below(8) == 0 { let rows: Vec<i64> = match t.below(8) { 0 => vec![-1], 1 => vec![-2], _ => (0..=v).collect() }; files.insert(f(format!("{v:020}.crc")), rows); } }
    files.insert(f("_staged_commits/00000000000000000099.x.json".into()), vec![99]);
    files.insert(f("_sidecars/00000000000000000001.checkpoint.0000000001.0000000001.parquet".into()), vec![7]);
    files.insert("_delta_log/_last_checkpoint".into(), vec![]);
    let hint = if cps.is_empty() || t.below(5) == 0 { None } else {
        let c = if t.below(3) > 0 { *cps.last().unwrap() } else { *t.pick(&cps) };
        let p = v2.iter().find(|x| x.0 == c).map(|x| x.1.clone());
        Some(LastCheckpointHint { version: c, parts: None, v2_checkpoint: p.map(|p| LastCheckpointV2 { path: p }) })
    };
    let target = if t.below(3) == 0 { last } else { t.rng(clean, last) };
    let base = if t.below(3) == 0 { Some(t.rng(0, target)) } else { None };
    let staged = if t.below(5) == 0 {
        let mut commits = vec![];
        for v in (last - 3).max(0)..=last { if t.bool() { let n = format!("{v:020}.{}.json", uu(9)); files.insert(f(format!("_staged_commits/{n}")), vec![v]); commits.push(CatalogManagedCommitFile { version: v, file_name: if t.bool() { n } else { format!("_delta_log/_staged_commits/{n}") } });
            if t.bool() { files.remove(&f(format!("{v:020}.json"))); } } }
        Some(CatalogManagedCommitSet { latest_table_version: last, commits })
    } else { None };
    Sc { store: Store { files, order: t.bool(), no_offset: t.below(6) == 0, hint: None }, target, hint, complete, cps, base, staged }
}
fn brief(s: &Sc) -> String { format!("target={} hint={:?} base={:?} staged={:?} offset listing={} files={:?}", s.target, s.hint.as_ref().map(|h| (h.version, h.v2_checkpoint.as_ref().map(|x| &x.path))), s.base, s.staged.as_ref().map(|c| c.commits.iter().map(|x| x.version).collect::<Vec<_>>()), !s.store.no_offset,
    s.store.files.keys().map(|k| k.trim_start_matches("_delta_log/").trim_start_matches("00000000000000")).collect::<Vec<_>>()) }
fn run(s: &Sc) -> std::result::Result<(), String> {
    HINT.with(|h| *h.borrow_mut() = s.hint.clone());
    let log = Log(Arc::new(s.store.clone()));
    let want: Vec<i64> = (0..=s.target).collect();
    // everything needed is there: the commits after the newest whole checkpoint at or before the target
    let start = s.cps.iter().filter(|c| **c <= s.target).max().map_or(0, |c| c + 1);
    let have = |v: i64| s.store.files.contains_key(&format!("_delta_log/{v:020}.json")) || s.staged.as_ref().is_some_and(|c| c.commits.iter().any(|x| x.version == v));
    let must = (start..=s.target).all(have);
    match load_replayed_table_state(s.target, &log, s.staged.as_ref()) {
        Ok(st) => { let g: Vec<i64> = st.adds.iter().map(|a| a.0).collect(); vcheck!(g == want, "the table state of version {} replays versions {g:?}", s.target); vcheck!(st.version == s.target, "state of version {}", st.version); }
        Err(e) => { vcheck!(!must, "version {} cannot be read ({e}) although its log is complete", s.target); }
    }
    let base = s.base.map(|b| validate_and_build_header(b, VersionChecksum { log: (0..=b).collect(), bad: false }).unwrap());
    if let Ok(Some(h)) = load_replayed_table_header(s.target, &log, base.as_ref(), s.staged.as_ref()) {
        let m: BTreeMap<_, _> = h.txns.iter().collect(); let g: Vec<i64> = m.values().map(|x| x.0).collect();
        vcheck!(g == want, "the table header of version {} replays versions {g:?}", s.target); vcheck!(h.version == s.target, "header of version {}", h.version);
    }
    let ctx = PlannerContext { log: Arc::new(log), cache: Default::default(), p: std::marker::PhantomData };
    if must { match resolve_log_segment_files(&ctx, s.target, LogSegmentResolveOptions { commit_version_range: None }, None) {
        Ok(f) if s.staged.is_none() => {
            let mut g = vec![];
            for x in f.checkpoint_files.iter().chain(&f.commit_files) { g.extend(s.store.files.get(&format!("_delta_log/{x}")).ok_or(format!("no file {x}"))?.iter().copied()); }
            let mut w = want.clone(); g.sort(); w.sort();
            vcheck!(g == w, "a scan of version {} reads the actions of versions {g:?} (files {:?} {:?})", s.target, f.checkpoint_files, f.commit_files);
        }
        Ok(_) => {}
        Err(e) => return Err(format!("a scan of version {} is refused: {e}", s.target)),
    } }
    Ok(())
}
fn main() {
    let mut t = T::new();
    for _ in 0..t.n(40000) { let s = scenario(&mut t); t.case("replay", || brief(&s), || run(&s)); }
    t.finish()
}
