//@extern indexmap
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use indexmap::{IndexMap, IndexSet};
macro_rules! info { ($($t:tt)*) => {} }
macro_rules! warn { ($($t:tt)*) => {} }
macro_rules! error { ($($t:tt)*) => {} }
macro_rules! debug { ($($t:tt)*) => {} }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct JobId(pub u64);
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct WorkerId(pub u64);
impl std::fmt::Display for JobId { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
impl std::fmt::Display for WorkerId { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
// ---- the world around the driver: worker processes and the job scheduler only record what happens to them
type Instant = u64;
type ExecutionResult<T> = std::result::Result<T, VErr>;
struct ActorContext<T> { p: std::marker::PhantomData<T> }
#[derive(PartialEq, Debug)]
enum ActorAction { Continue }
#[derive(Clone, Debug)]
struct CommonErrorCause;
impl CommonErrorCause { #[allow(non_snake_case)] fn Execution(_: String) -> Self { CommonErrorCause } }
#[derive(Clone, Copy, Debug, PartialEq)]
enum TaskState { Created, Scheduled, Running, Succeeded, Failed, Canceled }
#[derive(Clone, Copy, Debug, PartialEq)]
enum TaskStatus { Running, Succeeded, Failed, Canceled }
mod oneshot { pub struct Sender<T>(pub std::cell::RefCell<Option<T>>); impl<T> Sender<T> { pub fn send(self, t: T) -> Result<(), T> { Ok(()) } } }
struct DriverOptions { driver_id: u64, worker_initial_count: usize, worker_max_count: usize, worker_task_slots: usize }
struct TaskKeyDisplay<'a>(&'a TaskKey);
#[derive(Default, Clone)]
struct WorkerPool { next: u64, pending: BTreeSet<WorkerId>, running: BTreeSet<WorkerId>, update: u64, heartbeat: BTreeMap<WorkerId, u64> }
impl WorkerPool {
    fn start_worker(&mut self, _: &mut ActorContext<DriverActor>) { self.next += 1; self.pending.insert(WorkerId(self.next)); }
    fn register_worker(&mut self, _: &mut ActorContext<DriverActor>, w: WorkerId, _h: String, _p: u16) -> ExecutionResult<()> { if self.pending.remove(&w) { self.running.insert(w); Ok(()) } else { Err(vx_err()) } }
    fn fail_worker_if_pending(&mut self, w: WorkerId) -> bool { self.pending.remove(&w) }
    fn stop_worker(&mut self, _: &mut ActorContext<DriverActor>, w: WorkerId, _r: Option<String>) { self.pending.remove(&w); self.running.remove(&w); }
    fn get_worker_last_update(&self, w: WorkerId) -> Option<Instant> { self.running.contains(&w).then_some(self.update) }
    fn get_worker_last_heartbeat(&self, w: WorkerId) -> Option<Instant> { self.running.contains(&w).then_some(*self.heartbeat.get(&w).unwrap_or(&5)) }
}
#[derive(Default)]
struct JobScheduler { updates: Vec<(TaskKey, TaskState)> }
impl JobScheduler { fn update_task(&mut self, key: &TaskKey, state: TaskState, _m: Option<String>, _c: Option<CommonErrorCause>) { self.updates.push((key.clone(), state)); } }
thread_local! { static PLACED: std::cell::RefCell<Vec<TaskSetAssignment>> = const { std::cell::RefCell::new(vec![]) }; }
impl DriverActor {
    fn run_tasks(&mut self, _: &mut ActorContext<Self>) { let a = self.task_assigner.assign_tasks(); self.task_assigner.track_streams(&a); PLACED.with(|p| p.borrow_mut().extend(a)); }
    fn refresh_job(&mut self, _: &mut ActorContext<Self>, _: JobId) {}
}
//@EXTRACTED@
fn key(j: u64, s: usize, p: usize) -> TaskKey { TaskKey { job_id: JobId(j), stage: s, partition: p, attempt: 0 } }
fn show(k: &TaskKey) -> String { format!("{}.{}.{}", k.job_id.0, k.stage, k.partition) }
fn needs(r: &TaskRegion) -> usize { r.tasks.iter().filter(|x| x.0 == TaskPlacement::Worker).count() }
// ---- the reference: what is queued, what runs where, what is still read from whom
#[derive(Default, Clone)]
struct Model { slots: usize, max: usize, requested: usize, queue: VecDeque<TaskRegion>, workers: BTreeMap<WorkerId, Option<(Vec<BTreeSet<TaskKey>>, BTreeSet<TaskKey>)>>, at: BTreeMap<TaskKey, TaskAssignment>, dstreams: BTreeSet<TaskKey> }
impl Model {
    fn vacant(&self) -> usize { self.workers.values().flatten().map(|w| w.0.iter().filter(|s| s.is_empty()).count()).sum() }
    fn active(&self) -> usize { self.workers.values().flatten().count() }
    fn idle(&self, w: WorkerId) -> bool { matches!(self.workers.get(&w), Some(Some(x)) if x.0.iter().all(|s| s.is_empty()) && x.1.is_empty()) }
    fn tasks(&self, w: WorkerId) -> Vec<TaskKey> { match self.workers.get(&w) { Some(Some(x)) => { let mut v: Vec<_> = x.0.iter().flatten().cloned().collect(); v.sort(); v } _ => vec![] } }
    fn assigned(&mut self, got: &[TaskSetAssignment], tracked: bool) -> Result<(), String> {
        let before = self.vacant();
        let mut got = got.iter(); let mut used = 0; let mut taken: Vec<(WorkerId, usize, TaskSet)> = vec![];
        while let Some(r) = self.queue.front() {
            if used + needs(r) > before { break }
            used += needs(r);
            let r = self.queue.pop_front().unwrap();
            for (p, set) in &r.tasks {
                let a = match got.next() { Some(a) => a, None => return Err(format!("the region with task {} fits into {before} vacant slots but is not placed", show(&set.entries[0].key))) };
                vcheck!(a.set == *set, "placed {:?} where {:?} is next in the queue", a.set.entries.iter().map(|e| show(&e.key)).collect::<Vec<_>>(), set.entries.iter().map(|e| show(&e.key)).collect::<Vec<_>>());
                match &a.assignment {
                    TaskAssignment::Driver => vcheck!(*p == TaskPlacement::Driver, "{} is for a worker but runs on the driver", show(&set.entries[0].key)),
                    TaskAssignment::Worker { worker_id, slot } => {
                        vcheck!(*p == TaskPlacement::Worker, "{} is for the driver but runs on a worker", show(&set.entries[0].key));
                        let Some(Some(w)) = self.workers.get(worker_id) else { return Err(format!("{} is placed on worker {worker_id}, which does not run", show(&set.entries[0].key))) };
                        vcheck!(*slot < w.0.len() && w.0[*slot].is_empty(), "{} is placed in slot {slot} of worker {worker_id}, where {:?} runs", show(&set.entries[0].key), w.0.get(*slot));
                        vcheck!(!taken.iter().any(|x| x.0 == *worker_id && x.1 == *slot), "slot {slot} of worker {worker_id} is given away twice");
                        taken.push((*worker_id, *slot, set.clone()));
                    }
                }
                for e in &set.entries { self.at.insert(e.key.clone(), a.assignment.clone());
                    if tracked && e.output == TaskOutputKind::Local { match &a.assignment { TaskAssignment::Driver => { self.dstreams.insert(e.key.clone()); } TaskAssignment::Worker { worker_id, .. } => { self.workers.get_mut(worker_id).unwrap().as_mut().unwrap().1.insert(e.key.clone()); } } } }
            }
        }
        vcheck!(got.next().is_none(), "a region is placed although the one in front of it does not fit, or without being queued");
        for (w, s, set) in taken { self.workers.get_mut(&w).unwrap().as_mut().unwrap().0[s].extend(set.entries.iter().map(|e| e.key.clone())); }
        Ok(())
    }
    fn unassign(&mut self, k: &TaskKey) -> bool {
        match self.at.get(k) { None => false, Some(TaskAssignment::Driver) => true,
            Some(TaskAssignment::Worker { worker_id, slot }) => { if let Some(Some(w)) = self.workers.get_mut(worker_id) { w.0[*slot].remove(k); } true } }
    }
    fn untrack(&mut self, j: JobId, stage: Option<usize>) -> BTreeSet<Option<WorkerId>> {
        let hit = |k: &TaskKey| k.job_id == j && stage.is_none_or(|s| s == k.stage);
        let mut r = BTreeSet::new();
        if self.dstreams.iter().any(hit) { r.insert(None); self.dstreams.retain(|k| !hit(k)); }
        for (w, x) in self.workers.iter_mut() { if let Some(x) = x { if x.1.iter().any(hit) { r.insert(Some(*w)); x.1.retain(|k| !hit(k)); } } }
        r
    }
    fn agrees(&self, t: &TaskAssigner) -> Result<(), String> {
        let act: BTreeSet<WorkerId> = t.active_worker_ids().into_iter().collect();
        let want: BTreeSet<WorkerId> = self.workers.iter().filter(|x| x.1.is_some()).map(|x| *x.0).collect();
        vcheck!(act == want, "active workers {act:?}, but {want:?} run");
        for w in self.workers.keys().copied().chain([WorkerId(99999)]) {
            vcheck!(t.is_worker_idle(w) == self.idle(w), "worker {w} counts as idle: {}; it runs {:?} and still holds {:?}", t.is_worker_idle(w), self.tasks(w).iter().map(show).collect::<Vec<_>>(), self.workers.get(&w).and_then(|x| x.as_ref()).map(|x| x.1.iter().map(show).collect::<Vec<_>>()));
            let mut v = t.find_worker_tasks(w); v.sort();
            vcheck!(v == self.tasks(w), "tasks of worker {w}: {:?}, but {:?} run there", v.iter().map(show).collect::<Vec<_>>(), self.tasks(w).iter().map(show).collect::<Vec<_>>());
        }
        for (k, a) in &self.at { vcheck!(t.get(k) == Some(a), "task {} was placed at {a:?} but is looked up at {:?}", show(k), t.get(k)); }
        Ok(())
    }
}
struct Rng(u64);
impl Rng { fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } } fn bool(&mut self) -> bool { self.next() & 1 == 1 } }
fn region(t: &mut Rng, job: u64, stage: &mut usize, big: u64) -> TaskRegion {
    let n = 1 + t.below(big) as usize; let chain = 1 + t.below(3) as usize; let s0 = *stage; *stage += chain;
    let driver = t.below(6) == 0;
    let out = |t: &mut Rng| match t.below(4) { 0 => TaskOutputKind::Storage, 1 => TaskOutputKind::External, _ => TaskOutputKind::Local };
    let tasks = (0..n).map(|p| { let pl = if driver || t.below(9) == 0 { TaskPlacement::Driver } else { TaskPlacement::Worker };
        (pl, TaskSet { entries: (0..chain).map(|c| TaskSetEntry { key: key(job, s0 + c, p), output: out(t) }).collect() }) }).collect();
    TaskRegion { tasks }
}
fn at_name(a: &TaskStreamAssignment) -> Option<WorkerId> { match a { TaskStreamAssignment::Driver => None, TaskStreamAssignment::Worker { worker_id } => Some(*worker_id) } }
// ---- a history of the assigner alone
fn history(seed: u64, log: &mut Vec<String>) -> Result<(), String> {
    let t = &mut Rng(seed);
    let slots = 1 + t.below(4) as usize; let max = if t.below(3) == 0 { 0 } else { 1 + t.below(5) as usize };
    let mut a = TaskAssigner::new(TaskAssignerOptions { worker_task_slots: slots, worker_max_count: max });
    let mut m = Model { slots, max, ..Model::default() };
    let (mut job, mut stage, mut next, mut pend) = (1u64, 0usize, 0u64, 0usize);
    log.push(format!("{slots} slots per worker, at most {max} workers"));
    for step in 0..12 + t.below(40) {
        match t.below(14) {
            0..=2 => { if t.below(4) == 0 { job += 1; stage = 0; } let g = region(t, job, &mut stage, 5); log.push(format!("enqueue {:?}", g.tasks.iter().map(|x| format!("{:?} {:?}", x.0, x.1.entries.iter().map(|e| show(&e.key)).collect::<Vec<_>>())).collect::<Vec<_>>())); m.queue.push_back(g.clone()); a.enqueue_tasks(g); }
            3..=4 => { log.push("assign".into()); let g = a.assign_tasks(); let tracked = t.below(8) != 0; if tracked { a.track_streams(&g); } m.assigned(&g, tracked)?; }
            5 => {
                let want = { let lack = m.queue.iter().map(needs).sum::<usize>().saturating_sub(m.vacant()); let n = lack.div_ceil(slots); if max == 0 { n } else { n.min(max.saturating_sub(pend + m.active())) } };
                let got = a.request_workers(); log.push(format!("request: {got}"));
                vcheck!(max == 0 || pend + m.active() + got <= max, "{got} more workers are requested while {pend} are requested and {} run, but at most {max} may", m.active());
                vcheck!(got == want, "{got} workers are requested where {want} are needed and allowed");
                pend += got;
            }
            6 | 7 => if pend > 0 || max == 0 { next += 1; pend = pend.saturating_sub(1); log.push(format!("worker {next} starts")); a.activate_worker(WorkerId(next)); m.workers.insert(WorkerId(next), Some((vec![BTreeSet::new(); slots], BTreeSet::new()))); }
            8 => if pend > 0 { pend -= 1; log.push("a worker does not start".into()); a.track_worker_failed_to_start(); }
            9 => if t.below(3) == 0 && next > 0 { let w = WorkerId(1 + t.below(next)); log.push(format!("worker {w} stops")); a.deactivate_worker(w); m.workers.insert(w, None); }
            10 | 11 => { let ks: Vec<TaskKey> = m.workers.keys().flat_map(|w| m.tasks(*w)).collect(); let k = if t.below(5) == 0 || ks.is_empty() { m.at.keys().nth(t.below(m.at.len() as u64 + 1) as usize).cloned().unwrap_or(key(77, 0, 0)) } else { ks[t.below(ks.len() as u64) as usize].clone() };
                log.push(format!("task {} ends", show(&k))); let g = a.unassign_task(&k); let was = m.unassign(&k); if let Some(x) = &g { vcheck!(m.at.get(&k) == Some(x), "task {} ended at {x:?} but ran at {:?}", show(&k), m.at.get(&k)); } vcheck!(g.is_some() == was, "task {} found: {}", show(&k), g.is_some()); }
            12 => { let k = match m.queue.get(t.below(m.queue.len() as u64 + 1) as usize) { Some(g) => g.tasks[t.below(g.tasks.len() as u64) as usize].1.entries[0].key.clone(), None => key(78, 0, 0) };
                log.push(format!("cancel {}", show(&k))); a.exclude_task(&k); m.queue.retain(|g| !g.tasks.iter().any(|x| x.1.entries.iter().any(|e| e.key == k))); }
            _ => { let j = JobId(1 + t.below(job)); let s = if t.bool() { Some(t.below(stage as u64 + 1) as usize) } else { None }; log.push(format!("nothing reads job {j} stage {s:?} any more")); let g: BTreeSet<Option<WorkerId>> = a.untrack_local_streams(j, s).iter().map(at_name).collect(); let w = m.untrack(j, s); vcheck!(g == w, "streams of job {j} stage {s:?} are dropped at {g:?}, but {w:?} hold them"); }
        }
        m.agrees(&a)?;
    }
    Ok(())
}
// ---- a history of the driver: messages in any order a network can deliver them
fn driver(max: usize, slots: usize, initial: usize) -> DriverActor {
    DriverActor { options: DriverOptions { driver_id: 1, worker_initial_count: initial, worker_max_count: max, worker_task_slots: slots }, worker_pool: WorkerPool::default(), job_scheduler: JobScheduler::default(), task_assigner: TaskAssigner::new(TaskAssignerOptions { worker_task_slots: slots, worker_max_count: max }), task_sequences: HashMap::new() }
}
fn register(d: &mut DriverActor, m: &mut Model, w: WorkerId) -> Result<(), String> {
    let was = d.worker_pool.pending.contains(&w);
    let mut cx = ActorContext { p: std::marker::PhantomData };
    d.handle_register_worker(&mut cx, w, "h".to_string(), 1, oneshot::Sender(std::cell::RefCell::new(None)));
    if was { m.workers.insert(w, Some((vec![BTreeSet::new(); m.slots], BTreeSet::new()))); }
    let g = PLACED.with(|p| std::mem::take(&mut *p.borrow_mut()));
    if was { m.assigned(&g, true) } else { vcheck!(g.is_empty(), "tasks are placed although the registration was refused"); Ok(()) }
}
fn messages(seed: u64, mode: u64, log: &mut Vec<String>) -> Result<(), String> {
    let t = &mut Rng(seed); let faults = mode == 2;
    let slots = 1 + t.below(4) as usize; let max = if t.below(8) == 0 { 0 } else { 1 + t.below(5) as usize }; let initial = t.below(6) as usize;
    let mut d = driver(max, slots, initial); let mut m = Model { slots, max, ..Model::default() };
    let mut cx = ActorContext { p: std::marker::PhantomData };
    log.push(format!("{slots} slots per worker, at most {max} workers, {initial} at the start"));
    d.handle_activate(&mut cx);
    let want0 = if max == 0 { initial } else { initial.min(max) };
    vcheck!(d.worker_pool.pending.len() <= if max == 0 { initial } else { max }, "{} workers are started at first, but at most {max} may run", d.worker_pool.pending.len());
    vcheck!(initial > max && max != 0 || d.worker_pool.pending.len() == want0, "{} workers are started at first, not {want0}", d.worker_pool.pending.len());
    let (mut job, mut stage, mut seq) = (1u64, 0usize, 1u64);
    for step in 0..15 + t.below(50) {
        let before = d.worker_pool.clone();
        let mut ends: Option<TaskKey> = None;
        match t.below([9, 10, 13][mode as usize]) {
            0 | 1 => { if t.below(3) == 0 { job += 1; stage = 0; } let cap = if max == 0 { 5 } else { (max * slots).min(5) as u64 }; let g = region(t, job, &mut stage, cap); log.push(format!("job {job} adds {} sets", g.tasks.len())); m.queue.push_back(g.clone()); d.task_assigner.enqueue_tasks(g); d.run_tasks(&mut cx); let g = PLACED.with(|p| std::mem::take(&mut *p.borrow_mut())); m.assigned(&g, true)?; d.scale_up_workers(&mut cx); }
            2..=4 => { let all: Vec<WorkerId> = before.pending.iter().chain(if t.below(6) == 0 { &before.running } else { &before.pending }).copied().collect(); if !all.is_empty() { let w = all[t.below(all.len() as u64) as usize]; log.push(format!("worker {w} registers")); register(&mut d, &mut m, w)?; } }
            5..=7 => { let ks: Vec<TaskKey> = m.workers.keys().flat_map(|w| m.tasks(*w)).chain(m.at.iter().filter(|x| *x.1 == TaskAssignment::Driver).map(|x| x.0.clone()).take(1)).collect();
                if !ks.is_empty() { let k = ks[t.below(ks.len() as u64) as usize].clone(); let st = match t.below(8) { 0 => TaskStatus::Running, 1 | 2 => TaskStatus::Failed, 3 if faults => TaskStatus::Canceled, _ => TaskStatus::Succeeded };
                    let old = t.below(4) == 0; let s = if old { t.below(3) } else { seq += 1; seq };
                    let stale = matches!(d.task_sequences.get(&k), Some(x) if s <= *x);
                    log.push(format!("task {} reports {st:?} (number {s}{})", show(&k), if stale { ", late" } else { "" }));
                    let ups = d.job_scheduler.updates.len(); let reqs = d.task_assigner.requested_worker_count;
                    d.handle_update_task(&mut cx, k.clone(), st, None, None, Some(s));
                    let g = PLACED.with(|p| std::mem::take(&mut *p.borrow_mut()));
                    if stale { vcheck!(d.job_scheduler.updates.len() == ups && g.is_empty() && d.worker_pool.pending == before.pending, "a late report of task {} is acted on", show(&k)); }
                    else { vcheck!(d.job_scheduler.updates.len() == ups + 1, "the report of task {} is lost", show(&k)); if matches!(st, TaskStatus::Succeeded | TaskStatus::Failed) { m.unassign(&k); m.assigned(&g, true)?; } } } }
            8 => { let j = JobId(1 + t.below(job)); log.push(format!("nothing reads job {j} any more")); d.task_assigner.untrack_local_streams(j, None); m.untrack(j, None); }
            9 => { let all: Vec<WorkerId> = before.pending.iter().chain(before.running.iter()).copied().collect(); if !all.is_empty() { let w = all[t.below(all.len() as u64) as usize]; log.push(format!("worker {w} should have registered by now")); d.handle_probe_pending_worker(&mut cx, w); } }
            10 | 11 => { let all: Vec<WorkerId> = before.running.iter().copied().collect(); if !all.is_empty() { let w = all[t.below(all.len() as u64) as usize]; let soon = t.below(3) == 0; d.worker_pool.update = if soon { 9 } else { 1 }; log.push(format!("worker {w} may be idle{}", if soon { " (but was used since)" } else { "" })); let idle = m.idle(w); d.handle_probe_idle_worker(&mut cx, w, 5);
                vcheck!(d.worker_pool.running.contains(&w) == (soon || !idle), "worker {w} is {} although it {}", if d.worker_pool.running.contains(&w) { "kept" } else { "stopped as idle" }, if idle { "has nothing to do" } else { "has tasks or holds streams that are still read" });
                if !d.worker_pool.running.contains(&w) { m.workers.insert(w, None); } } }
            _ => { let all: Vec<WorkerId> = before.running.iter().copied().collect(); if !all.is_empty() { let w = all[t.below(all.len() as u64) as usize]; let lost = t.bool(); d.worker_pool.heartbeat.insert(w, if lost { 1 } else { 9 }); log.push(format!("worker {w} is {}", if lost { "lost" } else { "checked on" })); let mut ks = m.tasks(w); let ups = d.job_scheduler.updates.len();
                d.handle_probe_lost_worker(&mut cx, w, 5);
                let g = PLACED.with(|p| std::mem::take(&mut *p.borrow_mut()));
                let mut up: Vec<TaskKey> = d.job_scheduler.updates[ups..].iter().filter(|x| x.1 == TaskState::Failed).map(|x| x.0.clone()).collect(); up.sort();
                if lost { m.workers.insert(w, None); vcheck!(up == ks, "worker {w} is lost; failed are {:?}, but {:?} ran there", up.iter().map(show).collect::<Vec<_>>(), ks.iter().map(show).collect::<Vec<_>>()); if !ks.is_empty() { m.assigned(&g, true)?; } else { vcheck!(g.is_empty(), "tasks are placed"); } }
                else { vcheck!(up.is_empty() && d.worker_pool.running == before.running, "worker {w} is given up although it sent a heartbeat"); } } }
        }
        let n = d.worker_pool.pending.len() + d.worker_pool.running.len();
        vcheck!(max == 0 || n <= max, "{} workers run and {} are about to, but at most {max} may", d.worker_pool.running.len(), d.worker_pool.pending.len());
        m.agrees(&d.task_assigner)?;
    }
    // unless workers stop, every queued task gets its turn: workers register and tasks end
    if !faults {
        for _ in 0..3000 {
            if m.queue.is_empty() { break }
            if let Some(w) = d.worker_pool.pending.iter().next().copied() { register(&mut d, &mut m, w)?; continue }
            let ks: Vec<TaskKey> = m.workers.keys().flat_map(|w| m.tasks(*w)).collect();
            let k = match ks.first() { Some(k) => k.clone(), None => break };
            seq += 1; d.handle_update_task(&mut cx, k.clone(), TaskStatus::Succeeded, None, None, Some(seq));
            let g = PLACED.with(|p| std::mem::take(&mut *p.borrow_mut())); m.unassign(&k); m.assigned(&g, true)?;
        }
        vcheck!(m.queue.is_empty(), "{} regions wait forever: no task runs, no worker is about to start, {} of {max} workers run", m.queue.len(), d.worker_pool.running.len());
    }
    Ok(())
}
fn main() {
    let mut t = T::new();
    for k in 0..t.n(6000) {
        let seed = t.next();
        let d = || { let mut l = vec![]; let _ = guard(|| { PLACED.with(|p| p.borrow_mut().clear()); history(seed, &mut l) }); l.join("; ") };
        t.case("TaskAssigner", d, || { let mut l = vec![]; history(seed, &mut l) });
    }
    for k in 0..t.n(6000) {
        let seed = t.next(); let mode = [0, 1, 2, 2][k as usize % 4];
        let d = || { let mut l = vec![]; PLACED.with(|p| p.borrow_mut().clear()); let _ = guard(|| messages(seed, mode, &mut l)); l.join("; ") };
        t.case("DriverActor", d, || { PLACED.with(|p| p.borrow_mut().clear()); let mut l = vec![]; messages(seed, mode, &mut l) });
    }
    t.finish()
}
