file crates/sail-execution/src/id.rs
type TaskKey v=PartialEq,Eq,Structural n=Debug,Clone,PartialEq,Eq,Hash,PartialOrd,Ord
file crates/sail-execution/src/job_graph/mod.rs
type TaskPlacement v=Clone,Copy n=Clone,Copy,Debug,PartialEq
file crates/sail-execution/src/task/scheduling.rs
vrule chain iter/0.any/1 => vx_any(&$recv, $0{bool;&_})
type TaskOutputKind v= n=Clone,Debug,PartialEq
type TaskSetEntry v= n=Clone,Debug,PartialEq
type TaskSet v= n=Debug,Clone,PartialEq
type TaskRegion v= n=Debug,Clone,PartialEq
type TaskAssignment v= n=Debug,Clone,PartialEq
type TaskSetAssignment v= n=Debug,Clone,PartialEq
type TaskStreamAssignment v= n=Debug,Clone,PartialEq,Eq,Hash
vrule chain iter/0.map/1 => vx_map(&$recv, $0{&'a TaskKey;&'a TaskSetEntry})
vrule chain iter/0.filter/1.map/1 => vx_filter_then_map(&$recv, $0{bool;&&'a TaskSetEntry}, $1{&'a TaskKey;&'a TaskSetEntry})
fn TaskSet::tasks
sig fn tasks<'a>(&'a self) -> (r: Vec<&'a TaskKey>)
spec <<<
ensures r@.len() == self.entries@.len(), forall|i: int| #![trigger r@[i]] #![trigger self.entries@[i]] 0 <= i < r@.len() ==> *r@[i] == self.entries@[i].key,
>>>
fn TaskSet::storage_streams
noverus
fn TaskSet::external_streams
noverus
fn TaskSet::local_streams
sig fn local_streams<'a>(&'a self) -> (r: Vec<&'a TaskKey>)
spec <<<
ensures forall|k: TaskKey| local_of(*self, k) <==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]) == k,
>>>
fn TaskSet::contains
ret r
attrs spec fn has_spec(&self, k: &TaskKey) -> bool { self.has(*k) } #[verifier::when_used_as_spec(has_spec)]
spec <<<
ensures r == self.has_spec(key), r == self.has(*key),
>>>
fn TaskRegion::contains
ret r
attrs spec fn contains_spec(&self, key: &TaskKey) -> bool { in_region(*self, *key) } #[verifier::when_used_as_spec(contains_spec)]
spec <<<
ensures r == self.contains_spec(key),
>>>
file crates/sail-execution/src/driver/task_assigner/options.rs
type TaskAssignerOptions v= n=
file crates/sail-execution/src/driver/task_assigner/state.rs
type TaskSlot v= n=Debug,Clone
type DriverResource v= n=Debug,Default
type WorkerResource v= n=Debug
fn TaskSlot::is_vacant
ret r
attrs spec fn empty_spec(&self) -> bool { self.tasks.is_empty_spec() } #[verifier::when_used_as_spec(empty_spec)]
spec <<<
ensures r == self.empty_spec(),
>>>
vrule chain retain/1 => $recv.retain($0{bool})
fn TaskSlot@Default::default
ret r
spec <<<
ensures r.tasks.s() == Set::<TaskKey>::empty(),
>>>
fn TaskSlot::add_tasks
sig fn add_tasks(&mut self, tasks: Vec<TaskKey>)
spec <<<
ensures forall|k: TaskKey| #[trigger] final(self).tasks.s().contains(k) <==> old(self).tasks.s().contains(k) || tasks@.contains(k),
>>>
loop 0 it <<<
invariant it.seq() == tasks@, forall|k: TaskKey| #[trigger] self.tasks.s().contains(k) <==> old(self).tasks.s().contains(k) || it.seq().take(it.index@).contains(k),
>>>
loop-end 0 <<<
proof {
    let a = it.seq().take(it.index@); let b = it.seq().take(it.index@ + 1);
    assert(b =~= a.push(it.seq()[it.index@]));
    assert forall|k: TaskKey| #[trigger] b.contains(k) <==> a.contains(k) || k == it.seq()[it.index@] by {
        if a.contains(k) { let i = choose|i: int| 0 <= i < a.len() && a[i] == k; assert(b[i] == k); }
        if b.contains(k) { let i = choose|i: int| 0 <= i < b.len() && b[i] == k; if i < a.len() { assert(a[i] == k); } }
        assert(b[b.len() - 1] == it.seq()[it.index@]);
    }
}
>>>
loop-after 0 <<<
proof { assert(tasks@.take(tasks@.len() as int) =~= tasks@); }
>>>
fn TaskSlot::remove_task
ret r
spec <<<
ensures final(self).tasks.s() == old(self).tasks.s().remove(*task), r == old(self).tasks.s().contains(*task),
>>>
fn TaskSlot::list_tasks
noverus
fn DriverResource::track_local_streams
noverus
fn DriverResource::track_storage_streams
noverus
fn DriverResource::track_external_streams
noverus
fn DriverResource::untrack_local_streams
noverus
vrule chain tasks/0.cloned/0 => vx_cloned($recv.tasks())
vrule chain local_streams/0.cloned/0 => vx_cloned($recv.local_streams())
vrule chain storage_streams/0.cloned/0 => vx_cloned($recv.storage_streams())
fn WorkerResource::add_task_set
sub task_slots\.get_mut\(slot\) => vx_get_mut(task_slots, slot)
spec <<<
ensures match *old(self) {
    WorkerResource::Inactive => *final(self) == *old(self),
    WorkerResource::Active { task_slots: t0, local_streams: l0 } => match *final(self) {
        WorkerResource::Active { task_slots: t1, local_streams: l1 } => l1 == l0 && t1@.len() == t0@.len()
            && (forall|i: int| 0 <= i < t0@.len() && i != slot ==> #[trigger] t1@[i] == t0@[i])
            && (slot < t0@.len() ==> forall|k: TaskKey| #[trigger] t1@[slot as int].tasks.s().contains(k) <==> t0@[slot as int].tasks.s().contains(k) || set.has(k)),
        WorkerResource::Inactive => false,
    },
},
>>>
fn WorkerResource::remove_task
ret r
sub task_slots\.get_mut\(slot\) => vx_get_mut(task_slots, slot)
spec <<<
ensures match *old(self) {
    WorkerResource::Inactive => *final(self) == *old(self) && !r,
    WorkerResource::Active { task_slots: t0, local_streams: l0 } => match *final(self) {
        WorkerResource::Active { task_slots: t1, local_streams: l1 } => l1 == l0 && t1@.len() == t0@.len()
            && (forall|i: int| 0 <= i < t0@.len() && i != slot ==> #[trigger] t1@[i] == t0@[i])
            && (slot < t0@.len() ==> t1@[slot as int].tasks.s() == t0@[slot as int].tasks.s().remove(*key) && r == t0@[slot as int].tasks.s().contains(*key)),
        WorkerResource::Inactive => false,
    },
},
>>>
fn WorkerResource::track_local_streams
spec <<<
ensures match *old(self) {
    WorkerResource::Inactive => *final(self) == *old(self),
    WorkerResource::Active { task_slots: t0, local_streams: l0 } => match *final(self) {
        WorkerResource::Active { task_slots: t1, local_streams: l1 } => t1 == t0 && forall|k: TaskKey| #[trigger] l1.s().contains(k) <==> l0.s().contains(k) || local_of(*set, k),
        WorkerResource::Inactive => false,
    },
},
>>>
fn WorkerResource::untrack_local_streams
ret r
body-start <<<
let ghost vx_stage = stage;
>>>
before ^count!=local_streams <<<
proof {
    let l0 = old(self)->local_streams.s(); let l1 = local_streams.s();
    lemma_subset_len(l1, l0);
    if exists|k: TaskKey| #[trigger] l0.contains(k) && of_stage(k, job_id, vx_stage) { let k = choose|k: TaskKey| #[trigger] l0.contains(k) && of_stage(k, job_id, vx_stage); assert(!l1.contains(k)); }
    else { assert forall|k: TaskKey| l0.contains(k) <==> l1.contains(k) by {}; assert(l0 =~= l1); }
}
>>>
spec <<<
ensures match *old(self) {
    WorkerResource::Inactive => *final(self) == *old(self) && !r,
    WorkerResource::Active { task_slots: t0, local_streams: l0 } => match *final(self) {
        WorkerResource::Active { task_slots: t1, local_streams: l1 } => t1 == t0
            && (forall|k: TaskKey| #[trigger] l1.s().contains(k) <==> l0.s().contains(k) && !of_stage(k, job_id, stage))
            && (r <==> exists|k: TaskKey| #[trigger] l0.s().contains(k) && of_stage(k, job_id, stage)),
        WorkerResource::Inactive => false,
    },
},
>>>
fn DriverResource::add_task_set
before ^return <<<
proof { lemma_runs(old(self).task_slots@, self.task_slots@, vx_i - 1, set); }
>>>
after ^self\.task_slots\.push <<<
proof { lemma_runs(old(self).task_slots@, self.task_slots@, self.task_slots@.len() - 1, set); }
>>>
loop 0 <<<
invariant self.task_slots@.len() == old(self).task_slots@.len(), vx_i <= self.task_slots@.len(),
    forall|i: int| 0 <= i < self.task_slots@.len() ==> (#[trigger] self.task_slots@[i]).tasks.s() == old(self).task_slots@[i].tasks.s(),
    
    self.local_streams == old(self).local_streams, self.storage_streams == old(self).storage_streams, self.external_streams == old(self).external_streams,
decreases self.task_slots@.len() - vx_i
>>>
sub for slot in &mut self\.task_slots => let mut vx_i: usize = 0; while vx_i < self.task_slots.len()
loop-start 0 <<<
let slot = vx_at_mut(&mut self.task_slots, vx_i); vx_i += 1;
>>>
spec <<<
ensures forall|k: TaskKey| #[trigger] final(self).runs(k) <==> old(self).runs(k) || set.has(k),
    final(self).local_streams == old(self).local_streams, final(self).storage_streams == old(self).storage_streams, final(self).external_streams == old(self).external_streams,
>>>
fn DriverResource::remove_task
tail <<<
proof { assert forall|i: int| 0 <= i < old(self).task_slots@.len() implies !(#[trigger] old(self).task_slots@[i]).tasks.s().contains(*key) by { assert(!self.task_slots@[i].tasks.s().contains(*key)); } }
>>>
loop 0 <<<
invariant self.task_slots@.len() == old(self).task_slots@.len(), vx_i <= self.task_slots@.len(),
    forall|i: int| 0 <= i < self.task_slots@.len() ==> (#[trigger] self.task_slots@[i]).tasks.s() == old(self).task_slots@[i].tasks.s(),
    forall|i: int| 0 <= i < vx_i ==> !(#[trigger] self.task_slots@[i]).tasks.s().contains(*key),
    self.local_streams == old(self).local_streams, self.storage_streams == old(self).storage_streams, self.external_streams == old(self).external_streams,
decreases self.task_slots@.len() - vx_i
>>>
sub for slot in &mut self\.task_slots => let mut vx_i: usize = 0; while vx_i < self.task_slots.len()
loop-start 0 <<<
let slot = vx_at_mut(&mut self.task_slots, vx_i); vx_i += 1;
>>>
ret r
spec <<<
ensures final(self).task_slots@.len() == old(self).task_slots@.len(),
    r <==> old(self).runs(*key),
    final(self).local_streams == old(self).local_streams, final(self).storage_streams == old(self).storage_streams, final(self).external_streams == old(self).external_streams,
>>>
file crates/sail-execution/src/driver/task_assigner/mod.rs
type TaskAssigner v= n=
fn TaskAssigner::new
ret r
spec <<<
requires options.worker_task_slots > 0,
ensures r.wf(), r.bounded(), r.options == options, r.task_queue.q().len() == 0, r.requested_worker_count == 0,
>>>
file crates/sail-execution/src/driver/task_assigner/core.rs
type TaskSlotAssigner v= n=
vrule chain iter/0.map/1.sum/0 => $recv.vx_sum($0{usize;&TaskRegion;;vx_r == need(*@p0)})
vrule chain iter/0.filter/1.count/0 => vx_count(&$recv, $0{bool;&&_;;vx_r == (**@p0).hit()})
vrule chain values/0.map/1.sum/0 => $recv.vx_values_sum($0{usize;&WorkerResource;;vx_r == vacant(*@p0)})
vrule chain values/0.filter/1.count/0 => $recv.vx_values_count($0{bool;&&WorkerResource;;vx_r == ((**@p0) is Active)})
fn TaskAssigner::request_workers
ret r
body-start <<<
proof { let s = self.options.worker_task_slots as int; assert((s - 1) / s == 0) by (nonlinear_arith) requires s > 0; lemma_hits_nonneg(self.workers.values()); }
>>>
spec <<<
requires old(self).wf(), old(self).bounded(), old(self).max() > 0 || old(self).requested_worker_count < 0x1000_0000_0000_0000,
ensures final(self).wf(), final(self).bounded(), final(self).workers == old(self).workers, final(self).task_queue == old(self).task_queue, final(self).driver == old(self).driver,
    final(self).task_assignments == old(self).task_assignments, final(self).options == old(self).options,
    old(self).max() > 0 ==> final(self).requested_worker_count == old(self).requested_worker_count + r,
    // no worker is requested beyond what the waiting tasks need
    ({
        let slots = old(self).options.worker_task_slots as int;
        let lack = need_all(old(self).task_queue.q()) - vacant_all(old(self).workers);
        &&& lack <= 0 ==> r == 0
        &&& lack > 0 && old(self).max() == 0 ==> r == (lack + slots - 1) / slots
        &&& lack > 0 && old(self).max() > 0 ==> r == (if (lack + slots - 1) / slots <= old(self).max() - old(self).count() { (lack + slots - 1) / slots } else { old(self).max() - old(self).count() })
    }),
>>>
fn TaskAssigner::request_initial_workers
ret r
spec <<<
requires old(self).wf(), old(self).count() == 0,
ensures final(self).wf(), final(self).bounded(), final(self).workers == old(self).workers, final(self).task_queue == old(self).task_queue, final(self).driver == old(self).driver,
    final(self).task_assignments == old(self).task_assignments, final(self).options == old(self).options,
    final(self).requested_worker_count == r, r <= count, old(self).max() == 0 || count <= old(self).max() ==> r == count,
>>>
body-start <<<
proof { lemma_hits_nonneg(self.workers.values()); }
>>>
fn TaskAssigner::track_worker_failed_to_start
spec <<<
requires old(self).wf(), old(self).bounded(),
ensures final(self).wf(), final(self).bounded(), final(self).workers == old(self).workers, final(self).task_queue == old(self).task_queue, final(self).driver == old(self).driver,
    final(self).task_assignments == old(self).task_assignments, final(self).options == old(self).options,
    final(self).requested_worker_count == (if old(self).requested_worker_count > 0 { old(self).requested_worker_count - 1 } else { 0 }),
>>>
fn TaskAssigner::activate_worker
sub vec!\[TaskSlot::default\(\); self\.options\.worker_task_slots\] => vx_default_slots(self.options.worker_task_slots)
spec <<<
// a worker starts once, after it was requested
requires old(self).wf(), old(self).bounded(), old(self).max() > 0 ==> old(self).requested_worker_count > 0, !old(self).workers.m().contains_key(worker_id),
ensures final(self).wf(), final(self).bounded(), final(self).task_queue == old(self).task_queue, final(self).driver == old(self).driver,
    final(self).task_assignments == old(self).task_assignments, final(self).options == old(self).options,
    final(self).requested_worker_count == (if old(self).requested_worker_count > 0 { old(self).requested_worker_count - 1 } else { 0 }),
    final(self).workers.m() == old(self).workers.m().insert(worker_id, final(self).workers.m()[worker_id]),
    forall|s: usize| s < final(self).options.worker_task_slots ==> #[trigger] is_free(final(self).workers.m(), worker_id, s),
    final(self).workers.m()[worker_id] is Active && final(self).workers.m()[worker_id]->local_streams.s() =~= Set::<TaskKey>::empty(),
>>>
tail <<<
proof {
    lemma_active_push(old(self).workers, self.workers, worker_id, self.workers.m()[worker_id]);
    assert(self.workers.ks().last() == worker_id);
}
>>>
fn TaskAssigner::deactivate_worker
after ^matchworker\{ <<<
proof { lemma_active_change(old(self).workers, self.workers, worker_id); }
>>>
spec <<<
requires old(self).wf(), old(self).bounded(),
ensures final(self).wf(), final(self).bounded(), final(self).task_queue == old(self).task_queue, final(self).driver == old(self).driver,
    final(self).task_assignments == old(self).task_assignments, final(self).options == old(self).options,
    final(self).requested_worker_count == old(self).requested_worker_count,
    final(self).workers.ks() == old(self).workers.ks(), forall|w: WorkerId| w != worker_id ==> #[trigger] final(self).workers.m()[w] == old(self).workers.m()[w],
    forall|w: WorkerId| #[trigger] final(self).workers.m().contains_key(w) <==> old(self).workers.m().contains_key(w),
    final(self).workers.m().contains_key(worker_id) ==> final(self).workers.m()[worker_id] is Inactive,
>>>
fn TaskAssigner::exclude_task
spec <<<
// a canceled task's region leaves the queue; the order of the rest does not change
ensures final(self).task_queue.q() == old(self).task_queue.q().filter(|r: TaskRegion| !in_region(r, *key)), final(self).workers == old(self).workers, final(self).driver == old(self).driver,
    final(self).task_assignments == old(self).task_assignments, final(self).options == old(self).options, final(self).requested_worker_count == old(self).requested_worker_count,
>>>
vrule chain iter/0.all/1 => vx_all(&$recv, $0{bool;&_})
fn TaskAssigner::is_worker_idle
ret r
spec <<<
requires self.wf(),
// idle: it runs, no task is in any of its slots, and nothing still reads what its tasks produced
ensures r == (self.workers.m().contains_key(worker_id) && self.workers.m()[worker_id] is Active && self.workers.m()[worker_id]->local_streams.is_empty_spec()
    && forall|s: usize| s < self.workers.m()[worker_id]->task_slots@.len() ==> empty(#[trigger] self.workers.m()[worker_id]->task_slots@[s as int])),
>>>
fn TaskAssigner::unassign_task
ret r
after ^matchassignment <<<
proof { if let TaskAssignment::Worker { worker_id, slot } = old(self).task_assignments.m()[*key] { lemma_one(old(self).workers, self.workers, worker_id); } else { lemma_shape_refl(self.workers); } lemma_shape_count(old(self).workers, self.workers); }
>>>
spec <<<
requires old(self).wf(), old(self).bounded(),
ensures final(self).wf(), final(self).bounded(), same_shape(old(self).workers, final(self).workers),
    final(self).task_queue == old(self).task_queue, final(self).task_assignments == old(self).task_assignments, final(self).options == old(self).options, final(self).requested_worker_count == old(self).requested_worker_count,
    // the task leaves its slot; no other task moves
    forall|w: WorkerId, s: usize| #[trigger] is_slot(old(self).workers.m(), w, s) ==> slot(final(self).workers.m(), w, s) ==
        (if old(self).task_assignments.m().contains_key(*key) && old(self).task_assignments.m()[*key] == (TaskAssignment::Worker { worker_id: w, slot: s }) { slot(old(self).workers.m(), w, s).remove(*key) } else { slot(old(self).workers.m(), w, s) }),
    r is Some ==> old(self).task_assignments.m().contains_key(*key) && r->0 == old(self).task_assignments.m()[*key],
    old(self).task_assignments.m().contains_key(*key) && (old(self).task_assignments.m()[*key] is Worker ==> old(self).workers.m().contains_key(old(self).task_assignments.m()[*key]->worker_id)) ==> r is Some,
>>>
fn TaskAssigner::enqueue_tasks
spec <<<
ensures final(self).task_queue.q() == old(self).task_queue.q().push(region), final(self).workers == old(self).workers, final(self).driver == old(self).driver,
    final(self).task_assignments == old(self).task_assignments, final(self).options == old(self).options, final(self).requested_worker_count == old(self).requested_worker_count,
>>>

fn TaskSlotAssigner::new
ret r
spec <<<
ensures r.slots == slots,
>>>
vrule chain pop/0.map/1 => $recv.pop().map($0{(WorkerId, usize)})
fn TaskSlotAssigner::next
ret r
sub self\s*\.slots\s*\.iter_mut\(\)\s*\.find_map\(\|\(worker_id, slots\)\| (?s:(.*))\) => let mut vx_i: usize = 0; while vx_i < self.slots.len() VXINV { let ghost before = self.slots@; let vx_e = vx_at_mut(&mut self.slots, vx_i); let worker_id = &vx_e.0; let slots = &mut vx_e.1; let vx_o = $1; if vx_o.is_some() { VXFOUND return vx_o; } VXNEXT vx_i += 1; } VXEND None
sub VXINV => invariant vx_i <= self.slots@.len(), self.slots@.len() == old(self).slots@.len(), distinct(self.slots@), total(self.slots@) == total(old(self).slots@), forall|w: WorkerId, k: usize| #[trigger] holds(self.slots@, w, k) <==> holds(old(self).slots@, w, k), forall|i: int| 0 <= i < vx_i ==> (#[trigger] self.slots@[i]).1@.len() == 0, decreases self.slots@.len() - vx_i
sub VXFOUND => proof { lemma_pop(before, self.slots@, vx_i as int); }
sub VXNEXT => proof { lemma_same(before, self.slots@); }
sub VXEND => proof { lemma_total_nonneg(self.slots@); }
spec <<<
requires distinct(old(self).slots@),
ensures distinct(final(self).slots@),
    match r {
        Some(p) => holds(old(self).slots@, p.0, p.1) && total(final(self).slots@) == total(old(self).slots@) - 1
            && forall|w: WorkerId, k: usize| #[trigger] holds(final(self).slots@, w, k) <==> holds(old(self).slots@, w, k) && (w, k) != p,
        None => total(old(self).slots@) == 0 && total(final(self).slots@) == 0,
    },
>>>
fn TaskSlotAssigner::try_assign_task_region
ret r
spec <<<
requires distinct(old(self).slots@),
ensures distinct(final(self).slots@),
    match r {
        // every set of the region gets its place, each worker set a slot of its own
        Ok(a) => places(a@, region.tasks@) && once(a@) && total(final(self).slots@) == total(old(self).slots@) - need(region)
            && (forall|w: WorkerId, k: usize| #[trigger] holds(old(self).slots@, w, k) <==> holds(final(self).slots@, w, k) || taken(a@, w, k))
            && (forall|w: WorkerId, k: usize| #[trigger] taken(a@, w, k) ==> !holds(final(self).slots@, w, k)),
        // or it is handed back whole, and only if there are too few slots
        Err(g) => g == region && total(old(self).slots@) < need(region),
    },
>>>
loop 0 it <<<
invariant it.seq().len() == region.tasks@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *it.seq()[i] == region.tasks@[i],
    distinct(self.slots@), places(assignments@, region.tasks@.take(it.index@ as int)), once(assignments@),
    total(self.slots@) == total(old(self).slots@) - hits(region.tasks@.take(it.index@ as int)),
    forall|w: WorkerId, k: usize| #[trigger] holds(old(self).slots@, w, k) <==> holds(self.slots@, w, k) || taken(assignments@, w, k),
    forall|w: WorkerId, k: usize| #[trigger] taken(assignments@, w, k) ==> !holds(self.slots@, w, k),
>>>
loop-start 0 <<<
let ghost a0 = assignments@; let ghost s0 = self.slots@;
proof {
    let t = region.tasks@; let i = it.index@ as int;
    assert(t.take(i + 1).drop_last() =~= t.take(i)); assert(t.take(i + 1).last() == t[i]);
    lemma_hits_prefix(t, i + 1);
}
>>>
loop-end 0 <<<
proof {
    let t = region.tasks@; let i = it.index@ as int;
    lemma_take(a0, assignments@.last()); assert(assignments@ == a0.push(assignments@.last()));
    assert(places(assignments@, t.take(i + 1))) by { assert forall|j: int| 0 <= j < assignments@.len() implies (#[trigger] assignments@[j]).set == t.take(i + 1)[j].1 && (assignments@[j].assignment is Worker <==> t.take(i + 1)[j].0 is Worker) by { if j < i { assert(assignments@[j] == a0[j]); assert(t.take(i)[j] == t[j]); } } }
}
>>>
loop-after 0 <<<
proof { assert(region.tasks@.take(region.tasks@.len() as int) =~= region.tasks@); }
>>>
vrule chain iter/0.enumerate/0.filter_map/1.collect/0 => vx_enum_filter_map(&$recv, $0{Option<usize>;(usize, &TaskSlot);;vx_r == if_empty(@p0.0, @p0.1)})
vrule chain iter/0.filter_map/1.collect/0 => $recv.vx_filter_map($0{Option<_>;(&WorkerId, &WorkerResource);;picks(*@p0.0, *@p0.1, vx_r)})
fn TaskAssigner::build_worker_task_slot_assigner
sub Option<_> => Option<(WorkerId, Vec<usize>)>
ret r
spec <<<
requires self.wf(),
ensures distinct(r.slots@), total(r.slots@) == vacant_all(self.workers),
    forall|w: WorkerId, k: usize| #[trigger] holds(r.slots@, w, k) <==> is_free(self.workers.m(), w, k),
>>>
tail <<<
proof { let os = choose|os: Seq<Option<(WorkerId, Vec<usize>)>>| #[trigger] picked(self.workers, os) && slots@ == somes(os); assert forall|i: int| 0 <= i < os.len() implies slots_of(self.workers, i, #[trigger] os[i]) by {}; lemma_free_holds(self.workers, os); }
>>>
fn TaskAssigner::active_worker_ids
sub Option<_> => Option<WorkerId>
fn TaskAssigner::assign_tasks
ret r
sub assignments\.extend\(x\) => { let ghost vx_x = x@; vx_extend(&mut assignments, x); proof { lemma_grow(a0, vx_x, s0, assigner.slots@, q0, n); n = n + 1; } }
spec <<<
requires old(self).wf(), old(self).bounded(),
ensures final(self).wf(), final(self).bounded(), final(self).options == old(self).options, final(self).requested_worker_count == old(self).requested_worker_count,
    same_shape(old(self).workers, final(self).workers),
    // a slot is given to one set only, and only if nothing runs in it
    once(r@), forall|w: WorkerId, s: usize| #[trigger] taken(r@, w, s) ==> is_free(old(self).workers.m(), w, s),
    // the tasks of the set are then in that slot, and no other slot changes
    forall|i: int, k: TaskKey| #![trigger r@[i].set.has(k)] 0 <= i < r@.len() && r@[i].assignment is Worker ==> (slot(final(self).workers.m(), r@[i].assignment->worker_id, r@[i].assignment->slot).contains(k) <==> r@[i].set.has(k)),
    forall|w: WorkerId, s: usize| #[trigger] is_slot(old(self).workers.m(), w, s) && !taken(r@, w, s) ==> slot(final(self).workers.m(), w, s) == slot(old(self).workers.m(), w, s),
    // it is remembered where every task went
    noted(final(self).task_assignments.m(), old(self).task_assignments.m(), r@),
    // the regions leave the queue from its front, each of them whole, and the first one left needs more slots than there are
    exists|n: int| #![trigger flat(old(self).task_queue.q(), n)] 0 <= n <= old(self).task_queue.q().len() && final(self).task_queue.q() =~= old(self).task_queue.q().skip(n) && places(r@, flat(old(self).task_queue.q(), n))
        && (n < old(self).task_queue.q().len() ==> vacant_all(old(self).workers) - hits(flat(old(self).task_queue.q(), n)) < need(old(self).task_queue.q()[n])),
>>>
body-start <<<
let ghost q0 = self.task_queue.q(); let ghost ws0 = self.workers; let ghost mut n: int = 0;
>>>
loop 0 <<<
invariant_except_break
    distinct(assigner.slots@), total(assigner.slots@) == vacant_all(ws0) - hits(flat(q0, n)),
    forall|w: WorkerId, k: usize| #[trigger] taken(assignments@, w, k) ==> !holds(assigner.slots@, w, k),
    forall|w: WorkerId, k: usize| #[trigger] holds(assigner.slots@, w, k) ==> is_free(ws0.m(), w, k),
invariant
    0 <= n <= q0.len(), self.task_queue.q() =~= q0.skip(n), places(assignments@, flat(q0, n)), once(assignments@),
    forall|w: WorkerId, k: usize| #[trigger] taken(assignments@, w, k) ==> is_free(ws0.m(), w, k),
    self.workers == ws0, self.driver == old(self).driver, self.options == old(self).options, self.requested_worker_count == old(self).requested_worker_count, self.task_assignments == old(self).task_assignments,
ensures n < q0.len() ==> vacant_all(ws0) - hits(flat(q0, n)) < need(q0[n]),
decreases q0.len() - n
>>>
loop-start 0 <<<
let ghost a0 = assignments@; let ghost s0 = assigner.slots@;
proof { assert(region == q0[n]); assert(q0.skip(n).skip(1) =~= q0.skip(n + 1)); }
>>>
loop-after 0 <<<
let ghost q1 = self.task_queue;
proof { lemma_shape_refl(ws0); }
>>>
loop 1 it <<<
invariant it.seq().len() == assignments@.len(), forall|i: int| 0 <= i < assignments@.len() ==> *it.seq()[i] == assignments@[i],
    self.task_queue == q1, self.options == old(self).options, self.requested_worker_count == old(self).requested_worker_count,
    self.workers.wf(), same_shape(ws0, self.workers), once(assignments@), noted(self.task_assignments.m(), old(self).task_assignments.m(), assignments@.take(it.index@ as int)), forall|w: WorkerId, k: usize| #[trigger] taken(assignments@, w, k) ==> is_free(ws0.m(), w, k),
    forall|i: int, k: TaskKey| #![trigger assignments@[i].set.has(k)] 0 <= i < it.index@ && assignments@[i].assignment is Worker ==> (slot(self.workers.m(), assignments@[i].assignment->worker_id, assignments@[i].assignment->slot).contains(k) <==> assignments@[i].set.has(k)),
    forall|w: WorkerId, s: usize| #[trigger] is_slot(ws0.m(), w, s) && !taken(assignments@.take(it.index@ as int), w, s) ==> slot(self.workers.m(), w, s) == slot(ws0.m(), w, s),
>>>
loop-start 1 <<<
let ghost w1 = self.workers; let ghost vx_i = it.index@ as int;
proof { lemma_take(assignments@.take(vx_i), *assignment); assert(assignments@.take(vx_i + 1) =~= assignments@.take(vx_i).push(*assignment)); assert(assignment == assignments@[vx_i]);
    if assignment.assignment is Worker { assert(takes(assignments@[vx_i], assignment.assignment->worker_id, assignment.assignment->slot)); lemma_not_yet(assignments@, vx_i); assert(taken(assignments@, assignment.assignment->worker_id, assignment.assignment->slot)); assert(is_free(ws0.m(), assignment.assignment->worker_id, assignment.assignment->slot)); assert(w1.m().contains_key(assignment.assignment->worker_id)); } }
let ghost tb = self.task_assignments.m();
>>>
loop 2 it2 <<<
invariant it2.seq().len() == assignment.set.entries@.len(), forall|i: int| 0 <= i < it2.seq().len() ==> *(#[trigger] it2.seq()[i]) == assignment.set.entries@[i].key, assignment.assignment is Driver,
    noting(self.task_assignments.m(), tb, *assignment, it2.index@ as int), self.task_queue == q1, self.options == old(self).options, self.requested_worker_count == old(self).requested_worker_count, self.workers == w1,
>>>
loop-before 3 <<<
let ghost w2 = self.workers;
>>>
loop 3 it3 <<<
invariant it3.seq().len() == assignment.set.entries@.len(), forall|i: int| 0 <= i < it3.seq().len() ==> *(#[trigger] it3.seq()[i]) == assignment.set.entries@[i].key, assignment.assignment == (TaskAssignment::Worker { worker_id, slot }),
    noting(self.task_assignments.m(), tb, *assignment, it3.index@ as int), self.task_queue == q1, self.options == old(self).options, self.requested_worker_count == old(self).requested_worker_count, self.workers == w2,
>>>
loop-end 1 <<<
proof { if assignment.assignment is Worker { lemma_one(w1, self.workers, assignment.assignment->worker_id); } lemma_placed(ws0, w1, self.workers, assignments@, vx_i); lemma_noted(self.task_assignments.m(), tb, old(self).task_assignments.m(), assignments@.take(vx_i), *assignment); }
>>>
loop-after 1 <<<
proof { assert(assignments@.take(assignments@.len() as int) =~= assignments@); lemma_shape_count(ws0, self.workers); }
>>>
fn TaskAssigner::track_streams
sub &\[TaskSetAssignment\] => &Vec<TaskSetAssignment>
sub self\.driver\.track_(storage|external|local)_streams\(&assignment\.set\) => self.driver.vx_track(&assignment.set)
spec <<<
requires old(self).wf(), old(self).bounded(),
ensures final(self).wf(), final(self).bounded(), keeps_slots(old(self).workers, final(self).workers),
    final(self).task_queue == old(self).task_queue, final(self).task_assignments == old(self).task_assignments, final(self).options == old(self).options, final(self).requested_worker_count == old(self).requested_worker_count,
    // a worker holds on to what its tasks are about to produce
    forall|w: WorkerId, k: TaskKey| #[trigger] reads(final(self).workers.m(), w, k) <==> reads(old(self).workers.m(), w, k) || is_active(old(self).workers.m(), w) && local_at(assignments@, w, k),
>>>
loop 0 it <<<
invariant it.seq().len() == assignments@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == assignments@[i],
    self.task_queue == old(self).task_queue, self.task_assignments == old(self).task_assignments, self.options == old(self).options, self.requested_worker_count == old(self).requested_worker_count,
    keeps_slots(old(self).workers, self.workers),
    forall|w: WorkerId, k: TaskKey| #[trigger] reads(self.workers.m(), w, k) <==> reads(old(self).workers.m(), w, k) || is_active(old(self).workers.m(), w) && local_at(assignments@.take(it.index@ as int), w, k),
>>>
loop-start 0 <<<
let ghost w1 = self.workers;
>>>
loop-end 0 <<<
proof {
    let x = *assignment; assert(x == assignments@[it.index@ as int]);
    if x.assignment is Worker { let w = x.assignment->worker_id; lemma_track(old(self).workers, w1, self.workers, w); }
    assert forall|w: WorkerId, k: TaskKey| #[trigger] reads(self.workers.m(), w, k) <==> reads(w1.m(), w, k) || is_active(old(self).workers.m(), w) && local_to(x, w, k) by { assert(w1.m().contains_key(w) <==> self.workers.m().contains_key(w)); if w1.m().contains_key(w) { assert(same_slots(old(self).workers.m()[w], w1.m()[w])); } }
    lemma_local_take(assignments@, it.index@ as int); }
>>>
loop-after 0 <<<
proof { assert(assignments@.take(assignments@.len() as int) =~= assignments@); lemma_keeps(old(self).workers, self.workers); }
>>>
fn TaskAssigner::find_worker_tasks
noverus
fn TaskAssigner::untrack_local_streams
noverus
fn TaskAssigner@TaskAssignmentGetter::get
noverus
file crates/sail-execution/src/driver/actor/mod.rs
type DriverActor v= n= keep=options,worker_pool,job_scheduler,task_assigner,task_sequences
file crates/sail-execution/src/driver/actor/handler.rs
vrule sub \.is_some_and\(\|x\| x <= instant\) => .vx_at_or_before(instant)
vrule chain iter/0.map/1.collect/0 => vx_job_ids(&$recv)
vrule macro format => vx_fmt()
vrule sub "[^"]*"\.to_string\(\) => vx_fmt()
stub DriverActor::run_tasks DriverActor::refresh_job
fn DriverActor::handle_activate
spec <<<
requires old(self).inv(), old(self).task_assigner.count() == 0, old(self).worker_pool.pending() =~= Set::<WorkerId>::empty(),
ensures final(self).inv(),
>>>
loop 0 it <<<
invariant self.inv_with(worker_count - it.index@),
>>>
fn DriverActor::scale_up_workers
spec <<<
requires old(self).inv(), old(self).task_assigner.max() > 0,
ensures final(self).inv(), final(self).task_assigner.options == old(self).task_assigner.options,
>>>
loop 0 it <<<
invariant self.inv_with(it.seq().len() - it.index@), self.task_assigner.options == old(self).task_assigner.options,
>>>
fn DriverActor::handle_register_worker
ret r
spec <<<
requires old(self).inv(), old(self).task_assigner.max() > 0,
ensures final(self).inv(), final(self).task_assigner.options == old(self).task_assigner.options,
>>>
fn DriverActor::handle_probe_pending_worker
ret r
spec <<<
requires old(self).inv(), old(self).task_assigner.max() > 0,
ensures final(self).inv(), final(self).task_assigner.options == old(self).task_assigner.options,
>>>
fn DriverActor::handle_probe_idle_worker
ret r
spec <<<
requires old(self).inv(), old(self).task_assigner.max() > 0,
ensures final(self).inv(), final(self).task_assigner.options == old(self).task_assigner.options,
    // a worker is stopped only if nothing runs on it and nothing reads from it, and no other worker is
    final(self).worker_pool.running() != old(self).worker_pool.running() ==> final(self).worker_pool.running() == old(self).worker_pool.running().remove(worker_id) && idle(old(self).task_assigner.workers.m(), worker_id),
>>>
fn DriverActor::handle_probe_lost_worker
ret r
loop 0 <<<
invariant self.inv(), self.task_assigner.options == old(self).task_assigner.options,
>>>
loop 1 <<<
invariant self.inv(), self.task_assigner.options == old(self).task_assigner.options, self.task_assigner.max() > 0,
>>>
spec <<<
requires old(self).inv(), old(self).task_assigner.max() > 0,
ensures final(self).inv(), final(self).task_assigner.options == old(self).task_assigner.options,
>>>
fn DriverActor::handle_update_task
ret r
sub \.is_some_and\(\|s\| sequence <= \*s\) => .vx_at_least(sequence)
spec <<<
requires old(self).inv(), old(self).task_assigner.max() > 0,
ensures final(self).inv(), final(self).task_assigner.options == old(self).task_assigner.options,
    // a report that is not newer than the last one of the same task attempt changes nothing
    stale(*old(self), key, sequence) ==> *final(self) == *old(self),
>>>
