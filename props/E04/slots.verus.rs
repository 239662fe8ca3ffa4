use vstd::prelude::*;
verus! {
global size_of usize == 8;
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct WorkerId(pub u64);
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct JobId(pub u64);

// ---- the indexmap collections: a map or set together with the insertion order
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
pub struct IndexSet<K> { x: std::marker::PhantomData<K> }
impl<K> IndexSet<K> {
    uninterp spec fn s(&self) -> Set<K>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r.s() == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: K) -> (r: bool) ensures final(self).s() == old(self).s().insert(k) { unimplemented!() }
    spec fn is_empty_spec(&self) -> bool { self.s() =~= Set::<K>::empty() }
    #[verifier::external_body]
    #[verifier::when_used_as_spec(is_empty_spec)]
    fn is_empty(&self) -> (r: bool) ensures r == self.is_empty_spec() { unimplemented!() }
    #[verifier::external_body]
    fn swap_remove(&mut self, k: &K) -> (r: bool) ensures final(self).s() == old(self).s().remove(*k), r == old(self).s().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures self.s().finite(), r == self.s().len() { unimplemented!() }
    #[verifier::external_body]
    fn extend(&mut self, v: Vec<K>) ensures forall|k: K| #[trigger] final(self).s().contains(k) <==> old(self).s().contains(k) || v@.contains(k) { unimplemented!() }
    #[verifier::external_body]
    fn retain<F: Fn(&K) -> bool>(&mut self, f: F)
        requires forall|k: &K| f.requires((k,)),
        ensures forall|k: K| #[trigger] final(self).s().contains(k) ==> old(self).s().contains(k) && f.ensures((&k,), true),
            forall|k: K| old(self).s().contains(k) && !(#[trigger] final(self).s().contains(k)) ==> f.ensures((&k,), false),
    { unimplemented!() }
}
proof fn lemma_subset_len<K>(a: Set<K>, b: Set<K>)
    requires a.finite(), b.finite(), forall|k: K| #[trigger] a.contains(k) ==> b.contains(k)
    ensures a.len() == b.len() <==> a =~= b
{
    assert(a.subset_of(b));
    if a.len() == b.len() { vstd::set_lib::lemma_subset_equality(a, b); }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct IndexMap<K, V> { x: std::marker::PhantomData<(K, V)> }
impl<K, V> IndexMap<K, V> {
    uninterp spec fn m(&self) -> Map<K, V>;
    uninterp spec fn ks(&self) -> Seq<K>;
    spec fn wf(&self) -> bool { self.ks().no_duplicates() && forall|k: K| #[trigger] self.m().contains_key(k) <==> self.ks().contains(k) }
    spec fn at(&self, i: int) -> V { self.m()[self.ks()[i]] }
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r.m() == Map::<K, V>::empty(), r.ks() == Seq::<K>::empty(), r.wf() { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(v) => self.m().contains_key(*k) && *v == self.m()[*k], None => !self.m().contains_key(*k) } { unimplemented!() }
    #[verifier::external_body]
    fn contains_key(&self, k: &K) -> (r: bool) ensures r == self.m().contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self).m() == old(self).m().insert(k, v), old(self).wf() ==> final(self).wf(),
            final(self).ks() == (if old(self).m().contains_key(k) { old(self).ks() } else { old(self).ks().push(k) })
    { unimplemented!() }
    #[verifier::external_body]
    fn get_mut<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut V>)
        ensures final(self).ks() == old(self).ks(),
            match r { Some(v) => old(self).m().contains_key(*k) && *v == old(self).m()[*k] && final(self).m() == old(self).m().insert(*k, *final(v)),
                None => !old(self).m().contains_key(*k) && *final(self) == *old(self) }
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) ensures r == self.ks().len() { unimplemented!() }
    #[verifier::external_body]
    fn vx_key(&self, i: usize) -> (r: K) requires i < self.ks().len() ensures r == self.ks()[i as int] { unimplemented!() }
    #[verifier::external_body]
    fn vx_mut<'a>(&'a mut self, i: usize) -> (r: &'a mut V)
        requires i < old(self).ks().len(), old(self).wf()
        ensures final(self).ks() == old(self).ks(), *r == old(self).m()[old(self).ks()[i as int]],
            final(self).m() == old(self).m().insert(old(self).ks()[i as int], *final(r))
    { unimplemented!() }
    spec fn values(&self) -> Seq<V> { Seq::new(self.ks().len(), |i: int| self.at(i)) }
    #[verifier::external_body]
    fn vx_values_sum<F: Fn(&V) -> usize>(&self, f: F) -> (r: usize) where V: Size
        requires forall|v: &V| f.requires((v,)), forall|v: &V, n: usize| f.ensures((v,), n) ==> n == (*v).size(),
        ensures r == sizes(self.values())
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_values_count<F: Fn(&&V) -> bool>(&self, f: F) -> (r: usize) where V: Hit
        requires forall|v: &&V| f.requires((v,)), forall|v: &&V, b: bool| f.ensures((v,), b) ==> b == (**v).hit(),
        ensures r == hits(self.values())
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_filter_map<U, F: Fn((&K, &V)) -> Option<U>>(&self, f: F) -> (r: Vec<U>) where U: Pick<K, V>
        requires forall|kv: (&K, &V)| f.requires((kv,)), forall|kv: (&K, &V), o: Option<U>| f.ensures((kv,), o) ==> picks(*kv.0, *kv.1, o),
        ensures exists|os: Seq<Option<U>>| #[trigger] picked(*self, os) && r@ == somes(os)
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VecDeque<T> { x: std::marker::PhantomData<T> }
impl<T> VecDeque<T> {
    uninterp spec fn q(&self) -> Seq<T>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r.q() == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn push_back(&mut self, t: T) ensures final(self).q() == old(self).q().push(t) { unimplemented!() }
    #[verifier::external_body]
    fn push_front(&mut self, t: T) ensures final(self).q() == seq![t] + old(self).q() { unimplemented!() }
    #[verifier::external_body]
    fn pop_front(&mut self) -> (r: Option<T>) ensures match r {
        Some(t) => old(self).q().len() > 0 && t == old(self).q()[0] && final(self).q() == old(self).q().skip(1),
        None => old(self).q().len() == 0 && final(self).q() == old(self).q() } { unimplemented!() }
    // the elements kept are the ones accepted, in order
    #[verifier::external_body]
    fn retain<F: Fn(&T) -> bool>(&mut self, f: F)
        requires forall|k: &T| f.requires((k,)),
        ensures forall|p: spec_fn(T) -> bool| (forall|t: &T, b: bool| f.ensures((t,), b) ==> b == p(*t)) ==> final(self).q() == #[trigger] old(self).q().filter(p)
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_sum<F: Fn(&T) -> usize>(&self, f: F) -> (r: usize) where T: Size
        requires forall|v: &T| f.requires((v,)), forall|v: &T, n: usize| f.ensures((v,), n) ==> n == (*v).size(),
        ensures r == sizes(self.q())
    { unimplemented!() }
}
// ---- iterator chains over slices
trait Hit { spec fn hit(&self) -> bool; }
trait Pick<K, V>: Sized { spec fn pick(k: K, v: V, o: Option<Self>) -> bool; }
spec fn picks<K, V, U: Pick<K, V>>(k: K, v: V, o: Option<U>) -> bool { U::pick(k, v, o) }
spec fn picked<K, V, U: Pick<K, V>>(m: IndexMap<K, V>, os: Seq<Option<U>>) -> bool { os.len() == m.ks().len() && forall|i: int| 0 <= i < os.len() ==> picks(m.ks()[i], m.at(i), #[trigger] os[i]) }
trait Size { spec fn size(&self) -> int; }
spec fn hits<T: Hit>(s: Seq<T>) -> int decreases s.len() { if s.len() == 0 { 0 } else { hits(s.drop_last()) + if s.last().hit() { 1int } else { 0 } } }
spec fn sizes<T: Size>(s: Seq<T>) -> int decreases s.len() { if s.len() == 0 { 0 } else { sizes(s.drop_last()) + s.last().size() } }
spec fn somes<T>(s: Seq<Option<T>>) -> Seq<T> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { match s.last() { Some(x) => somes(s.drop_last()).push(x), None => somes(s.drop_last()) } }
}
spec fn kept<T>(s: Seq<T>, b: Seq<bool>) -> Seq<T> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { let r = kept(s.drop_last(), b.drop_last()); if b.last() { r.push(s.last()) } else { r } }
}
#[verifier::external_body]
fn vx_count<T: Hit, F: Fn(&&T) -> bool>(s: &Vec<T>, f: F) -> (r: usize)
    requires forall|v: &&T| f.requires((v,)), forall|v: &&T, b: bool| f.ensures((v,), b) ==> b == (**v).hit(),
    ensures r == hits(s@)
{ unimplemented!() }
#[verifier::external_body]
fn vx_any<T, F: Fn(&T) -> bool>(s: &Vec<T>, f: F) -> (r: bool)
    requires forall|v: &T| f.requires((v,)),
    ensures r ==> exists|i: int| 0 <= i < s@.len() && f.ensures((&#[trigger] s@[i],), true), !r ==> forall|i: int| 0 <= i < s@.len() ==> f.ensures((&#[trigger] s@[i],), false),
{ unimplemented!() }
#[verifier::external_body]
fn vx_all<T, F: Fn(&T) -> bool>(s: &Vec<T>, f: F) -> (r: bool)
    requires forall|v: &T| f.requires((v,)),
    ensures !r ==> exists|i: usize| i < s@.len() && f.ensures((&#[trigger] s@[i as int],), false), r ==> forall|i: usize| i < s@.len() ==> f.ensures((&#[trigger] s@[i as int],), true),
{ unimplemented!() }
#[verifier::external_body]
fn vx_enum_filter_map_<T: Hit, F: Fn((usize, &T)) -> Option<usize>>(s: &Vec<T>, f: F) -> (r: Vec<usize>)
    requires forall|v: (usize, &T)| f.requires((v,)), forall|v: (usize, &T), o: Option<usize>| f.ensures((v,), o) ==> o == (if (*v.1).hit() { Some(v.0) } else { None }),
    ensures r@ == somes(Seq::new(s@.len(), |i: int| if s@[i].hit() { Some(i as usize) } else { None })), s@.len() <= usize::MAX,
{ unimplemented!() }
fn vx_enum_filter_map<F: Fn((usize, &TaskSlot)) -> Option<usize>>(s: &Vec<TaskSlot>, f: F) -> (r: Vec<usize>)
    requires forall|v: (usize, &TaskSlot)| f.requires((v,)), forall|v: (usize, &TaskSlot), o: Option<usize>| f.ensures((v,), o) ==> o == (if empty(*v.1) { Some(v.0) } else { None }),
    ensures r@.len() == hits(s@), r@.no_duplicates(), forall|k: usize| #![trigger r@.contains(k)] #![trigger s@[k as int]] r@.contains(k) <==> k < s@.len() && empty(s@[k as int]),
{
    let r = vx_enum_filter_map_(s, f);
    proof { lemma_vacant_in_len(s@, Seq::new(s@.len(), |i: int| if s@[i].hit() { Some(i as usize) } else { None })); }
    r
}
#[verifier::external_body]
fn vx_map<'a, T, U, F: Fn(&'a T) -> U>(s: &'a Vec<T>, f: F) -> (r: Vec<U>)
    requires forall|v: &'a T| f.requires((v,)),
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((&s@[i],), #[trigger] r@[i]),
{ unimplemented!() }
#[verifier::external_body]
fn vx_filter<'a, T, F: Fn(&&'a T) -> bool>(s: &'a Vec<T>, f: F) -> (r: Vec<&'a T>)
    requires forall|v: &&'a T| f.requires((v,)),
    ensures forall|k: int| 0 <= k < r@.len() ==> exists|i: int| 0 <= i < s@.len() && #[trigger] r@[k] == &s@[i] && f.ensures((&&s@[i],), true),
        forall|i: int| 0 <= i < s@.len() && !r@.contains(&#[trigger] s@[i]) ==> f.ensures((&&s@[i],), false),
{ unimplemented!() }
#[verifier::external_body]
fn vx_filter_then_map<'a, T, U, F: Fn(&&'a T) -> bool, G: Fn(&'a T) -> U>(s: &'a Vec<T>, f: F, g: G) -> (r: Vec<U>)
    requires forall|v: &&'a T| f.requires((v,)), forall|v: &'a T| g.requires((v,)),
    ensures forall|k: int| 0 <= k < r@.len() ==> exists|i: int| 0 <= i < s@.len() && f.ensures((&&#[trigger] s@[i],), true) && g.ensures((&s@[i],), #[trigger] r@[k]),
        forall|i: int| 0 <= i < s@.len() ==> f.ensures((&&#[trigger] s@[i],), false) || exists|k: int| 0 <= k < r@.len() && g.ensures((&s@[i],), #[trigger] r@[k]),
{ unimplemented!() }
#[verifier::external_body]
fn vx_cloned<T>(s: Vec<&T>) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| #![trigger r@[i]] #![trigger s@[i]] 0 <= i < r@.len() ==> r@[i] == *s@[i],
{ unimplemented!() }
#[verifier::external_body]
fn vx_extend<T>(v: &mut Vec<T>, x: Vec<T>) ensures final(v)@ == old(v)@ + x@ { unimplemented!() }
#[verifier::external_body]
fn vx_default_slots(n: usize) -> (r: Vec<TaskSlot>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]).tasks.s() =~= Set::<TaskKey>::empty() { unimplemented!() }
#[verifier::external_body]
fn vx_get_mut<T>(v: &mut Vec<T>, i: usize) -> (r: Option<&mut T>)
    ensures match r {
        Some(x) => i < old(v)@.len() && *x == old(v)@[i as int] && final(v)@ == old(v)@.update(i as int, *final(x)),
        None => i >= old(v)@.len() && final(v)@ == old(v)@ }
{ unimplemented!() }
#[verifier::external_body]
fn vx_at_mut<T>(v: &mut Vec<T>, i: usize) -> (r: &mut T)
    requires i < old(v)@.len()
    ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)),
{ unimplemented!() }
pub assume_specification [usize::div_ceil](a: usize, b: usize) -> (r: usize) requires b != 0 ensures r == (a + b - 1) / b as int;

// ---- the vocabulary of the property
impl TaskSet { spec fn has(&self, k: TaskKey) -> bool { exists|i: int| 0 <= i < self.entries@.len() && #[trigger] self.entries@[i].key == k } }
impl Hit for WorkerResource { spec fn hit(&self) -> bool { *self is Active } }
impl Size for WorkerResource { spec fn size(&self) -> int { vacant(*self) } }
impl Size for TaskRegion { spec fn size(&self) -> int { need(*self) } }
impl Hit for TaskSlot { spec fn hit(&self) -> bool { empty(*self) } }
impl Hit for (TaskPlacement, TaskSet) { spec fn hit(&self) -> bool { self.0 is Worker } }
impl DriverResource {
    #[verifier::external_body]
    fn vx_track(&mut self, set: &TaskSet) { unimplemented!() }
    #[verifier::external_body]
    fn default() -> (r: Self) { unimplemented!() }
}
impl Clone for TaskSet {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for TaskKey {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for TaskAssignment {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
// the tasks of a set whose output stays with the worker that ran them
spec fn local(e: TaskSetEntry, k: TaskKey) -> bool { e.output is Local && e.key == k }
spec fn local_of(set: TaskSet, k: TaskKey) -> bool { exists|i: int| 0 <= i < set.entries@.len() && local(#[trigger] set.entries@[i], k) }
spec fn local_to(a: TaskSetAssignment, w: WorkerId, k: TaskKey) -> bool { a.assignment is Worker && a.assignment->worker_id == w && local_of(a.set, k) }
spec fn local_at(a: Seq<TaskSetAssignment>, w: WorkerId, k: TaskKey) -> bool { exists|i: int| 0 <= i < a.len() && local_to(#[trigger] a[i], w, k) }
spec fn reads(ws: Map<WorkerId, WorkerResource>, w: WorkerId, k: TaskKey) -> bool { ws.contains_key(w) && ws[w] is Active && ws[w]->local_streams.s().contains(k) }
spec fn is_active(ws: Map<WorkerId, WorkerResource>, w: WorkerId) -> bool { ws.contains_key(w) && ws[w] is Active }
spec fn same_slots(a: WorkerResource, b: WorkerResource) -> bool { match a { WorkerResource::Inactive => b == a, WorkerResource::Active { task_slots, .. } => b is Active && b->task_slots == task_slots } }
// the slots of all workers stay as they are
spec fn keeps_slots(a: IndexMap<WorkerId, WorkerResource>, b: IndexMap<WorkerId, WorkerResource>) -> bool {
    a.ks() == b.ks() && a.m().dom() == b.m().dom() && forall|w: WorkerId| #![trigger a.m()[w]] #![trigger b.m()[w]] a.m().contains_key(w) ==> same_slots(a.m()[w], b.m()[w])
}
proof fn lemma_keeps(a: IndexMap<WorkerId, WorkerResource>, b: IndexMap<WorkerId, WorkerResource>)
    requires a.wf(), keeps_slots(a, b) ensures active_all(a) == active_all(b), b.wf()
{
    assert forall|i: int| 0 <= i < a.ks().len() implies a.values()[i].hit() == #[trigger] b.values()[i].hit() by { assert(a.ks().contains(a.ks()[i])); assert(a.m().contains_key(a.ks()[i])); }
    lemma_hits_same(a.values(), b.values());
}
proof fn lemma_track(w0: IndexMap<WorkerId, WorkerResource>, a: IndexMap<WorkerId, WorkerResource>, b: IndexMap<WorkerId, WorkerResource>, w: WorkerId)
    requires keeps_slots(w0, a), a.ks() == b.ks(), if a.m().contains_key(w) { b.m() == a.m().insert(w, b.m()[w]) && same_slots(a.m()[w], b.m()[w]) } else { b.m() == a.m() }
    ensures keeps_slots(w0, b)
{
    assert(b.m().dom() =~= a.m().dom());
    assert forall|x: WorkerId| w0.m().contains_key(x) implies same_slots(w0.m()[x], b.m()[x]) by { assert(same_slots(w0.m()[x], a.m()[x])); }
}
proof fn lemma_local_take(a: Seq<TaskSetAssignment>, i: int)
    requires 0 <= i < a.len() ensures forall|w: WorkerId, k: TaskKey| #[trigger] local_at(a.take(i + 1), w, k) <==> local_at(a.take(i), w, k) || local_to(a[i], w, k)
{
    let (x, y) = (a.take(i), a.take(i + 1));
    assert forall|w: WorkerId, k: TaskKey| #[trigger] local_at(y, w, k) <==> local_at(x, w, k) || local_to(a[i], w, k) by {
        if local_at(y, w, k) { let j = choose|j: int| 0 <= j < y.len() && local_to(#[trigger] y[j], w, k); if j < i { assert(local_to(x[j], w, k)); } }
        if local_at(x, w, k) { let j = choose|j: int| 0 <= j < x.len() && local_to(#[trigger] x[j], w, k); assert(local_to(y[j], w, k)); }
        if local_to(a[i], w, k) { assert(local_to(y[i], w, k)); }
    }
}
// the worker slots a region needs
spec fn need(r: TaskRegion) -> int { hits(r.tasks@) }
spec fn need_all(q: Seq<TaskRegion>) -> int { sizes(q) }
spec fn empty(s: TaskSlot) -> bool { s.empty_spec() }
spec fn vacant(w: WorkerResource) -> int { match w { WorkerResource::Active { task_slots, .. } => hits(task_slots@), WorkerResource::Inactive => 0 } }
spec fn vacant_all(w: IndexMap<WorkerId, WorkerResource>) -> int { sizes(w.values()) }
spec fn active_all(w: IndexMap<WorkerId, WorkerResource>) -> int { hits(w.values()) }
// slot `s` of worker `w` exists, and nothing runs in it
spec fn is_free(ws: Map<WorkerId, WorkerResource>, w: WorkerId, s: usize) -> bool {
    ws.contains_key(w) && ws[w] is Active && s < ws[w]->task_slots@.len() && empty(ws[w]->task_slots@[s as int])
}
// the slots an assigner holds
spec fn holds(s: Seq<(WorkerId, Vec<usize>)>, w: WorkerId, k: usize) -> bool { exists|i: int, j: int| #![trigger s[i].1@[j]] 0 <= i < s.len() && 0 <= j < s[i].1@.len() && s[i].0 == w && s[i].1@[j] == k }
spec fn distinct(s: Seq<(WorkerId, Vec<usize>)>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1@.no_duplicates()
}
spec fn total(s: Seq<(WorkerId, Vec<usize>)>) -> int decreases s.len() { if s.len() == 0 { 0 } else { total(s.drop_last()) + s.last().1@.len() } }
spec fn takes(a: TaskSetAssignment, w: WorkerId, k: usize) -> bool { a.assignment is Worker && a.assignment->worker_id == w && a.assignment->slot == k }
spec fn taken(a: Seq<TaskSetAssignment>, w: WorkerId, k: usize) -> bool { exists|i: int| 0 <= i < a.len() && takes(#[trigger] a[i], w, k) }
// no slot is given twice
spec fn once(a: Seq<TaskSetAssignment>) -> bool { forall|i: int, j: int| #![trigger a[i], a[j]] 0 <= i < j < a.len() && a[i].assignment is Worker && a[j].assignment is Worker ==> a[i].assignment != a[j].assignment }
// the assignments place the sets, in order, where they ask to be placed
spec fn places(a: Seq<TaskSetAssignment>, t: Seq<(TaskPlacement, TaskSet)>) -> bool {
    a.len() == t.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).set == t[i].1 && (a[i].assignment is Worker <==> t[i].0 is Worker)
}
spec fn flat(q: Seq<TaskRegion>, n: int) -> Seq<(TaskPlacement, TaskSet)> decreases n { if n <= 0 { Seq::empty() } else { flat(q, n - 1) + q[n - 1].tasks@ } }
spec fn placed_keys(a: Seq<TaskSetAssignment>, k: TaskKey) -> bool { exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).set.has(k) }
spec fn of_stage(k: TaskKey, job: JobId, stage: Option<usize>) -> bool { k.job_id == job && (stage is None || stage->0 == k.stage) }
impl DriverResource { spec fn runs(&self, k: TaskKey) -> bool { runs_in(self.task_slots@, k) } }
impl TaskAssigner {
    spec fn wf(&self) -> bool {
        &&& self.workers.wf() && self.options.worker_task_slots > 0
        &&& forall|w: WorkerId| #![trigger self.workers.m()[w]] self.workers.m().contains_key(w) && self.workers.m()[w] is Active ==> self.workers.m()[w]->task_slots@.len() == self.options.worker_task_slots
    }
    spec fn max(&self) -> int { self.options.worker_max_count as int }
    // the workers that run or were requested and have not started or failed yet
    spec fn count(&self) -> int { self.requested_worker_count + active_all(self.workers) }
    spec fn bounded(&self) -> bool { self.max() > 0 ==> self.count() <= self.max() }
}
proof fn lemma_total_nonneg(s: Seq<(WorkerId, Vec<usize>)>) ensures total(s) >= 0, (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1@.len() == 0) ==> total(s) == 0 decreases s.len()
{ if s.len() > 0 { lemma_total_nonneg(s.drop_last()); assert forall|i: int| 0 <= i < s.len() - 1 implies (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1@.len() == 0) ==> (#[trigger] s.drop_last()[i]).1@.len() == 0 by { assert(s.drop_last()[i] == s[i]); }; } }
proof fn lemma_total_update(s: Seq<(WorkerId, Vec<usize>)>, i: int, x: (WorkerId, Vec<usize>))
    requires 0 <= i < s.len() ensures total(s.update(i, x)) == total(s) - s[i].1@.len() + x.1@.len() decreases s.len()
{
    let u = s.update(i, x);
    if i == s.len() - 1 { assert(u.drop_last() =~= s.drop_last()); }
    else { lemma_total_update(s.drop_last(), i, x); assert(u.drop_last() =~= s.drop_last().update(i, x)); assert(u.last() == s.last()); }
}
proof fn lemma_hits_nonneg<T: Hit>(s: Seq<T>) ensures hits(s) >= 0 decreases s.len() { if s.len() > 0 { lemma_hits_nonneg(s.drop_last()); } }
proof fn lemma_hits_update<T: Hit>(s: Seq<T>, i: int, x: T)
    requires 0 <= i < s.len() ensures hits(s.update(i, x)) == hits(s) - (if s[i].hit() { 1int } else { 0 }) + (if x.hit() { 1int } else { 0 }) decreases s.len()
{
    let u = s.update(i, x);
    if i == s.len() - 1 { assert(u.drop_last() =~= s.drop_last()); }
    else { lemma_hits_update(s.drop_last(), i, x); assert(u.drop_last() =~= s.drop_last().update(i, x)); assert(u.last() == s.last()); }
}
proof fn lemma_vacant_in_len(s: Seq<TaskSlot>, os: Seq<Option<usize>>)
    requires s.len() == os.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] os[i] == (if empty(s[i]) { Some(i as usize) } else { None }), s.len() <= usize::MAX
    ensures somes(os).len() == hits(s), somes(os).no_duplicates(),
        forall|k: usize| #[trigger] somes(os).contains(k) <==> k < s.len() && empty(s[k as int]),
    decreases s.len()
{
    if s.len() > 0 {
        let n = s.len() - 1;
        let p = somes(os.drop_last());
        assert forall|i: int| 0 <= i < n implies #[trigger] os.drop_last()[i] == (if empty(s.drop_last()[i]) { Some(i as usize) } else { None }) by { assert(os.drop_last()[i] == os[i]); }
        lemma_vacant_in_len(s.drop_last(), os.drop_last());
        assert(os[n] == (if empty(s[n]) { Some(n as usize) } else { None }));
        let r = somes(os);
        assert forall|k: usize| #[trigger] r.contains(k) <==> k < s.len() && empty(s[k as int]) by {
            if empty(s[n]) {
                assert(r =~= p.push(n as usize));
                if p.contains(k) { let j = choose|j: int| 0 <= j < p.len() && p[j] == k; assert(r[j] == k); assert(s.drop_last()[k as int] == s[k as int]); }
                if k == n { assert(r[p.len() as int] == k); }
                if r.contains(k) { let j = choose|j: int| 0 <= j < r.len() && r[j] == k; if j < p.len() { assert(p[j] == k); assert(p.contains(k)); } }
                if k < n && empty(s[k as int]) { assert(s.drop_last()[k as int] == s[k as int]); assert(p.contains(k)); }
            } else {
                assert(r == p);
                if k < n { assert(s.drop_last()[k as int] == s[k as int]); }
            }
        }
        if empty(s[n]) {
            assert(!p.contains(n as usize));
            assert(r =~= p.push(n as usize));
            assert forall|a: int, b: int| 0 <= a < r.len() && 0 <= b < r.len() && a != b implies r[a] != r[b] by {
                if a < p.len() { assert(p.contains(r[a])); } if b < p.len() { assert(p.contains(r[b])); }
            }
        }
    }
}
// the free slots collected from the workers
spec fn if_empty(i: usize, s: &TaskSlot) -> Option<usize> { if empty(*s) { Some(i) } else { None } }
pub assume_specification<T> [<bool>::then_some] (b: bool, t: T) -> (r: Option<T>) where T: std::marker::Destruct ensures r == (if b { Some(t) } else { None });
spec fn slots_from(id: WorkerId, w: WorkerResource, o: Option<(WorkerId, Vec<usize>)>) -> bool {
    match o {
        Some(x) => x.0 == id && w is Active && x.1@.len() == vacant(w) && x.1@.no_duplicates()
            && forall|k: usize| #[trigger] x.1@.contains(k) <==> k < w->task_slots@.len() && empty(w->task_slots@[k as int]),
        None => vacant(w) == 0 && (w is Active ==> forall|k: usize| k < w->task_slots@.len() ==> !empty(#[trigger] w->task_slots@[k as int])),
    }
}
impl Pick<WorkerId, WorkerResource> for (WorkerId, Vec<usize>) { spec fn pick(k: WorkerId, v: WorkerResource, o: Option<(WorkerId, Vec<usize>)>) -> bool { slots_from(k, v, o) } }
impl Pick<WorkerId, WorkerResource> for WorkerId { spec fn pick(k: WorkerId, v: WorkerResource, o: Option<WorkerId>) -> bool { o == if v is Active { Some(k) } else { None::<WorkerId> } } }
spec fn slots_of(w: IndexMap<WorkerId, WorkerResource>, i: int, o: Option<(WorkerId, Vec<usize>)>) -> bool { slots_from(w.ks()[i], w.at(i), o) }
proof fn lemma_free(w: IndexMap<WorkerId, WorkerResource>, os: Seq<Option<(WorkerId, Vec<usize>)>>, n: int)
    requires w.wf(), 0 <= n <= w.ks().len(), os.len() == n, forall|i: int| 0 <= i < n ==> slots_of(w, i, #[trigger] os[i]),
    ensures total(somes(os)) == sizes(w.values().take(n)), distinct(somes(os)),
        forall|j: int| 0 <= j < somes(os).len() ==> exists|i: int| 0 <= i < n && os[i] == Some(#[trigger] somes(os)[j]),
        forall|i: int| 0 <= i < n && (#[trigger] os[i]) is Some ==> somes(os).contains(os[i]->0),
    decreases n
{
    if n > 0 {
        let po = os.drop_last();
        let p = somes(po);
        let r = somes(os);
        assert forall|i: int| 0 <= i < n - 1 implies slots_of(w, i, #[trigger] po[i]) by { assert(po[i] == os[i]); }
        lemma_free(w, po, n - 1);
        assert(w.values().take(n).drop_last() =~= w.values().take(n - 1));
        assert(w.values().take(n).last() == w.at(n - 1));
        assert(slots_of(w, n - 1, os[n - 1]));
        if let Some(x) = os[n - 1] {
            assert(r == p.push(x));
            assert(r.drop_last() =~= p);
            assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies (#[trigger] r[i]).0 != (#[trigger] r[j]).0 by {
                if i < p.len() { let a = choose|a: int| 0 <= a < n - 1 && po[a] == Some(p[i]); assert(r[i] == p[i]); assert(slots_of(w, a, po[a])); assert(r[i].0 == w.ks()[a]); }
                if j < p.len() { let a = choose|a: int| 0 <= a < n - 1 && po[a] == Some(p[j]); assert(r[j] == p[j]); assert(slots_of(w, a, po[a])); assert(r[j].0 == w.ks()[a]); }
            }
            assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).1@.no_duplicates() by { if i < p.len() { assert(r[i] == p[i]); } }
        } else { assert(r == p); }
        assert forall|j: int| 0 <= j < r.len() implies exists|i: int| 0 <= i < n && os[i] == Some(#[trigger] r[j]) by {
            if j < p.len() { assert(r[j] == p[j]); let a = choose|a: int| 0 <= a < n - 1 && po[a] == Some(p[j]); assert(os[a] == po[a]); } else { assert(os[n - 1] == Some(r[j])); }
        }
        assert forall|i: int| 0 <= i < n && (#[trigger] os[i]) is Some implies r.contains(os[i]->0) by {
            if i < n - 1 { assert(po[i] == os[i]); let j = choose|j: int| 0 <= j < p.len() && p[j] == os[i]->0; assert(r[j] == p[j]); }
            else { assert(r[r.len() - 1] == os[i]->0); }
        }
    }
}
proof fn lemma_free_holds(w: IndexMap<WorkerId, WorkerResource>, os: Seq<Option<(WorkerId, Vec<usize>)>>)
    requires w.wf(), os.len() == w.ks().len(), forall|i: int| 0 <= i < os.len() ==> slots_of(w, i, #[trigger] os[i]),
    ensures forall|id: WorkerId, k: usize| #[trigger] holds(somes(os), id, k) <==> is_free(w.m(), id, k), total(somes(os)) == vacant_all(w), distinct(somes(os)),
{
    let n = os.len() as int;
    lemma_free(w, os, n);
    assert(w.values().take(n) =~= w.values());
    let r = somes(os);
    assert forall|id: WorkerId, k: usize| #[trigger] holds(r, id, k) <==> is_free(w.m(), id, k) by {
        if holds(r, id, k) {
            let (a, j) = choose|a: int, j: int| #![trigger r[a].1@[j]] 0 <= a < r.len() && 0 <= j < r[a].1@.len() && r[a].0 == id && r[a].1@[j] == k;
            let i = choose|i: int| 0 <= i < n && os[i] == Some(r[a]);
            assert(slots_of(w, i, os[i]));
            assert(r[a].1@.contains(k));
            assert(w.ks().contains(id));
        }
        if is_free(w.m(), id, k) {
            assert(w.ks().contains(id));
            let i = choose|i: int| 0 <= i < n && w.ks()[i] == id;
            assert(slots_of(w, i, os[i]));
            if os[i] is None { assert(!empty(w.at(i)->task_slots@[k as int])); }
            let x = os[i]->0;
            assert(r.contains(x));
            let a = choose|a: int| 0 <= a < r.len() && r[a] == x;
            assert(x.1@.contains(k));
            let j = choose|j: int| 0 <= j < x.1@.len() && x.1@[j] == k;
            assert(r[a].1@[j] == k);
        }
    }
}
// how the number of running workers changes when one worker changes
proof fn lemma_active_change(a: IndexMap<WorkerId, WorkerResource>, b: IndexMap<WorkerId, WorkerResource>, w: WorkerId)
    requires a.wf(), a.ks() == b.ks(), a.m().contains_key(w), b.m() == a.m().insert(w, b.m()[w])
    ensures active_all(b) == active_all(a) + (if b.m()[w] is Active { 1int } else { 0 }) - (if a.m()[w] is Active { 1int } else { 0 }), b.wf(),
{
    let i = choose|i: int| 0 <= i < a.ks().len() && a.ks()[i] == w;
    assert(b.values() =~= a.values().update(i, b.m()[w]));
    lemma_hits_update(a.values(), i, b.m()[w]);
}
proof fn lemma_active_push(a: IndexMap<WorkerId, WorkerResource>, b: IndexMap<WorkerId, WorkerResource>, w: WorkerId, v: WorkerResource)
    requires a.wf(), !a.m().contains_key(w), b.ks() == a.ks().push(w), b.m() == a.m().insert(w, v)
    ensures active_all(b) == active_all(a) + if v is Active { 1int } else { 0 }
{
    assert forall|i: int| 0 <= i < a.ks().len() implies b.at(i) == a.at(i) by { assert(a.ks().contains(a.ks()[i])); assert(b.ks()[i] == a.ks()[i]); }
    assert(b.values() =~= a.values().push(v));
    assert(b.values().drop_last() =~= a.values());
}
spec fn runs_in(s: Seq<TaskSlot>, k: TaskKey) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).tasks.s().contains(k) }
proof fn lemma_runs(a: Seq<TaskSlot>, b: Seq<TaskSlot>, j: int, set: TaskSet)
    requires a.len() <= b.len(), 0 <= j < b.len(), b.len() == a.len() || (j == a.len() && b.len() == a.len() + 1),
        forall|i: int| 0 <= i < b.len() && i != j ==> (#[trigger] b[i]).tasks.s() == a[i].tasks.s(),
        forall|k: TaskKey| #[trigger] b[j].tasks.s().contains(k) <==> (j < a.len() && a[j].tasks.s().contains(k)) || set.has(k),
    ensures forall|k: TaskKey| #[trigger] runs_in(b, k) <==> runs_in(a, k) || set.has(k),
{
    assert forall|k: TaskKey| #[trigger] runs_in(b, k) <==> runs_in(a, k) || set.has(k) by {
        if runs_in(b, k) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).tasks.s().contains(k); if i != j { assert(a[i].tasks.s().contains(k)); } else if !set.has(k) { assert(a[j].tasks.s().contains(k)); } }
        if runs_in(a, k) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).tasks.s().contains(k); if i != j { assert(b[i].tasks.s() == a[i].tasks.s()); } assert(b[i].tasks.s().contains(k)); }
        if set.has(k) { assert(b[j].tasks.s().contains(k)); }
    }
}
// taking one slot of entry i
proof fn lemma_pop(a: Seq<(WorkerId, Vec<usize>)>, b: Seq<(WorkerId, Vec<usize>)>, i: int)
    requires distinct(a), 0 <= i < a.len(), a.len() == b.len(), forall|j: int| 0 <= j < a.len() && j != i ==> #[trigger] b[j] == a[j],
        b[i].0 == a[i].0, a[i].1@.len() > 0, b[i].1@ == a[i].1@.drop_last(),
    ensures distinct(b), total(b) == total(a) - 1, holds(a, a[i].0, a[i].1@.last()),
        forall|w: WorkerId, k: usize| #[trigger] holds(b, w, k) <==> holds(a, w, k) && (w, k) != (a[i].0, a[i].1@.last()),
{
    assert(b =~= a.update(i, b[i]));
    lemma_total_update(a, i, b[i]);
    let l = a[i].1@.len() - 1;
    assert(a[i].1@[l] == a[i].1@.last());
    assert forall|w: WorkerId, k: usize| #[trigger] holds(b, w, k) <==> holds(a, w, k) && (w, k) != (a[i].0, a[i].1@.last()) by {
        if holds(b, w, k) {
            let (x, j) = choose|x: int, j: int| #![trigger b[x].1@[j]] 0 <= x < b.len() && 0 <= j < b[x].1@.len() && b[x].0 == w && b[x].1@[j] == k;
            assert(a[x].1@[j] == k);
            if x != i { assert(a[x].0 != a[i].0); } else { assert(j != l); assert(a[i].1@[j] != a[i].1@[l]); }
        }
        if holds(a, w, k) && (w, k) != (a[i].0, a[i].1@.last()) {
            let (x, j) = choose|x: int, j: int| #![trigger a[x].1@[j]] 0 <= x < a.len() && 0 <= j < a[x].1@.len() && a[x].0 == w && a[x].1@[j] == k;
            if x == i { assert(j != l); }
            assert(b[x].1@[j] == k);
        }
    }
    assert forall|x: int, y: int| 0 <= x < b.len() && 0 <= y < b.len() && x != y implies (#[trigger] b[x]).0 != (#[trigger] b[y]).0 by { assert(a[x].0 != a[y].0); }
    assert forall|x: int| 0 <= x < b.len() implies (#[trigger] b[x]).1@.no_duplicates() by { assert(a[x].1@.no_duplicates()); }
}
proof fn lemma_same(a: Seq<(WorkerId, Vec<usize>)>, b: Seq<(WorkerId, Vec<usize>)>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i].0 == #[trigger] b[i].0 && a[i].1@ == b[i].1@,
    ensures total(a) == total(b), distinct(a) ==> distinct(b), forall|w: WorkerId, k: usize| #![trigger holds(a, w, k)] #![trigger holds(b, w, k)] holds(a, w, k) <==> holds(b, w, k),
    decreases a.len()
{
    if a.len() > 0 {
        assert forall|i: int| 0 <= i < a.len() - 1 implies #[trigger] a.drop_last()[i].0 == #[trigger] b.drop_last()[i].0 && a.drop_last()[i].1@ == b.drop_last()[i].1@ by { assert(a[i].0 == b[i].0); }
        lemma_same(a.drop_last(), b.drop_last());
        assert(a[a.len() - 1].0 == b[a.len() - 1].0);
    }
    assert forall|w: WorkerId, k: usize| #[trigger] holds(a, w, k) <==> holds(b, w, k) by {
        if holds(a, w, k) { let (x, j) = choose|x: int, j: int| #![trigger a[x].1@[j]] 0 <= x < a.len() && 0 <= j < a[x].1@.len() && a[x].0 == w && a[x].1@[j] == k; assert(b[x].0 == a[x].0); assert(b[x].1@[j] == k); }
        if holds(b, w, k) { let (x, j) = choose|x: int, j: int| #![trigger b[x].1@[j]] 0 <= x < b.len() && 0 <= j < b[x].1@.len() && b[x].0 == w && b[x].1@[j] == k; assert(b[x].0 == a[x].0); assert(a[x].1@[j] == k); }
    }
    if distinct(a) {
        assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j implies (#[trigger] b[i]).0 != (#[trigger] b[j]).0 by { assert(a[i].0 == b[i].0); assert(a[j].0 == b[j].0); }
        assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).1@.no_duplicates() by { assert(a[i].0 == b[i].0); assert(a[i].1@.no_duplicates()); }
    }
}
proof fn lemma_hits_prefix<T: Hit>(s: Seq<T>, n: int) requires 0 <= n <= s.len() ensures hits(s.take(n)) <= hits(s) decreases s.len()
{
    if n < s.len() { lemma_hits_prefix(s.drop_last(), n); assert(s.drop_last().take(n) =~= s.take(n)); } else { assert(s.take(n) =~= s); }
}
proof fn lemma_take(a: Seq<TaskSetAssignment>, x: TaskSetAssignment)
    ensures forall|w: WorkerId, k: usize| #[trigger] taken(a.push(x), w, k) <==> taken(a, w, k) || takes(x, w, k),
        once(a) && (x.assignment is Worker ==> !taken(a, x.assignment->worker_id, x.assignment->slot)) ==> once(a.push(x)),
{
    let b = a.push(x);
    assert forall|w: WorkerId, k: usize| #[trigger] taken(b, w, k) <==> taken(a, w, k) || takes(x, w, k) by {
        if taken(b, w, k) { let i = choose|i: int| 0 <= i < b.len() && takes(#[trigger] b[i], w, k); if i < a.len() { assert(takes(a[i], w, k)); } }
        if taken(a, w, k) { let i = choose|i: int| 0 <= i < a.len() && takes(#[trigger] a[i], w, k); assert(takes(b[i], w, k)); }
        if takes(x, w, k) { assert(takes(b[a.len() as int], w, k)); }
    }
    if once(a) && (x.assignment is Worker ==> !taken(a, x.assignment->worker_id, x.assignment->slot)) {
        assert forall|i: int, j: int| #![trigger b[i], b[j]] 0 <= i < j < b.len() && b[i].assignment is Worker && b[j].assignment is Worker implies b[i].assignment != b[j].assignment by {
            if j == a.len() { assert(b[i] == a[i]); if b[i].assignment == x.assignment { assert(takes(a[i], x.assignment->worker_id, x.assignment->slot)); } } else { assert(a[i] == b[i] && a[j] == b[j]); }
        }
    }
}
spec fn in_region(r: TaskRegion, k: TaskKey) -> bool { exists|i: int| 0 <= i < r.tasks@.len() && (#[trigger] r.tasks@[i]).1.has(k) }
// nothing but the tasks in worker slots may differ
spec fn same_shape(a: IndexMap<WorkerId, WorkerResource>, b: IndexMap<WorkerId, WorkerResource>) -> bool {
    a.ks() == b.ks() && a.m().dom() == b.m().dom() && forall|w: WorkerId| #![trigger a.m()[w]] #![trigger b.m()[w]] a.m().contains_key(w) ==> shape(a.m()[w], b.m()[w])
}
spec fn shape(a: WorkerResource, b: WorkerResource) -> bool {
    match a {
        WorkerResource::Inactive => b == a,
        WorkerResource::Active { task_slots, local_streams } => b is Active && b->local_streams == local_streams && b->task_slots@.len() == task_slots@.len(),
    }
}
proof fn lemma_one(a: IndexMap<WorkerId, WorkerResource>, b: IndexMap<WorkerId, WorkerResource>, w: WorkerId)
    requires a.ks() == b.ks(), a.m().contains_key(w), b.m() == a.m().insert(w, b.m()[w]), shape(a.m()[w], b.m()[w]) ensures same_shape(a, b)
{ assert(a.m().dom() =~= b.m().dom()); assert forall|x: WorkerId| a.m().contains_key(x) implies shape(a.m()[x], b.m()[x]) by {} }
spec fn slot(ws: Map<WorkerId, WorkerResource>, w: WorkerId, s: usize) -> Set<TaskKey> { ws[w]->task_slots@[s as int].tasks.s() }
spec fn is_slot(ws: Map<WorkerId, WorkerResource>, w: WorkerId, s: usize) -> bool { ws.contains_key(w) && ws[w] is Active && s < ws[w]->task_slots@.len() }
proof fn lemma_hits_add<T: Hit>(a: Seq<T>, b: Seq<T>) ensures hits(a + b) == hits(a) + hits(b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_hits_add(a, b.drop_last()); } }
// one more region placed
proof fn lemma_grow(a: Seq<TaskSetAssignment>, x: Seq<TaskSetAssignment>, s0: Seq<(WorkerId, Vec<usize>)>, s1: Seq<(WorkerId, Vec<usize>)>, q: Seq<TaskRegion>, n: int)
    requires 0 <= n < q.len(), places(a, flat(q, n)), once(a), places(x, q[n].tasks@), once(x),
        forall|w: WorkerId, k: usize| #[trigger] taken(a, w, k) ==> !holds(s0, w, k),
        forall|w: WorkerId, k: usize| #[trigger] holds(s0, w, k) <==> holds(s1, w, k) || taken(x, w, k),
        forall|w: WorkerId, k: usize| #[trigger] taken(x, w, k) ==> !holds(s1, w, k),
    ensures places(a + x, flat(q, n + 1)), once(a + x), hits(flat(q, n + 1)) == hits(flat(q, n)) + need(q[n]),
        forall|w: WorkerId, k: usize| #[trigger] taken(a + x, w, k) <==> taken(a, w, k) || taken(x, w, k),
        forall|w: WorkerId, k: usize| #[trigger] taken(a + x, w, k) ==> !holds(s1, w, k),
        forall|w: WorkerId, k: usize| #[trigger] holds(s1, w, k) ==> holds(s0, w, k),
        forall|w: WorkerId, k: usize| #[trigger] taken(x, w, k) ==> holds(s0, w, k),
{
    let b = a + x;
    lemma_hits_add(flat(q, n), q[n].tasks@);
    assert forall|w: WorkerId, k: usize| #[trigger] taken(b, w, k) <==> taken(a, w, k) || taken(x, w, k) by {
        if taken(b, w, k) { let i = choose|i: int| 0 <= i < b.len() && takes(#[trigger] b[i], w, k); if i < a.len() { assert(takes(a[i], w, k)); } else { assert(takes(x[i - a.len()], w, k)); } }
        if taken(a, w, k) { let i = choose|i: int| 0 <= i < a.len() && takes(#[trigger] a[i], w, k); assert(takes(b[i], w, k)); }
        if taken(x, w, k) { let i = choose|i: int| 0 <= i < x.len() && takes(#[trigger] x[i], w, k); assert(takes(b[a.len() + i], w, k)); }
    }
    assert forall|w: WorkerId, k: usize| #[trigger] taken(b, w, k) implies !holds(s1, w, k) by { if holds(s1, w, k) { assert(holds(s0, w, k)); } }
    assert forall|i: int, j: int| #![trigger b[i], b[j]] 0 <= i < j < b.len() && b[i].assignment is Worker && b[j].assignment is Worker implies b[i].assignment != b[j].assignment by {
        if j < a.len() { assert(a[i] == b[i] && a[j] == b[j]); }
        else if i >= a.len() { assert(x[i - a.len()] == b[i] && x[j - a.len()] == b[j]); }
        else if b[i].assignment == b[j].assignment {
            let (w, k) = (b[i].assignment->worker_id, b[i].assignment->slot);
            assert(takes(a[i], w, k)); assert(takes(x[j - a.len()], w, k)); assert(taken(a, w, k)); assert(taken(x, w, k)); assert(holds(s0, w, k));
        }
    }
}
proof fn lemma_not_yet(a: Seq<TaskSetAssignment>, i: int)
    requires once(a), 0 <= i < a.len(), a[i].assignment is Worker ensures !taken(a.take(i), a[i].assignment->worker_id, a[i].assignment->slot)
{
    let (w, k) = (a[i].assignment->worker_id, a[i].assignment->slot);
    if taken(a.take(i), w, k) { let j = choose|j: int| 0 <= j < i && takes(#[trigger] a.take(i)[j], w, k); assert(a.take(i)[j] == a[j]); assert(a[j].assignment != a[i].assignment); }
}
proof fn lemma_shape_refl(a: IndexMap<WorkerId, WorkerResource>) ensures same_shape(a, a) {}
proof fn lemma_shape_count(a: IndexMap<WorkerId, WorkerResource>, b: IndexMap<WorkerId, WorkerResource>)
    requires a.wf(), same_shape(a, b) ensures active_all(a) == active_all(b), b.wf()
{
    assert forall|i: int| 0 <= i < a.ks().len() implies a.values()[i].hit() == #[trigger] b.values()[i].hit() by { assert(a.ks().contains(a.ks()[i])); assert(a.m().contains_key(a.ks()[i])); }
    lemma_hits_same(a.values(), b.values());
}
proof fn lemma_hits_same<T: Hit>(a: Seq<T>, b: Seq<T>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> a[i].hit() == #[trigger] b[i].hit() ensures hits(a) == hits(b) decreases a.len()
{ if a.len() > 0 { assert forall|i: int| 0 <= i < a.len() - 1 implies a.drop_last()[i].hit() == #[trigger] b.drop_last()[i].hit() by { assert(a[i].hit() == b[i].hit()); }; lemma_hits_same(a.drop_last(), b.drop_last()); assert(a[a.len() - 1].hit() == b[a.len() - 1].hit()); } }
// what one step of the placement loop keeps
spec fn step(w1: IndexMap<WorkerId, WorkerResource>, w2: IndexMap<WorkerId, WorkerResource>, a: TaskSetAssignment) -> bool {
    if a.assignment is Worker {
        let (w, s) = (a.assignment->worker_id, a.assignment->slot);
        same_shape(w1, w2) && (forall|k: TaskKey| #[trigger] slot(w2.m(), w, s).contains(k) <==> slot(w1.m(), w, s).contains(k) || a.set.has(k))
            && forall|x: WorkerId, y: usize| #[trigger] is_slot(w1.m(), x, y) && !(x == w && y == s) ==> slot(w2.m(), x, y) == slot(w1.m(), x, y)
    } else { w1 == w2 }
}
proof fn lemma_placed(ws0: IndexMap<WorkerId, WorkerResource>, w1: IndexMap<WorkerId, WorkerResource>, w2: IndexMap<WorkerId, WorkerResource>, a: Seq<TaskSetAssignment>, i: int)
    requires 0 <= i < a.len(), ws0.wf(), same_shape(ws0, w1), step(w1, w2, a[i]), once(a), forall|w: WorkerId, k: usize| #[trigger] taken(a, w, k) ==> is_free(ws0.m(), w, k),
        forall|j: int, k: TaskKey| #![trigger a[j].set.has(k)] 0 <= j < i && a[j].assignment is Worker ==> (slot(w1.m(), a[j].assignment->worker_id, a[j].assignment->slot).contains(k) <==> a[j].set.has(k)),
        forall|w: WorkerId, s: usize| #[trigger] is_slot(ws0.m(), w, s) && !taken(a.take(i), w, s) ==> slot(w1.m(), w, s) == slot(ws0.m(), w, s),
    ensures same_shape(ws0, w2),
        forall|j: int, k: TaskKey| #![trigger a[j].set.has(k)] 0 <= j < i + 1 && a[j].assignment is Worker ==> (slot(w2.m(), a[j].assignment->worker_id, a[j].assignment->slot).contains(k) <==> a[j].set.has(k)),
        forall|w: WorkerId, s: usize| #[trigger] is_slot(ws0.m(), w, s) && !taken(a.take(i + 1), w, s) ==> slot(w2.m(), w, s) == slot(ws0.m(), w, s),
{
    let x = a[i];
    lemma_take(a.take(i), x);
    assert(a.take(i + 1) =~= a.take(i).push(x));
    assert forall|w: WorkerId, s: usize| #[trigger] is_slot(ws0.m(), w, s) implies is_slot(w1.m(), w, s) by { assert(w1.m().contains_key(w)); assert(ws0.m()[w] is Active); assert(w1.m()[w]->task_slots@.len() == ws0.m()[w]->task_slots@.len()); }
    if x.assignment is Worker {
        let (w, s) = (x.assignment->worker_id, x.assignment->slot);
        assert(takes(a[i], w, s)); assert(taken(a, w, s)); assert(is_free(ws0.m(), w, s)); assert(is_slot(ws0.m(), w, s));
        lemma_not_yet(a, i);
        assert(slot(w1.m(), w, s) == slot(ws0.m(), w, s));
        assert forall|j: int, k: TaskKey| #![trigger a[j].set.has(k)] 0 <= j < i + 1 && a[j].assignment is Worker implies (slot(w2.m(), a[j].assignment->worker_id, a[j].assignment->slot).contains(k) <==> a[j].set.has(k)) by {
            let (wj, sj) = (a[j].assignment->worker_id, a[j].assignment->slot);
            if j < i { assert(takes(a[j], wj, sj)); assert(taken(a, wj, sj)); assert(is_free(ws0.m(), wj, sj)); assert(is_slot(ws0.m(), wj, sj)); assert(a[j].assignment != a[i].assignment); assert(!(wj == w && sj == s)); assert(is_slot(w1.m(), wj, sj)); assert(slot(w2.m(), wj, sj) == slot(w1.m(), wj, sj)); }
            else { assert(!slot(ws0.m(), w, s).contains(k)); assert(slot(w2.m(), w, s).contains(k) <==> a[i].set.has(k)); }
        }
        assert forall|y: WorkerId| ws0.m().contains_key(y) implies shape(ws0.m()[y], w2.m()[y]) by { assert(w1.m().contains_key(y)); assert(shape(ws0.m()[y], w1.m()[y])); assert(shape(w1.m()[y], w2.m()[y])); }
    }
}
spec fn placed_at(a: Seq<TaskSetAssignment>, k: TaskKey, i: int) -> bool { 0 <= i < a.len() && a[i].set.has(k) }
spec fn placed(a: Seq<TaskSetAssignment>, k: TaskKey) -> bool { exists|i: int| placed_at(a, k, i) }
spec fn noted(m: Map<TaskKey, TaskAssignment>, m0: Map<TaskKey, TaskAssignment>, a: Seq<TaskSetAssignment>) -> bool {
    forall|k: TaskKey| #![trigger m.contains_key(k)] #![trigger m[k]] if placed(a, k) { m.contains_key(k) && exists|i: int| #[trigger] placed_at(a, k, i) && m[k] == a[i].assignment } else { m.contains_key(k) == m0.contains_key(k) && m[k] == m0[k] }
}
spec fn key_before(a: TaskSetAssignment, k: TaskKey, n: int) -> bool { exists|i: int| 0 <= i < n && #[trigger] a.set.entries@[i].key == k }
spec fn noting(m: Map<TaskKey, TaskAssignment>, m0: Map<TaskKey, TaskAssignment>, a: TaskSetAssignment, n: int) -> bool {
    n <= a.set.entries@.len() && forall|k: TaskKey| #![trigger m.contains_key(k)] #![trigger m[k]] if key_before(a, k, n) { m.contains_key(k) && m[k] == a.assignment } else { m.contains_key(k) == m0.contains_key(k) && m[k] == m0[k] }
}
proof fn lemma_noted(m: Map<TaskKey, TaskAssignment>, mb: Map<TaskKey, TaskAssignment>, m0: Map<TaskKey, TaskAssignment>, a: Seq<TaskSetAssignment>, x: TaskSetAssignment)
    requires noted(mb, m0, a), noting(m, mb, x, x.set.entries@.len() as int) ensures noted(m, m0, a.push(x))
{
    let b = a.push(x);
    assert forall|k: TaskKey| #![trigger m.contains_key(k)] #![trigger m[k]] if placed(b, k) { m.contains_key(k) && exists|i: int| #[trigger] placed_at(b, k, i) && m[k] == b[i].assignment } else { m.contains_key(k) == m0.contains_key(k) && m[k] == m0[k] } by {
        assert(x.set.has(k) == key_before(x, k, x.set.entries@.len() as int));
        if x.set.has(k) { assert(placed_at(b, k, a.len() as int)); assert(m[k] == b[a.len() as int].assignment); }
        else {
            assert(mb.contains_key(k) == mb.contains_key(k));
            if placed(a, k) { let i = choose|i: int| #[trigger] placed_at(a, k, i) && mb[k] == a[i].assignment; assert(placed_at(b, k, i)); assert(m[k] == b[i].assignment); }
            else { if placed(b, k) { let i = choose|i: int| placed_at(b, k, i); assert(placed_at(a, k, i)); } }
        }
    }
}
// ---- the driver: the pool of worker processes is a stand-in that knows which workers are pending and running
pub struct ActorContext<T> { x: std::marker::PhantomData<T> }
pub enum ActorAction { Continue, Stop }
pub struct DriverOptions { worker_initial_count: usize }
#[verifier::external_body] pub struct JobScheduler { x: () }
#[verifier::external_body] pub struct WorkerPool { x: () }
pub struct Instant { x: u64 }
impl WorkerPool {
    uninterp spec fn pending(&self) -> Set<WorkerId>;
    uninterp spec fn running(&self) -> Set<WorkerId>;
    uninterp spec fn known(&self) -> Set<WorkerId>;
    // no worker identifier is left; the driver is about to shut down
    uninterp spec fn exhausted(&self) -> bool;
    spec fn wf(&self) -> bool { self.pending().subset_of(self.known()) && self.running().subset_of(self.known()) && self.pending().disjoint(self.running()) }
    // a started worker is a new one; no worker is started if no identifier is left
    #[verifier::external_body]
    fn start_worker(&mut self, ctx: &mut ActorContext<DriverActor>)
        requires old(self).wf()
        ensures final(self).wf(), final(self).running() == old(self).running(),
            (final(self).pending() == old(self).pending() && final(self).known() == old(self).known() && final(self).exhausted())
            || final(self).exhausted() == old(self).exhausted() && exists|w: WorkerId| !old(self).known().contains(w) && #[trigger] old(self).pending().insert(w) == final(self).pending() && final(self).known() == old(self).known().insert(w),
    { unimplemented!() }
}
impl WorkerPool {
    #[verifier::external_body]
    fn register_worker(&mut self, ctx: &mut ActorContext<DriverActor>, worker_id: WorkerId, host: String, port: u16) -> (r: Result<(), VErr>)
        ensures match r {
            Ok(_) => old(self).pending().contains(worker_id) && final(self).pending() == old(self).pending().remove(worker_id) && final(self).running() == old(self).running().insert(worker_id) && final(self).known() == old(self).known() && final(self).exhausted() == old(self).exhausted(),
            Err(_) => *final(self) == *old(self) }
    { unimplemented!() }
    #[verifier::external_body]
    fn fail_worker_if_pending(&mut self, worker_id: WorkerId) -> (r: bool)
        ensures r == old(self).pending().contains(worker_id), final(self).pending() == old(self).pending().remove(worker_id), final(self).running() == old(self).running(), final(self).known() == old(self).known(), final(self).exhausted() == old(self).exhausted()
    { unimplemented!() }
    #[verifier::external_body]
    fn stop_worker(&mut self, ctx: &mut ActorContext<DriverActor>, worker_id: WorkerId, reason: Option<String>)
        ensures final(self).pending() == (if old(self).pending().contains(worker_id) { old(self).pending().remove(worker_id) } else { old(self).pending() }), final(self).running() == old(self).running().remove(worker_id), final(self).known() == old(self).known(), final(self).exhausted() == old(self).exhausted()
    { unimplemented!() }
    #[verifier::external_body]
    fn get_worker_last_update(&mut self, worker_id: WorkerId) -> (r: Option<Instant>) ensures *final(self) == *old(self), r is Some ==> old(self).running().contains(worker_id) && !old(self).pending().contains(worker_id) { unimplemented!() }
    #[verifier::external_body]
    fn get_worker_last_heartbeat(&mut self, worker_id: WorkerId) -> (r: Option<Instant>) ensures *final(self) == *old(self), r is Some ==> old(self).running().contains(worker_id) && !old(self).pending().contains(worker_id) { unimplemented!() }
}
pub struct VErr { x: () }
pub struct CommonErrorCause { x: () }
pub enum TaskState { Created, Scheduled, Running, Succeeded, Failed, Canceled }
#[verifier::external_body]
pub struct String { x: () }
#[verifier::external_body]
fn vx_fmt() -> (r: String) { unimplemented!() }
impl Clone for String { #[verifier::external_body] fn clone(&self) -> String { unimplemented!() } }
impl CommonErrorCause { #[verifier::external_body] #[allow(non_snake_case)] fn Execution(s: String) -> CommonErrorCause { unimplemented!() } }
trait AtOrBefore: Sized { fn vx_at_or_before(self, t: Instant) -> bool; }
impl AtOrBefore for Option<Instant> { #[verifier::external_body] fn vx_at_or_before(self, t: Instant) -> (r: bool) ensures r ==> self is Some { unimplemented!() } }
pub mod oneshot {
    pub struct Sender<T> { x: std::marker::PhantomData<T> }
    impl<T> Sender<T> { #[verifier::external_body] pub fn send(self, t: T) -> Result<(), T> { unimplemented!() } }
}
pub type ExecutionResult<T> = Result<T, VErr>;
impl JobScheduler {
    #[verifier::external_body]
    fn update_task(&mut self, key: &TaskKey, state: TaskState, message: Option<String>, cause: Option<CommonErrorCause>) { unimplemented!() }
}
#[verifier::external_body]
fn vx_job_ids(keys: &Vec<TaskKey>) -> (r: Vec<JobId>) { unimplemented!() }
impl TaskAssigner {
    #[verifier::external_body]
    fn find_worker_tasks(&self, worker_id: WorkerId) -> (r: Vec<TaskKey>) { unimplemented!() }
}
impl DriverActor {
    // running tasks and refreshing a job change neither the workers nor their number
    #[verifier::external_body]
    fn run_tasks(&mut self, ctx: &mut ActorContext<Self>)
        requires old(self).inv() ensures final(self).inv(), final(self).task_assigner.options == old(self).task_assigner.options, final(self).worker_pool == old(self).worker_pool
    { unimplemented!() }
    #[verifier::external_body]
    fn refresh_job(&mut self, ctx: &mut ActorContext<Self>, job_id: JobId)
        requires old(self).inv() ensures final(self).inv(), final(self).task_assigner.options == old(self).task_assigner.options, final(self).worker_pool == old(self).worker_pool
    { unimplemented!() }
}
pub type HashMap<K, V> = IndexMap<K, V>;
pub enum TaskStatus { Running, Succeeded, Failed, Canceled }
trait AtLeast { fn vx_at_least(self, x: u64) -> bool; }
impl AtLeast for Option<&u64> {
    #[verifier::external_body]
    fn vx_at_least(self, x: u64) -> (r: bool) ensures r == (self is Some && x <= *self->0) { unimplemented!() }
}
spec fn stale(d: DriverActor, key: TaskKey, sequence: Option<u64>) -> bool { sequence is Some && d.task_sequences.m().contains_key(key) && sequence->0 <= d.task_sequences.m()[key] }
spec fn idle(ws: Map<WorkerId, WorkerResource>, w: WorkerId) -> bool {
    ws.contains_key(w) && ws[w] is Active && ws[w]->local_streams.is_empty_spec() && forall|s: usize| s < ws[w]->task_slots@.len() ==> empty(#[trigger] ws[w]->task_slots@[s as int])
}
impl DriverActor {
    // `k` workers are counted as requested and about to be started
    spec fn inv_with(&self, k: int) -> bool {
        &&& self.task_assigner.wf() && self.task_assigner.bounded() && self.worker_pool.wf()
        &&& self.worker_pool.exhausted() || self.worker_pool.pending().len() + k == self.task_assigner.requested_worker_count
        &&& self.worker_pool.pending().len() + k <= self.task_assigner.requested_worker_count
        &&& forall|w: WorkerId| #[trigger] self.worker_pool.running().contains(w) <==> self.task_assigner.workers.m().contains_key(w) && self.task_assigner.workers.m()[w] is Active
        &&& forall|w: WorkerId| #[trigger] self.task_assigner.workers.m().contains_key(w) ==> self.worker_pool.known().contains(w) && !self.worker_pool.pending().contains(w)
    }
    spec fn inv(&self) -> bool { self.inv_with(0) }
}
// the workers that run or are about to never exceed the configured maximum
proof fn theorem_at_most_max(d: DriverActor)
    requires d.inv(), d.task_assigner.max() > 0
    ensures d.worker_pool.pending().len() + d.worker_pool.running().len() <= d.task_assigner.max()
{
    let w = d.task_assigner.workers;
    lemma_running(w, w.ks().len() as int);
    assert(w.values().take(w.ks().len() as int) =~= w.values());
    assert(d.worker_pool.running() =~= running_upto(w, w.ks().len() as int)) by {
        assert forall|x: WorkerId| #[trigger] d.worker_pool.running().contains(x) <==> running_upto(w, w.ks().len() as int).contains(x) by { assert(w.m().contains_key(x) <==> w.ks().contains(x)); }
    }
}
spec fn running_upto(w: IndexMap<WorkerId, WorkerResource>, n: int) -> Set<WorkerId> decreases n { if n <= 0 { Set::empty() } else if w.at(n - 1) is Active { running_upto(w, n - 1).insert(w.ks()[n - 1]) } else { running_upto(w, n - 1) } }
proof fn lemma_running(w: IndexMap<WorkerId, WorkerResource>, n: int)
    requires w.wf(), 0 <= n <= w.ks().len()
    ensures running_upto(w, n).len() == hits(w.values().take(n)), forall|x: WorkerId| #[trigger] running_upto(w, n).contains(x) <==> exists|i: int| 0 <= i < n && #[trigger] w.ks()[i] == x && w.at(i) is Active
    decreases n
{
    if n > 0 {
        lemma_running(w, n - 1);
        assert(w.values().take(n).drop_last() =~= w.values().take(n - 1));
        assert(w.values().take(n).last() == w.at(n - 1));
        let x = w.ks()[n - 1];
        assert(!running_upto(w, n - 1).contains(x));
        assert forall|y: WorkerId| #[trigger] running_upto(w, n).contains(y) <==> exists|i: int| 0 <= i < n && #[trigger] w.ks()[i] == y && w.at(i) is Active by {
            if exists|i: int| 0 <= i < n && #[trigger] w.ks()[i] == y && w.at(i) is Active { let i = choose|i: int| 0 <= i < n && #[trigger] w.ks()[i] == y && w.at(i) is Active; if i < n - 1 { assert(running_upto(w, n - 1).contains(y)); } }
            if running_upto(w, n).contains(y) { if running_upto(w, n - 1).contains(y) { let i = choose|i: int| 0 <= i < n - 1 && #[trigger] w.ks()[i] == y && w.at(i) is Active; assert(w.ks()[i] == y); } else { assert(w.ks()[n - 1] == y); } }
        }
    }
}
//@EXTRACTED@
}
fn main() {}
