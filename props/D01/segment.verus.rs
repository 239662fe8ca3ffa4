use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub assume_specification [i64::saturating_add] (a: i64, b: i64) -> (r: i64)
    ensures r == (if a + b > i64::MAX { i64::MAX as int } else if a + b < i64::MIN { i64::MIN as int } else { a + b });
pub assume_specification [i64::saturating_sub] (a: i64, b: i64) -> (r: i64)
    ensures r == (if a - b > i64::MAX { i64::MAX as int } else if a - b < i64::MIN { i64::MIN as int } else { a - b });
#[verifier::external_body]
struct ObjectMeta { x: () }
impl ObjectMeta {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
struct DeltaError { x: () }
struct VxStr { x: u8 }
fn vx_fmt() -> VxStr { VxStr { x: 0 } }
impl DeltaError {
    #[verifier::external_body]
    fn generic(s: VxStr) -> Self { unimplemented!() }
}
type DeltaResult<T> = core::result::Result<T, DeltaError>;
type Commits = Seq<(i64, ObjectMeta)>;
type Comps = Seq<((i64, i64), ObjectMeta)>;
// ---- the vocabulary of the contracts
// a commit file of version v is listed
spec fn has_commit(c: Commits, v: int) -> bool { exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).0 == v }
spec fn inside(p: ((i64, i64), ObjectMeta), v: int) -> bool { p.0.0 <= v <= p.0.1 }
spec fn in_comp(c: Comps, v: int) -> bool { exists|j: int| 0 <= j < c.len() && inside(#[trigger] c[j], v) }
// version v's actions are in one of the files
spec fn covered(c: Commits, k: Comps, v: int) -> bool { has_commit(c, v) || in_comp(k, v) }
spec fn in_commits(c: Commits, iv: (i64, i64)) -> bool { iv.0 == iv.1 && has_commit(c, iv.0 as int) }
spec fn in_comps(c: Comps, iv: (i64, i64)) -> bool { exists|j: int| 0 <= j < c.len() && (#[trigger] c[j]).0 == iv }
spec fn strictly(c: Commits) -> bool { forall|i: int, j: int| 0 <= i < j < c.len() ==> (#[trigger] c[i]).0 < (#[trigger] c[j]).0 }
spec fn ascending(c: Comps) -> bool { forall|i: int, j: int| 0 <= i < j < c.len() ==> (#[trigger] c[i]).0.1 < (#[trigger] c[j]).0.0 }
spec fn descending(c: Comps) -> bool { forall|i: int, j: int| 0 <= i < j < c.len() ==> (#[trigger] c[j]).0.1 < (#[trigger] c[i]).0.0 }
spec fn proper(c: Comps) -> bool { forall|j: int| 0 <= j < c.len() ==> (#[trigger] c[j]).0.0 <= c[j].0.1 }
// no version twice: commits ascend, compactions ascend without overlap, and no commit lies in a compaction
spec fn tidy(c: Commits, k: Comps) -> bool {
    strictly(c) && ascending(k) && proper(k) && forall|i: int| 0 <= i < c.len() ==> !in_comp(k, (#[trigger] c[i]).0 as int)
}
// ---- combinators the closures of the code are handed to
fn vx_any<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (&#[trigger] v@[i],)),
    ensures r ==> exists|i: int| 0 <= i < v@.len() && call_ensures(f, (&#[trigger] v@[i],), true),
        !r ==> forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (&#[trigger] v@[i],), false),
{ vx_any_slice(v, f) }
fn vx_any_slice<T, F: Fn(&T) -> bool>(v: &[T], f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (&#[trigger] v@[i],)),
    ensures r ==> exists|i: int| 0 <= i < v@.len() && call_ensures(f, (&#[trigger] v@[i],), true),
        !r ==> forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (&#[trigger] v@[i],), false),
{
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (&#[trigger] v@[i],)),
            forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] v@[j],), false),
        decreases v@.len() - i
    {
        if f(&v[i]) { return true; }
        i += 1;
    }
    false
}
spec fn kept<T, F: Fn(&T) -> bool>(old: Seq<T>, new: Seq<T>, f: F) -> bool {
    &&& forall|j: int| 0 <= j < new.len() ==> old.contains(#[trigger] new[j]) && call_ensures(f, (&new[j],), true)
    &&& forall|i: int| 0 <= i < old.len() ==> new.contains(#[trigger] old[i]) || call_ensures(f, (&old[i],), false)
    &&& subseq(old, new)
}
spec fn subseq<T>(old: Seq<T>, new: Seq<T>) -> bool {
    exists|m: spec_fn(int) -> int| #[trigger] monotone(m, new.len() as int, old.len() as int) && forall|j: int| 0 <= j < new.len() ==> #[trigger] new[j] == old[m(j)]
}
spec fn monotone(m: spec_fn(int) -> int, n: int, len: int) -> bool {
    (forall|j: int| 0 <= j < n ==> 0 <= #[trigger] m(j) < len) && forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] m(i) < #[trigger] m(j)
}
fn vx_filter_vec<T, F: Fn(&T) -> bool>(v: Vec<T>, f: F) -> (r: Vec<T>)
    requires forall|x: &T| call_requires(f, (x,)),
    ensures kept(v@, r@, f),
{
    let ghost v0 = v@;
    let ghost mut m: spec_fn(int) -> int = |j: int| 0int;
    let mut out: Vec<T> = Vec::new();
    for x in it: v
        invariant v0 == v@, forall|x: &T| call_requires(f, (x,)),
            forall|j: int| 0 <= j < out@.len() ==> v0.contains(#[trigger] out@[j]) && call_ensures(f, (&out@[j],), true),
            forall|i: int| 0 <= i < it.index@ ==> out@.contains(#[trigger] v0[i]) || call_ensures(f, (&v0[i],), false),
            monotone(m, out@.len() as int, it.index@ as int),
            forall|j: int| 0 <= j < out@.len() ==> #[trigger] out@[j] == v0[m(j)],
    {
        let ghost o0 = out@;
        proof { assert(v0[it.index@] == x); assert(v0.contains(x)); }
        if f(&x) {
            proof {
                let m0 = m; let n = out@.len() as int; let k = it.index@ as int;
                m = |j: int| if j == n { k } else { m0(j) };
            }
            out.push(x);
            proof {
                assert forall|i: int| 0 <= i <= it.index@ implies out@.contains(#[trigger] v0[i]) || call_ensures(f, (&v0[i],), false) by {
                    if i < it.index@ && o0.contains(v0[i]) { let j = choose|j: int| 0 <= j < o0.len() && o0[j] == v0[i]; assert(out@[j] == v0[i]); }
                    if i == it.index@ { assert(out@[out@.len() - 1] == v0[i]); }
                }
            }
        }
    }
    out
}
#[verifier::external_body]
fn vx_retain<T, F: Fn(&T) -> bool>(v: &mut Vec<T>, f: F)
    requires forall|x: &T| call_requires(f, (x,)),
    ensures kept(old(v)@, final(v)@, f),
{ v.retain(f) }
#[verifier::external_body]
fn vx_filter_cloned<F: Fn(&((i64, i64), ObjectMeta)) -> bool>(v: &[((i64, i64), ObjectMeta)], f: F) -> (r: Vec<((i64, i64), ObjectMeta)>)
    requires forall|x: &((i64, i64), ObjectMeta)| call_requires(f, (x,)),
    ensures kept(v@, r@, f),
{ unimplemented!() }
spec fn perm<T>(a: Seq<T>, b: Seq<T>, p: spec_fn(int) -> int) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| 0 <= i < b.len() ==> 0 <= #[trigger] p(i) < a.len() && b[i] == a[p(i)]
    &&& forall|i: int, j: int| 0 <= i < j < b.len() ==> #[trigger] p(i) != #[trigger] p(j)
    &&& forall|k: int| 0 <= k < a.len() ==> b.contains(#[trigger] a[k])
}
#[verifier::external_body]
fn vx_sort_pairs(v: &mut Vec<(i64, i64)>)
    ensures exists|p: spec_fn(int) -> int| #[trigger] perm(old(v)@, final(v)@, p), forall|k: int| 0 <= k < final(v)@.len() ==> old(v)@.contains(#[trigger] final(v)@[k]), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> (#[trigger] final(v)@[i]).0 <= (#[trigger] final(v)@[j]).0,
{ unimplemented!() }
#[verifier::external_body]
fn vx_sort_by_end_desc(v: &mut Vec<((i64, i64), ObjectMeta)>)
    ensures exists|p: spec_fn(int) -> int| #[trigger] perm(old(v)@, final(v)@, p), forall|k: int| 0 <= k < final(v)@.len() ==> old(v)@.contains(#[trigger] final(v)@[k]), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> (#[trigger] final(v)@[i]).0.1 >= (#[trigger] final(v)@[j]).0.1,
{ unimplemented!() }
#[verifier::external_body]
fn vx_sort_by_start(v: &mut Vec<((i64, i64), ObjectMeta)>)
    ensures exists|p: spec_fn(int) -> int| #[trigger] perm(old(v)@, final(v)@, p), forall|k: int| 0 <= k < final(v)@.len() ==> old(v)@.contains(#[trigger] final(v)@[k]), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> (#[trigger] final(v)@[i]).0.0 <= (#[trigger] final(v)@[j]).0.0,
{ unimplemented!() }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
struct BTreeMap<K, V> { x: (K, V) }
impl<K, V> View for BTreeMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> BTreeMap<K, V> {
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &K) -> (r: Option<&V>) ensures r is Some <==> self@.dom().contains(*k), r is Some ==> *r->Some_0 == self@[*k] { unimplemented!() }
}
impl BTreeMap<i64, ObjectMeta> {
    #[verifier::external_body]
    fn vx_into_vec(self) -> (r: Vec<(i64, ObjectMeta)>)
        ensures strictly(r@), forall|v: int| #[trigger] has_commit(r@, v) <==> i64::MIN <= v <= i64::MAX && self@.dom().contains(v as i64)
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_to_map(c: Vec<(i64, ObjectMeta)>) -> (r: BTreeMap<i64, ObjectMeta>)
    ensures forall|v: i64| #[trigger] r@.dom().contains(v) <==> has_commit(c@, v as int), forall|v: int| #[trigger] has_commit(c@, v) ==> i64::MIN <= v <= i64::MAX
{ unimplemented!() }
// what build_replay_sequence needs: the files hold every version from a to b exactly once
spec fn ready(c: Commits, k: Comps, a: int, b: int) -> bool {
    &&& tidy(c, k)
    &&& forall|j: int| 0 <= j < k.len() ==> a <= (#[trigger] k[j]).0.0 && k[j].0.1 <= b
    &&& forall|i: int| 0 <= i < c.len() ==> a <= (#[trigger] c[i]).0 <= b
    &&& forall|v: int| a <= v <= b ==> #[trigger] covered(c, k, v)
}
// ---- the parts of the listing that are assumed
#[verifier::external_body]
struct VxStore { x: () }
impl VxStore { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
struct VxLogStore { x: u8 }
impl VxLogStore { #[verifier::external_body] fn object_store(&self, o: Option<()>) -> VxStore { unimplemented!() } }
struct CatalogManagedCommitSet { x: u8 }
struct ReplayedTableHeader { x: u8 }
struct LogSegmentResolver<'a> { log_store: &'a VxLogStore, target_version: i64, replay_hint: Option<&'a ReplayedTableHeader>, catalog_managed_commits: Option<&'a CatalogManagedCommitSet> }
// the version in a checkpoint's file name
uninterp spec fn cp_ver(m: ObjectMeta) -> i64;
spec fn first_after(c: Option<ObjectMeta>) -> int { match c { Some(m) => cp_ver(m) + 1, None => 0 } }
#[verifier::external_body]
fn vx_any_i64() -> i64 { unimplemented!() }
#[verifier::external_body]
fn cp_meta_version(m: &ObjectMeta) -> (r: DeltaResult<i64>) ensures r is Ok ==> r->Ok_0 == cp_ver(*m) { unimplemented!() }
// the listing: file names are unique, versions in names are not negative, nothing beyond the version asked for
#[verifier::external_body]
fn list_log_files(s: VxStore, offset: i64, max: i64) -> (r: DeltaResult<(Vec<(i64, ObjectMeta)>, Option<ObjectMeta>, Vec<(i64, ObjectMeta)>, Vec<((i64, i64), ObjectMeta)>)>)
    ensures r matches Ok(x) ==> strictly(x.2@) && proper(x.3@) && (x.1 matches Some(m) ==> 0 <= cp_ver(m) <= max)
{ unimplemented!() }
impl<'a> LogSegmentResolver<'a> {
    #[verifier::external_body]
    fn resolve_catalog_managed_commit_files(&self, s: VxStore, a: i64, b: i64) -> (r: DeltaResult<Vec<(i64, ObjectMeta)>>)
        ensures r matches Ok(x) ==> strictly(x@) && forall|i: int| 0 <= i < x@.len() ==> a <= (#[trigger] x@[i]).0 <= b
    { unimplemented!() }
}
// ---- the replay sequence
spec fn from_of(e: ReplayEntry) -> int { match e { ReplayEntry::Commit(v, _) => v as int, ReplayEntry::Compaction(s, _, _) => s as int } }
spec fn to_of(e: ReplayEntry) -> int { match e { ReplayEntry::Commit(v, _) => v as int, ReplayEntry::Compaction(_, e, _) => e as int } }
spec fn drawn(c: Commits, k: Comps, e: ReplayEntry) -> bool {
    match e {
        ReplayEntry::Commit(v, m) => exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]) == (v, *m),
        ReplayEntry::Compaction(s, t, m) => exists|j: int| 0 <= j < k.len() && (#[trigger] k[j]) == ((s, t), *m),
    }
}
// the entries follow each other without gap or overlap from version a to version b
spec fn tiles(r: Seq<ReplayEntry>, a: int, b: int) -> bool
    decreases r.len()
{
    if r.len() == 0 { a == b + 1 } else { to_of(r.last()) == b && from_of(r.last()) <= b && tiles(r.drop_last(), a, from_of(r.last()) - 1) }
}
proof fn lemma_sorted_desc(a: Comps, b: Comps)
    requires descending(a), proper(a), exists|p: spec_fn(int) -> int| #[trigger] perm(a, b, p),
        forall|i: int, j: int| 0 <= i < j < b.len() ==> (#[trigger] b[i]).0.0 <= (#[trigger] b[j]).0.0,
    ensures ascending(b), proper(b), forall|v: int| in_comp(a, v) <==> in_comp(b, v), forall|j: int| 0 <= j < b.len() ==> a.contains(#[trigger] b[j]),
{
    let p = choose|p: spec_fn(int) -> int| #[trigger] perm(a, b, p);
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).0.1 < (#[trigger] b[j]).0.0 by {
        assert(p(i) != p(j));
        assert(b[i] == a[p(i)] && b[j] == a[p(j)]);
        if p(i) < p(j) { assert(a[p(j)].0.1 < a[p(i)].0.0); } else { assert(a[p(i)].0.1 < a[p(j)].0.0); }
    }
    assert forall|j: int| 0 <= j < b.len() implies a.contains(#[trigger] b[j]) by { assert(b[j] == a[p(j)]); }
    assert forall|v: int| in_comp(a, v) <==> in_comp(b, v) by {
        if in_comp(a, v) { let j = choose|j: int| 0 <= j < a.len() && inside(#[trigger] a[j], v); assert(b.contains(a[j])); let i = choose|i: int| 0 <= i < b.len() && b[i] == a[j]; assert(inside(b[i], v)); }
        if in_comp(b, v) { let j = choose|j: int| 0 <= j < b.len() && inside(#[trigger] b[j], v); assert(b[j] == a[p(j)]); assert(inside(a[p(j)], v)); }
    }
}
proof fn lemma_resolved(c0: Commits, c1: Commits, sel: Comps)
    requires subseq(c0, c1), strictly(c0),
        forall|j: int| 0 <= j < c1.len() ==> !in_comp(sel, (#[trigger] c1[j]).0 as int),
        forall|i: int| 0 <= i < c0.len() ==> c1.contains(#[trigger] c0[i]) || in_comp(sel, c0[i].0 as int),
    ensures strictly(c1), forall|v: int| #[trigger] has_commit(c0, v) ==> has_commit(c1, v) || in_comp(sel, v),
{
    let m = choose|m: spec_fn(int) -> int| #[trigger] monotone(m, c1.len() as int, c0.len() as int) && forall|j: int| 0 <= j < c1.len() ==> #[trigger] c1[j] == c0[m(j)];
    assert forall|i: int, j: int| 0 <= i < j < c1.len() implies (#[trigger] c1[i]).0 < (#[trigger] c1[j]).0 by { assert(m(i) < m(j)); assert(c1[i] == c0[m(i)] && c1[j] == c0[m(j)]); }
    assert forall|v: int| #[trigger] has_commit(c0, v) implies has_commit(c1, v) || in_comp(sel, v) by {
        let i = choose|i: int| 0 <= i < c0.len() && (#[trigger] c0[i]).0 == v;
        if c1.contains(c0[i]) { let j = choose|j: int| 0 <= j < c1.len() && c1[j] == c0[i]; assert(c1[j].0 == v); }
    }
}
//@EXTRACTED@
fn main() {}
}
