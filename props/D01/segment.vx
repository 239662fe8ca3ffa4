file crates/sail-delta-lake/src/delta_log/segment.rs
stub cp_meta_version
rule macro format => vx_fmt()
vrule chain iter/0.filter/1.cloned/0.collect/0 => vx_filter_cloned($recv, $0{bool;&((i64, i64), ObjectMeta)})

stub list_log_files read_last_checkpoint_version_from_store resolve_catalog_managed_commit_files LogSegmentResolver::resolve_catalog_managed_commit_files
type ResolvedLogSegment

fn LogSegmentResolver::resolve_for_full_state
# the listing offset is left arbitrary here (safety does not depend on it)
sub (?s)let last_cp_hint_version = read_last_checkpoint_version_from_store.*?\.unwrap_or\(0\); => let last_cp_hint_version = vx_any_i64();
sub (?s)all_commits\s*\.into_iter\(\)\s*\.filter\(\|\(v, _\)\| ([^;]*?)\)\s*\.collect\(\) => vx_filter_vec(all_commits, |vx_p: &(i64, ObjectMeta)| -> (vx_r: bool) ensures vx_r == ({ let (v, _) = vx_p; $1 }), { let (v, _) = vx_p; $1 })
ret r
spec <<<
requires 0 <= self.target_version < i64::MAX,
ensures r matches Ok(seg) ==> (seg matches ResolvedLogSegment::FullReplay { checkpoint, commit_files, compaction_files, target_version } && {
    let start = first_after(checkpoint);
    &&& target_version == self.target_version
    &&& start <= target_version + 1
    &&& ready(commit_files@, compaction_files@, start, target_version as int)
}),
>>>
after ^let commit_files: <<<
let ghost all0 = all_commits@;
proof {
    let m = choose|m: spec_fn(int) -> int| #[trigger] monotone(m, commit_files@.len() as int, all0.len() as int) && forall|j: int| 0 <= j < commit_files@.len() ==> #[trigger] commit_files@[j] == all0[m(j)];
    assert forall|i: int, j: int| 0 <= i < j < commit_files@.len() implies (#[trigger] commit_files@[i]).0 < (#[trigger] commit_files@[j]).0 by { assert(m(i) < m(j)); assert(commit_files@[i] == all0[m(i)] && commit_files@[j] == all0[m(j)]); }
}
>>>
before ^let\(commit_files,compaction_files\)=resolve_compactions <<<
proof {
    assert forall|i: int| 0 <= i < commit_files@.len() implies start_version <= (#[trigger] commit_files@[i]).0 <= version by { assert(has_commit(commit_files@, commit_files@[i].0 as int)); }
}
>>>

fn validate_commit_contiguity
attrs #[verifier::loop_isolation(false)]
ret r
spec <<<
requires start_version >= 0, end_version < i64::MAX,
ensures r is Ok ==> forall|v: int| start_version <= v <= end_version ==> #[trigger] has_commit(commit_files@, v),
>>>
loop 0 it <<<
invariant
    start_version <= expected <= end_version + 1,
    forall|v: int| start_version <= v < expected ==> #[trigger] has_commit(commit_files@, v),
>>>
loop-start 0 <<<
proof { assert(commit_files@[it.index@] == (*v, vx_m)) by {} }
>>>
sub for \(v, _\) in => for (v, vx_m) in
sub assert\(commit_files@\[it.index@\] == \(\*v, vx_m\)\) by \{\} => assert(commit_files@[it.index@].0 == *v)

fn validate_commit_contiguity_with_compactions
attrs #[verifier::loop_isolation(false)]
ret r
spec <<<
requires start_version >= 0, end_version < i64::MAX,
    forall|j: int| 0 <= j < compaction_files@.len() ==> (#[trigger] compaction_files@[j]).0.0 <= compaction_files@[j].0.1 <= end_version,
ensures r is Ok ==> forall|v: int| start_version <= v <= end_version ==> #[trigger] covered(commit_files@, compaction_files@, v),
>>>
loop 0 it <<<
invariant
    forall|k: int| 0 <= k < intervals@.len() ==> in_commits(commit_files@, #[trigger] intervals@[k]) && intervals@[k].1 <= end_version,
>>>
loop-start 0 <<<
proof { assert(commit_files@[it.index@].0 == *v); }
>>>
loop 1 it <<<
invariant
    forall|k: int| 0 <= k < intervals@.len() ==> (in_commits(commit_files@, #[trigger] intervals@[k]) || in_comps(compaction_files@, intervals@[k])) && intervals@[k].1 <= end_version,
>>>
loop-start 1 <<<
proof { assert(compaction_files@[it.index@].0 == (*s, *e)); }
>>>
loop 2 it <<<
invariant
    start_version <= expected <= end_version + 1,
    forall|k: int| 0 <= k < intervals@.len() ==> (in_commits(commit_files@, #[trigger] intervals@[k]) || in_comps(compaction_files@, intervals@[k])) && intervals@[k].1 <= end_version,
    forall|v: int| start_version <= v < expected ==> #[trigger] covered(commit_files@, compaction_files@, v),
>>>
loop-start 2 <<<
let ghost expected0 = expected as int;
proof { assert(intervals@[it.index@] == (*s, *e)); }
>>>
loop-end 2 <<<
proof {
    assert forall|v: int| expected0 <= v < expected implies #[trigger] covered(commit_files@, compaction_files@, v) by {
        let iv = (*s, *e);
        if in_commits(commit_files@, iv) { assert(has_commit(commit_files@, v)); } else { assert(in_comp(compaction_files@, v)); }
    }
}
>>>
sub intervals\.sort_by_key\(\|\(s, _\)\| \*s\) => vx_sort_pairs(&mut intervals)

fn filter_compactions_for_range
ret r
spec <<<
ensures forall|j: int| 0 <= j < r@.len() ==> (#[trigger] r@[j]).0.0 >= start_version && r@[j].0.1 <= end_version && compactions@.contains(r@[j]),
>>>

fn filter_compactions_for_catalog_commits
ret r
spec <<<
ensures forall|j: int| 0 <= j < r@.len() ==> compaction_files@.contains(#[trigger] r@[j]),
    forall|j: int, v: int| 0 <= j < r@.len() && r@[j].0.0 <= v <= r@[j].0.1 ==> !(#[trigger] has_commit(catalog_commit_files@, v) && #[trigger] inside(r@[j], v)),
>>>
sub (?s)!catalog_commit_files\s*\.iter\(\)\s*\.any\(\|\(version, _\)\| version >= start && version <= end\) => !vx_any_slice(catalog_commit_files, |vx_p: &(i64, ObjectMeta)| -> (vx_s: bool) ensures vx_s == (vx_q.0.0 <= vx_p.0 <= vx_q.0.1), { let (version, _) = vx_p; *version >= *start && *version <= *end })
sub (?s)compaction_files\s*\.into_iter\(\)\s*\.filter\(\|\(\(start, end\), _\)\| \{(.*?\n\s*)\}\)\s*\.collect\(\) => vx_filter_vec(compaction_files, |vx_q: &((i64, i64), ObjectMeta)| -> (vx_r: bool) ensures vx_r == !(exists|i: int| 0 <= i < catalog_commit_files@.len() && vx_q.0.0 <= (#[trigger] catalog_commit_files@[i]).0 <= vx_q.0.1), { let ((start, end), _) = vx_q; $1 })

fn resolve_compactions
attrs #[verifier::loop_isolation(false)]
ret r
spec <<<
requires
    strictly(commit_files@),
    forall|j: int| 0 <= j < compaction_files@.len() ==> (#[trigger] compaction_files@[j]).0.0 <= compaction_files@[j].0.1,
ensures
    tidy(r.0@, r.1@),
    forall|i: int| 0 <= i < r.0@.len() ==> commit_files@.contains(#[trigger] r.0@[i]),
    forall|j: int| 0 <= j < r.1@.len() ==> compaction_files@.contains(#[trigger] r.1@[j]),
    forall|v: int| #[trigger] has_commit(commit_files@, v) ==> covered(r.0@, r.1@, v),
>>>
body-start <<<
let ghost commits0 = commit_files@;
let ghost comps0 = compaction_files@;
>>>
loop 0 it <<<
invariant
    descending(selected_compactions@),
    selected_compactions@.len() == 0 <==> covered_up_to is None,
    covered_up_to is Some ==> covered_up_to->Some_0 == selected_compactions@.last().0.0,
    forall|j: int| 0 <= j < selected_compactions@.len() ==> comps0.contains(#[trigger] selected_compactions@[j]) && selected_compactions@[j].0.0 <= selected_compactions@[j].0.1,
>>>
loop-start 0 <<<
let ghost sel0 = selected_compactions@;
proof { assert(sorted_comps[it.index@] == ((start, end), meta)); assert(sorted_comps.contains(((start, end), meta))); }
>>>
before ^selected_compactions\.sort_by_key <<<
let ghost sel1 = selected_compactions@;
let ghost commits1 = commit_files@;
>>>
tail <<<
>>>
loop-before 0 <<<
let ghost sorted_comps = compaction_files@;
>>>
after ^selected_compactions\.sort_by_key <<<
proof {
    lemma_sorted_desc(sel1, selected_compactions@);
    lemma_resolved(commits0, commits1, sel1);
}
>>>
sub compaction_files\.sort_by\(\|\(\(_, a_end\), _\), \(\(_, b_end\), _\)\| b_end\.cmp\(a_end\)\) => vx_sort_by_end_desc(&mut compaction_files)
sub selected_compactions\.sort_by_key\(\|\(\(a_start, _\), _\)\| \*a_start\) => vx_sort_by_start(&mut selected_compactions)
sub (?s)let is_covered = \|version: i64\| -> bool \{\s*selected_compactions\s*\.iter\(\)\s*\.any\(\|\(\(s, e\), _\)\| ([^;]*?)\)\s*\};\s*commit_files\.retain\(\|\(v, _\)\| !is_covered\(\*v\)\); => vx_retain(&mut commit_files, |vx_q: &(i64, ObjectMeta)| -> (vx_r: bool) ensures vx_r == !in_comp(selected_compactions@, vx_q.0 as int), { let version = vx_q.0; !vx_any(&selected_compactions, |vx_p: &((i64, i64), ObjectMeta)| -> (vx_s: bool) ensures vx_s == inside(*vx_p, version as int), { let ((s, e), _) = vx_p; $1 }) });

fn merge_catalog_managed_commits
ret r
spec <<<
requires strictly(commit_files@), strictly(catalog_commit_files@),
ensures strictly(r@),
    forall|v: int| #[trigger] has_commit(r@, v) <==> has_commit(commit_files@, v) || has_commit(catalog_commit_files@, v),
>>>

sub commit_files\.into_iter\(\)\.collect::<BTreeMap<_, _>>\(\) => vx_to_map(commit_files)
sub by_version\.into_iter\(\)\.collect\(\) => by_version.vx_into_vec()
loop 0 it <<<
invariant
    forall|v: i64| #[trigger] by_version@.dom().contains(v) <==> has_commit(commit_files@, v as int) || exists|i: int| 0 <= i < it.index@ && (#[trigger] catalog_commit_files@[i]).0 == v,
>>>
loop-start 0 <<<
let ghost m0 = by_version@;
proof { assert(forall|v: int| has_commit(catalog_commit_files@, v) ==> i64::MIN <= v <= i64::MAX); assert(catalog_commit_files@[it.index@] == (version, meta)); }
>>>

file crates/sail-delta-lake/src/checkpoint/mod.rs
type ReplayEntry n=Clone
fn build_replay_sequence
sub Some\(&\((\w+), (\w+)\)\) = (compaction_map.get\(&version\)) \{ => Some(vx_e) = $3 { let ($1, $2) = *vx_e;
ret r
spec <<<
requires
    tidy(commit_entries@, compaction_entries@), 0 <= start_version <= end_version + 1, end_version < i64::MAX,
    forall|j: int| 0 <= j < compaction_entries@.len() ==> start_version <= (#[trigger] compaction_entries@[j]).0.0 && compaction_entries@[j].0.1 <= end_version,
    forall|i: int| 0 <= i < commit_entries@.len() ==> start_version <= (#[trigger] commit_entries@[i]).0 <= end_version,
    forall|v: int| start_version <= v <= end_version ==> #[trigger] covered(commit_entries@, compaction_entries@, v),
ensures
    tiles(r@, start_version as int, end_version as int),
    forall|k: int| 0 <= k < r@.len() ==> drawn(commit_entries@, compaction_entries@, #[trigger] r@[k]),
>>>
attrs #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
loop 0 it <<<
invariant
    forall|v: i64| #[trigger] compaction_map@.dom().contains(v) <==> exists|j: int| 0 <= j < it.index@ && (#[trigger] compaction_entries@[j]).0.0 == v,
    forall|j: int| 0 <= j < it.index@ ==> compaction_map@[(#[trigger] compaction_entries@[j]).0.0] == (compaction_entries@[j].0.1, &compaction_entries@[j].1),
>>>
loop-start 0 <<<
let ghost m0 = compaction_map@;
proof { assert(compaction_entries@[it.index@] == ((*s, *e), *meta)); }
>>>
loop-end 0 <<<
proof {
    let n = it.index@ as int;
    assert forall|v: i64| #[trigger] compaction_map@.dom().contains(v) <==> exists|j: int| 0 <= j < n + 1 && (#[trigger] compaction_entries@[j]).0.0 == v by {
        if v == *s { assert(compaction_entries@[n].0.0 == v); } else if m0.dom().contains(v) {
            let j = choose|j: int| 0 <= j < n && (#[trigger] compaction_entries@[j]).0.0 == v;
            assert(compaction_entries@[j].0.0 == v);
        }
    }
    assert forall|j: int| 0 <= j < n + 1 implies compaction_map@[(#[trigger] compaction_entries@[j]).0.0] == (compaction_entries@[j].0.1, &compaction_entries@[j].1) by {
        if j < n { assert(compaction_entries@[j].0.1 < compaction_entries@[n].0.0); assert(compaction_entries@[j].0.0 != *s); }
    }
}
>>>
loop 1 <<<
invariant
    start_version <= version <= end_version + 1,
    tiles(sequence@, start_version as int, version - 1),
    0 <= commit_idx <= commit_entries@.len(),
    forall|i: int| 0 <= i < commit_idx ==> (#[trigger] commit_entries@[i]).0 < version,
    forall|i: int| commit_idx <= i < commit_entries@.len() ==> (#[trigger] commit_entries@[i]).0 >= version,
    forall|j: int| 0 <= j < compaction_entries@.len() ==> (#[trigger] compaction_entries@[j]).0.1 < version || compaction_entries@[j].0.0 >= version,
    forall|k: int| 0 <= k < sequence@.len() ==> drawn(commit_entries@, compaction_entries@, #[trigger] sequence@[k]),
ensures version == end_version + 1,
decreases end_version + 1 - version,
>>>
loop-start 1 <<<
let ghost seq0 = sequence@;
let ghost version0 = version;
proof {
    assert(covered(commit_entries@, compaction_entries@, version as int));
    if in_comp(compaction_entries@, version as int) {
        let j = choose|j: int| 0 <= j < compaction_entries@.len() && inside(#[trigger] compaction_entries@[j], version as int);
        assert(compaction_entries@[j].0.0 == version);
        assert(compaction_map@.dom().contains(version));
    } else {
        let i = choose|i: int| 0 <= i < commit_entries@.len() && (#[trigger] commit_entries@[i]).0 == version;
        assert(i >= commit_idx);
        assert(commit_entries@[commit_idx as int].0 <= commit_entries@[i].0);
        if compaction_map@.dom().contains(version) {
            let j = choose|j: int| 0 <= j < compaction_entries@.len() && (#[trigger] compaction_entries@[j]).0.0 == version;
            assert(inside(compaction_entries@[j], version as int));
        }
    }
}
>>>
loop-end 1 <<<
proof { assert(sequence@.drop_last() == seq0); }
>>>
loop-before 2 <<<
let ghost jj = choose|j: int| 0 <= j < compaction_entries@.len() && (#[trigger] compaction_entries@[j]).0.0 == version0;
proof { assert(compaction_entries@[jj].0 == (version0, comp_end)); assert(drawn(commit_entries@, compaction_entries@, sequence@.last())); assert(sequence@.drop_last() == seq0); }
>>>
# no commit lies in a compaction (precondition), so the body of this loop is never run
loop 2 <<<
invariant //@noprobe
    commit_idx <= commit_entries@.len(),
    forall|i: int| 0 <= i < commit_idx ==> (#[trigger] commit_entries@[i]).0 < version,
decreases commit_entries@.len() - commit_idx,
>>>
before ^break; <<<
proof { assert(false); }
>>>
