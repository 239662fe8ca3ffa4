//@crate sail_delta_lake crates/sail-delta-lake
//@extern datafusion
//@extern object_store
//@extern tokio
//@extern url
//@extern serde_json
//@extern async_trait
//@extern futures
//@extern sail_physical_optimizer
//@extern sail_common_datafusion
//@include lib/delta_e2e.rs

/// The newest version of the table.
fn newest(env: &Env) -> i64 {
    use futures::TryStreamExt;
    let files = env.rt.block_on(async { env.store.list(Some(&OPath::from("t/_delta_log"))).try_collect::<Vec<_>>().await.unwrap_or_default() });
    files.iter().filter_map(|m| m.location.filename()?.strip_suffix(".json")?.parse().ok()).max().unwrap_or(-1)
}
fn main() {
    let mut t = T::new();
    let cases = if t.thorough { 1500 } else { 130 };
    let s = |x: &str| x.to_string();
    for _ in 0..cases {
        let env = Env::new();
        let tab = rand_table(&mut t);
        let mut props: Vec<(String, String)> = vec![];
        if t.bool() { props.push((s("delta.checkpointInterval"), s("2"))) }
        if t.below(3) == 0 { props.push((s("delta.enableDeletionVectors"), s("true"))) }
        match t.below(6) { 0 => props.push((s("delta.columnMapping.mode"), s("name"))), 1 => props.push((s("delta.columnMapping.mode"), s("id"))), _ => {} }
        let mut wopts: Vec<(String, String)> = vec![];
        if t.below(3) == 0 { wopts.push((s("target_file_size"), s("1"))); wopts.push((s("write_batch_size"), s("1"))) }
        let table = format!("{:?} partitioned by {:?}, {:?} {:?}", tab.schema.fields().iter().map(|f| format!("{} {}", f.name(), f.data_type())).collect::<Vec<_>>(), tab.parts, props, wopts);
        let mut history: Vec<String> = vec![];
        let mut versions: Vec<Vec<Row>> = vec![];
        let mut marks: Vec<(i64, usize)> = vec![];
        let steps = 1 + t.below(6);
        let mut ok = true;
        for _ in 0..steps {
            let old = versions.last().cloned().unwrap_or_default();
            let n = t.below(8);
            let rows = rand_rows(&mut t, &tab, n);
            let sources = 1 + t.below(2) as usize;
            let cond = rand_filter(&mut t, &tab, 2);
            let text = |op: &str| format!("{table}: {history:?} then {op} on {:?}", show(&[batch(&tab.schema, &old)]));
            let mut new = None;
            let mut lost = None;
            let op;
            if versions.is_empty() {
                op = format!("create {:?}", show(&[batch(&tab.schema, &rows)]));
                t.case("create", || text(&op), || { write(&env, &tab, &rows, SinkMode::ErrorIfExists, sources, &props, &wopts, true)?; new = Some(stored(&tab, &rows)); Ok(()) });
            } else {
                match t.below(8) {
                    0 | 1 | 2 => {
                        op = format!("append {:?}", show(&[batch(&tab.schema, &rows)]));
                        t.case("append", || text(&op), || { write(&env, &tab, &rows, SinkMode::Append, sources, &[], &wopts, false)?; new = Some(old.iter().cloned().chain(stored(&tab, &rows)).collect()); Ok(()) });
                    }
                    3 => {
                        op = format!("overwrite {:?}", show(&[batch(&tab.schema, &rows)]));
                        t.case("overwrite", || text(&op), || { write(&env, &tab, &rows, SinkMode::Overwrite, sources, &[], &wopts, false)?; new = Some(stored(&tab, &rows)); Ok(()) });
                    }
                    4 => {
                        let Some(mut keep) = surviving(&env, &tab, &old, &cond) else { continue };
                        op = format!("replace where {cond} with {:?}", show(&[batch(&tab.schema, &rows)]));
                        let strict = surviving(&env, &tab, &old, &cond.clone().or(cond.clone().is_null()));
                        t.case("replace_where", || text(&op), || {
                            write(&env, &tab, &rows, SinkMode::OverwriteIf { condition: Box::new(ExprWithSource::new(cond.clone(), Some("c".into()))) }, sources, &[], &wopts, false)?;
                            let Some(mut strict) = strict else { return Err("the condition is valid, but not whether it is null".into()) };
                            keep.extend(stored(&tab, &rows)); strict.extend(stored(&tab, &rows));
                            if strict.len() < keep.len() {
                                // rows for which the condition is null may be gone (a known finding), but no others
                                let got = all_rows(&env, &tab)?;
                                vcheck!(sub_multiset(&lines(&tab, &strict), &got) && sub_multiset(&got, &lines(&tab, &keep)), "got {got:?}, which is not {:?} with some of {:?}", lines(&tab, &strict), lines(&tab, &keep));
                                if got.len() < keep.len() { lost = Some(keep.len() - got.len()); keep = those(&tab, &keep, &got); }
                            }
                            new = Some(keep); Ok(())
                        });
                        if let Some(lost) = lost { t.case("replace_where_null_condition", || text(&op), || Err(format!("{lost} rows for which the condition is null are gone"))) }
                    }
                    _ => {
                        let Some(keep) = surviving(&env, &tab, &old, &cond) else { continue };
                        op = format!("delete where {cond}");
                        t.case("delete", || text(&op), || { delete(&env, Some(&cond), &[])?; new = Some(keep); Ok(()) });
                    }
                }
            }
            history.push(op);
            let Some(new) = new else { ok = false; break };
            versions.push(new);
            marks.push((newest(&env), versions.len() - 1));
            let rows = versions.last().unwrap().clone();
            // all rows of the new version, and a query
            for i in 0..2 {
                let mut q = rand_query(&mut t, &tab);
                if i == 0 { q = Q { filter: None, aggs: vec![], cols: (0..tab.n).map(|c| field(&tab, c)).collect(), limit: None } }
                let mut ropts: Vec<(String, String)> = vec![];
                if t.below(3) == 0 { ropts.push((s("metadata_as_data_read"), s("true"))); ropts.push((s("delta_log_replay_strategy"), s(t.pick(&["auto", "sort", "hash"])))) }
                t.case("read", || format!("{table}: {history:?} then {} with {ropts:?} over {:?}", q.text(), show(&[batch(&tab.schema, &rows)])), || compare(&env, &tab, source(&env, &ropts, None)?, &rows, &q));
            }
        }
        if !ok { continue }
        // versions of the past
        let Some(last) = marks.last().map(|m| m.0) else { continue };
        t.case("commits", || format!("{table}: {history:?}"), || { vcheck!(last < versions.len() as i64, "{} operations made {} commits", versions.len(), last + 1); Ok(()) });
        for _ in 0..2 {
            let v = t.below(last as u64 + 1) as i64;
            // the newest state that had this version; a version in the middle of one operation has no state of its own
            let Some(m) = marks.iter().rev().find(|m| m.0 == v) else { continue };
            let rows = versions[m.1].clone();
            let q = rand_query(&mut t, &tab);
            t.case("travel", || format!("{table}: {history:?} then version {v}: {} over {:?}", q.text(), show(&[batch(&tab.schema, &rows)])), || compare(&env, &tab, source(&env, &[], Some(v))?, &rows, &q));
        }
    }
    t.finish();
}
