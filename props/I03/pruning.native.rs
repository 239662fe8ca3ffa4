//@crate sail_iceberg crates/sail-iceberg
//@extern apache_avro
//@extern datafusion
//@extern object_store
//@extern ordered_float
//@extern parquet
//@extern tokio
//@extern url
//@include lib/iceberg_e2e.rs
use sail_iceberg::datasource::pruning::{prune_data_files_by_partition_values, prune_manifests_by_partition_summaries};
use sail_iceberg::spec::manifest_list::{ManifestFile, ManifestList};

fn conjuncts(f: &Expr, out: &mut Vec<Expr>) {
    match f {
        Expr::BinaryExpr(b) if b.op == datafusion::logical_expr::Operator::And => { conjuncts(&b.left, out); conjuncts(&b.right, out) }
        _ => out.push(f.clone()),
    }
}
/// The decision functions on descriptions alone: no file or manifest with a satisfying row may go.
fn decisions(t: &mut T) {
    let o = Opts { stats: false, summaries: true, many_specs: false, late_column: false, doubles: true };
    let c = SessionContext::new();
    for _ in 0..t.n(4000) {
        let tab = rand_table(t, &o);
        let spec = tab.specs[0].clone();
        if spec.fields().is_empty() { continue }
        let all: Vec<usize> = (0..tab.tys.len()).collect();
        for _ in 0..4 {
            let mut rows = rand_rows(t, &tab, &all, 12);
            for r in rows.iter_mut() { for k in 0..r.len() { if t.bool() && r[k] != V::Null { r[k] = value_near(t, &tab, k) } } }
            let f = rand_filter(t, &tab, 2);
            let Some(sat) = satisfying(&c, &tab, &rows, &f) else { continue };
            let mut fs = vec![];
            if t.bool() { conjuncts(&f, &mut fs) } else { fs.push(f.clone()) }
            let files: Vec<DataFile> = rows.iter().enumerate().map(|(i, r)| described(&tab, &spec, r, i)).collect();
            let specd: Vec<_> = spec.fields().iter().map(|f| format!("{:?} of #{}", f.transform, f.source_id().unwrap())).collect();
            let d = format!("filter {f}, types {:?}, partitioned by {specd:?}, one file each for rows {rows:?}", tab.tys);
            t.case("prune_data_files_by_partition_values", || d.clone(), || guard(|| {
                let kept: Vec<String> = prune_data_files_by_partition_values(files.clone(), &tab.schema, &spec, &fs).into_iter().map(|f| f.file_path).collect();
                for (i, s) in sat.iter().enumerate() { vcheck!(!s || kept.contains(&files[i].file_path), "the file of partition {:?} is skipped, but its row {:?} satisfies the filter", files[i].partition, rows[i]) }
                Ok(())
            }));
            let k = 1 + t.below(3) as usize;
            let parts: Vec<&[DataFile]> = files.chunks(k).collect();
            let mut sums: Vec<Option<Vec<FieldSummary>>> = parts.iter().map(|p| Some(summaries(&tab, &spec, p))).collect();
            for s in sums.iter_mut() { if t.below(10) == 0 { *s = None } else if let Some(s) = s { for f in s.iter_mut() { if t.below(10) == 0 { f.lower_bound_bytes = None } if t.below(10) == 0 { f.upper_bound_bytes = None } } } }
            let list = ManifestList::new(parts.iter().zip(&sums).enumerate().map(|(i, (_, s))| ManifestFile {
                manifest_path: format!("m{i}"), manifest_length: 1, partition_spec_id: spec.spec_id(), content: ManifestContentType::Data, sequence_number: 1, min_sequence_number: 1, added_snapshot_id: 7,
                added_files_count: None, existing_files_count: None, deleted_files_count: None, added_rows_count: None, existing_rows_count: None, deleted_rows_count: None, partitions: s.clone(), key_metadata: None, first_row_id: None,
            }).collect());
            let specs: HashMap<i32, PartitionSpec> = [(spec.spec_id(), spec.clone())].into_iter().collect();
            t.case("prune_manifests_by_partition_summaries", || format!("{d}; {k} files in each manifest, with bounds {:?}", sums.iter().map(|s| s.as_ref().map(|s| s.iter().map(|f| (f.lower_bound_bytes.clone(), f.upper_bound_bytes.clone())).collect::<Vec<_>>())).collect::<Vec<_>>()), || guard(|| {
                let kept: Vec<String> = prune_manifests_by_partition_summaries(&list, &tab.schema, &specs, &fs).into_iter().map(|m| m.manifest_path.clone()).collect();
                for (i, s) in sat.iter().enumerate() { vcheck!(!s || kept.contains(&format!("m{}", i / k)), "manifest {} is skipped, but it holds the row {:?} (partition {:?}), which satisfies the filter", i / k, rows[i], files[i].partition) }
                Ok(())
            }));
        }
    }
}
fn main() {
    let mut t = T::new();
    let env = Env::new();
    let o = Opts { stats: true, summaries: true, many_specs: true, late_column: true, doubles: true };
    for _ in 0..t.n(60) {
        let mut tab = rand_table(&mut t, &o);
        let desc = |tab: &Tab| format!("types {:?}, specs {:?}, files {:?}", tab.tys, tab.specs.iter().map(|s| s.fields().iter().map(|f| format!("{:?} of #{}", f.transform, f.source_id().unwrap_or(-1))).collect::<Vec<_>>()).collect::<Vec<_>>(), tab.log);
        let p = match guard(|| rand_history(&env, &mut t, &mut tab, &o)) {
            Ok(p) => p,
            Err(e) => { let d = desc(&tab); t.case("write", || d.clone(), || Err(e)); continue }
        };
        let lazy = t.below(3) == 0;
        let (a, b) = contexts(&env, &tab, p.with_metadata_as_data_read(lazy));
        let d = desc(&tab);
        for _ in 0..12 {
            let q = rand_query(&mut t, &tab);
            t.case("scan", || format!("{} over {d}{}", q.text(), if lazy { " (lazy manifests)" } else { "" }), || compare(&env, &a, &b, &q));
        }
    }
    decisions(&mut t);
    t.finish()
}
