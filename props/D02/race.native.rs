//@crate sail_delta_lake crates/sail-delta-lake
//@extern datafusion
//@extern object_store
//@extern tokio
//@extern url
//@extern serde_json
//@extern async_trait
//@extern futures
//@extern sail_physical_optimizer
//@extern sail_common_datafusion
//@include lib/delta_e2e.rs

#[derive(Clone)]
enum Op { Redefine(Vec<i32>), More(Vec<i32>), Create(Vec<Row>), Append(Vec<Row>), Overwrite(Vec<Row>), ReplaceWhere(Expr, Vec<Row>), Delete(Expr) }
/// What a table holds: rows of its columns, or numbers in the one column that redefining it leaves.
#[derive(Clone)]
enum St { Rows(Vec<Row>), Zz(Vec<i32>) }
fn held(tab: &Tab, st: &St) -> Vec<String> { let mut l = match st { St::Rows(r) => lines(tab, r), St::Zz(r) => r.iter().map(|x| format!("zz {x}")).collect() }; l.sort(); l }
impl Op {
    fn text(&self, tab: &Tab) -> String {
        match self {
            Op::Redefine(r) => format!("overwrite with the only column zz Int32 {r:?}"),
            Op::More(r) => format!("append zz {r:?}"),
            Op::Create(r) => format!("create (error if it exists) {:?}", lines(tab, r)), Op::Append(r) => format!("append {:?}", lines(tab, r)), Op::Overwrite(r) => format!("overwrite with {:?}", lines(tab, r)),
            Op::ReplaceWhere(c, r) => format!("replace where {c} with {:?}", lines(tab, r)), Op::Delete(c) => format!("delete where {c}"),
        }
    }
    /// The table after the operation; `None` if the operation has to fail.
    fn apply(&self, env: &Env, tab: &Tab, old: Option<&St>) -> Option<St> {
        let new = |r: &Vec<Row>| stored(tab, r);
        let old = match old { None => None, Some(St::Rows(r)) => Some(r), Some(St::Zz(z)) => return match self { Op::Redefine(r) => Some(St::Zz(r.clone())), Op::More(r) => Some(St::Zz(z.iter().chain(r).cloned().collect())), _ => None } };
        Some(St::Rows(match self {
            Op::Redefine(r) => { old?; return Some(St::Zz(r.clone())) }
            Op::More(_) => return None,
            Op::Create(r) => if old.is_none() { new(r) } else { return None },
            Op::Append(r) => old.cloned().unwrap_or_default().into_iter().chain(new(r)).collect(),
            Op::Overwrite(r) => new(r),
            Op::ReplaceWhere(c, r) => { let mut k = surviving(env, tab, old?, &c.clone().or(c.clone().is_null()))?; k.extend(new(r)); k }
            Op::Delete(c) => surviving(env, tab, old?, c)?,
        }))
    }
    /// Plans the operation against the table as it is now.
    async fn plan(&self, env: &Env, tab: &Tab, props: &[(String, String)], create: Option<&[usize]>) -> Result<Arc<dyn datafusion::physical_plan::ExecutionPlan>, String> {
        let zz: SchemaRef = Arc::new(ASchema::new(vec![Field::new("zz", DataType::Int32, true)]));
        let (schema, opts) = match self { Op::Redefine(_) => (&zz, vec![("overwriteSchema".to_string(), "true".to_string())]), Op::More(_) => (&zz, vec![]), _ => (&tab.schema, vec![]) };
        let rows = match self { Op::Redefine(r) | Op::More(r) => r.iter().map(|x| vec![ScalarValue::Int32(Some(*x))]).collect(), Op::Create(r) | Op::Append(r) | Op::Overwrite(r) | Op::ReplaceWhere(_, r) => r.clone(), Op::Delete(_) => vec![] };
        let mode = match self {
            Op::Redefine(_) => Some(SinkMode::Overwrite), Op::Create(_) => Some(SinkMode::ErrorIfExists), Op::More(_) | Op::Append(_) => Some(SinkMode::Append), Op::Overwrite(_) => Some(SinkMode::Overwrite),
            Op::ReplaceWhere(c, _) => Some(SinkMode::OverwriteIf { condition: Box::new(ExprWithSource::new(c.clone(), Some("c".into()))) }), Op::Delete(_) => None,
        };
        let plan = match (mode, self) {
            (Some(mode), _) => {
                let input = mem_plan(schema, &rows, 1)?;
                let partition_by = create.unwrap_or_default().iter().map(|i| CatalogPartitionField { column: tab.schema.field(*i).name().clone(), transform: None }).collect();
                let info = SinkInfo { input, mode, partition_by, bucket_by: None, sort_order: vec![], options: layers(if create.is_some() { props } else { &[] }, &opts), lakehouse_table: None };
                DeltaTableFormat.create_writer(&env.ctx.state(), info).await.map_err(es)?
            }
            (None, Op::Delete(c)) => {
                let info = DeleteInfo { table_name: vec!["t".into()], path: URL.to_string(), condition: Some(ExprWithSource::new(c.clone(), Some("c".into()))), lakehouse_table: None, options: layers(&[], &[]) };
                DeltaTableFormat.create_deleter(&env.ctx.state(), info).await.map_err(es)?
            }
            _ => unreachable!(),
        };
        env.ctx.state().create_physical_plan(&plan).await.map_err(es)
    }
}
type Plan = Arc<dyn datafusion::physical_plan::ExecutionPlan>;
async fn run(env: &Env, plan: Plan) -> Result<(), String> { datafusion::physical_plan::collect(plan, env.ctx.task_ctx()).await.map(|_| ()).map_err(es) }
fn rand_op(t: &mut T, tab: &Tab) -> Op {
    let n = t.below(4);
    let rows = rand_rows(t, tab, n);
    match t.below(7) { 6 => Op::Redefine((0..n as i32).map(|i| i - 1).collect()), 0 | 1 => Op::Append(rows), 2 => Op::Overwrite(rows), 3 => { let c = rand_filter(t, tab, 1); Op::ReplaceWhere(c.clone().and(c.is_not_null()), rows) } _ => Op::Delete(rand_filter(t, tab, 1)) }
}

fn main() {
    let mut t = T::new();
    let cases = if t.thorough { 4000 } else { 450 };
    let s = |x: &str| x.to_string();
    for _ in 0..cases {
        let env = Env::new();
        let tab = rand_table(&mut t);
        let mut props: Vec<(String, String)> = vec![];
        if t.bool() { props.push((s("delta.checkpointInterval"), s("2"))) }
        if t.below(3) == 0 { props.push((s("delta.enableDeletionVectors"), s("true"))) }
        if t.below(4) == 0 { props.push((s("delta.columnMapping.mode"), s("name"))) }
        if t.below(3) == 0 { props.push((s("delta.checkpointPolicy"), s("v2"))) }
        if t.below(3) == 0 { props.push((s("delta.isolationLevel"), s(t.pick(&["Serializable", "WriteSerializable"])))) }
        let table = format!("{:?} partitioned by {:?}, {:?}", tab.schema.fields().iter().map(|f| format!("{} {}", f.name(), f.data_type())).collect::<Vec<_>>(), tab.parts, props);
        // the table so far
        let mut base: Option<St> = None;
        let mut history = vec![];
        let fresh = t.below(6) == 0;
        if !fresh {
            for k in 0..1 + t.below(3) {
                let n = t.below(5);
                let rows = rand_rows(&mut t, &tab, n);
                let op = if k == 0 { Op::Create(rows) } else { Op::Append(rows) };
                history.push(op.text(&tab));
                let mut ok = false;
                t.case("setup", || format!("{table}: {history:?}"), || { env.rt.block_on(async { run(&env, op.plan(&env, &tab, &props, (k == 0).then_some(&tab.parts[..])).await?).await })?; ok = true; Ok(()) });
                if !ok { break }
                base = op.apply(&env, &tab, base.as_ref());
            }
        }
        let op = |t: &mut T| if fresh { let n = 1 + t.below(4); let r = rand_rows(t, &tab, n); match t.below(3) { 0 => Op::Create(r), 1 => Op::Append(r), _ => Op::Overwrite(r) } } else { rand_op(t, &tab) };
        match t.below(5) {
            0 | 1 => race(&mut t, &env, &tab, &props, &table, &history, fresh, base, op),
            2 | 3 => interleave(&mut t, &env, &tab, &props, &table, &history, fresh, base, op),
            _ => crash(&mut t, &env, &tab, &props, &table, &history, fresh, base, op),
        }
    }
    t.finish();
}

/// How a creation partitions the table: like the others, or, when that does not change what is stored, in its own way.
fn parts(t: &mut T, tab: &Tab, fresh: bool) -> Option<Vec<usize>> {
    let plain = tab.schema.fields().iter().all(|f| !matches!(f.data_type(), DataType::Utf8 | DataType::Binary));
    let mut flat: Vec<usize> = (0..tab.schema.fields().len()).filter(|i| !tab.schema.field(*i).data_type().is_nested()).collect();
    if flat.len() == tab.schema.fields().len() { flat.pop(); }
    fresh.then(|| if plain && t.bool() { flat.retain(|_| t.below(3) == 0); flat } else { tab.parts.clone() })
}
fn table_rows(env: &Env, tab: &Tab) -> Result<Vec<String>, String> {
    let src = source(env, &[], None)?;
    let mut g = if src.schema().fields().len() == 1 && src.schema().field(0).name() == "zz" {
        env.rt.block_on(async { run_plan(env, LogicalPlanBuilder::scan("t", src, None).and_then(|b| b.build()).map_err(es)?).await.map(|b| show(&b)) })?.into_iter().map(|x| format!("zz {x}")).collect()
    } else { all_rows(env, tab)? };
    g.sort();
    Ok(g)
}

/// One operation is planned, others are committed, then the first one is.
fn race(t: &mut T, env: &Env, tab: &Tab, props: &[(String, String)], table: &str, history: &[String], fresh: bool, base: Option<St>, op: impl Fn(&mut T) -> Op) {
    let first = op(t);
    let (mine, other) = (parts(t, tab, fresh), parts(t, tab, fresh));
    let Ok(plan) = guard(|| env.rt.block_on(first.plan(env, tab, props, mine.as_deref()))) else { return };
    let mut winners: Vec<Op> = vec![];
    let mut states = vec![base.clone()];
    for k in 0..1 + t.below(3) {
        let w = if matches!(states.last().unwrap(), Some(St::Zz(_))) { Op::More(vec![5, t.below(9) as i32]) } else if k == 0 { op(t) } else { rand_op(t, tab) };
        let Some(next) = w.apply(env, tab, states.last().unwrap().as_ref()) else { return };
        let Ok(p) = guard(|| env.rt.block_on(w.plan(env, tab, props, if k == 0 { other.as_deref() } else { None }))) else { return };
        if guard(|| env.rt.block_on(run(env, p))).is_err() { return }
        winners.push(w); states.push(Some(next));
    }
    let text = || format!("{table}: after {history:?}, {} is planned, {:?} committed, then it is run", format!("{} {mine:?}", first.text(tab)), winners.iter().map(|w| w.text(tab)).collect::<Vec<_>>());
    t.case("race", text, || {
        let before = table_rows(env, tab)?;
        let out = env.rt.block_on(run(env, plan.clone()));
        let got = table_rows(env, tab)?;
        match out {
            Err(e) => {
                vcheck!(got == before, "it failed ({}), but the table went from {before:?} to {got:?}", e.lines().next().unwrap_or(""));
                vcheck!(!(matches!(first, Op::Append(_)) && !fresh && winners.iter().all(|w| matches!(w, Op::Append(_)))), "appends do not conflict, but: {e}");
            }
            Ok(()) => {
                // some order of the operations that keeps the order of the winners explains the table
                let mut seen = vec![];
                for at in 0..=winners.len() {
                    let mut order: Vec<&Op> = winners.iter().collect(); order.insert(at, &first);
                    if let Some(st) = in_turn(env, tab, &base, &order) { seen.push(st) }
                }
                vcheck!(seen.contains(&got), "the table holds {got:?}; one after the other gives {seen:?}");
            }
        }
        Ok(())
    });
}
/// The table after operations one after the other; `None` if one of them has to fail.
fn in_turn(env: &Env, tab: &Tab, base: &Option<St>, order: &[&Op]) -> Option<Vec<String>> {
    let mut st = base.clone();
    for o in order { st = Some(o.apply(env, tab, st.as_ref())?) }
    Some(st.map(|st| held(tab, &st)).unwrap_or_default())
}
fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]] }
    permutations(n - 1).into_iter().flat_map(|p| (0..n).map(move |at| { let mut q = p.clone(); q.insert(at, n - 1); q })).collect()
}

/// Operations that are planned and run at the same time, whose accesses to the store are interleaved at random.
fn interleave(t: &mut T, env: &Env, tab: &Tab, props: &[(String, String)], table: &str, history: &[String], fresh: bool, base: Option<St>, op: impl Fn(&mut T) -> Op) {
    let n = 2 + t.below(2) as usize;
    let ops: Vec<Op> = (0..n).map(|_| op(t)).collect();
    let seed = t.next() | 1;
    let by: Vec<_> = ops.iter().map(|_| parts(t, tab, fresh)).collect();
    let text = || format!("{table}: after {history:?}, at the same time: {:?}", ops.iter().zip(&by).map(|(w, by)| format!("{} {by:?}", w.text(tab))).collect::<Vec<_>>());
    t.case("interleave", text, || {
        env.store.interleave(seed);
        let out = env.rt.block_on(futures::future::join_all(ops.iter().zip(&by).map(|(o, by)| async { run(env, o.plan(env, tab, props, by.as_deref()).await?).await })));
        env.store.interleave(0);
        let done: Vec<&Op> = ops.iter().zip(&out).filter(|(_, r)| r.is_ok()).map(|(o, _)| o).collect();
        let told = ops.iter().zip(&out).filter(|(_, r)| r.is_err()).map(|(o, r)| format!("{}: {}", o.text(tab), r.as_ref().unwrap_err().lines().next().unwrap_or(""))).collect::<Vec<_>>();
        if done.is_empty() { vcheck!(!fresh || ops.is_empty(), "all failed: {told:?}"); }
        let got = if fresh && done.is_empty() { vec![] } else { table_rows(env, tab)? };
        let mut seen = vec![];
        for p in permutations(done.len()) { if let Some(st) = in_turn(env, tab, &base, &p.iter().map(|i| done[*i]).collect::<Vec<_>>()) { if !seen.contains(&st) { seen.push(st) } } }
        vcheck!(seen.contains(&got), "the table holds {got:?}; those that succeeded, one after the other, give {seen:?} (failed: {told:?})");
        if !fresh && ops.iter().all(|o| matches!(o, Op::Append(_))) { vcheck!(told.is_empty(), "appends do not conflict, but {told:?}"); }
        Ok(())
    });
}

/// The store stops working in the middle of an operation; later operations find the table as it was before or as it is after it.
fn crash(t: &mut T, env: &Env, tab: &Tab, props: &[(String, String)], table: &str, history: &[String], fresh: bool, base: Option<St>, op: impl Fn(&mut T) -> Op) {
    let first = op(t);
    let (writes, late) = (t.below(5) as i64, t.bool());
    let n = 1 + t.below(3);
    let Some(after) = first.apply(env, tab, base.as_ref()) else { return };
    let next = Op::Append(rand_rows(t, tab, n));
    let text = || format!("{table}: after {history:?}, the store stops working {} write {} of {}; then {}", if late { "after" } else { "at" }, writes + 1, first.text(tab), next.text(tab));
    t.case("crash", text, || {
        env.store.crash(writes, late);
        let out = env.rt.block_on(async { run(env, first.plan(env, tab, props, fresh.then_some(&tab.parts[..])).await?).await });
        env.store.heal();
        let (old, new) = (base.as_ref().map(|b| held(tab, b)), held(tab, &after));
        let exists = base.is_some() || out.is_ok() || env.rt.block_on(async { env.store.inner.head(&OPath::from("t/_delta_log/00000000000000000000.json")).await.is_ok() });
        let got = if exists { Some(table_rows(env, tab)?) } else { None };
        vcheck!(got.as_ref() == Some(&new) || (out.is_err() && got == old), "{}, and the table holds {got:?}; before {old:?}, after {new:?}", if out.is_ok() { "it succeeded" } else { "it failed" });
        let next = if got.as_ref() == Some(&new) && matches!(after, St::Zz(_)) { &Op::Redefine(vec![7]) } else { &next };
        env.rt.block_on(async { run(env, next.plan(env, tab, props, (!exists).then_some(&tab.parts[..])).await?).await })?;
        let was = if got.as_ref() == Some(&new) { Some(after.clone()) } else { base.clone() };
        let want = held(tab, &next.apply(env, tab, was.as_ref()).unwrap());
        let got = table_rows(env, tab)?;
        vcheck!(got == want, "then the table holds {got:?}, not {want:?}");
        Ok(())
    });
}
