// Whole-crate harness: creates, appends to, overwrites and deletes from random Delta tables in an in-memory object store
// through the crate's table format, reads every version back under random queries, and compares with the same rows in memory.
use std::collections::BTreeMap;
use std::sync::Arc;
use datafusion::arrow::array::{Array, ArrayRef, RecordBatch};
use datafusion::arrow::datatypes::{DataType, Field, Fields, Schema as ASchema, SchemaRef, TimeUnit};
use datafusion::datasource::{provider_as_source, MemTable};
use datafusion::execution::context::{QueryPlanner, SessionState};
use datafusion::execution::session_state::SessionStateBuilder;
use datafusion::logical_expr::{LogicalPlan, LogicalPlanBuilder, TableSource};
use datafusion::physical_plan::ExecutionPlan;
use datafusion::physical_planner::{DefaultPhysicalPlanner, PhysicalPlanner};
use datafusion::prelude::*;
use datafusion::scalar::ScalarValue;
use object_store::memory::InMemory;
use object_store::{ObjectStore, ObjectStoreExt};
use object_store::path::Path as OPath;
use sail_common_datafusion::catalog::CatalogPartitionField;
use sail_common_datafusion::datasource::{DeleteInfo, OptionLayer, SinkInfo, SinkMode, SourceInfo, TableFormat};
use sail_common_datafusion::logical_expr::ExprWithSource;
use sail_delta_lake::DeltaTableFormat;
use url::Url;

#[derive(Debug)]
struct Qp;
#[async_trait::async_trait]
impl QueryPlanner for Qp {
    async fn create_physical_plan(&self, plan: &LogicalPlan, state: &SessionState) -> datafusion::common::Result<Arc<dyn ExecutionPlan>> {
        DefaultPhysicalPlanner::with_extension_planners(vec![Arc::new(sail_delta_lake::physical::DeltaPhysicalPlanner)]).create_physical_plan(plan, state).await
    }
}
/// An object store in memory, whose operations give way to other tasks for a (seeded) while and which can stop working after some of its writes.
#[derive(Debug)]
struct Chaos { inner: InMemory, rng: std::sync::atomic::AtomicU64, left: std::sync::atomic::AtomicI64, late: std::sync::atomic::AtomicBool }
use std::sync::atomic::Ordering::SeqCst;
impl std::fmt::Display for Chaos { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Chaos") } }
impl Chaos {
    fn new() -> Chaos { Chaos { inner: InMemory::new(), rng: 0.into(), left: i64::MAX.into(), late: false.into() } }
    /// From now on, operations are interleaved as `seed` says (0: not at all).
    fn interleave(&self, seed: u64) { self.rng.store(seed, SeqCst) }
    /// The store stops working after `writes` more writes; with `late`, the first write that fails is made all the same.
    fn crash(&self, writes: i64, late: bool) { self.left.store(writes, SeqCst); self.late.store(late, SeqCst) }
    fn heal(&self) { self.crash(i64::MAX, false) }
    async fn pause(&self) {
        let mut x = self.rng.load(SeqCst);
        if x == 0 { return }
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        self.rng.store(x, SeqCst);
        let n = if x & 1 == 0 { 0 } else { (x >> 8) % 24 };
        for _ in 0..n { tokio::task::yield_now().await }
    }
    fn down() -> object_store::Error { object_store::Error::Generic { store: "Chaos", source: "the store is down".into() } }
    fn up(&self) -> object_store::Result<()> { if self.left.load(SeqCst) <= 0 { Err(Self::down()) } else { Ok(()) } }
    /// Whether a write is made, and whether it is reported to be.
    fn write(&self) -> (bool, bool) {
        let l = self.left.load(SeqCst);
        if l == i64::MAX { return (true, true) }
        self.left.store(l - 1, SeqCst);
        if l > 0 { (true, true) } else { (l == 0 && self.late.load(SeqCst), false) }
    }
}
#[async_trait::async_trait]
impl ObjectStore for Chaos {
    async fn put_opts(&self, location: &OPath, payload: object_store::PutPayload, opts: object_store::PutOptions) -> object_store::Result<object_store::PutResult> {
        self.pause().await;
        let (made, told) = self.write();
        let r = if made { self.inner.put_opts(location, payload, opts).await? } else { return Err(Self::down()) };
        if told { Ok(r) } else { Err(Self::down()) }
    }
    async fn put_multipart_opts(&self, location: &OPath, opts: object_store::PutMultipartOptions) -> object_store::Result<Box<dyn object_store::MultipartUpload>> {
        self.pause().await;
        if !self.write().1 { return Err(Self::down()) }
        self.inner.put_multipart_opts(location, opts).await
    }
    async fn get_opts(&self, location: &OPath, options: object_store::GetOptions) -> object_store::Result<object_store::GetResult> {
        self.pause().await;
        self.up()?;
        self.inner.get_opts(location, options).await
    }
    fn delete_stream(&self, locations: futures::stream::BoxStream<'static, object_store::Result<OPath>>) -> futures::stream::BoxStream<'static, object_store::Result<OPath>> {
        if !self.write().1 { return Box::pin(futures::stream::once(async { Err(Self::down()) })) }
        self.inner.delete_stream(locations)
    }
    fn list(&self, prefix: Option<&OPath>) -> futures::stream::BoxStream<'static, object_store::Result<object_store::ObjectMeta>> {
        if self.up().is_err() { return Box::pin(futures::stream::once(async { Err(Self::down()) })) }
        self.inner.list(prefix)
    }
    async fn list_with_delimiter(&self, prefix: Option<&OPath>) -> object_store::Result<object_store::ListResult> {
        self.pause().await;
        self.up()?;
        self.inner.list_with_delimiter(prefix).await
    }
    async fn copy_opts(&self, from: &OPath, to: &OPath, options: object_store::CopyOptions) -> object_store::Result<()> {
        self.pause().await;
        let (made, told) = self.write();
        if made { self.inner.copy_opts(from, to, options).await? }
        if told { Ok(()) } else { Err(Self::down()) }
    }
}

struct Env { rt: tokio::runtime::Runtime, store: Arc<Chaos>, ctx: SessionContext }
impl Env {
    fn new() -> Env {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let store = Arc::new(Chaos::new());
        let config = SessionConfig::new().with_target_partitions(2);
        let state = SessionStateBuilder::new().with_config(config).with_default_features().with_physical_optimizer_rules(sail_physical_optimizer::get_physical_optimizers(Default::default())).with_query_planner(Arc::new(Qp)).build();
        let ctx = SessionContext::new_with_state(state);
        ctx.register_object_store(&Url::parse("mem://b").unwrap(), store.clone());
        Env { rt, store, ctx }
    }
}

/// The values of a table column: those of `pool`, so that rows collide, and a fresh one now and then.
struct Tab { schema: SchemaRef, pools: Vec<Vec<ScalarValue>>, parts: Vec<usize>, nan: bool, n: usize }
const COLS: [&str; 6] = ["a", "b", "c", "d", "e", "f"];

fn leaf_type(t: &mut T) -> DataType {
    match t.below(15) {
        0 => DataType::Boolean, 1 => DataType::Int8, 2 => DataType::Int16, 3 => DataType::Int32, 4 => DataType::Int64, 5 => DataType::Float32, 6 => DataType::Float64,
        7 => DataType::Date32, 8 => DataType::Timestamp(TimeUnit::Microsecond, None), 9 => DataType::Timestamp(TimeUnit::Microsecond, Some("UTC".into())), 10 => DataType::Binary,
        11 | 12 => { let p = *t.pick(&[3u8, 9, 15, 18, 20, 38]); DataType::Decimal128(p, *t.pick(&[0i8, 2, 3, 0])) }
        _ => DataType::Utf8,
    }
}
fn data_type(t: &mut T) -> DataType {
    match t.below(10) {
        0 => { let n = 1 + t.below(3) as usize; DataType::Struct(Fields::from((0..n).map(|i| Field::new(["key", "list", "x"][i], leaf_type(t), true)).collect::<Vec<_>>())) }
        1 => DataType::List(Arc::new(Field::new("element", leaf_type(t), true))),
        2 => DataType::Map(Arc::new(Field::new("key_value", DataType::Struct(Fields::from(vec![Field::new("key", DataType::Int32, false), Field::new("value", leaf_type(t), true)])), false)), false),
        _ => leaf_type(t),
    }
}
fn value(t: &mut T, dt: &DataType, nan: bool) -> ScalarValue {
    let day = 86_400_000_000i64;
    match dt {
        DataType::Boolean => ScalarValue::Boolean(Some(t.bool())),
        DataType::Int8 => ScalarValue::Int8(Some(t.rng(-128, 127) as i8)),
        DataType::Int16 => ScalarValue::Int16(Some(if t.bool() { t.rng(-9, 9) as i16 } else { t.next() as i16 })),
        DataType::Int32 => ScalarValue::Int32(Some(if t.below(8) == 0 { *t.pick(&[i32::MIN, i32::MAX, -1, 0]) } else { t.rng(-25, 40) as i32 })),
        DataType::Int64 => ScalarValue::Int64(Some(if t.below(4) == 0 { *t.pick(&[i64::MIN, i64::MAX, -1, 0, (1 << 53) + 1, -(1 << 53) - 1, i64::MAX - 1]) } else { t.rng(-2000, 2000) as i64 })),
        DataType::Float32 => ScalarValue::Float32(Some(if nan && t.below(3) == 0 { f32::NAN } else if t.below(8) == 0 { *t.pick(&[f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN_POSITIVE / 2.0]) } else { t.rng(-40, 40) as f32 / 4.0 + 0.1 })),
        DataType::Float64 => ScalarValue::Float64(Some(if nan && t.below(3) == 0 { f64::NAN } else if t.below(8) == 0 { *t.pick(&[f64::INFINITY, f64::NEG_INFINITY, 9007199254740993.0, 1e300, 5e-324]) } else { t.rng(-40, 40) as f64 / 4.0 + 0.1 })),
        DataType::Date32 => ScalarValue::Date32(Some(match t.below(8) { 0 => *t.pick(&[i32::MAX, i32::MIN, 2932896, 2932897, -719162, -719163, -1, 0]), 1 | 2 => t.rng(-40000, 40000) as i32, _ => t.rng(-3, 3) as i32 })),
        DataType::Timestamp(_, z) => ScalarValue::TimestampMicrosecond(Some(match t.below(8) {
            0 => *t.pick(&[i64::MAX, i64::MIN, -1, 1, 999, 1000, -1000, -1001, 253402300799999999, 253402300800000000, -62135596800000001, -62167219200000001]),
            1 | 2 => t.rng(-40000, 40000) as i64 * day + t.rng(-5, 5) as i64, _ => t.rng(-5000, 5000) as i64 }), z.clone()),
        DataType::Decimal128(p, s) => {
            let m = 10i128.pow(*p as u32) - 1;
            let x = match t.below(5) { 0 => *t.pick(&[m, -m, m - 1, 9007199254740993, -9007199254740993, 900719925474099301, 1000000000000000, 999999999999999, 1000000000000001]), 1 => t.wide128(), _ => t.rng(-3000, 3000) as i128 };
            ScalarValue::Decimal128(Some(if x.unsigned_abs() > m as u128 { x % m } else { x }), *p, *s)
        }
        DataType::Binary => { let k = t.below(4); ScalarValue::Binary(Some((0..k).map(|_| t.next() as u8).collect())) }
        DataType::Utf8 => {
            let k = t.below(4);
            let mut x: String = (0..k).map(|_| *t.pick(&['a', 'b', 'z', '/', '=', '%', ' ', '"', '\\', '\u{7f}', '\u{e9}', '\u{ffff}', '\u{10ffff}', '\n', '\0'])).collect();
            if t.below(6) == 0 { x.push_str(&t.pick(&['a', 'z', '\u{10ffff}']).to_string().repeat(30 + t.below(80) as usize)); x.push(*t.pick(&['a', 'b'])) }
            if t.below(12) == 0 { x = t.pick(&["null", "__HIVE_DEFAULT_PARTITION__", "NaN", "", "true", "2020-01-01"]).to_string() }
            ScalarValue::Utf8(Some(x))
        }
        DataType::Struct(fs) => {
            let cols: Vec<ArrayRef> = fs.iter().map(|f| if t.below(3) == 0 { ScalarValue::try_from(f.data_type()).unwrap() } else { value(t, f.data_type(), nan) }.to_array().unwrap()).collect();
            ScalarValue::Struct(Arc::new(datafusion::arrow::array::StructArray::new(fs.clone(), cols, None)))
        }
        DataType::List(f) => {
            let k = t.below(3);
            let vs: Vec<ScalarValue> = (0..k).map(|_| if t.below(2) == 0 { ScalarValue::try_from(f.data_type()).unwrap() } else { value(t, f.data_type(), nan) }).collect();
            let values = if vs.is_empty() { datafusion::arrow::array::new_empty_array(f.data_type()) } else { ScalarValue::iter_to_array(vs).unwrap() };
            ScalarValue::List(Arc::new(datafusion::arrow::array::ListArray::new(f.clone(), datafusion::arrow::buffer::OffsetBuffer::from_lengths([values.len()]), values, None)))
        }
        DataType::Map(f, _) => {
            let DataType::Struct(fs) = f.data_type() else { unreachable!() };
            let k = t.below(3) as usize;
            let keys: ArrayRef = Arc::new(datafusion::arrow::array::Int32Array::from((0..k as i32).collect::<Vec<_>>()));
            let vs: Vec<ScalarValue> = (0..k).map(|_| if t.below(2) == 0 { ScalarValue::try_from(fs[1].data_type()).unwrap() } else { value(t, fs[1].data_type(), nan) }).collect();
            let values = if vs.is_empty() { datafusion::arrow::array::new_empty_array(fs[1].data_type()) } else { ScalarValue::iter_to_array(vs).unwrap() };
            let entries = datafusion::arrow::array::StructArray::new(fs.clone(), vec![keys, values], None);
            ScalarValue::Map(Arc::new(datafusion::arrow::array::MapArray::new(f.clone(), datafusion::arrow::buffer::OffsetBuffer::from_lengths([k]), entries, None, false)))
        }
        x => panic!("{x:?}"),
    }
}
fn has_float(dt: &DataType) -> bool {
    match dt {
        DataType::Float32 | DataType::Float64 => true,
        DataType::Struct(f) => f.iter().any(|f| has_float(f.data_type())),
        DataType::List(f) | DataType::Map(f, _) => has_float(f.data_type()),
        _ => false,
    }
}
/// The rows as the table holds them: the format stores an empty partition value, and the name of the null partition, as null.
fn stored(tab: &Tab, rows: &[Row]) -> Vec<Row> {
    rows.iter().map(|r| r.iter().enumerate().map(|(c, v)| match v {
        ScalarValue::Utf8(Some(x)) if tab.parts.contains(&c) && (x.is_empty() || x == "__HIVE_DEFAULT_PARTITION__") => ScalarValue::Utf8(None),
        ScalarValue::Binary(Some(x)) if tab.parts.contains(&c) && x.is_empty() => ScalarValue::Binary(None),
        v => v.clone(),
    }).collect()).collect()
}
/// What a partition value can be: dates and times of the years 1 to 9999, and not the string that stands for null.
fn representable(v: &ScalarValue) -> bool {
    match v {
        ScalarValue::Date32(Some(x)) => (-719162..=2932896).contains(x),
        ScalarValue::TimestampMicrosecond(Some(x), _) => (-62135596800000000..=253402300799999999).contains(x),
        ScalarValue::Utf8(Some(x)) => x != "__HIVE_DEFAULT_PARTITION__",
        _ => true,
    }
}
fn rand_table(t: &mut T) -> Tab {
    let n = 1 + t.below(5) as usize;
    let nan = t.below(4) == 0;
    let mut names: Vec<&str> = COLS.to_vec();
    if t.below(5) == 0 { names[1] = "key"; names[2] = "element"; names[3] = "c d" }
    if t.below(8) == 0 { names[0] = "A.x" }
    let tys: Vec<DataType> = (0..n).map(|_| data_type(t)).collect();
    let schema = Arc::new(ASchema::new((0..n).map(|i| Field::new(names[i], tys[i].clone(), true)).collect::<Vec<_>>()));
    let mut parts = vec![];
    if n > 1 && t.below(2) == 0 {
        let k = t.below(n as u64) as usize;
        for i in [k, (k + 1) % n] {
            if !matches!(tys[i], DataType::Struct(_) | DataType::List(_) | DataType::Map(..)) && parts.len() + 1 < n && (parts.is_empty() || t.below(3) == 0) { parts.push(i) }
        }
    }
    let pools = tys.iter().enumerate().map(|(c, d)| {
        let n = 3 + t.below(5) as usize;
        let mut p = vec![];
        while p.len() < n { let v = value(t, d, nan); if !parts.contains(&c) || representable(&v) { p.push(v) } }
        p
    }).collect();
    Tab { schema, pools, parts, nan, n }
}
type Row = Vec<ScalarValue>;
fn rand_rows(t: &mut T, tab: &Tab, n: u64) -> Vec<Row> {
    // now and then a column has one value only, or none at all
    let style: Vec<u64> = (0..tab.n).map(|_| t.below(6)).collect();
    (0..n).map(|_| (0..tab.n).map(|c| {
        let dt = tab.schema.field(c).data_type();
        match style[c] { 0 => tab.pools[c][0].clone(), 1 => ScalarValue::try_from(dt).unwrap(), 2 => t.pick(&tab.pools[c]).clone(), _ if t.below(4) == 0 => ScalarValue::try_from(dt).unwrap(), _ => t.pick(&tab.pools[c]).clone() }
    }).collect()).collect()
}
fn batch(schema: &SchemaRef, rows: &[Row]) -> RecordBatch {
    let cols = (0..schema.fields().len()).map(|c| {
        if rows.is_empty() { datafusion::arrow::array::new_empty_array(schema.field(c).data_type()) } else { ScalarValue::iter_to_array(rows.iter().map(|r| r[c].clone())).unwrap() }
    }).map(|a| a).collect::<Vec<_>>();
    RecordBatch::try_new(schema.clone(), cols).unwrap()
}
fn mem_plan(schema: &SchemaRef, rows: &[Row], parts: usize) -> Result<LogicalPlan, String> {
    let k = rows.len().div_ceil(parts.max(1)).max(1);
    let mut p: Vec<Vec<RecordBatch>> = rows.chunks(k).map(|r| vec![batch(schema, r)]).collect();
    if p.is_empty() { p.push(vec![batch(schema, &[])]) }
    let m = MemTable::try_new(schema.clone(), p).map_err(|e| e.to_string())?;
    LogicalPlanBuilder::scan("t", provider_as_source(Arc::new(m)), None).and_then(|b| b.build()).map_err(|e| e.to_string())
}
fn show(b: &[RecordBatch]) -> Vec<String> {
    let o = datafusion::arrow::util::display::FormatOptions::default().with_null("NULL");
    let mut r = vec![];
    for b in b {
        let f: Vec<_> = b.columns().iter().map(|c| datafusion::arrow::util::display::ArrayFormatter::try_new(c.as_ref(), &o).unwrap()).collect();
        for i in 0..b.num_rows() { r.push(f.iter().zip(b.columns()).map(|(f, c)| match f.value(i).try_to_string() { Ok(s) => s, Err(_) => format!("{:?}", ScalarValue::try_from_array(c, i)) }).collect::<Vec<_>>().join("|")) }
    }
    r
}
fn es(e: datafusion::error::DataFusionError) -> String { e.to_string().lines().next().unwrap_or("").to_string() }

const URL: &str = "mem://b/t";
fn layers(props: &[(String, String)], opts: &[(String, String)]) -> Vec<OptionLayer> {
    vec![OptionLayer::TablePropertyList { items: props.to_vec() }, OptionLayer::OptionList { items: std::iter::once(("path".to_string(), URL.to_string())).chain(opts.iter().cloned()).collect() }]
}
async fn run_plan(env: &Env, plan: LogicalPlan) -> Result<Vec<RecordBatch>, String> {
    let state = env.ctx.state();
    let plan = state.create_physical_plan(&plan).await.map_err(es)?;
    datafusion::physical_plan::collect(plan, env.ctx.task_ctx()).await.map_err(es)
}
fn write(env: &Env, tab: &Tab, rows: &[Row], mode: SinkMode, sources: usize, props: &[(String, String)], opts: &[(String, String)], create: bool) -> Result<(), String> {
    let input = mem_plan(&tab.schema, rows, sources)?;
    let partition_by = if create { tab.parts.iter().map(|i| CatalogPartitionField { column: tab.schema.field(*i).name().clone(), transform: None }).collect() } else { vec![] };
    let info = SinkInfo { input, mode, partition_by, bucket_by: None, sort_order: vec![], options: layers(props, opts), lakehouse_table: None };
    env.rt.block_on(async {
        let plan = DeltaTableFormat.create_writer(&env.ctx.state(), info).await.map_err(es)?;
        run_plan(env, plan).await.map(|_| ())
    })
}
fn delete(env: &Env, cond: Option<&Expr>, props: &[(String, String)]) -> Result<(), String> {
    let info = DeleteInfo { table_name: vec!["t".into()], path: URL.to_string(), condition: cond.map(|c| ExprWithSource::new(c.clone(), Some("c".into()))), lakehouse_table: None, options: layers(props, &[]) };
    env.rt.block_on(async {
        let plan = DeltaTableFormat.create_deleter(&env.ctx.state(), info).await.map_err(es)?;
        run_plan(env, plan).await.map(|_| ())
    })
}
fn source(env: &Env, opts: &[(String, String)], version: Option<i64>) -> Result<Arc<dyn TableSource>, String> {
    let mut options = layers(&[], opts);
    if let Some(v) = version { options.push(OptionLayer::OptionList { items: vec![("version_as_of".to_string(), v.to_string())] }) }
    let info = SourceInfo { paths: vec![URL.to_string()], lakehouse_table: None, schema: None, constraints: Default::default(), partition_by: vec![], bucket_by: None, sort_order: vec![], options, read_case_sensitive: false };
    env.rt.block_on(DeltaTableFormat.create_source(&env.ctx.state(), info)).map_err(es)
}
/// A value at or near those of the column.
fn value_near(t: &mut T, tab: &Tab, c: usize) -> ScalarValue {
    if t.below(4) == 0 { value(t, tab.schema.field(c).data_type(), false) } else { t.pick(&tab.pools[c]).clone() }
}
fn field(tab: &Tab, c: usize) -> Expr { Expr::Column(datafusion::common::Column::new_unqualified(tab.schema.field(c).name())) }
fn rand_filter(t: &mut T, tab: &Tab, depth: u64) -> Expr {
    if depth > 0 && t.below(3) == 0 {
        let (a, b) = (rand_filter(t, tab, depth - 1), rand_filter(t, tab, depth - 1));
        return match t.below(5) { 0 | 1 => a.and(b), 2 | 3 => a.or(b), _ => Expr::Not(Box::new(a)) };
    }
    let c = t.below(tab.n as u64) as usize;
    let dt = tab.schema.field(c).data_type().clone();
    let nan = tab.nan && has_float(&dt);
    let (x, v) = match &dt {
        DataType::List(_) | DataType::Map(..) => return if t.bool() { field(tab, c).is_null() } else { field(tab, c).is_not_null() },
        DataType::Struct(fs) => {
            if t.below(4) == 0 || nan { return if t.bool() { field(tab, c).is_null() } else { field(tab, c).is_not_null() } }
            let f = t.pick(&fs.iter().cloned().collect::<Vec<_>>()).clone();
            (datafusion::functions::core::expr_fn::get_field(field(tab, c), f.name().as_str()), vec![value(t, f.data_type(), false), value(t, f.data_type(), false)])
        }
        _ => (field(tab, c), vec![value_near(t, tab, c), value_near(t, tab, c), value_near(t, tab, c)]),
    };
    if nan { return if t.bool() { x.is_null() } else { x.is_not_null() } }
    let l = |v: &ScalarValue| Expr::Literal(v.clone(), None);
    match t.below(10) {
        0 => x.lt(l(&v[0])), 1 => x.lt_eq(l(&v[0])), 2 => x.gt(l(&v[0])), 3 => x.gt_eq(l(&v[0])), 4 | 5 => x.eq(l(&v[0])), 6 => x.not_eq(l(&v[0])),
        7 => x.in_list(v.iter().map(l).collect(), t.below(3) == 0),
        8 => if t.bool() { x.is_null() } else { x.is_not_null() },
        _ => if dt == DataType::Utf8 && t.bool() { x.like(lit(format!("{}%", t.pick(&["a", "b", "z", "aa"])))) } else { x.between(l(&v[0]), l(&v[1])) },
    }
}
#[derive(Clone)]
struct Q { filter: Option<Expr>, aggs: Vec<Expr>, cols: Vec<Expr>, limit: Option<usize> }
impl Q {
    fn text(&self) -> String {
        let j = |v: &Vec<Expr>| v.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(", ");
        format!("SELECT {}{}{}", if self.aggs.is_empty() { j(&self.cols) } else { j(&self.aggs) }, self.filter.as_ref().map(|f| format!(" WHERE {f}")).unwrap_or_default(), self.limit.map(|n| format!(" LIMIT {n}")).unwrap_or_default())
    }
    async fn run(&self, env: &Env, p: LogicalPlan, limit: bool) -> Result<Vec<RecordBatch>, String> {
        let mut d = DataFrame::new(env.ctx.state(), p);
        if let Some(f) = &self.filter { d = d.filter(f.clone()).map_err(es)? }
        d = if self.aggs.is_empty() { d.select(self.cols.clone()).map_err(es)? } else { d.aggregate(vec![], self.aggs.clone()).map_err(es)? };
        if let (Some(n), true) = (self.limit, limit) { d = d.limit(0, Some(n)).map_err(es)? }
        d.collect().await.map_err(es)
    }
}
fn rand_query(t: &mut T, tab: &Tab) -> Q {
    use datafusion::functions_aggregate::expr_fn::{count, max, min};
    let filter = if t.below(4) == 0 { None } else { Some(rand_filter(t, tab, 2)) };
    let one = || count(Expr::Literal(ScalarValue::Int64(Some(1)), None));
    let plain: Vec<usize> = (0..tab.n).filter(|c| !matches!(tab.schema.field(*c).data_type(), DataType::Struct(_) | DataType::List(_) | DataType::Map(..)) && !(tab.nan && has_float(tab.schema.field(*c).data_type()))).collect();
    let mut q = Q { filter, aggs: vec![], cols: (0..tab.n).map(|c| field(tab, c)).collect(), limit: None };
    let of = |c: usize| vec![min(field(tab, c)).alias(format!("min{c}")), max(field(tab, c)).alias(format!("max{c}"))];
    match t.below(8) {
        0 | 1 => { for c in plain { q.aggs.extend(of(c)) } for c in 0..tab.n { q.aggs.push(count(field(tab, c)).alias(format!("count{c}"))) } q.aggs.push(one()); if t.bool() { q.filter = None } }
        2 => q.limit = Some(t.below(6) as usize),
        3 => q.aggs = vec![one()],
        _ => {
            for i in (1..tab.n).rev() { let j = t.below(i as u64 + 1) as usize; q.cols.swap(i, j) }
            q.cols.truncate(1 + t.below(tab.n as u64) as usize);
        }
    }
    q
}
fn sub_multiset(a: &[String], b: &[String]) -> bool {
    let mut m: BTreeMap<&String, i64> = BTreeMap::new();
    for x in b { *m.entry(x).or_default() += 1 }
    a.iter().all(|x| { let e = m.entry(x).or_default(); *e -= 1; *e >= 0 })
}
fn compare(env: &Env, tab: &Tab, src: Arc<dyn TableSource>, rows: &[Row], q: &Q) -> Result<(), String> {
    let mem = mem_plan(&tab.schema, rows, 1)?;
    env.rt.block_on(async {
        let want = match q.run(env, mem, false).await { Ok(w) => w, Err(_) => return Ok(()) }; // not a valid query over the rows themselves
        let plan = LogicalPlanBuilder::scan("t", src, None).and_then(|b| b.build()).map_err(es)?;
        let got = q.run(env, plan, true).await.map_err(|e| format!("the query fails over the table ({e}) but not over its rows"))?;
        let (mut w, mut g) = (show(&want), show(&got));
        match q.limit {
            Some(n) => { vcheck!(g.len() == n.min(w.len()), "LIMIT {n} returned {} of {} rows", g.len(), w.len()); vcheck!(sub_multiset(&g, &w), "rows {g:?} are not among {w:?}"); }
            None => { w.sort(); g.sort(); vcheck!(g == w, "got {g:?}, the rows give {w:?}"); }
        }
        Ok(())
    })
}
fn lines(tab: &Tab, rows: &[Row]) -> Vec<String> { if rows.is_empty() { vec![] } else { show(&[batch(&tab.schema, rows)]) } }
/// Those of the rows that are among the lines.
fn those(tab: &Tab, rows: &[Row], got: &[String]) -> Vec<Row> {
    let mut m: BTreeMap<&String, i64> = BTreeMap::new();
    for x in got { *m.entry(x).or_default() += 1 }
    rows.iter().zip(lines(tab, rows)).filter(|(_, l)| match m.get_mut(l) { Some(n) if *n > 0 => { *n -= 1; true } _ => false }).map(|(r, _)| r.clone()).collect()
}
fn all_rows(env: &Env, tab: &Tab) -> Result<Vec<String>, String> {
    let src = source(env, &[], None)?;
    env.rt.block_on(async {
        let plan = LogicalPlanBuilder::scan("t", src, None).and_then(|b| b.build()).map_err(es)?;
        let q = Q { filter: None, aggs: vec![], cols: (0..tab.n).map(|c| field(tab, c)).collect(), limit: None };
        Ok(show(&q.run(env, plan, true).await?))
    })
}
/// The rows for which the condition is not true.
fn surviving(env: &Env, tab: &Tab, rows: &[Row], cond: &Expr) -> Option<Vec<Row>> {
    let mem = mem_plan(&tab.schema, rows, 1).ok()?;
    let out = env.rt.block_on(async { DataFrame::new(env.ctx.state(), mem).select(vec![cond.clone().alias("k")])?.collect().await }).ok()?;
    let mut keep = vec![];
    for b in &out { for i in 0..b.num_rows() { keep.push(ScalarValue::try_from_array(b.column(0), i).ok()? != ScalarValue::Boolean(Some(true))) } }
    Some(rows.iter().zip(keep).filter(|(_, k)| *k).map(|(r, _)| r.clone()).collect())
}
