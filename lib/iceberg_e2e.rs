// Whole-crate harness: writes random Iceberg tables into an in-memory object store with the crate's own writers,
// reads them back through the crate's table provider under random SQL, and compares with the same rows held in memory.
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use datafusion::arrow::array::{Array, ArrayRef, RecordBatch};
use datafusion::arrow::datatypes::{DataType, Field, Schema as ASchema, TimeUnit};
use datafusion::datasource::MemTable;
use datafusion::prelude::*;
use datafusion::scalar::ScalarValue;
use object_store::memory::InMemory;
use object_store::{ObjectStore, ObjectStoreExt};
use object_store::path::Path as OPath;
use ordered_float::OrderedFloat;
use sail_iceberg::datasource::provider::IcebergTableProvider;
use sail_iceberg::operations::write::config::{VariantShreddingConfig, WriterConfig};
use sail_iceberg::operations::write::table_writer::IcebergTableWriter;
use sail_iceberg::spec::manifest::{ManifestMetadata, ManifestWriterBuilder};
use sail_iceberg::spec::manifest_list::{FieldSummary, ManifestListWriter, ManifestContentType};
use sail_iceberg::spec::partition::{PartitionSpec, UnboundPartitionField, UnboundPartitionSpec};
use sail_iceberg::spec::schema::Schema as ISchema;
use sail_iceberg::spec::snapshots::*;
use sail_iceberg::spec::types::values::{Datum, Literal, PrimitiveLiteral};
use sail_iceberg::spec::types::{NestedField, PrimitiveType, Type};
use sail_iceberg::spec::{DataFile, DataContentType, FormatVersion, Transform};
use url::Url;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ty { Bool, Int, Long, Date, Ts, Tstz, Dec(u8, i8), Str, Float, Double }
#[derive(Clone, PartialEq, Debug)]
enum V { Null, I(i128), F(f64), S(String) }

impl Ty {
    fn iceberg(self) -> PrimitiveType {
        match self {
            Ty::Bool => PrimitiveType::Boolean, Ty::Int => PrimitiveType::Int, Ty::Long => PrimitiveType::Long, Ty::Date => PrimitiveType::Date,
            Ty::Ts => PrimitiveType::Timestamp, Ty::Tstz => PrimitiveType::Timestamptz,
            Ty::Dec(p, s) => PrimitiveType::Decimal { precision: p as u32, scale: s as u32 },
            Ty::Str => PrimitiveType::String, Ty::Float => PrimitiveType::Float, Ty::Double => PrimitiveType::Double,
        }
    }
    fn scalar(self, v: &V, arrow: &DataType) -> ScalarValue {
        let s = match (self, v) {
            (_, V::Null) => return ScalarValue::try_from(arrow).unwrap(),
            (Ty::Bool, V::I(x)) => ScalarValue::Boolean(Some(*x != 0)),
            (Ty::Int, V::I(x)) => ScalarValue::Int32(Some(*x as i32)),
            (Ty::Long, V::I(x)) => ScalarValue::Int64(Some(*x as i64)),
            (Ty::Date, V::I(x)) => ScalarValue::Date32(Some(*x as i32)),
            (Ty::Ts, V::I(x)) => ScalarValue::TimestampMicrosecond(Some(*x as i64), None),
            (Ty::Tstz, V::I(x)) => match arrow { DataType::Timestamp(_, z) => ScalarValue::TimestampMicrosecond(Some(*x as i64), z.clone()), _ => unreachable!() },
            (Ty::Dec(p, s), V::I(x)) => ScalarValue::Decimal128(Some(*x), p, s),
            (Ty::Str, V::S(x)) => ScalarValue::Utf8(Some(x.clone())),
            (Ty::Float, V::F(x)) => ScalarValue::Float32(Some(*x as f32)),
            (Ty::Double, V::F(x)) => ScalarValue::Float64(Some(*x)),
            x => panic!("{x:?}"),
        };
        s.cast_to(arrow).unwrap()
    }
    fn literal(self, v: &V) -> Option<PrimitiveLiteral> {
        Some(match (self, v) {
            (_, V::Null) => return None,
            (Ty::Bool, V::I(x)) => PrimitiveLiteral::Boolean(*x != 0),
            (Ty::Int | Ty::Date, V::I(x)) => PrimitiveLiteral::Int(*x as i32),
            (Ty::Long | Ty::Ts | Ty::Tstz, V::I(x)) => PrimitiveLiteral::Long(*x as i64),
            (Ty::Dec(..), V::I(x)) => PrimitiveLiteral::Int128(*x),
            (Ty::Str, V::S(x)) => PrimitiveLiteral::String(x.clone()),
            (Ty::Float, V::F(x)) => PrimitiveLiteral::Float(OrderedFloat(*x as f32)),
            (Ty::Double, V::F(x)) => PrimitiveLiteral::Double(OrderedFloat(*x)),
            x => panic!("{x:?}"),
        })
    }
    fn pool(self, t: &mut T) -> Vec<V> {
        let n = 3 + t.below(6);
        let day = 86_400_000_000i128;
        (0..n).map(|_| match self {
            Ty::Bool => V::I(t.below(2) as i128),
            Ty::Int => V::I(if t.below(8) == 0 { *t.pick(&[i32::MAX as i128, i32::MIN as i128, -1, 0]) } else { t.rng(-25, 40) as i128 }),
            Ty::Long => V::I(if t.below(8) == 0 { *t.pick(&[i64::MAX as i128, i64::MIN as i128, 0, -1]) } else { t.rng(-2000, 2000) as i128 }),
            Ty::Date => V::I(match t.below(4) { 0 => t.rng(-40000, 40000), 1 => t.rng(-400, 400), _ => t.rng(-3, 3) } as i128),
            Ty::Ts | Ty::Tstz => V::I(match t.below(4) { 0 => t.rng(-40000, 40000) as i128 * day + t.rng(-5, 5) as i128, 1 => t.rng(-400, 400) as i128 * day - t.below(2) as i128, _ => t.rng(-30, 30) as i128 * 3_600_000_000 - t.below(2) as i128 }),
            Ty::Dec(p, _) => V::I(if t.below(6) == 0 { let m = 10i128.pow(p as u32) - 1; if t.bool() { m } else { -m } } else { t.rng(-3000, 3000) as i128 }),
            Ty::Str => { let k = t.below(4); V::S((0..k).map(|_| *t.pick(&['a', 'b', 'z', '\u{7f}', '\u{e9}', '\u{ffff}', '\u{10ffff}', ' ', '%'])).collect()) }
            Ty::Float => V::F((t.rng(-40, 40) as f32 / 4.0 + 0.125) as f64),
            Ty::Double => V::F(if t.below(8) == 0 { *t.pick(&[f64::INFINITY, f64::NEG_INFINITY, 9007199254740993.0, 1e300]) } else { t.rng(-40, 40) as f64 / 4.0 + 0.1 }),
        }).collect()
    }
    fn transforms(self, t: &mut T) -> Transform {
        let mut o = vec![Transform::Identity, Transform::Identity];
        match self {
            Ty::Int | Ty::Long => o.extend([Transform::Bucket(1 + t.below(6) as u32), Transform::Truncate(*t.pick(&[1, 3, 10, 1000]))]),
            Ty::Dec(..) => o.extend([Transform::Bucket(1 + t.below(6) as u32), Transform::Truncate(*t.pick(&[1, 50, 100]))]),
            Ty::Str => o.extend([Transform::Bucket(1 + t.below(6) as u32), Transform::Truncate(1 + t.below(3) as u32)]),
            Ty::Date => o.extend([Transform::Year, Transform::Month, Transform::Day, Transform::Bucket(4)]),
            Ty::Ts | Ty::Tstz => o.extend([Transform::Year, Transform::Month, Transform::Day, Transform::Hour, Transform::Bucket(4)]),
            _ => {}
        }
        *t.pick(&o)
    }
}
fn cmp_v(a: &V, b: &V) -> std::cmp::Ordering {
    match (a, b) {
        (V::I(x), V::I(y)) => x.cmp(y),
        (V::F(x), V::F(y)) => x.total_cmp(y),
        (V::S(x), V::S(y)) => x.as_bytes().cmp(y.as_bytes()),
        _ => panic!(),
    }
}
/// Single-value serialization of the Iceberg specification (Appendix D), for partition summaries.
fn ser(l: &PrimitiveLiteral) -> Vec<u8> {
    match l {
        PrimitiveLiteral::Boolean(b) => vec![*b as u8],
        PrimitiveLiteral::Int(x) => x.to_le_bytes().to_vec(),
        PrimitiveLiteral::Long(x) => x.to_le_bytes().to_vec(),
        PrimitiveLiteral::Float(x) => x.0.to_le_bytes().to_vec(),
        PrimitiveLiteral::Double(x) => x.0.to_le_bytes().to_vec(),
        PrimitiveLiteral::String(s) => s.as_bytes().to_vec(),
        PrimitiveLiteral::Binary(b) => b.clone(),
        PrimitiveLiteral::Int128(x) => {
            let b = x.to_be_bytes();
            let mut i = 0;
            while i < 15 && ((b[i] == 0 && b[i + 1] < 128) || (b[i] == 255 && b[i + 1] >= 128)) { i += 1 }
            b[i..].to_vec()
        }
        PrimitiveLiteral::UInt128(x) => x.to_be_bytes().to_vec(),
    }
}
fn cmp_lit(a: &PrimitiveLiteral, b: &PrimitiveLiteral) -> std::cmp::Ordering {
    use PrimitiveLiteral::*;
    match (a, b) {
        (Boolean(x), Boolean(y)) => x.cmp(y), (Int(x), Int(y)) => x.cmp(y), (Long(x), Long(y)) => x.cmp(y), (Int128(x), Int128(y)) => x.cmp(y),
        (Float(x), Float(y)) => x.0.total_cmp(&y.0), (Double(x), Double(y)) => x.0.total_cmp(&y.0),
        (String(x), String(y)) => x.as_bytes().cmp(y.as_bytes()), (Binary(x), Binary(y)) => x.cmp(y),
        x => panic!("mixed partition values {x:?}"),
    }
}

struct Tab {
    name: String,
    tys: Vec<Ty>,
    pools: Vec<Vec<V>>,
    specs: Vec<PartitionSpec>,
    schema: ISchema,
    arrow: Arc<ASchema>,      // as declared, in schema order
    rows: Vec<Vec<V>>,
    log: Vec<String>,
}
const COLS: [&str; 5] = ["a", "b", "c", "d", "e"];

struct Opts { stats: bool, summaries: bool, many_specs: bool, late_column: bool, doubles: bool }

fn rand_table(t: &mut T, o: &Opts) -> Tab {
    let n = 2 + t.below(3) as usize;
    let mut kinds = vec![Ty::Int, Ty::Long, Ty::Date, Ty::Ts, Ty::Tstz, Ty::Dec(9, 2), Ty::Dec(25, 3), Ty::Str, Ty::Str, Ty::Bool];
    if o.doubles { kinds.extend([Ty::Float, Ty::Double]) }
    let tys: Vec<Ty> = (0..n).map(|_| *t.pick(&kinds)).collect();
    let pools = tys.iter().map(|ty| ty.pool(t)).collect::<Vec<_>>();
    // field ids are not in column order, so that ids, positions and names cannot stand in for one another
    let base = 1 + t.below(3) as i32;
    let ids: Vec<i32> = (0..n).map(|i| if base == 1 { i as i32 + 1 } else { base * (n - i) as i32 }).collect();
    let schema = ISchema::builder().with_fields((0..n).map(|i| Arc::new(NestedField::optional(ids[i], COLS[i], Type::Primitive(tys[i].iceberg()))))).build().unwrap();
    let arrow = Arc::new(sail_iceberg::datasource::type_converter::iceberg_schema_to_arrow(&schema).unwrap());
    let ns = if o.many_specs && t.below(3) == 0 { 2 } else { 1 };
    let mut fid = 1000;
    let specs = (0..ns).map(|k| {
        let mut b = PartitionSpec::builder().with_spec_id(k);
        let nf = if ns == 1 { t.below(3) } else { t.below(3) };
        let mut used = vec![];
        for _ in 0..nf {
            let c = t.below(n as u64) as usize;
            if used.contains(&c) || matches!(tys[c], Ty::Float | Ty::Double) { continue }
            used.push(c);
            let tr = tys[c].transforms(t);
            let name = if tr == Transform::Identity { COLS[c].to_string() } else { format!("{}_p{}", COLS[c], fid) };
            b = b.add_field_with_id(ids[c], fid, name, tr);
            fid += 1;
        }
        b.build()
    }).collect::<Vec<_>>();
    Tab { name: format!("t{}", t.next() % 1000000), tys, pools, specs, schema, arrow, rows: vec![], log: vec![] }
}
fn batch(tab: &Tab, cols: &[usize], rows: &[Vec<V>]) -> RecordBatch {
    let fields: Vec<_> = cols.iter().map(|c| tab.arrow.field(*c).clone()).collect();
    let arrays: Vec<ArrayRef> = cols.iter().map(|c| {
        let f = tab.arrow.field(*c);
        if rows.is_empty() { return datafusion::arrow::array::new_empty_array(f.data_type()) }
        ScalarValue::iter_to_array(rows.iter().map(|r| tab.tys[*c].scalar(&r[*c], f.data_type()))).unwrap()
    }).collect();
    RecordBatch::try_new(Arc::new(ASchema::new(fields)), arrays).unwrap()
}
/// Bounds as a writer may record them: lower bounds may be rounded down, upper bounds up (strings truncated).
fn stats(t: &mut T, tab: &Tab, o: &Opts, df: &mut DataFile, rows: &[Vec<V>]) {
    df.value_counts.clear();
    df.null_value_counts.clear();
    if !o.stats { return }
    for (c, ty) in tab.tys.iter().enumerate() {
        let id = tab.schema.field_id_by_name(COLS[c]).unwrap();
        let prim = ty.iceberg();
        let mut vs: Vec<&V> = rows.iter().map(|r| &r[c]).filter(|v| **v != V::Null).collect();
        vs.sort_by(|a, b| cmp_v(a, b));
        if t.below(8) != 0 { df.value_counts.insert(id, rows.len() as u64); }
        if t.below(8) != 0 { df.null_value_counts.insert(id, (rows.len() - vs.len()) as u64); }
        if matches!(ty, Ty::Float | Ty::Double) && t.bool() { df.nan_value_counts.insert(id, 0); }
        if let (Some(lo), Some(hi)) = (vs.first(), vs.last()) {
            let (mut lo, mut hi) = ((*lo).clone(), (*hi).clone());
            if let V::S(s) = &mut lo { if t.bool() { *s = s.chars().take(1).collect() } }
            if let V::S(s) = &mut hi { if t.bool() && s.chars().count() > 1 && s.starts_with(['a', 'b']) { *s = if s.starts_with('a') { "b" } else { "c" }.into() } }
            if t.below(8) != 0 { df.lower_bounds.insert(id, Datum::new(prim.clone(), ty.literal(&lo).unwrap())); }
            if t.below(8) != 0 { df.upper_bounds.insert(id, Datum::new(prim.clone(), ty.literal(&hi).unwrap())); }
        }
    }
}
fn summaries(tab: &Tab, spec: &PartitionSpec, files: &[DataFile]) -> Vec<FieldSummary> {
    (0..spec.fields().len()).map(|i| {
        let vals: Vec<Option<PrimitiveLiteral>> = files.iter().map(|f| match &f.partition[i] { Some(Literal::Primitive(p)) => Some(p.clone()), None => None, x => panic!("{x:?}") }).collect();
        let mut s = FieldSummary::new(vals.iter().any(|v| v.is_none()));
        let mut vs: Vec<_> = vals.into_iter().flatten().collect();
        vs.sort_by(cmp_lit);
        if let (Some(l), Some(h)) = (vs.first(), vs.last()) { s = s.with_lower_bound_bytes(ser(l)).with_upper_bound_bytes(ser(h)) }
        s
    }).collect()
}
struct Env { rt: tokio::runtime::Runtime, store: Arc<InMemory> }
impl Env {
    fn new() -> Env { Env { rt: tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap(), store: Arc::new(InMemory::new()) } }
}
/// What each data file holds, for oracles that need to know where a row went.
struct Written { file: DataFile, rows: Vec<Vec<V>>, seq: i64 }

fn write_rows(env: &Env, t: &mut T, tab: &Tab, o: &Opts, spec: &PartitionSpec, cols: &[usize], rows: &[Vec<V>]) -> Result<Vec<DataFile>, String> {
    let full: Vec<_> = cols.iter().map(|c| tab.arrow.field(*c).clone()).collect();
    let cfg = WriterConfig {
        table_schema: Arc::new(ASchema::new(full)), partition_columns: vec![], writer_properties: Default::default(), target_file_size: 1 << 30,
        write_batch_size: 1024, num_indexed_cols: 32, stats_columns: None, iceberg_schema: Arc::new(tab.schema.clone()),
        partition_spec: UnboundPartitionSpec { fields: spec.fields().iter().map(|f| UnboundPartitionField { source_id: f.source_id().unwrap(), name: f.name.clone(), transform: f.transform }).collect() },
        variant_shredding: VariantShreddingConfig::default(),
    };
    let url = Url::parse(&format!("mem://b/{}/data/", tab.name)).unwrap();
    let mut w = IcebergTableWriter::new(env.store.clone(), OPath::from(format!("{}/data", tab.name)), cfg, spec.spec_id(), url);
    let cut = t.below(rows.len() as u64 + 1) as usize;
    env.rt.block_on(async {
        for part in [&rows[..cut], &rows[cut..]].into_iter().filter(|p| !p.is_empty()) { w.write(&batch(tab, cols, part)).await? }
        w.close().await
    })
}
fn provider(tab: &Tab, list: &str, default_spec: i32) -> Result<IcebergTableProvider, String> {
    let snap = Snapshot::builder().with_snapshot_id(7).with_sequence_number(9).with_timestamp_ms(1).with_manifest_list(list).with_summary(Summary::new(Operation::Append)).with_schema_id(0).build()?;
    IcebergTableProvider::new(format!("mem://b/{}/", tab.name), tab.schema.clone(), snap, tab.specs.clone(), default_spec).map_err(|e| e.to_string())
}
/// The rows a data file holds, read straight from its Parquet bytes (by column name; identity-partition columns may be absent).
fn file_rows(env: &Env, df: &DataFile) -> Result<Vec<RecordBatch>, String> {
    let p = OPath::from_url_path(Url::parse(&df.file_path).map_err(|e| e.to_string())?.path()).map_err(|e| e.to_string())?;
    let bytes = env.rt.block_on(async { env.store.get(&p).await.map_err(|e| e.to_string())?.bytes().await.map_err(|e| e.to_string()) })?;
    let r = parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder::try_new(bytes).map_err(|e| e.to_string())?.build().map_err(|e| e.to_string())?;
    r.collect::<Result<Vec<_>, _>>().map_err(|e| e.to_string())
}
fn show(b: &Vec<RecordBatch>) -> Vec<String> {
    use datafusion::arrow::util::display::{ArrayFormatter, FormatOptions};
    let mut out = vec![];
    let f = FormatOptions::default().with_null("NULL");
    for b in b {
        let fs: Vec<_> = b.columns().iter().map(|c| ArrayFormatter::try_new(c.as_ref(), &f).unwrap()).collect();
        for i in 0..b.num_rows() { out.push(fs.iter().map(|x| x.value(i).to_string()).collect::<Vec<_>>().join(" | ")) }
    }
    out
}
fn sub_multiset(a: &[String], b: &[String]) -> bool {
    let mut m: BTreeMap<&String, i64> = BTreeMap::new();
    for x in b { *m.entry(x).or_default() += 1 }
    for x in a { let e = m.entry(x).or_default(); *e -= 1; if *e < 0 { return false } }
    true
}
fn value_near(t: &mut T, tab: &Tab, c: usize) -> V {
    match t.pick(&tab.pools[c]).clone() {
        V::I(x) => { let d = match (tab.tys[c], t.below(8)) { (_, 0..=2) => 0, (_, 3) => 1, (_, 4) => -1, (Ty::Ts | Ty::Tstz, k) => t.rng(-1500, 1500) as i128 * if k == 7 { 1_000_000 } else { 1 }, _ => t.rng(-12, 12) as i128 }; let y = x + d;
            let ok = match tab.tys[c] { Ty::Bool => (0..=1).contains(&y), Ty::Int | Ty::Date => i32::try_from(y).is_ok(), Ty::Long | Ty::Ts | Ty::Tstz => i64::try_from(y).is_ok(), Ty::Dec(p, _) => y.abs() < 10i128.pow(p as u32), _ => true };
            V::I(if ok { y } else { x }) }
        V::S(s) => V::S(match t.below(5) { 0 => format!("{s}a"), 1 => s.chars().take(1).collect(), _ => s }),
        v => v,
    }
}
fn rand_filter(t: &mut T, tab: &Tab, depth: u64) -> Expr {
    if depth > 0 && t.below(2) == 0 {
        let (a, b) = (rand_filter(t, tab, depth - 1), rand_filter(t, tab, depth - 1));
        return match t.below(5) { 0 => a.or(b), 1 => !a, _ => a.and(b) };
    }
    let c = t.below(tab.tys.len() as u64) as usize;
    let ty = tab.tys[c];
    let n = col(COLS[c]);
    let mut v = || { let x = value_near(t, tab, c); Expr::Literal(ty.scalar(&x, tab.arrow.field(c).data_type()), None) };
    let (x, y, z) = (v(), v(), v());
    match t.below(13) {
        0..=1 => n.eq(x), 2 => x.eq(n), 3 => n.lt(x), 4 => n.lt_eq(x), 5 => n.gt(x), 6 => n.gt_eq(x),
        7 => match t.below(4) { 0 => x.lt(n), 1 => x.lt_eq(n), 2 => x.gt(n), _ => x.gt_eq(n) },
        8 => n.in_list(vec![x, y, z], false), 9 => if t.below(3) == 0 { n.not_between(x, y) } else { n.between(x, y) },
        10 => if t.bool() { n.is_null() } else { n.is_not_null() },
        11 => n.not_eq(x),
        _ => n.in_list(vec![x, y], true),
    }
}
struct Q { filter: Option<Expr>, aggs: Vec<Expr>, cols: Vec<&'static str>, limit: Option<usize> }
impl Q {
    fn text(&self) -> String {
        format!("SELECT {}{}{}", if self.aggs.is_empty() { self.cols.join(", ") } else { self.aggs.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(", ") },
            self.filter.as_ref().map(|f| format!(" WHERE {f}")).unwrap_or_default(), self.limit.map(|n| format!(" LIMIT {n}")).unwrap_or_default())
    }
    async fn run(&self, c: &SessionContext, limit: bool) -> Result<Vec<RecordBatch>, String> {
        let e = |e: datafusion::error::DataFusionError| e.to_string();
        let mut d = c.table("t").await.map_err(e)?;
        if let Some(f) = &self.filter { d = d.filter(f.clone()).map_err(e)? }
        d = if self.aggs.is_empty() { d.select_columns(&self.cols).map_err(e)? } else { d.aggregate(vec![], self.aggs.clone()).map_err(e)? };
        if let (Some(n), true) = (self.limit, limit) { d = d.limit(0, Some(n)).map_err(e)? }
        d.collect().await.map_err(e)
    }
}
/// One query on the table and on its rows; returns what differs.
fn compare(env: &Env, a: &SessionContext, b: &SessionContext, q: &Q) -> Result<(), String> {
    env.rt.block_on(async {
        let want = match q.run(b, false).await { Ok(w) => w, Err(_) => return Ok(()) }; // not a valid query over the rows themselves
        let got = q.run(a, true).await.map_err(|e| format!("the query fails over the table ({e}) but not over its rows"))?;
        let (mut w, mut g) = (show(&want), show(&got));
        match q.limit {
            Some(n) => { vcheck!(g.len() == n.min(w.len()), "LIMIT {n} returned {} of {} rows", g.len(), w.len()); vcheck!(sub_multiset(&g, &w), "rows {g:?} are not among {w:?}"); }
            None => { w.sort(); g.sort(); vcheck!(g == w, "got {g:?}, the rows give {w:?}"); }
        }
        Ok(())
    })
}
fn rand_query(t: &mut T, tab: &Tab) -> Q {
    use datafusion::functions_aggregate::expr_fn::{count, max, min};
    let n = tab.tys.len();
    let filter = if t.below(5) == 0 { None } else { Some(rand_filter(t, tab, 2)) };
    let one = || count(Expr::Literal(ScalarValue::Int64(Some(1)), None));
    let of = |c: usize| vec![count(col(COLS[c])), min(col(COLS[c])), max(col(COLS[c]))];
    let mut q = Q { filter, aggs: vec![], cols: COLS[..n].to_vec(), limit: None };
    match t.below(8) {
        0 => { let c = t.below(n as u64) as usize; q.aggs = of(c); q.aggs.push(one()) }
        1 => { q.aggs = (0..n).flat_map(of).collect(); q.aggs.push(one()); q.filter = None }
        2 => q.limit = Some(t.below(6) as usize),
        3 => q.aggs = vec![one()],
        _ => {
            for i in (1..n).rev() { let j = t.below(i as u64 + 1) as usize; q.cols.swap(i, j) }
            q.cols.truncate(1 + t.below(n as u64) as usize);
        }
    }
    q
}
fn put(env: &Env, path: String, bytes: Vec<u8>) { env.rt.block_on(env.store.put(&OPath::from(path), bytes.into())).unwrap(); }
/// Gives the entries of a manifest other statuses (1 added, 0 existing, 2 deleted), as later commits do.
fn set_status(bytes: &[u8], status: &[i32], seq: i64) -> Result<Vec<u8>, String> {
    use apache_avro::types::Value;
    let e = |e: apache_avro::Error| e.to_string();
    let r = apache_avro::Reader::new(bytes).map_err(e)?;
    let (schema, meta) = (r.writer_schema().clone(), r.user_metadata().clone());
    let mut w = apache_avro::Writer::new(&schema, Vec::new());
    for (k, v) in meta { w.add_user_metadata(k, v).map_err(e)? }
    for (i, v) in r.enumerate() {
        let Value::Record(mut f) = v.map_err(e)? else { return Err("not a record".into()) };
        for (k, v) in f.iter_mut() {
            if k == "status" { *v = Value::Int(status[i]) }
            if status[i] == 0 && (k == "sequence_number" || k == "file_sequence_number") { if let Value::Union(_, _) = v { *v = Value::Union(1, Box::new(Value::Long(seq))) } }
        }
        w.append(Value::Record(f)).map_err(e)?;
    }
    w.into_inner().map_err(e)
}
/// Adds the bounds of partition values to the entries of a manifest list, as other writers record them.
fn set_bounds(bytes: &[u8], bounds: &[Option<Vec<FieldSummary>>]) -> Result<Vec<u8>, String> {
    use apache_avro::types::Value;
    let e = |e: apache_avro::Error| e.to_string();
    let r = apache_avro::Reader::new(bytes).map_err(e)?;
    let (schema, meta) = (r.writer_schema().clone(), r.user_metadata().clone());
    let mut w = apache_avro::Writer::new(&schema, Vec::new());
    for (k, v) in meta { w.add_user_metadata(k, v).map_err(e)? }
    for (i, v) in r.enumerate() {
        let Value::Record(mut f) = v.map_err(e)? else { return Err("not a record".into()) };
        for (k, v) in f.iter_mut() {
            if k != "partitions" { continue }
            let (Value::Union(_, p), Some(b)) = (v, &bounds[i]) else { continue };
            let Value::Array(items) = &mut **p else { return Err(format!("no partition summaries of manifest {i}: {p:?}")) };
            vcheck!(items.len() == b.len(), "{} partition summaries of manifest {i}, not {}", items.len(), b.len());
            for (item, b) in items.iter_mut().zip(b) {
                let Value::Record(f) = item else { return Err(format!("not a record: {item:?}")) };
                for (k, v) in f.iter_mut() {
                    let bound = match k.as_str() { "lower_bound" => &b.lower_bound_bytes, "upper_bound" => &b.upper_bound_bytes, _ => continue };
                    if let Some(bound) = bound { *v = Value::Union(1, Box::new(Value::Bytes(bound.clone()))) }
                }
            }
        }
        w.append(Value::Record(f)).map_err(e)?;
    }
    w.into_inner().map_err(e)
}
/// A manifest list, written without the bounds of partition values and then given them.
struct Lists { w: ManifestListWriter, bounds: Vec<Option<Vec<FieldSummary>>> }
impl Lists {
    fn new() -> Self { Lists { w: ManifestListWriter::new(), bounds: vec![] } }
    fn append(&mut self, mut m: sail_iceberg::spec::manifest_list::ManifestFile) {
        self.bounds.push(m.partitions.clone());
        if let Some(p) = &mut m.partitions { for f in p { f.lower_bound_bytes = None; f.upper_bound_bytes = None } }
        self.w.append(m)
    }
    fn to_bytes(&self) -> Result<Vec<u8>, String> { set_bounds(&self.w.to_bytes(FormatVersion::V2)?, &self.bounds) }
}
fn manifest(env: &Env, t: &mut T, tab: &Tab, spec: &PartitionSpec, content: ManifestContentType, files: Vec<DataFile>, k: usize, seq: i64, with_summaries: bool) -> Result<sail_iceberg::spec::manifest_list::ManifestFile, String> {
    let md = ManifestMetadata::new(Arc::new(tab.schema.clone()), 0, spec.clone(), FormatVersion::V2, content.clone());
    let mut w = ManifestWriterBuilder::new(Some(7), None, md).build();
    let s = summaries(tab, spec, &files);
    let mut status = vec![];
    for f in files {
        if t.below(6) == 0 { // a file removed by this commit, whose data is gone
            let mut gone = f.clone();
            gone.file_path = format!("mem://b/{}/gone{k}", tab.name);
            w.add(gone);
            status.push(2);
        }
        w.add(f);
        status.push(if t.below(3) == 0 { 0 } else { 1 });
    }
    let bytes = w.to_avro_bytes_v2()?;
    let bytes = if status.iter().any(|s| *s != 1) { set_status(&bytes, &status, seq)? } else { bytes };
    let len = bytes.len() as i64;
    let rel = format!("metadata/m{k}.avro");
    put(env, format!("{}/{rel}", tab.name), bytes);
    let mut mf = w.into_manifest_file(format!("mem://b/{}/{rel}", tab.name), seq, 7);
    mf.content = content;
    mf.manifest_length = len;
    if with_summaries { mf.partitions = Some(s) }
    Ok(mf)
}
fn contexts(env: &Env, tab: &Tab, p: IcebergTableProvider) -> (SessionContext, SessionContext) {
    let a = SessionContext::new();
    a.register_object_store(&Url::parse("mem://b").unwrap(), env.store.clone());
    let mem = SessionContext::new();
    let all: Vec<usize> = (0..tab.tys.len()).collect();
    mem.register_table("t", Arc::new(MemTable::try_new(tab.arrow.clone(), vec![vec![batch(tab, &all, &tab.rows)]]).unwrap())).unwrap();
    a.register_table("t", Arc::new(p)).unwrap();
    (a, mem)
}
/// A data file that is only described, for the functions that decide from descriptions which files to read.
fn described(tab: &Tab, spec: &PartitionSpec, row: &[V], i: usize) -> DataFile {
    DataFile {
        content: DataContentType::Data, file_path: format!("mem://b/{}/f{i}", tab.name), file_format: sail_iceberg::spec::DataFileFormat::Parquet,
        partition: tuple(tab, spec, row), record_count: 1, file_size_in_bytes: 1,
        column_sizes: HashMap::new(), value_counts: HashMap::new(), null_value_counts: HashMap::new(), nan_value_counts: HashMap::new(), lower_bounds: HashMap::new(), upper_bounds: HashMap::new(),
        block_size_in_bytes: None, key_metadata: None, split_offsets: vec![], equality_ids: vec![], sort_order_id: None, first_row_id: None, partition_spec_id: spec.spec_id(),
        referenced_data_file: None, content_offset: None, content_size_in_bytes: None,
    }
}
fn tuple(tab: &Tab, spec: &PartitionSpec, row: &[V]) -> Vec<Option<Literal>> {
    spec.fields().iter().map(|f| {
        let id = f.source_id().unwrap();
        let c = (0..tab.tys.len()).find(|c| tab.schema.field_id_by_name(COLS[*c]) == Some(id)).unwrap();
        sail_iceberg::utils::transform::apply_transform(f.transform, &Type::Primitive(tab.tys[c].iceberg()), tab.tys[c].literal(&row[c]).map(Literal::Primitive))
    }).collect()
}
/// Which rows satisfy the filter; None if it is not valid over them.
fn satisfying(c: &SessionContext, tab: &Tab, rows: &[Vec<V>], f: &Expr) -> Option<Vec<bool>> {
    use datafusion::common::ToDFSchema;
    let all: Vec<usize> = (0..tab.tys.len()).collect();
    let b = batch(tab, &all, rows);
    let e = c.create_physical_expr(f.clone(), &tab.arrow.clone().to_dfschema().ok()?).ok()?;
    let a = e.evaluate(&b).ok()?.into_array(rows.len()).ok()?;
    let a = a.as_any().downcast_ref::<datafusion::arrow::array::BooleanArray>()?.clone();
    Some((0..rows.len()).map(|i| a.is_valid(i) && a.value(i)).collect())
}
fn rand_rows(t: &mut T, tab: &Tab, cols: &[usize], n: u64) -> Vec<Vec<V>> {
    (0..n).map(|_| (0..tab.tys.len()).map(|c| if !cols.contains(&c) || t.below(6) == 0 { V::Null } else { t.pick(&tab.pools[c]).clone() }).collect()).collect()
}
/// The rows of `rows` that went into `df`: those whose partition tuple is the file's.
fn rows_of(tab: &Tab, spec: &PartitionSpec, df: &DataFile, rows: &[Vec<V>]) -> Vec<Vec<V>> {
    let unbound = UnboundPartitionSpec { fields: spec.fields().iter().map(|f| UnboundPartitionField { source_id: f.source_id().unwrap(), name: f.name.clone(), transform: f.transform }).collect() };
    rows.iter().filter(|r| {
        let vals = tuple(tab, spec, r);
        // decimal partition values are recorded as null (a known finding), so the path has to tell them apart
        let masked: Vec<_> = vals.iter().map(|v| if matches!(v, Some(Literal::Primitive(PrimitiveLiteral::Int128(_)))) { None } else { v.clone() }).collect();
        if vals == df.partition && vals == masked && !spec.fields().iter().any(|f| { let id = f.source_id().unwrap(); (0..tab.tys.len()).any(|c| matches!(tab.tys[c], Ty::Dec(..)) && tab.schema.field_id_by_name(COLS[c]) == Some(id)) }) { return true }
        let dir = sail_iceberg::operations::write::partition::build_partition_dir(&unbound, &tab.schema, &vals).unwrap();
        (df.partition == vals || df.partition == masked) && df.file_path.contains(&format!("/{dir}/"))
    }).cloned().collect()
}
/// Writes a random history of appends and returns the table's provider.
fn rand_history(env: &Env, t: &mut T, tab: &mut Tab, o: &Opts) -> Result<IcebergTableProvider, String> {
    let appends = 1 + t.below(4);
    let late = if o.late_column && t.below(3) == 0 { Some(tab.tys.len() - 1) } else { None };
    let mut list = Lists::new();
    for k in 0..appends {
        let spec = tab.specs[if k * 2 < appends { 0 } else { tab.specs.len() - 1 }].clone();
        let cols: Vec<usize> = (0..tab.tys.len()).filter(|c| late != Some(*c) || k > 0).collect();
        // a column that does not exist yet cannot be partitioned by
        let cols = if spec.fields().iter().any(|f| late.map(|l| tab.schema.field_id_by_name(COLS[l])) == Some(f.source_id().ok())) { (0..tab.tys.len()).collect() } else { cols };
        let n = 1 + t.below(9);
        let rows = rand_rows(t, tab, &cols, n);
        let mut files = write_rows(env, t, tab, o, &spec, &cols, &rows)?;
        let mut count = 0;
        for f in files.iter_mut() {
            let rs = rows_of(tab, &spec, f, &rows);
            vcheck!(rs.len() as u64 == f.record_count, "a file of partition {:?} holds {} rows, {} rows of {rows:?} belong there", f.partition, f.record_count, rs.len());
            count += rs.len();
            stats(t, tab, o, f, &rs);
            tab.log.push(format!("spec {} file {:?}: {:?}", spec.spec_id(), f.partition, rs));
        }
        vcheck!(count == rows.len(), "{} rows were written, the files hold {count}", rows.len());
        tab.rows.extend(rows);
        // one manifest per append, or one per file
        let with = o.summaries && t.below(4) != 0;
        if t.below(3) == 0 {
            for (i, f) in files.into_iter().enumerate() { list.append(manifest(env, t, tab, &spec, ManifestContentType::Data, vec![f], (k * 100) as usize + i, k as i64 + 1, with)?) }
        } else { list.append(manifest(env, t, tab, &spec, ManifestContentType::Data, files, (k * 100) as usize, k as i64 + 1, with)?) }
    }
    put(env, format!("{}/metadata/list.avro", tab.name), list.to_bytes()?);
    let d = tab.specs[t.below(tab.specs.len() as u64) as usize].spec_id();
    provider(tab, &format!("mem://b/{}/metadata/list.avro", tab.name), d)
}
