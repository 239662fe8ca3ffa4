//@crate sail_iceberg crates/sail-iceberg
//@extern datafusion
//@extern ordered_float
//@include lib/iceberg_ref.rs
use std::sync::Arc;
use datafusion::arrow::array::*;
use datafusion::arrow::datatypes::{DataType, Field, Schema as ArrowSchema};
use sail_iceberg::operations::write::partition::split_record_batch_by_partition;
use sail_iceberg::spec::partition::{UnboundPartitionField, UnboundPartitionSpec as PartitionSpec};
use sail_iceberg::spec::schema::Schema as IcebergSchema;
fn nf(id: i32, name: &str, p: PT) -> Arc<NestedField> { Arc::new(NestedField::optional(id, name, Type::Primitive(p))) }
fn schema_of(f: Vec<Arc<NestedField>>) -> IcebergSchema { IcebergSchema::builder().with_fields(f).build().unwrap() }
fn spec_of(f: Vec<(i32, Transform)>) -> PartitionSpec {
    PartitionSpec { fields: f.into_iter().enumerate().map(|(i, (source_id, transform))| UnboundPartitionField { source_id, name: format!("p{i}"), transform }).collect() }
}
fn prim(f: &NestedField) -> &PT { match &*f.field_type { Type::Primitive(p) => p, _ => unreachable!() } }
fn run(b: &RecordBatch, spec: &PartitionSpec, sch: &IcebergSchema, vals: &[Vec<Option<P>>]) -> Result<(), String> {
    let out = split_record_batch_by_partition(b, spec, sch)?;
    let mut seen = vec![false; b.num_rows()]; let mut keys = vec![];
    for o in &out {
        vcheck!(o.record_batch.num_rows() > 0, "empty group"); vcheck!(!keys.contains(&o.partition_values), "two groups for {:?}", o.partition_values); keys.push(o.partition_values.clone());
        let ids = o.record_batch.column(0).as_any().downcast_ref::<Int32Array>().unwrap();
        let mut last = -1;
        for k in 0..ids.len() { let i = ids.value(k); vcheck!(i > last, "rows reordered"); last = i; let i = i as usize; vcheck!(!seen[i], "row {i} twice"); seen[i] = true;
            for c in 1..b.num_columns() { vcheck!(o.record_batch.column(c).slice(k, 1).to_data() == b.column(c).slice(i, 1).to_data(), "row {i} column {c} changed"); }
            let w: Vec<Option<Literal>> = spec.fields.iter().map(|f| { let id = f.source_id; let c = sch.fields().iter().position(|x| x.id == id).unwrap(); let p = prim(&sch.fields()[c]);
                vals[c][i].as_ref().and_then(|v| want(f.transform, p, v)).map(Literal::Primitive) }).collect();
            vcheck!(o.partition_values == w, "row {i} filed under {:?}, want {w:?}", o.partition_values); }
        vcheck!(spec.fields.is_empty() || o.partition_dir.split('/').count() >= spec.fields.len(), "dir {}", o.partition_dir);
    }
    vcheck!(seen.iter().all(|x| *x), "a row is lost"); Ok(())
}
fn main() {
    let mut t = T::new();
    let types = [PT::Boolean, PT::Int, PT::Long, PT::Float, PT::Double, PT::Decimal { precision: 38, scale: 2 }, PT::Date, PT::Timestamp, PT::Timestamptz, PT::TimestampNs, PT::String];
    for _ in 0..t.n(4000) {
        let n = t.below(9) as usize; let nc = 1 + t.below(3) as usize;
        let mut fields = vec![Field::new("rowid", DataType::Int32, false)]; let mut cols: Vec<ArrayRef> = vec![Arc::new(Int32Array::from((0..n as i32).collect::<Vec<_>>()))];
        let mut sch = vec![nf(900, "rowid", PT::Int)]; let mut vals: Vec<Vec<Option<P>>> = vec![(0..n as i32).map(|i| Some(P::Int(i))).collect()];
        for c in 0..nc {
            let p = t.pick(&types).clone();
            let v: Vec<Option<P>> = (0..n).map(|_| if t.below(6) == 0 { None } else { Some(match &p {
                PT::Boolean => P::Boolean(t.bool()), PT::Int => P::Int(t.rng(-20, 20) as i32), PT::Date => P::Int(t.rng(-900, 900) as i32), PT::Long => P::Long(t.rng(-20, 20)),
                PT::Float => P::Float(OrderedFloat(t.rng(-2, 2) as f32)), PT::Double => P::Double(OrderedFloat(t.rng(-2, 2) as f64)), PT::Decimal { .. } => P::Int128(t.rng(-500, 500) as i128),
                PT::String => P::String(t.pick(&["", "a", "ab", "abc", "null", "é", "x/y"]).to_string()),
                PT::TimestampNs | PT::TimestamptzNs => P::Long(t.rng(-200_000_000, 200_000_000) * 1_000_000_001), _ => P::Long(t.rng(-200_000_000, 200_000_000) * 1_000_001) }) }).collect();
            macro_rules! col { ($a:ty, $k:ident) => { Arc::new(v.iter().map(|x| match x { Some(P::$k(y)) => Some(*y), _ => None }).collect::<$a>()) as ArrayRef } }
            let a: ArrayRef = match &p { PT::Boolean => col!(BooleanArray, Boolean), PT::Int => col!(Int32Array, Int), PT::Date => col!(Date32Array, Int), PT::Long => col!(Int64Array, Long),
                PT::Float => Arc::new(v.iter().map(|x| match x { Some(P::Float(y)) => Some(y.0), _ => None }).collect::<Float32Array>()), PT::Double => Arc::new(v.iter().map(|x| match x { Some(P::Double(y)) => Some(y.0), _ => None }).collect::<Float64Array>()),
                PT::Decimal { .. } => Arc::new(v.iter().map(|x| match x { Some(P::Int128(y)) => Some(*y), _ => None }).collect::<Decimal128Array>().with_precision_and_scale(38, 2).unwrap()),
                PT::String => Arc::new(v.iter().map(|x| match x { Some(P::String(y)) => Some(y.clone()), _ => None }).collect::<StringArray>()),
                PT::Timestamp => col!(TimestampMicrosecondArray, Long), PT::Timestamptz => Arc::new(v.iter().map(|x| match x { Some(P::Long(y)) => Some(*y), _ => None }).collect::<TimestampMicrosecondArray>().with_timezone("UTC")),
                PT::TimestampNs => col!(TimestampNanosecondArray, Long), _ => unreachable!() };
            fields.push(Field::new(format!("c{c}"), a.data_type().clone(), true)); cols.push(a); sch.push(nf(10 + c as i32, &format!("c{c}"), p)); vals.push(v);
        }
        let batch = RecordBatch::try_new(Arc::new(ArrowSchema::new(fields)), cols).unwrap();
        let mut pf = vec![];
        for _ in 0..t.below(4) { let c = 1 + t.below(nc as u64) as usize; let p = prim(&sch[c]);
            let w = *t.pick(&[1u32, 2, 3, 10]); let tr = *t.pick(&[TR::Identity, TR::Bucket(w), TR::Truncate(w), TR::Year, TR::Month, TR::Day, TR::Hour, TR::Void]);
            if legal(tr, p) { pf.push((sch[c].id, tr)); } }
        let (sch, spec) = (schema_of(sch), spec_of(pf));
        let d = || format!("fields [{}] columns {:?}", spec.fields.iter().map(|f| format!("{:?}({})", f.transform, f.source_id)).collect::<Vec<_>>().join(", "), &vals[1..]);
        t.case("split_record_batch_by_partition", d, || run(&batch, &spec, &sch, &vals));
    }
    let sch = schema_of(vec![nf(900, "rowid", PT::Int), nf(1, "d", PT::Decimal { precision: 10, scale: 2 })]);
    let b = RecordBatch::try_new(Arc::new(ArrowSchema::new(vec![Field::new("rowid", DataType::Int32, false), Field::new("d", DataType::Decimal128(10, 2), true)])),
        vec![Arc::new(Int32Array::from(vec![0])), Arc::new(Decimal128Array::from(vec![150i128]).with_precision_and_scale(10, 2).unwrap())]).unwrap();
    for tr in [TR::Identity, TR::Bucket(4), TR::Truncate(10)] {
        let spec = spec_of(vec![(1, tr)]);
        t.case("split_decimal", || format!("one row with the decimal 1.50, partitioned by {tr:?}"), || run(&b, &spec, &sch, &[vec![Some(P::Int(0))], vec![Some(P::Int128(150))]]));
    }
    t.finish()
}
