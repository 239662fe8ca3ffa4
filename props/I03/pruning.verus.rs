use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
//@include iceberg_transform.rs
//@include iceberg_order.rs
// ---- stand-ins
#[verifier::external_body]
fn apply_transform(transform: Transform, field_type: &Type, value: Option<Literal>) -> (r: Option<Literal>)
    ensures legal(transform, *field_type, value) ==> result_ok(transform, *field_type, value, r) // property I01
{ unimplemented!() }
impl Clone for PrimitiveLiteral {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
fn vx_disc(v: &PrimitiveLiteral) -> (r: u8) ensures r == kind(*v) { unimplemented!() }
#[verifier::external_body]
fn vx_any<F: Fn(&PrimitiveLiteral) -> bool>(v: &Vec<PrimitiveLiteral>, f: F) -> (r: bool)
    requires forall|x: &PrimitiveLiteral| f.requires((x,)),
    ensures r ==> exists|i: int| 0 <= i < v@.len() && f.ensures((&#[trigger] v@[i],), true),
        !r ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((&#[trigger] v@[i],), false),
{ unimplemented!() }
#[verifier::external_body]
struct ScalarValue { x: () }
uninterp spec fn sv_lit(v: ScalarValue) -> Option<PrimitiveLiteral>; // the value of a literal, in the representation of column values
impl ScalarValue {
    #[verifier::external_body]
    fn is_null(&self) -> (r: bool) ensures r ==> sv_lit(*self) is None { unimplemented!() }
}
#[verifier::external_body]
fn scalar_to_primitive_literal(scalar: &ScalarValue) -> (r: core::result::Result<PrimitiveLiteral, String>) ensures r is Ok ==> sv_lit(*scalar) == Some(r->Ok_0) { unimplemented!() }
struct Column { name: String, rest: Nested }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
enum Operator { Eq, NotEq, Lt, LtEq, Gt, GtEq, And, Or, Plus, Other }
struct BinaryExpr { left: Box<Expr>, op: Operator, right: Box<Expr> }
struct Alias { expr: Box<Expr>, rest: Nested }
struct Cast { expr: Box<Expr>, rest: Nested }
struct InList { expr: Box<Expr>, list: Vec<Expr>, negated: bool }
enum Expr { Column(Column), Literal(ScalarValue, Nested), BinaryExpr(BinaryExpr), Alias(Alias), Cast(Cast), TryCast(Cast), InList(InList), Not(Box<Expr>), Negative(Box<Expr>), Other(Nested) }
struct NestedField { id: i32, name: String, field_type: Box<Type>, rest: Nested }
spec fn ftype(f: NestedField) -> Type { *f.field_type }
#[verifier::external_body]
struct Schema { x: () }
impl Schema {
    uninterp spec fn by_name(&self, n: Seq<char>) -> Option<NestedField>;
    uninterp spec fn by_id(&self, id: i32) -> Option<NestedField>;
    #[verifier::external_body]
    fn field_by_name(&self, n: &str) -> (r: Option<&NestedField>)
        ensures r is Some ==> self.by_name(n@) == Some(*r->Some_0) && self.by_id(r->Some_0.id) == Some(*r->Some_0)
    { unimplemented!() }
    #[verifier::external_body]
    fn field_by_id(&self, id: i32) -> (r: Option<&NestedField>) ensures r is Some ==> self.by_id(id) == Some(*r->Some_0) && r->Some_0.id == id { unimplemented!() }
}
struct PartitionField { source_id: i32, field_id: i32, name: String, transform: Transform }
struct PartitionSpec { fields: Vec<PartitionField>, rest: Nested }
impl PartitionSpec {
    fn fields(&self) -> (r: &Vec<PartitionField>) ensures *r == self.fields { &self.fields }
}
#[verifier::external_body]
fn vx_enumerate<T>(v: &Vec<T>) -> (r: Vec<(usize, &T)>)
    ensures r@.len() == v@.len(), v@.len() <= usize::MAX, forall|i: int| 0 <= i < v@.len() ==> #[trigger] r@[i] == (i as usize, &v@[i])
{ unimplemented!() }
#[verifier::external_body]
fn vx_filter2<'a, T, F: Fn(&&'a T) -> bool, G: Fn(&&'a T) -> bool>(v: &'a Vec<T>, f: F, g: G) -> (r: Vec<&'a T>)
    requires forall|x: &&T| f.requires((x,)), forall|x: &&T| g.requires((x,)),
    ensures forall|i: int| 0 <= i < v@.len() ==> (exists|j: int| 0 <= j < r@.len() && *#[trigger] r@[j] == v@[i]) || f.ensures((&&#[trigger] v@[i],), false) || g.ensures((&&v@[i],), false),
{ unimplemented!() }
#[verifier::external_body]
fn vx_into_filter<T, F: Fn(&T) -> bool>(v: Vec<T>, f: F) -> (r: Vec<T>)
    requires forall|x: &T| f.requires((x,)),
    ensures forall|i: int| 0 <= i < v@.len() ==> r@.contains(#[trigger] v@[i]) || f.ensures((&v@[i],), false),
{ unimplemented!() }
#[verifier::external_body]
fn vx_all<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: bool)
    requires forall|x: &T| f.requires((x,)),
    ensures !r ==> exists|i: int| 0 <= i < v@.len() && f.ensures((&#[trigger] v@[i],), false),
{ unimplemented!() }
#[verifier::external_body]
fn vx_opt_filter<T, F: Fn(&T) -> bool>(v: Option<T>, f: F) -> (r: Option<T>)
    requires forall|x: &T| f.requires((x,)),
    ensures r is Some ==> v == r && f.ensures((&v->Some_0,), true),
{ unimplemented!() }
struct DataFile { partition: Vec<Option<Literal>>, rest: Nested }
impl DataFile { fn partition(&self) -> (r: &Vec<Option<Literal>>) ensures *r == self.partition { &self.partition } }
struct StructType { fields: Vec<NestedField> }
impl StructType { fn fields(&self) -> (r: &Vec<NestedField>) ensures *r == self.fields { &self.fields } }
impl PartitionSpec {
    uninterp spec fn ptype(&self, s: Schema) -> Seq<NestedField>; // the types of the partition values
    #[verifier::external_body]
    fn partition_type(&self, s: &Schema) -> (r: core::result::Result<StructType, String>) ensures r is Ok ==> r->Ok_0.fields@ == self.ptype(*s) { unimplemented!() }
}
impl PrimitiveType {
    uninterp spec fn decoded(&self, b: Seq<u8>) -> PrimitiveLiteral; // the value a bound stands for
    #[verifier::external_body]
    fn literal_from_bytes(&self, b: &Vec<u8>) -> (r: core::result::Result<PrimitiveLiteral, String>) ensures r is Ok ==> r->Ok_0 == self.decoded(b@) { unimplemented!() }
}
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
enum ManifestContentType { Data, Deletes }
struct FieldSummary { contains_null: bool, contains_nan: Option<bool>, lower_bound_bytes: Option<Vec<u8>>, upper_bound_bytes: Option<Vec<u8>> }
struct ManifestFile { partition_spec_id: i32, content: ManifestContentType, partitions: Option<Vec<FieldSummary>>, rest: Nested }
struct ManifestList { entries: Vec<ManifestFile> }
impl ManifestList { fn entries(&self) -> (r: &Vec<ManifestFile>) ensures *r == self.entries { &self.entries } }
uninterp spec fn is_nan(v: PrimitiveLiteral) -> bool;
// what the format promises of a partition summary: bounds include every value but NaN, which is larger than any other
spec fn summary_ok(s: FieldSummary, p: PrimitiveType, v: PrimitiveLiteral) -> bool {
    compat(p, v) && (is_nan(v) ==> v is Float || v is Double) && (s.contains_nan == Some(false) ==> !is_nan(v))
        && (s.lower_bound_bytes is Some ==> le(p.decoded(s.lower_bound_bytes->Some_0@), v))
        && (s.upper_bound_bytes is Some && !is_nan(v) ==> le(v, p.decoded(s.upper_bound_bytes->Some_0@)))
}
// a writer that records partition summaries gives every non-null value a partition value
spec fn in_manifest(m: ManifestFile, s: Schema, ps: PartitionSpec, row: Row, t: Seq<Option<Literal>>) -> bool {
    m.partitions is Some ==> forall|k: int| 0 <= k < m.partitions->Some_0@.len() && k < t.len() && k < ps.ptype(s).len() && ftype(ps.ptype(s)[k]) is Primitive ==>
        (match #[trigger] t[k] { Some(Literal::Primitive(v)) => summary_ok(m.partitions->Some_0@[k], ftype(ps.ptype(s)[k])->Primitive_0, v), Some(_) => false, None => true })
            && (!m.partitions->Some_0@[k].contains_null ==> t[k] is Some)
            && (k < ps.fields@.len() && t[k] is None ==> row(ps.fields@[k].source_id) is None)
}
#[verifier::external_body]
fn vx_filter<'a, T, F: Fn(&&'a T) -> bool>(v: &'a Vec<T>, f: F) -> (r: Vec<&'a T>)
    requires forall|x: &&T| f.requires((x,)),
    ensures forall|j: int| 0 <= j < r@.len() ==> v@.contains(*#[trigger] r@[j]) && f.ensures((&r@[j],), true),
{ unimplemented!() }
trait VxDefault: Sized { spec fn is_default(v: Self) -> bool; }
impl VxDefault for Vec<PrimitiveLiteral> { spec fn is_default(v: Self) -> bool { v@.len() == 0 } }
impl VxDefault for RangeConstraint { spec fn is_default(v: Self) -> bool { v.min is None && v.max is None } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
struct HashMap<K, V> { x: Option<(K, V)> }
impl<K, V> HashMap<K, V> {
    uninterp spec fn m(&self) -> Map<K, V>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r.m() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(v) => self.m().contains_key(*k) && self.m()[*k] == *v, None => !self.m().contains_key(*k) } { unimplemented!() }
    #[verifier::external_body]
    fn vx_entry(&mut self, k: K) -> (r: &mut V) where V: VxDefault
        ensures old(self).m().contains_key(k) ==> *r == old(self).m()[k], !old(self).m().contains_key(k) ==> V::is_default(*r),
            final(self).m() == old(self).m().insert(k, *final(r)),
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_extend(v: &mut Vec<PrimitiveLiteral>, o: Vec<PrimitiveLiteral>) ensures final(v)@ == old(v)@ + o@ { unimplemented!() }
fn vx_then_some<T>(b: bool, v: T) -> (r: Option<T>) ensures r == (if b { Some(v) } else { None }) { if b { Some(v) } else { None } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
struct HashSet<K> { x: Option<K> }
impl HashSet<PrimitiveLiteral> {
    uninterp spec fn s(&self) -> Seq<PrimitiveLiteral>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r.s().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, v: PrimitiveLiteral) -> (r: bool)
        ensures r ==> final(self).s() == old(self).s().push(v),
            !r ==> final(self).s() == old(self).s() && exists|j: int| 0 <= j < old(self).s().len() && eqv(#[trigger] old(self).s()[j], v),
    { unimplemented!() }
}
impl Type {
    #[verifier::external_body]
    fn as_primitive_type(&self) -> (r: Option<&PrimitiveType>) ensures r == (match *self { Type::Primitive(p) => Some(&p), _ => None }) { unimplemented!() }
}
spec fn vx_fst(o: Option<(PrimitiveLiteral, bool)>) -> Option<PrimitiveLiteral> { match o { Some(x) => Some(x.0), None => None } }
proof fn lemma_eqv(a: PrimitiveLiteral, b: PrimitiveLiteral, c: PrimitiveLiteral) requires eqv(a, b), eqv(b, c), ensures eqv(a, c) { order_facts(); }
// ---- what the constraints mean
spec fn lit(x: PrimitiveLiteral) -> Option<Literal> { Some(Literal::Primitive(x)) }
spec fn opt(x: Option<PrimitiveLiteral>) -> Option<Literal> { match x { Some(v) => lit(v), None => None } }
spec fn above(x: PrimitiveLiteral, b: (PrimitiveLiteral, bool)) -> bool { if b.1 { le(b.0, x) } else { !le(x, b.0) } }
spec fn below(x: PrimitiveLiteral, b: (PrimitiveLiteral, bool)) -> bool { if b.1 { le(x, b.0) } else { !le(b.0, x) } }
spec fn in_range(x: PrimitiveLiteral, r: RangeConstraint) -> bool {
    (r.min is Some ==> above(x, r.min->Some_0)) && (r.max is Some ==> below(x, r.max->Some_0))
}
spec fn admits(c: PartitionConstraint, x: PrimitiveLiteral) -> bool {
    match c {
        PartitionConstraint::Eq(v) => eqv(v, x),
        PartitionConstraint::In(vs) => exists|i: int| 0 <= i < vs@.len() && eqv(#[trigger] vs@[i], x),
        PartitionConstraint::Range(r) => in_range(x, r),
    }
}
spec fn within(x: PrimitiveLiteral, lower: Option<&PrimitiveLiteral>, upper: Option<&PrimitiveLiteral>) -> bool {
    (lower is Some ==> le(*lower->Some_0, x)) && (upper is Some ==> le(x, *upper->Some_0))
}
spec fn adjacent(l: PrimitiveLiteral, m: PrimitiveLiteral) -> bool {
    l == m || match (l, m) {
        (PrimitiveLiteral::Int(a), PrimitiveLiteral::Int(b)) => -1 <= a - b <= 1,
        (PrimitiveLiteral::Long(a), PrimitiveLiteral::Long(b)) => -1 <= a - b <= 1,
        _ => false,
    }
}
spec fn row(t: Transform, ty: Type, x: PrimitiveLiteral, p: PrimitiveLiteral) -> bool { legal(t, ty, lit(x)) && result_ok(t, ty, lit(x), lit(p)) }
spec fn order(t: Transform) -> bool { !(t is Void || t is Bucket || t is Unknown) }
spec fn bound_sound(t: Transform, ty: Type, l: PrimitiveLiteral, lower: bool, inclusive: bool, r: Option<PrimitiveLiteral>) -> bool {
    (r is Some && legal(t, ty, lit(l))) ==> forall|x: PrimitiveLiteral, p: PrimitiveLiteral| #[trigger] row(t, ty, x, p) && (if lower { above(x, (l, inclusive)) } else { below(x, (l, inclusive)) })
        ==> if lower { le(r->Some_0, p) } else { le(p, r->Some_0) }
}
spec fn range_legal(t: Transform, ty: Type, r: RangeConstraint) -> bool {
    (r.min is Some ==> legal(t, ty, lit(r.min->Some_0.0))) && (r.max is Some ==> legal(t, ty, lit(r.max->Some_0.0)))
}
// the constraint on the partition value that a literal, list or range on the column is turned into holds for every row satisfying the latter
proof fn lemma_mono(t: Transform, ty: Type, x: PrimitiveLiteral, y: PrimitiveLiteral, p: PrimitiveLiteral, q: PrimitiveLiteral)
    requires order(t), row(t, ty, x, p), row(t, ty, y, q), le(x, y),
    ensures le(p, q)
{
    match (x, y) {
        (PrimitiveLiteral::Int(a), PrimitiveLiteral::Int(b)) => lemma_mono_int(t, ty, a as int, b as int, x, y, p, q),
        (PrimitiveLiteral::Long(a), PrimitiveLiteral::Long(b)) => lemma_mono_long(t, ty, a, b, x, y, p, q),
        (PrimitiveLiteral::Int128(a), PrimitiveLiteral::Int128(b)) => { if let Transform::Truncate(w) = t { thm_truncate_monotone(a as int, b as int, w as int); } }
        (PrimitiveLiteral::String(a), PrimitiveLiteral::String(b)) => { if let Transform::Truncate(w) = t { lemma_first_mono(a@, b@, w as int); } }
        _ => {}
    }
}
proof fn lemma_mono_int(t: Transform, ty: Type, a: int, b: int, x: PrimitiveLiteral, y: PrimitiveLiteral, p: PrimitiveLiteral, q: PrimitiveLiteral)
    requires order(t), row(t, ty, x, p), row(t, ty, y, q), le(x, y), x is Int, y is Int, a == x->Int_0, b == y->Int_0,
    ensures le(p, q)
{
    match t {
        Transform::Truncate(w) => thm_truncate_monotone(a, b, w as int),
        Transform::Year => thm_year_monotone(a, b, 1970 + p->Int_0, 1970 + q->Int_0),
        Transform::Month => thm_month_monotone(a, b, p->Int_0 as int, q->Int_0 as int),
        _ => {}
    }
}
proof fn lemma_mono_long(t: Transform, ty: Type, a: i64, b: i64, x: PrimitiveLiteral, y: PrimitiveLiteral, p: PrimitiveLiteral, q: PrimitiveLiteral)
    requires order(t), row(t, ty, x, p), row(t, ty, y, q), le(x, y), x == PrimitiveLiteral::Long(a), y == PrimitiveLiteral::Long(b),
    ensures le(p, q)
{
    let pt = ty->Primitive_0;
    vstd::arithmetic::div_mod::lemma_div_is_ordered(a as int, b as int, 1000);
    let (ma, mb) = (micros(pt, a as int), micros(pt, b as int));
    assert(ma <= mb);
    vstd::arithmetic::div_mod::lemma_div_is_ordered(ma, mb, DAY_US);
    vstd::arithmetic::div_mod::lemma_div_is_ordered(ma, mb, 3_600_000_000);
    match t {
        Transform::Truncate(w) => thm_truncate_monotone(a as int, b as int, w as int),
        Transform::Year => thm_year_monotone(ma / DAY_US, mb / DAY_US, 1970 + p->Int_0, 1970 + q->Int_0),
        Transform::Month => thm_month_monotone(ma / DAY_US, mb / DAY_US, p->Int_0 as int, q->Int_0 as int),
        _ => {}
    }
}
proof fn lemma_mstart_step(n: int) ensures mstart(1970 + n / 12, n % 12 + 1) <= mstart(1970 + (n + 1) / 12, (n + 1) % 12) {
    if n % 12 == 11 { assert((n + 1) / 12 == n / 12 + 1 && (n + 1) % 12 == 0); lemma_jan1_step(1970 + n / 12); }
    else { assert((n + 1) / 12 == n / 12 && (n + 1) % 12 == n % 12 + 1); }
}
proof fn lemma_mstart_mono(m: int, n: int)
    requires m < n,
    ensures mstart(1970 + m / 12, m % 12 + 1) <= mstart(1970 + n / 12, n % 12)
    decreases n - m
{
    lemma_mstart_step(m);
    if m + 1 < n { lemma_mstart_mono(m + 1, n); let k = m + 1; assert(0 <= k % 12 < 12); }
}
proof fn thm_month_monotone(a: int, b: int, m: int, n: int)
    requires a <= b, month_is(m, a), month_is(n, b),
    ensures m <= n
{
    if n < m { lemma_mstart_mono(n, m); }
}
// a bound moved to an adjacent value and then transformed
proof fn lemma_bound(t: Transform, ty: Type, l: PrimitiveLiteral, m: PrimitiveLiteral, lower: bool, inclusive: bool)
    requires order(t), adjacent(l, m),
        forall|x: PrimitiveLiteral| ty is Primitive && #[trigger] kind_ok(ty->Primitive_0, x) && (if lower { above(x, (l, inclusive)) } else { below(x, (l, inclusive)) })
            ==> if lower { le(m, x) } else { le(x, m) },
    ensures forall|r: Option<PrimitiveLiteral>| (legal(t, ty, lit(m)) ==> #[trigger] result_ok(t, ty, lit(m), opt(r))) ==> bound_sound(t, ty, l, lower, inclusive, r),
{
    assert forall|r: Option<PrimitiveLiteral>| (legal(t, ty, lit(m)) ==> #[trigger] result_ok(t, ty, lit(m), opt(r))) implies bound_sound(t, ty, l, lower, inclusive, r) by {
        if r is Some && legal(t, ty, lit(l)) {
            assert forall|x: PrimitiveLiteral, p: PrimitiveLiteral| #[trigger] row(t, ty, x, p) && (if lower { above(x, (l, inclusive)) } else { below(x, (l, inclusive)) })
                implies if lower { le(r->Some_0, p) } else { le(p, r->Some_0) } by
            {
                assert(kind_ok(ty->Primitive_0, x));
                if lower { lemma_mono(t, ty, m, x, r->Some_0, p); } else { lemma_mono(t, ty, x, m, p, r->Some_0); }
            }
        }
    }
}
// two equal values have equal transforms
proof fn lemma_same(t: Transform, ty: Type, x: PrimitiveLiteral, y: PrimitiveLiteral, p: PrimitiveLiteral, q: PrimitiveLiteral)
    requires row(t, ty, x, p), row(t, ty, y, q), eqv(x, y), !(t is Unknown),
    ensures eqv(p, q)
{
    if order(t) { lemma_mono(t, ty, x, y, p, q); lemma_mono(t, ty, y, x, q, p); }
    else if t is Bucket {
        match (x, y) {
            (PrimitiveLiteral::String(a), PrimitiveLiteral::String(b)) => lemma_lexc_antisym(a@, b@),
            (PrimitiveLiteral::Binary(a), PrimitiveLiteral::Binary(b)) => lemma_lexb_antisym(a@, b@),
            _ => {}
        }
    }
}
proof fn thm_eq(t: Transform, ty: Type, l: PrimitiveLiteral, v: PrimitiveLiteral, x: PrimitiveLiteral, p: PrimitiveLiteral)
    requires row(t, ty, l, v), row(t, ty, x, p), eqv(l, x), !(t is Unknown),
    ensures admits(PartitionConstraint::Eq(v), p)
{ lemma_same(t, ty, l, x, v, p); }
// ---- what a filter means for a row: the values of its columns by field id
type Row = spec_fn(i32) -> Option<PrimitiveLiteral>;
uninterp spec fn other_val(e: Expr, row: Row) -> Option<PrimitiveLiteral>;
uninterp spec fn other_truth(e: Expr, row: Row) -> bool;
uninterp spec fn mixed(op: Operator, a: PrimitiveLiteral, b: PrimitiveLiteral) -> bool;
spec fn val(s: Schema, e: Expr, row: Row) -> Option<PrimitiveLiteral> decreases e {
    match e {
        Expr::Column(c) => match s.by_name(c.name@) { Some(f) => row(f.id), None => other_val(e, row) },
        Expr::Literal(v, _) => sv_lit(v),
        Expr::Alias(a) => val(s, *a.expr, row),
        _ => other_val(e, row),
    }
}
spec fn is_cmp(op: Operator) -> bool { op is Eq || op is Lt || op is LtEq || op is Gt || op is GtEq }
spec fn cmp_true(op: Operator, a: Option<PrimitiveLiteral>, b: Option<PrimitiveLiteral>) -> bool {
    a is Some && b is Some && {
        let (x, y) = (a->Some_0, b->Some_0);
        if kind(x) != kind(y) { mixed(op, x, y) } else {
            match op { Operator::Eq => eqv(x, y), Operator::Lt => !le(y, x), Operator::LtEq => le(x, y), Operator::Gt => !le(x, y), _ => le(y, x) }
        }
    }
}
// what a comparison that holds tells about values of the same kind
spec fn cmp_known(op: Operator, a: Option<PrimitiveLiteral>, b: Option<PrimitiveLiteral>) -> bool {
    a is Some && b is Some && (kind(a->Some_0) == kind(b->Some_0) ==> cmp_true(op, a, b))
}
spec fn truth(s: Schema, e: Expr, row: Row) -> bool decreases e {
    match e {
        Expr::Alias(a) => truth(s, *a.expr, row),
        Expr::BinaryExpr(b) => if b.op is And { truth(s, *b.left, row) && truth(s, *b.right, row) }
            else if is_cmp(b.op) { cmp_true(b.op, val(s, *b.left, row), val(s, *b.right, row)) } else { other_truth(e, row) },
        Expr::InList(i) => if i.negated { other_truth(e, row) } else { exists|j: int| 0 <= j < i.list@.len() && cmp_true(Operator::Eq, val(s, *i.expr, row), val(s, #[trigger] i.list@[j], row)) },
        _ => other_truth(e, row),
    }
}
spec fn height(e: Expr) -> nat decreases e {
    match e {
        Expr::Alias(a) => 1 + height(*a.expr),
        Expr::Cast(c) | Expr::TryCast(c) => 1 + height(*c.expr),
        Expr::BinaryExpr(b) => 1 + height(*b.left) + height(*b.right),
        Expr::Not(x) | Expr::Negative(x) => 1 + height(*x),
        Expr::InList(i) => 1 + height(*i.expr),
        _ => 0,
    }
}
spec fn same_expr(a: Expr, b: Expr) -> bool {
    (forall|s: Schema, row: Row| #![trigger val(s, a, row)] #![trigger val(s, b, row)] val(s, a, row) == val(s, b, row))
        && (forall|s: Schema, row: Row| #![trigger truth(s, a, row)] #![trigger truth(s, b, row)] truth(s, a, row) == truth(s, b, row))
}
spec fn compat(p: PrimitiveType, v: PrimitiveLiteral) -> bool {
    match p {
        PrimitiveType::Boolean => v is Boolean,
        PrimitiveType::Int | PrimitiveType::Date => v is Int,
        PrimitiveType::Long | PrimitiveType::Time | PrimitiveType::Timestamp | PrimitiveType::Timestamptz | PrimitiveType::TimestampNs | PrimitiveType::TimestamptzNs => v is Long,
        PrimitiveType::Float => v is Float,
        PrimitiveType::Double => v is Double,
        PrimitiveType::Decimal { .. } => v is Int128,
        PrimitiveType::String => v is String,
        PrimitiveType::Uuid => v is UInt128,
        PrimitiveType::Unknown => false,
        _ => v is Binary,
    }
}
// the values of a row have the kinds of their columns
spec fn typed(s: Schema, row: Row) -> bool {
    forall|id: i32| (#[trigger] s.by_id(id)) is Some && row(id) is Some && ftype(s.by_id(id)->Some_0) is Primitive ==> compat(ftype(s.by_id(id)->Some_0)->Primitive_0, row(id)->Some_0)
}
spec fn eq_sound(acc: Seq<(i32, PrimitiveLiteral)>, row: Row) -> bool {
    forall|k: int| 0 <= k < acc.len() ==> row((#[trigger] acc[k]).0) is Some && eqv(acc[k].1, row(acc[k].0)->Some_0)
}
spec fn in_sound(acc: Map<i32, Vec<PrimitiveLiteral>>, row: Row) -> bool {
    forall|id: i32| #[trigger] acc.contains_key(id) ==> row(id) is Some && exists|j: int| 0 <= j < acc[id]@.len() && eqv(#[trigger] acc[id]@[j], row(id)->Some_0)
}
spec fn bound_kind(b: Option<(PrimitiveLiteral, bool)>, x: PrimitiveLiteral) -> bool { b is Some ==> kind(b->Some_0.0) == kind(x) }
spec fn range_sound(acc: Map<i32, RangeConstraint>, row: Row) -> bool {
    forall|id: i32| #[trigger] acc.contains_key(id) ==> row(id) is Some && in_range(row(id)->Some_0, acc[id]) && bound_kind(acc[id].min, row(id)->Some_0) && bound_kind(acc[id].max, row(id)->Some_0)
}
spec fn all_true(s: Schema, filters: Seq<Expr>, row: Row) -> bool { forall|i: int| 0 <= i < filters.len() ==> truth(s, #[trigger] filters[i], row) }
proof fn lemma_truth(s: Schema, e: Expr)
    ensures forall|row: Row| #[trigger] truth(s, e, row) ==> match e {
            Expr::BinaryExpr(b) => if b.op is And { truth(s, *b.left, row) && truth(s, *b.right, row) } else { is_cmp(b.op) ==> cmp_true(b.op, val(s, *b.left, row), val(s, *b.right, row)) },
            Expr::InList(i) => i.negated || exists|j: int| 0 <= j < i.list@.len() && cmp_true(Operator::Eq, val(s, *i.expr, row), val(s, #[trigger] i.list@[j], row)),
            _ => true,
        },
        forall|x: Expr, row: Row| (#[trigger] val(s, x, row)) == match x {
            Expr::Column(c) => match s.by_name(c.name@) { Some(f) => row(f.id), None => val(s, x, row) },
            Expr::Literal(v, _) => sv_lit(v),
            _ => val(s, x, row),
        },
{}
spec fn item_in(s: Schema, item: Expr, x: PrimitiveLiteral, vals: Seq<PrimitiveLiteral>, row: Row) -> bool {
    cmp_true(Operator::Eq, Some(x), val(s, item, row)) ==> exists|k: int| 0 <= k < vals.len() && eqv(#[trigger] vals[k], x)
}
// the partition tuple of a row
spec fn tuple_of(s: Schema, ps: PartitionSpec, row: Row, t: Seq<Option<Literal>>) -> bool {
    t.len() == ps.fields@.len() && forall|i: int| 0 <= i < t.len() ==> {
        let f = #[trigger] ps.fields@[i];
        s.by_id(f.source_id) is Some ==> {
            let ty = ftype(s.by_id(f.source_id)->Some_0);
            legal(f.transform, ty, opt(row(f.source_id))) && result_ok(f.transform, ty, opt(row(f.source_id)), t[i])
        }
    }
}
// a transform without a representable result is null
spec fn may_lack(t: Transform) -> bool { t is Truncate || t is Hour }
spec fn tuple_admitted(ps: PartitionSpec, p: PartitionPredicate, row: Row, t: Seq<Option<Literal>>) -> bool {
    let i = p.field_index as int;
    i < t.len() && i < ps.fields@.len() && match t[i] { Some(Literal::Primitive(v)) => admits(p.constraint, v), _ => may_lack(ps.fields@[i].transform) && row(ps.fields@[i].source_id) is Some }
}
spec fn applies(s: Schema, ps: PartitionSpec, filters: Seq<Expr>, row: Row, t: Seq<Option<Literal>>) -> bool {
    typed(s, row) && all_true(s, filters, row) && tuple_of(s, ps, row, t)
}
// the partition tuple of every row that satisfies the filters satisfies the predicate
spec fn pred_ok(s: Schema, ps: PartitionSpec, filters: Seq<Expr>, p: PartitionPredicate) -> bool {
    forall|row: Row, t: Seq<Option<Literal>>| #[trigger] applies(s, ps, filters, row, t) ==> tuple_admitted(ps, p, row, t)
}
spec fn preds_ok(s: Schema, ps: PartitionSpec, filters: Seq<Expr>, preds: Seq<PartitionPredicate>) -> bool {
    forall|k: int| 0 <= k < preds.len() ==> pred_ok(s, ps, filters, #[trigger] preds[k])
}
spec fn field_is(s: Schema, ps: PartitionSpec, i: int, f: PartitionField, ty: Type) -> bool {
    0 <= i < ps.fields@.len() && ps.fields@[i] == f && !(f.transform is Unknown) && !(f.transform is Void) && s.by_id(f.source_id) is Some && ftype(s.by_id(f.source_id)->Some_0) == ty
}
spec fn holds(s: Schema, filters: Seq<Expr>, row: Row) -> bool { typed(s, row) && all_true(s, filters, row) }
proof fn lemma_pred_eq(s: Schema, ps: PartitionSpec, filters: Seq<Expr>, p: PartitionPredicate, f: PartitionField, ty: Type, l: PrimitiveLiteral, v: PrimitiveLiteral)
    requires field_is(s, ps, p.field_index as int, f, ty), p.constraint == PartitionConstraint::Eq(v),
        legal(f.transform, ty, lit(l)) ==> result_ok(f.transform, ty, lit(l), lit(v)),
        forall|row: Row| #[trigger] holds(s, filters, row) ==> row(f.source_id) is Some && eqv(l, row(f.source_id)->Some_0),
    ensures pred_ok(s, ps, filters, p)
{
    assert forall|row: Row, t: Seq<Option<Literal>>| #[trigger] applies(s, ps, filters, row, t) implies tuple_admitted(ps, p, row, t) by {
        assert(holds(s, filters, row));
        assert(ps.fields@[p.field_index as int] == f);
        let x = row(f.source_id)->Some_0;
        if let Some(Literal::Primitive(q)) = t[p.field_index as int] { thm_eq(f.transform, ty, l, v, x, q); }
    }
}
// every listed value has its transform among the values
spec fn covered(f: PartitionField, ty: Type, l: PrimitiveLiteral, values: Seq<PrimitiveLiteral>) -> bool {
    legal(f.transform, ty, lit(l)) ==> exists|k: int, v: PrimitiveLiteral| 0 <= k < values.len() && #[trigger] row(f.transform, ty, l, v) && eqv(#[trigger] values[k], v)
}
proof fn lemma_pred_in(s: Schema, ps: PartitionSpec, filters: Seq<Expr>, p: PartitionPredicate, f: PartitionField, ty: Type, ls: Seq<PrimitiveLiteral>, values: Vec<PrimitiveLiteral>)
    requires field_is(s, ps, p.field_index as int, f, ty), p.constraint == PartitionConstraint::In(values),
        forall|j: int| 0 <= j < ls.len() ==> covered(f, ty, #[trigger] ls[j], values@),
        forall|row: Row| #[trigger] holds(s, filters, row) ==> row(f.source_id) is Some && exists|j: int| 0 <= j < ls.len() && eqv(#[trigger] ls[j], row(f.source_id)->Some_0),
    ensures pred_ok(s, ps, filters, p)
{
    assert forall|rw: Row, t: Seq<Option<Literal>>| #[trigger] applies(s, ps, filters, rw, t) implies tuple_admitted(ps, p, rw, t) by {
        assert(holds(s, filters, rw));
        assert(ps.fields@[p.field_index as int] == f);
        let x = rw(f.source_id)->Some_0;
        if let Some(Literal::Primitive(q)) = t[p.field_index as int] {
            let j = choose|j: int| 0 <= j < ls.len() && eqv(#[trigger] ls[j], x);
            assert(covered(f, ty, ls[j], values@));
            let (k, v) = choose|k: int, v: PrimitiveLiteral| 0 <= k < values@.len() && #[trigger] row(f.transform, ty, ls[j], v) && eqv(#[trigger] values@[k], v);
            thm_eq(f.transform, ty, ls[j], v, x, q);
            lemma_eqv(values@[k], v, q);
            assert(p.constraint->In_0@[k] == values@[k]);
            assert(admits(p.constraint, q));
        }
    }
}
proof fn lemma_pred_range(s: Schema, ps: PartitionSpec, filters: Seq<Expr>, p: PartitionPredicate, f: PartitionField, ty: Type, r: RangeConstraint, v: RangeConstraint)
    requires field_is(s, ps, p.field_index as int, f, ty), p.constraint == PartitionConstraint::Range(v),
        range_legal(f.transform, ty, r) ==> forall|x: PrimitiveLiteral, q: PrimitiveLiteral| #[trigger] row(f.transform, ty, x, q) && in_range(x, r) ==> in_range(q, v),
        forall|row: Row| #[trigger] holds(s, filters, row) ==> row(f.source_id) is Some && in_range(row(f.source_id)->Some_0, r) && bound_kind(r.min, row(f.source_id)->Some_0) && bound_kind(r.max, row(f.source_id)->Some_0),
    ensures pred_ok(s, ps, filters, p)
{
    assert forall|rw: Row, t: Seq<Option<Literal>>| #[trigger] applies(s, ps, filters, rw, t) implies tuple_admitted(ps, p, rw, t) by {
        assert(holds(s, filters, rw));
        assert(ps.fields@[p.field_index as int] == f);
        let x = rw(f.source_id)->Some_0;
        if let Some(Literal::Primitive(q)) = t[p.field_index as int] { assert(row(f.transform, ty, x, q)); }
    }
}
spec fn oref<'a>(o: Option<PrimitiveLiteral>) -> Option<&'a PrimitiveLiteral> { match o { Some(v) => Some(&v), None => None } }
spec fn none_tuple(ps: PartitionSpec, p: PartitionPredicate, t: Seq<Option<Literal>>) -> bool {
    forall|row: Row| !#[trigger] tuple_admitted(ps, p, row, t)
}
spec fn no_row(s: Schema, ps: PartitionSpec, filters: Seq<Expr>, m: ManifestFile) -> bool {
    forall|row: Row, t: Seq<Option<Literal>>| #[trigger] applies(s, ps, filters, row, t) ==> !in_manifest(m, s, ps, row, t)
}
spec fn none_admitted(p: PartitionPredicate, s: Schema, ps: PartitionSpec, m: ManifestFile) -> bool {
    forall|row: Row, t: Seq<Option<Literal>>| #[trigger] in_manifest(m, s, ps, row, t) ==> !tuple_admitted(ps, p, row, t)
}
//@EXTRACTED@
} // verus!
fn main() {}
