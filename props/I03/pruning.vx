file crates/sail-iceberg/src/datasource/pruning.rs
stub apply_transform
vrule chain iter/0.any/1 => vx_any($recv, $0)
vrule chain iter/0.enumerate/0 => vx_enumerate($recv)
vrule chain iter/0.filter/1.filter/1.collect/0 => vx_filter2($recv, $0, $1)
vrule chain into_iter/0.filter/1.collect/0 => vx_into_filter($recv, $0)
vrule chain iter/0.all/1 => vx_all(&$recv, $0)
vrule chain as_ref/0.filter/1 => vx_opt_filter($recv.as_ref(), $0)
vrule sub crate::spec::manifest_list::ManifestFile => ManifestFile
vrule chain iter/0.filter/1 => vx_filter(&$recv, $0)
vrule call discriminant => vx_disc($0)
vrule sub datafusion::common::scalar::ScalarValue => ScalarValue
vrule sub \.map\(PrimitiveLiteral::Int\) => .map(|v: i32| -> (r: PrimitiveLiteral) ensures r == PrimitiveLiteral::Int(v), { PrimitiveLiteral::Int(v) })
vrule sub \.map\(PrimitiveLiteral::Long\) => .map(|v: i64| -> (r: PrimitiveLiteral) ensures r == PrimitiveLiteral::Long(v), { PrimitiveLiteral::Long(v) })
vrule chain entry/1.or_default/0 => $recv.vx_entry($0)
vrule chain extend/1 => vx_extend($recv, $0)
hoist collect_source_eq_filters collect_source_in_filters collect_source_range_filters
stub scalar_to_primitive_literal PrimitiveLiteral Literal
type PartitionPredicate
type PartitionConstraint
type RangeConstraint

fn prune_data_files_by_partition_values
ret r
sub \|file\| \{ => |file: &DataFile| -> (b: bool) ensures !b ==> exists|k: int| 0 <= k < predicates@.len() && none_tuple(*partition_spec, #[trigger] predicates@[k], file.partition@), {
sub \|predicate\| \{ => |predicate: &PartitionPredicate| -> (b: bool) ensures !b ==> none_tuple(*partition_spec, *predicate, file.partition@), {
spec <<<
ensures forall|i: int, row: Row| 0 <= i < files@.len() && #[trigger] applies(*table_schema, *partition_spec, filters@, row, (#[trigger] files@[i]).partition@) ==> r@.contains(files@[i]),
>>>

fn prune_manifests_by_partition_summaries
ret r
sub \|mf\| mf\.content == ManifestContentType::Data => |mf: &&'a ManifestFile| -> (b: bool) ensures b == (mf.content is Data), { mf.content == ManifestContentType::Data }
sub \|mf\| \{ => |mf: &&'a ManifestFile| -> (b: bool) ensures !b ==> partition_specs.m().contains_key(mf.partition_spec_id) && no_row(*table_schema, partition_specs.m()[mf.partition_spec_id], filters@, **mf), {
sub \|predicate\| \{ => |predicate: &PartitionPredicate| -> (b: bool) ensures !b ==> none_admitted(*predicate, *table_schema, *spec, **mf), {
sub \|nf\| nf\.field_type\.as_ref\(\) => |nf: &NestedField| -> (o: &Type) ensures *o == *nf.field_type, { &*nf.field_type }
sub \|b\| prim_ty\.literal_from_bytes\(b\)\.ok\(\) => |b: &Vec<u8>| -> (o: Option<PrimitiveLiteral>) ensures o is Some ==> o->Some_0 == prim_ty.decoded(b@), { prim_ty.literal_from_bytes(b).ok() }
sub \|_\| !may_contain_nan => |_b: &&Vec<u8>| -> (o: bool) ensures o == !may_contain_nan, { !may_contain_nan }
spec <<<
ensures forall|i: int, row: Row, t: Seq<Option<Literal>>| 0 <= i < manifest_list.entries@.len() && manifest_list.entries@[i].content is Data
        && partition_specs.m().contains_key(manifest_list.entries@[i].partition_spec_id)
        && #[trigger] applies(*table_schema, partition_specs.m()[manifest_list.entries@[i].partition_spec_id], filters@, row, t)
        && in_manifest(#[trigger] manifest_list.entries@[i], *table_schema, partition_specs.m()[manifest_list.entries@[i].partition_spec_id], row, t)
    ==> exists|j: int| 0 <= j < r@.len() && *#[trigger] r@[j] == manifest_list.entries@[i],
    forall|i: int| 0 <= i < manifest_list.entries@.len() && manifest_list.entries@[i].content is Data && !partition_specs.m().contains_key(manifest_list.entries@[i].partition_spec_id)
    ==> exists|j: int| 0 <= j < r@.len() && *#[trigger] r@[j] == #[trigger] manifest_list.entries@[i],
>>>


fn partition_predicates_for_spec
ret r
sub \|\(source_id, _\)\| ([^)]*)\) => |f: &&(i32, PrimitiveLiteral)| -> (b: bool) ensures b == (f.0 == partition_field.source_id), { let source_id = &f.0; $1 })
sub source_field\.field_type\.as_ref\(\) => &*source_field.field_type
spec <<<
ensures preds_ok(*schema, *spec, filters@, r@),
>>>
loop 0 it <<<
invariant
    preds_ok(*schema, *spec, filters@, predicates@),
    it.seq().len() == spec.fields@.len(), spec.fields@.len() <= usize::MAX,
    forall|i: int| 0 <= i < spec.fields@.len() ==> #[trigger] it.seq()[i] == (i as usize, &spec.fields@[i]),
    forall|row: Row| #[trigger] holds(*schema, filters@, row) ==> eq_sound(eq_filters@, row) && in_sound(in_filters.m(), row) && range_sound(range_filters.m(), row),
>>>
loop-start 0 <<<
proof { assert((field_index, partition_field) == it.seq()[it.index@]); }
>>>
loop-before 1 <<<
let ghost pf = *partition_field;
proof { assert(field_is(*schema, *spec, field_index as int, pf, *source_type)); }
>>>
loop 1 it1 <<<
invariant
    preds_ok(*schema, *spec, filters@, predicates@),
    *partition_field == pf, field_is(*schema, *spec, field_index as int, pf, *source_type),
    forall|j: int| 0 <= j < it1.seq().len() ==> eq_filters@.contains(*#[trigger] it1.seq()[j]) && it1.seq()[j].0 == pf.source_id,
    forall|row: Row| #[trigger] holds(*schema, filters@, row) ==> eq_sound(eq_filters@, row),
>>>
loop-start 1 <<<
let ghost lit0 = *literal;
proof {
    let e = *it1.seq()[it1.index@];
    assert(e.1 == lit0);
    let k = choose|k: int| 0 <= k < eq_filters@.len() && eq_filters@[k] == e;
    assert forall|row: Row| #[trigger] holds(*schema, filters@, row) implies row(pf.source_id) is Some && eqv(lit0, row(pf.source_id)->Some_0) by { assert(eq_filters@[k] == e); }
}
>>>
after ^predicates.push\(PartitionPredicate\{field_index,constraint:PartitionConstraint::Eq <<<
proof { lemma_pred_eq(*schema, *spec, filters@, predicates@.last(), pf, *source_type, lit0, predicates@.last().constraint->Eq_0); }
>>>
loop 2 it2 <<<
invariant
    *partition_field == pf,
    it2.seq().len() == literals@.len(),
    forall|j: int| 0 <= j < literals@.len() ==> *(#[trigger] it2.seq()[j]) == literals@[j],
    seen.s() == values@,
    complete ==> forall|j: int| 0 <= j < it2.index@ ==> covered(pf, *source_type, #[trigger] literals@[j], values@),
>>>
loop-start 2 <<<
let ghost (lit1, values0) = (*literal, values@);
proof { order_facts(); assert(lit1 == literals@[it2.index@]); }
>>>
after ^ifseen\.insert <<<
proof {
    if legal(pf.transform, *source_type, lit(lit1)) {
        assert(row(pf.transform, *source_type, lit1, value));
        let k = choose|k: int| 0 <= k < values@.len() && eqv(#[trigger] values@[k], value);
        assert(eqv(values@[values@.len() - 1], value) || exists|k: int| 0 <= k < values@.len() && eqv(#[trigger] values@[k], value));
        assert(eqv(values@[k], value));
    }
    assert(covered(pf, *source_type, lit1, values@));
}
>>>
loop-end 2 <<<
proof {
    if complete {
        assert forall|j: int| 0 <= j <= it2.index@ implies covered(pf, *source_type, #[trigger] literals@[j], values@) by {
            if j < it2.index@ && legal(pf.transform, *source_type, lit(literals@[j])) {
                assert(covered(pf, *source_type, literals@[j], values0));
                let (k, v) = choose|k: int, v: PrimitiveLiteral| 0 <= k < values0.len() && #[trigger] row(pf.transform, *source_type, literals@[j], v) && eqv(#[trigger] values0[k], v);
                assert(values@[k] == values0[k]);
            }
        }
    }
}
>>>
before ^predicates.push\(PartitionPredicate\{field_index,constraint:PartitionConstraint::In <<<
let ghost values1 = values;
proof {
    assert(in_filters.m().contains_key(pf.source_id));
    assert forall|row: Row| #[trigger] holds(*schema, filters@, row) implies row(pf.source_id) is Some && exists|j: int| 0 <= j < literals@.len() && eqv(#[trigger] literals@[j], row(pf.source_id)->Some_0) by {}
}
>>>
after ^predicates.push\(PartitionPredicate\{field_index,constraint:PartitionConstraint::In <<<
proof { lemma_pred_in(*schema, *spec, filters@, predicates@.last(), pf, *source_type, literals@, values1); }
>>>
before ^predicates.push\(PartitionPredicate\{field_index,constraint:PartitionConstraint::Range <<<
let ghost range1 = range;
let ghost range0 = range_filters.m()[pf.source_id];
proof {
    assert(range_filters.m().contains_key(pf.source_id));
    assert forall|row: Row| #[trigger] holds(*schema, filters@, row) implies row(pf.source_id) is Some && in_range(row(pf.source_id)->Some_0, range0) && bound_kind(range0.min, row(pf.source_id)->Some_0) && bound_kind(range0.max, row(pf.source_id)->Some_0) by {}
}
>>>
after ^predicates.push\(PartitionPredicate\{field_index,constraint:PartitionConstraint::Range <<<
proof { lemma_pred_range(*schema, *spec, filters@, predicates@.last(), pf, *source_type, range0, range1); }
>>>
fn transform_primitive_literal
ret r
spec <<<
ensures legal(transform, *source_type, lit(literal)) ==> result_ok(transform, *source_type, lit(literal), opt(r)),
>>>

fn transform_range_constraint
ret r
sub \|\(literal, inclusive\)\|\s*\{\s*transform_bound_literal\(\s*transform,\s*source_type,\s*literal,\s*(true|false),\s*([^,)]*),?\s*\)\s*\.map\(\|value\| \(value, ([^)]*)\)\)\s*\} => |b: &(PrimitiveLiteral, bool)| -> (o: Option<(PrimitiveLiteral, bool)>) ensures (o is Some ==> o->Some_0.1) && bound_sound(transform, *source_type, b.0, $1, b.1, vx_fst(o)), { let inclusive = &b.1; match transform_bound_literal(transform, source_type, &b.0, $1, $2) { Some(value) => Some((value, $3)), None => None } }
spec <<<
ensures (r is Some && range_legal(transform, *source_type, *range)) ==> order(transform) && forall|x: PrimitiveLiteral, p: PrimitiveLiteral| #[trigger] row(transform, *source_type, x, p) && in_range(x, *range) ==> in_range(p, r->Some_0),
>>>
body-start <<<
proof { order_facts(); }
>>>

fn transform_bound_literal
ret r
sub \|\| literal\.clone\(\) => || -> (c: PrimitiveLiteral) ensures c == l0, { literal.clone() }
spec <<<
requires order(transform),
ensures bound_sound(transform, *source_type, *literal, is_lower_bound, inclusive, r),
>>>
body-start <<<
let ghost l0 = *literal;
proof { order_facts(); }
>>>
tail <<<
proof { lemma_bound(transform, *source_type, l0, literal, is_lower_bound, inclusive); }
>>>

fn adjust_exclusive_bound
ret r
spec <<<
ensures r is Some ==> adjacent(*literal, r->Some_0)
    && forall|x: PrimitiveLiteral| source_type is Primitive && #[trigger] kind_ok(source_type->Primitive_0, x) && (if is_lower_bound { !le(x, *literal) } else { !le(*literal, x) })
        ==> (if is_lower_bound { le(r->Some_0, x) } else { le(x, r->Some_0) }),
>>>

fn shift_i32
ret r
spec <<<
ensures r is Some ==> r->Some_0 == value + (if increment { 1int } else { -1 }),
>>>
fn shift_i64
ret r
spec <<<
ensures r is Some ==> r->Some_0 == value + (if increment { 1int } else { -1 }),
>>>

fn comparable
ret r
spec <<<
ensures r == (kind(*left) == kind(*right)),
>>>

fn partition_predicate_may_match_bounds
ret r
sub \|value\| (literal_may_match_bounds\([^)]*\)) => |value: &PrimitiveLiteral| -> (b: bool) ensures (exists|v: PrimitiveLiteral| #[trigger] eqv(*value, v) && within(v, lower, upper)) ==> b, { $1 }
spec <<<
ensures (exists|v: PrimitiveLiteral| #[trigger] admits(predicate.constraint, v) && within(v, lower, upper)) ==> r,
>>>
body-start <<<
proof { order_facts(); }
>>>

fn partition_predicate_may_match_value
ret r
sub \|expected\| ([^)]*\)[^)]*)\) => |expected: &PrimitiveLiteral| -> (b: bool) ensures eqv(*expected, *value) ==> b, { $1 })
spec <<<
ensures value matches Some(Literal::Primitive(v)) ==> (admits(predicate.constraint, *v) ==> r),
    !(value matches Some(Literal::Primitive(_))) ==> r,
>>>
body-start <<<
proof { order_facts(); }
>>>

fn literal_may_match_bounds
ret r
spec <<<
ensures (exists|v: PrimitiveLiteral| #[trigger] eqv(*value, v) && within(v, lower, upper)) ==> r,
>>>
body-start <<<
proof { order_facts(); }
>>>

fn range_may_match_bounds
ret r
spec <<<
ensures (exists|v: PrimitiveLiteral| #[trigger] in_range(v, *range) && within(v, lower, upper)) ==> r,
>>>
body-start <<<
proof { order_facts(); }
>>>

fn literal_may_match_range
ret r
spec <<<
ensures in_range(*value, *range) ==> r,
>>>
body-start <<<
proof { order_facts(); }
>>>

fn source_literal
ret r
sub (primitive_type\.compatible\(&literal\))\.then_some\(literal\) => vx_then_some($1, literal)
spec <<<
ensures r is Some ==> sv_lit(*scalar) == r && ftype(*field) is Primitive && compat(ftype(*field)->Primitive_0, r->Some_0),
>>>

fn collect_source_eq_filters__strip
ret r
spec <<<
ensures same_expr(*r, *expr), height(*r) <= height(*expr),
decreases expr,
>>>

fn collect_source_eq_filters__visit_expr
spec <<<
ensures forall|row: Row| typed(*schema, row) && #[trigger] truth(*schema, *e, row) && eq_sound(old(acc)@, row) ==> eq_sound(final(acc)@, row),
decreases height(*e),
>>>
body-start <<<
proof { lemma_truth(*schema, *e); order_facts(); }
>>>

fn collect_source_eq_filters
ret r
spec <<<
ensures forall|row: Row| typed(*schema, row) && #[trigger] all_true(*schema, filters@, row) ==> eq_sound(r@, row),
>>>
loop 0 <<<
invariant forall|row: Row| typed(*schema, row) && #[trigger] all_true(*schema, filters@, row) ==> eq_sound(result@, row),
>>>

fn collect_source_in_filters__strip
ret r
spec <<<
ensures same_expr(*r, *expr), height(*r) <= height(*expr),
decreases expr,
>>>

fn collect_source_in_filters__visit_expr
spec <<<
ensures forall|row: Row| typed(*schema, row) && #[trigger] truth(*schema, *e, row) && in_sound(old(acc).m(), row) ==> in_sound(final(acc).m(), row),
decreases height(*e),
>>>
body-start <<<
proof { lemma_truth(*schema, *e); }
let ghost e0 = *e;
let ghost acc0 = acc.m();
>>>
loop 0 it <<<
invariant
    acc.m() == acc0,
    schema.by_id(field.id) == Some(*field),
    forall|row: Row, j: int| #![trigger val(*schema, in_list.list@[j], row)] typed(*schema, row) && 0 <= j < it.index@ && row(field.id) is Some ==> item_in(*schema, in_list.list@[j], row(field.id)->Some_0, vals@, row),
>>>
before ^acc\.entry <<<
let ghost vs = vals@;
>>>
after ^acc\.entry <<<
proof {
    assert forall|row: Row| typed(*schema, row) && #[trigger] truth(*schema, e0, row) && in_sound(acc0, row) implies in_sound(acc.m(), row) by {
        let x = row(field.id)->Some_0;
        assert(val(*schema, *in_list.expr, row) == row(field.id));
        let j = choose|j: int| 0 <= j < in_list.list@.len() && cmp_true(Operator::Eq, val(*schema, *in_list.expr, row), val(*schema, #[trigger] in_list.list@[j], row));
        assert(item_in(*schema, in_list.list@[j], x, vs, row));
        let k = choose|k: int| 0 <= k < vs.len() && eqv(#[trigger] vs[k], x);
        let n = acc.m()[field.id]@;
        assert(n[n.len() - vs.len() + k] == vs[k]);
        assert forall|id: i32| #[trigger] acc.m().contains_key(id) implies row(id) is Some && exists|j: int| 0 <= j < acc.m()[id]@.len() && eqv(#[trigger] acc.m()[id]@[j], row(id)->Some_0) by {
            if id == field.id { assert(eqv(acc.m()[id]@[n.len() - vs.len() + k], x)); } else { assert(acc0.contains_key(id) && acc0[id] == acc.m()[id]); }
        }
    }
}
>>>
loop-start 0 <<<
let ghost vals0 = vals@;
proof { assert(*item == in_list.list@[it.index@]); }
>>>
loop-end 0 <<<
proof {
    order_facts();
    assert forall|row: Row, j: int| #![trigger val(*schema, in_list.list@[j], row)] typed(*schema, row) && 0 <= j <= it.index@ && row(field.id) is Some implies item_in(*schema, in_list.list@[j], row(field.id)->Some_0, vals@, row) by {
        let x = row(field.id)->Some_0;
        if cmp_true(Operator::Eq, Some(x), val(*schema, in_list.list@[j], row)) {
            if j < it.index@ {
                assert(item_in(*schema, in_list.list@[j], x, vals0, row));
                let k = choose|k: int| 0 <= k < vals0.len() && eqv(#[trigger] vals0[k], x);
                assert(vals@[k] == vals0[k]);
            } else {
                assert(schema.by_id(field.id) is Some);
                let k = vals@.len() - 1;
                assert(eqv(vals@[k], x));
            }
        }
    }
}
>>>

fn collect_source_in_filters
ret r
spec <<<
ensures forall|row: Row| typed(*schema, row) && #[trigger] all_true(*schema, filters@, row) ==> in_sound(r.m(), row),
>>>
loop 0 <<<
invariant forall|row: Row| typed(*schema, row) && #[trigger] all_true(*schema, filters@, row) ==> in_sound(result.m(), row),
>>>

fn collect_source_range_filters__strip
ret r
spec <<<
ensures same_expr(*r, *expr), height(*r) <= height(*expr),
decreases expr,
>>>

fn collect_source_range_filters__tighten_min
spec <<<
ensures forall|x: PrimitiveLiteral| #![trigger kind(x)] in_range(x, RangeConstraint { min: *old(cur), max: None }) && bound_kind(*old(cur), x) && above(x, cand) && kind(cand.0) == kind(x)
    ==> in_range(x, RangeConstraint { min: *final(cur), max: None }) && bound_kind(*final(cur), x),
>>>
body-start <<<
proof { order_facts(); }
>>>

fn collect_source_range_filters__tighten_max
spec <<<
ensures forall|x: PrimitiveLiteral| #![trigger kind(x)] in_range(x, RangeConstraint { min: None, max: *old(cur) }) && bound_kind(*old(cur), x) && below(x, cand) && kind(cand.0) == kind(x)
    ==> in_range(x, RangeConstraint { min: None, max: *final(cur) }) && bound_kind(*final(cur), x),
>>>
body-start <<<
proof { order_facts(); }
>>>

fn collect_source_range_filters__add_min
spec <<<
ensures forall|row: Row| typed(*schema, row) && #[trigger] range_sound(old(acc).m(), row) && (schema.by_name(column_name@) matches Some(f) ==> cmp_known(if inclusive { Operator::GtEq } else { Operator::Gt }, row(f.id), sv_lit(*literal)))
    ==> range_sound(final(acc).m(), row),
>>>

fn collect_source_range_filters__add_max
spec <<<
ensures forall|row: Row| typed(*schema, row) && #[trigger] range_sound(old(acc).m(), row) && (schema.by_name(column_name@) matches Some(f) ==> cmp_known(if inclusive { Operator::LtEq } else { Operator::Lt }, row(f.id), sv_lit(*literal)))
    ==> range_sound(final(acc).m(), row),
>>>

fn collect_source_range_filters__visit_expr
spec <<<
ensures forall|row: Row| typed(*schema, row) && #[trigger] truth(*schema, *e, row) && range_sound(old(acc).m(), row) ==> range_sound(final(acc).m(), row),
decreases height(*e),
>>>
body-start <<<
proof { lemma_truth(*schema, *e); order_facts(); }
>>>

fn collect_source_range_filters
ret r
spec <<<
ensures forall|row: Row| typed(*schema, row) && #[trigger] all_true(*schema, filters@, row) ==> range_sound(r.m(), row),
>>>
loop 0 <<<
invariant forall|row: Row| typed(*schema, row) && #[trigger] all_true(*schema, filters@, row) ==> range_sound(result.m(), row),
>>>

file crates/sail-iceberg/src/spec/transform.rs
stub apply_transform
type Transform v=Copy,Clone n=Debug,PartialEq,Eq,Clone,Copy
fn Transform::preserves_order
ret r
spec <<<
ensures r == order(*self),
>>>
file crates/sail-iceberg/src/spec/types/mod.rs
type PrimitiveType n=Debug,PartialEq,Eq,Clone
fn PrimitiveType::compatible
ret r
spec <<<
ensures r == compat(*self, *literal),
>>>
