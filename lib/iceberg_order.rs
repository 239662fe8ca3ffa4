// ---- the order of column values: numbers by value, text and bytes lexicographically, floats by a total preorder
pub open spec fn lexc(a: Seq<char>, b: Seq<char>) -> bool decreases a.len() {
    a.len() == 0 || (b.len() > 0 && (a[0] < b[0] || (a[0] == b[0] && lexc(a.skip(1), b.skip(1)))))
}
pub open spec fn lexb(a: Seq<u8>, b: Seq<u8>) -> bool decreases a.len() {
    a.len() == 0 || (b.len() > 0 && (a[0] < b[0] || (a[0] == b[0] && lexb(a.skip(1), b.skip(1)))))
}
pub uninterp spec fn f32_le(a: OrdF32, b: OrdF32) -> bool;
pub uninterp spec fn f64_le(a: OrdF64, b: OrdF64) -> bool;
axiom fn axiom_f32(a: OrdF32, b: OrdF32, c: OrdF32) ensures f32_le(a, a), f32_le(a, b) || f32_le(b, a), f32_le(a, b) && f32_le(b, c) ==> f32_le(a, c);
axiom fn axiom_f64(a: OrdF64, b: OrdF64, c: OrdF64) ensures f64_le(a, a), f64_le(a, b) || f64_le(b, a), f64_le(a, b) && f64_le(b, c) ==> f64_le(a, c);
pub open spec fn kind(l: PrimitiveLiteral) -> int {
    match l {
        PrimitiveLiteral::Boolean(_) => 0, PrimitiveLiteral::Int(_) => 1, PrimitiveLiteral::Long(_) => 2, PrimitiveLiteral::Float(_) => 3, PrimitiveLiteral::Double(_) => 4,
        PrimitiveLiteral::Int128(_) => 5, PrimitiveLiteral::String(_) => 6, PrimitiveLiteral::UInt128(_) => 7, PrimitiveLiteral::Binary(_) => 8,
    }
}
pub open spec fn le(a: PrimitiveLiteral, b: PrimitiveLiteral) -> bool {
    match (a, b) {
        (PrimitiveLiteral::Boolean(x), PrimitiveLiteral::Boolean(y)) => !x || y,
        (PrimitiveLiteral::Int(x), PrimitiveLiteral::Int(y)) => x <= y,
        (PrimitiveLiteral::Long(x), PrimitiveLiteral::Long(y)) => x <= y,
        (PrimitiveLiteral::Float(x), PrimitiveLiteral::Float(y)) => f32_le(x, y),
        (PrimitiveLiteral::Double(x), PrimitiveLiteral::Double(y)) => f64_le(x, y),
        (PrimitiveLiteral::Int128(x), PrimitiveLiteral::Int128(y)) => x <= y,
        (PrimitiveLiteral::String(x), PrimitiveLiteral::String(y)) => lexc(x@, y@),
        (PrimitiveLiteral::UInt128(x), PrimitiveLiteral::UInt128(y)) => x <= y,
        (PrimitiveLiteral::Binary(x), PrimitiveLiteral::Binary(y)) => lexb(x@, y@),
        _ => kind(a) < kind(b),
    }
}
pub open spec fn eqv(a: PrimitiveLiteral, b: PrimitiveLiteral) -> bool { le(a, b) && le(b, a) }
pub open spec fn cmp_is(a: PrimitiveLiteral, b: PrimitiveLiteral) -> Ordering {
    if !le(b, a) { Ordering::Less } else if le(a, b) { Ordering::Equal } else { Ordering::Greater }
}
proof fn lemma_lexc(a: Seq<char>, b: Seq<char>)
    ensures lexc(a, a), lexc(a, b) || lexc(b, a)
    decreases a.len()
{
    if a.len() > 0 { lemma_lexc(a.skip(1), if b.len() > 0 { b.skip(1) } else { b }); }
}
proof fn lemma_lexb(a: Seq<u8>, b: Seq<u8>)
    ensures lexb(a, a), lexb(a, b) || lexb(b, a)
    decreases a.len()
{
    if a.len() > 0 { lemma_lexb(a.skip(1), if b.len() > 0 { b.skip(1) } else { b }); }
}
proof fn lemma_lexc_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires lexc(a, b), lexc(b, c),
    ensures lexc(a, c)
    decreases a.len()
{
    if a.len() > 0 && a[0] == b[0] && b[0] == c[0] { lemma_lexc_trans(a.skip(1), b.skip(1), c.skip(1)); }
}
proof fn lemma_lexb_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires lexb(a, b), lexb(b, c),
    ensures lexb(a, c)
    decreases a.len()
{
    if a.len() > 0 && a[0] == b[0] && b[0] == c[0] { lemma_lexb_trans(a.skip(1), b.skip(1), c.skip(1)); }
}
proof fn lemma_lexc_antisym(a: Seq<char>, b: Seq<char>)
    requires lexc(a, b), lexc(b, a),
    ensures a == b
    decreases a.len()
{
    if a.len() > 0 { lemma_lexc_antisym(a.skip(1), b.skip(1)); assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1)); }
    else { assert(a =~= b); }
}
proof fn lemma_lexb_antisym(a: Seq<u8>, b: Seq<u8>)
    requires lexb(a, b), lexb(b, a),
    ensures a == b
    decreases a.len()
{
    if a.len() > 0 { lemma_lexb_antisym(a.skip(1), b.skip(1)); assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1)); }
    else { assert(a =~= b); }
}
proof fn lemma_first_mono(a: Seq<char>, b: Seq<char>, n: int)
    requires n >= 0, lexc(a, b),
    ensures lexc(first(a, n), first(b, n))
    decreases a.len()
{
    if a.len() > 0 && n > 0 {
        let (fa, fb) = (first(a, n), first(b, n));
        assert(fa[0] == a[0] && fb[0] == b[0]);
        if a[0] == b[0] {
            lemma_first_mono(a.skip(1), b.skip(1), n - 1);
            assert(fa.skip(1) =~= first(a.skip(1), n - 1));
            assert(fb.skip(1) =~= first(b.skip(1), n - 1));
        }
    }
}
proof fn lemma_order(a: PrimitiveLiteral, b: PrimitiveLiteral)
    ensures le(a, a), le(a, b) || le(b, a)
{
    match (a, b) {
        (PrimitiveLiteral::String(x), PrimitiveLiteral::String(y)) => lemma_lexc(x@, y@),
        (PrimitiveLiteral::Binary(x), PrimitiveLiteral::Binary(y)) => lemma_lexb(x@, y@),
        (PrimitiveLiteral::Float(x), PrimitiveLiteral::Float(y)) => axiom_f32(x, y, y),
        (PrimitiveLiteral::Double(x), PrimitiveLiteral::Double(y)) => axiom_f64(x, y, y),
        _ => match a {
            PrimitiveLiteral::String(x) => lemma_lexc(x@, x@),
            PrimitiveLiteral::Binary(x) => lemma_lexb(x@, x@),
            PrimitiveLiteral::Float(x) => axiom_f32(x, x, x),
            PrimitiveLiteral::Double(x) => axiom_f64(x, x, x),
            _ => {}
        },
    }
}
proof fn lemma_trans(a: PrimitiveLiteral, b: PrimitiveLiteral, c: PrimitiveLiteral)
    requires le(a, b), le(b, c),
    ensures le(a, c)
{
    match (a, b, c) {
        (PrimitiveLiteral::String(x), PrimitiveLiteral::String(y), PrimitiveLiteral::String(z)) => lemma_lexc_trans(x@, y@, z@),
        (PrimitiveLiteral::Binary(x), PrimitiveLiteral::Binary(y), PrimitiveLiteral::Binary(z)) => lemma_lexb_trans(x@, y@, z@),
        (PrimitiveLiteral::Float(x), PrimitiveLiteral::Float(y), PrimitiveLiteral::Float(z)) => axiom_f32(x, y, z),
        (PrimitiveLiteral::Double(x), PrimitiveLiteral::Double(y), PrimitiveLiteral::Double(z)) => axiom_f64(x, y, z),
        _ => {}
    }
}
// the operators on literals mean that order; Ord::cmp, which they go through, is checked against it below
impl PartialEq for PrimitiveLiteral {
    #[verifier::external_body]
    fn eq(&self, o: &PrimitiveLiteral) -> (r: bool) { unimplemented!() }
}
impl PartialOrd for PrimitiveLiteral {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &PrimitiveLiteral) -> (r: Option<Ordering>) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for PrimitiveLiteral {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &PrimitiveLiteral) -> bool { eqv(*self, *o) }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for PrimitiveLiteral {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &PrimitiveLiteral) -> Option<Ordering> { Some(cmp_is(*self, *o)) }
}
proof fn order_facts()
    ensures forall|a: PrimitiveLiteral| #[trigger] le(a, a),
        forall|a: PrimitiveLiteral, b: PrimitiveLiteral| #[trigger] le(a, b) || le(b, a),
        forall|a: PrimitiveLiteral, b: PrimitiveLiteral, c: PrimitiveLiteral| #[trigger] le(a, b) && #[trigger] le(b, c) ==> le(a, c),
{
    assert forall|a: PrimitiveLiteral| #[trigger] le(a, a) by { lemma_order(a, a); }
    assert forall|a: PrimitiveLiteral, b: PrimitiveLiteral| #[trigger] le(a, b) || le(b, a) by { lemma_order(a, b); }
    assert forall|a: PrimitiveLiteral, b: PrimitiveLiteral, c: PrimitiveLiteral| #[trigger] le(a, b) && #[trigger] le(b, c) implies le(a, c) by { lemma_trans(a, b, c); }
}
