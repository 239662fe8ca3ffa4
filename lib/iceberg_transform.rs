global size_of usize == 8;
// ---- stand-ins for the value types (payloads the transforms never look at are opaque)
#[verifier::external_body]
struct Nested { x: () }
#[verifier::external_body]
pub struct OrdF32 { x: () }
#[verifier::external_body]
pub struct OrdF64 { x: () }
enum Type { Primitive(PrimitiveType), Struct(Nested), List(Nested), Map(Nested) }
pub enum PrimitiveLiteral { Boolean(bool), Int(i32), Long(i64), Float(OrdF32), Double(OrdF64), Int128(i128), String(String), UInt128(u128), Binary(Vec<u8>) }
enum Literal { Primitive(PrimitiveLiteral), Struct(Nested), List(Nested), Map(Nested) }
struct VxStr { x: u8 }
fn vx_fmt() -> String { String::new() }
#[verifier::external_body]
fn vx_clone(v: &Option<Literal>) -> (r: Option<Literal>) ensures r == *v { unimplemented!() }
#[verifier::external_body]
fn vx_clone_type(v: &Type) -> (r: Type) ensures r == *v { unimplemented!() }
// ---- arithmetic of the standard library
trait VxEuclid: Sized {
    spec fn v(self) -> int;
    spec fn fits(x: int) -> bool;
    fn vx_rem_euclid(self, d: Self) -> (r: Self) requires d.v() > 0, ensures r.v() == self.v() % d.v();
    fn vx_div_euclid(self, d: Self) -> (r: Self) requires d.v() > 0, ensures r.v() == self.v() / d.v();
}
impl VxEuclid for i32 {
    spec fn v(self) -> int { self as int }
    spec fn fits(x: int) -> bool { i32::MIN <= x <= i32::MAX }
    #[verifier::external_body] fn vx_rem_euclid(self, d: i32) -> (r: i32) { unimplemented!() }
    #[verifier::external_body] fn vx_div_euclid(self, d: i32) -> (r: i32) { unimplemented!() }
}
impl VxEuclid for i64 {
    spec fn v(self) -> int { self as int }
    spec fn fits(x: int) -> bool { i64::MIN <= x <= i64::MAX }
    #[verifier::external_body] fn vx_rem_euclid(self, d: i64) -> (r: i64) { unimplemented!() }
    #[verifier::external_body] fn vx_div_euclid(self, d: i64) -> (r: i64) { unimplemented!() }
}
impl VxEuclid for i128 {
    spec fn v(self) -> int { self as int }
    spec fn fits(x: int) -> bool { i128::MIN <= x <= i128::MAX }
    #[verifier::external_body] fn vx_rem_euclid(self, d: i128) -> (r: i128) { unimplemented!() }
    #[verifier::external_body] fn vx_div_euclid(self, d: i128) -> (r: i128) { unimplemented!() }
}
#[verifier::external_body]
fn vx_i32_try_from(v: i64) -> (r: core::result::Result<i32, ()>)
    ensures i32::MIN <= v <= i32::MAX ==> r is Ok && r->Ok_0 == v, !(i32::MIN <= v <= i32::MAX) ==> r is Err
{ unimplemented!() }
pub assume_specification<T, E> [core::result::Result::<T, E>::unwrap_or] (r: core::result::Result<T, E>, d: T) -> (x: T)
    ensures x == (match r { Ok(y) => y, Err(_) => d });
// ---- bytes and hashing
uninterp spec fn murmur(b: Seq<u8>) -> i32; // Murmur3 x86 32-bit, seed 0
uninterp spec fn le8(v: int) -> Seq<u8>;    // 8 bytes, little-endian two's complement
uninterp spec fn be16(v: int) -> Seq<u8>;   // 16 bytes, big-endian two's complement
uninterp spec fn be16u(v: int) -> Seq<u8>;
uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
axiom fn axiom_be16_len(v: int) ensures be16(v).len() == 16;
#[verifier::external_body]
fn vx_le8(v: i64) -> (r: [u8; 8]) ensures r@ == le8(v as int) { unimplemented!() }
#[verifier::external_body]
fn vx_be16(v: i128) -> (r: [u8; 16]) ensures r@ == be16(v as int) { unimplemented!() }
#[verifier::external_body]
fn vx_tail(b: &[u8; 16], n: usize) -> (r: &[u8]) requires n <= 16, ensures r@ == b@.skip(n as int) { unimplemented!() }
trait VxBytes { spec fn bytes(&self) -> Seq<u8>; fn vx_as_bytes(&self) -> (r: &[u8]) ensures r@ == self.bytes(); }
impl VxBytes for str { spec fn bytes(&self) -> Seq<u8> { utf8(self@) } #[verifier::external_body] fn vx_as_bytes(&self) -> (r: &[u8]) { unimplemented!() } }
#[verifier::external_body]
struct Uuid { x: () }
impl Uuid {
    uninterp spec fn raw(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn vx_from_u128(v: u128) -> (r: Uuid) ensures r.raw() == be16u(v as int) { unimplemented!() }
}
impl VxBytes for Uuid { spec fn bytes(&self) -> Seq<u8> { self.raw() } #[verifier::external_body] fn vx_as_bytes(&self) -> (r: &[u8]) { unimplemented!() } }
#[verifier::external_body]
fn vx_take(s: &String, n: usize) -> (r: String) ensures r@ == first(s@, n as int) { unimplemented!() }
// ---- the calendar (proleptic Gregorian): day number of January 1st, and of the first of a month
spec const DAY_US: int = 86_400_000_000;
spec fn leap(y: int) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
spec fn jan1(y: int) -> int { 365 * (y - 1970) + ((y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400) - 477 }
spec fn cum(m: int) -> int {
    if m <= 0 { 0 } else if m == 1 { 31 } else if m == 2 { 59 } else if m == 3 { 90 } else if m == 4 { 120 } else if m == 5 { 151 } else if m == 6 { 181 }
    else if m == 7 { 212 } else if m == 8 { 243 } else if m == 9 { 273 } else if m == 10 { 304 } else if m == 11 { 334 } else { 365 }
}
spec fn mstart(y: int, m: int) -> int { jan1(y) + cum(m) + if m >= 2 && leap(y) { 1int } else { 0 } }
spec fn year_is(y: int, d: int) -> bool { jan1(y) <= d < jan1(y + 1) }
// n months since January 1970
spec fn month_is(n: int, d: int) -> bool { mstart(1970 + n / 12, n % 12) <= d < mstart(1970 + n / 12, n % 12 + 1) }
#[verifier::external_body]
struct NaiveDate { x: () }
impl NaiveDate {
    uninterp spec fn d(&self) -> int;
    #[verifier::external_body]
    fn year(&self) -> (r: i32) ensures year_is(r as int, self.d()), -263_000 <= r <= 263_000 { unimplemented!() }
    #[verifier::external_body]
    fn month0(&self) -> (r: u32) ensures r < 12, forall|y: int| #[trigger] year_is(y, self.d()) ==> mstart(y, r as int) <= self.d() < mstart(y, r + 1) { unimplemented!() }
}
#[verifier::external_body]
fn vx_from_epoch_days(d: i32) -> (r: Option<NaiveDate>) ensures -95_000_000 <= d <= 95_000_000 ==> r is Some, r is Some ==> r->Some_0.d() == d { unimplemented!() }
trait VxOrDefault<T> { fn vx_or_default(self) -> T; }
impl VxOrDefault<NaiveDate> for Option<NaiveDate> {
    #[verifier::external_body] fn vx_or_default(self) -> (r: NaiveDate) ensures self is Some ==> r == self->Some_0 { unimplemented!() }
}
// ---- the rules of the table format
spec fn first(s: Seq<char>, n: int) -> Seq<char> { if n < s.len() { s.take(n) } else { s } }
spec fn down(v: int, w: int) -> int { v - v % w }
spec fn low31(h: i32) -> int { if h < 0 { h + 0x8000_0000 } else { h as int } }
spec fn bucket_of(b: Seq<u8>, n: int) -> int { low31(murmur(b)) % n }
// the shortest big-endian two's complement of the same number
spec fn min_be(b: Seq<u8>, neg: bool) -> Seq<u8> decreases b.len() {
    if b.len() >= 2 && (if neg { b[0] == 0xff && b[1] >= 0x80 } else { b[0] == 0 && b[1] < 0x80 }) { min_be(b.skip(1), neg) } else { b }
}
proof fn lemma_xor(b: u8)
    ensures ((b ^ 0u8) < 0x80) == (b < 0x80), ((b ^ 0xffu8) < 0x80) == (b >= 0x80)
{
    assert(((b ^ 0u8) < 0x80) == (b < 0x80)) by (bit_vector);
    assert(((b ^ 0xffu8) < 0x80) == (b >= 0x80)) by (bit_vector);
}
proof fn lemma_low31(h: i32)
    ensures (h & i32::MAX) == low31(h)
{
    assert(h < 0 ==> (h & 0x7fff_ffffi32) == ((h + 0x7fff_ffffi32) + 1)) by (bit_vector);
    assert(h >= 0 ==> (h & 0x7fff_ffffi32) == h) by (bit_vector);
}
spec fn is_ts(p: PrimitiveType) -> bool { p is Timestamp || p is Timestamptz || p is TimestampNs || p is TimestamptzNs }
spec fn is_ns(p: PrimitiveType) -> bool { p is TimestampNs || p is TimestamptzNs }
spec fn micros(p: PrimitiveType, v: int) -> int { if is_ns(p) { v / 1000 } else { v } }
// the value has the kind of its type
spec fn kind_ok(p: PrimitiveType, v: PrimitiveLiteral) -> bool {
    match p {
        PrimitiveType::Int | PrimitiveType::Date => v is Int,
        PrimitiveType::Long | PrimitiveType::Time | PrimitiveType::Timestamp | PrimitiveType::Timestamptz | PrimitiveType::TimestampNs | PrimitiveType::TimestamptzNs => v is Long,
        PrimitiveType::Decimal { .. } => v is Int128,
        PrimitiveType::String => v is String,
        PrimitiveType::Uuid => v is UInt128 || v is Binary,
        PrimitiveType::Fixed(_) | PrimitiveType::Binary => v is Binary,
        PrimitiveType::Boolean => v is Boolean,
        PrimitiveType::Float => v is Float,
        PrimitiveType::Double => v is Double,
        _ => true,
    }
}
spec fn bucketable(p: PrimitiveType) -> bool {
    p is Int || p is Long || p is Decimal || p is Date || p is Time || is_ts(p) || p is String || p is Uuid || p is Fixed || p is Binary
}
spec fn accepts(t: Transform, ty: Type) -> bool {
    match t {
        Transform::Void | Transform::Unknown => true,
        Transform::Identity => ty is Primitive,
        Transform::Bucket(_) => ty is Primitive && bucketable(ty->Primitive_0),
        Transform::Truncate(_) => ty is Primitive && (ty->Primitive_0 is Int || ty->Primitive_0 is Long || ty->Primitive_0 is Decimal || ty->Primitive_0 is String),
        Transform::Year | Transform::Month | Transform::Day => ty is Primitive && (ty->Primitive_0 is Date || is_ts(ty->Primitive_0)),
        Transform::Hour => ty is Primitive && is_ts(ty->Primitive_0),
    }
}
spec fn out_type(t: Transform, ty: Type) -> Type {
    match t {
        Transform::Identity | Transform::Void | Transform::Truncate(_) => ty,
        _ => Type::Primitive(PrimitiveType::Int),
    }
}
// transforms the format allows, on values of the field's type
spec fn legal(t: Transform, ty: Type, v: Option<Literal>) -> bool {
    &&& accepts(t, ty)
    &&& t matches Transform::Bucket(n) ==> 1 <= n <= i32::MAX
    &&& t matches Transform::Truncate(w) ==> 1 <= w <= i32::MAX
    &&& (v is Some && ty is Primitive && !(t is Unknown)) ==> (v->Some_0 is Primitive && kind_ok(ty->Primitive_0, v->Some_0->Primitive_0))
}
spec fn is_int(r: Option<Literal>, n: int) -> bool { r matches Some(Literal::Primitive(PrimitiveLiteral::Int(x))) && x == n }
spec fn result_ok(t: Transform, ty: Type, v: Option<Literal>, r: Option<Literal>) -> bool {
    match v {
        None => r is None,
        Some(lit) => match t {
            Transform::Identity | Transform::Unknown => r == v,
            Transform::Void => r is None,
            Transform::Truncate(w) => match lit->Primitive_0 {
                PrimitiveLiteral::Int(x) => if down(x as int, w as int) < i32::MIN { r is None } else { is_int(r, down(x as int, w as int)) },
                PrimitiveLiteral::Long(x) => if down(x as int, w as int) < i64::MIN { r is None } else { r matches Some(Literal::Primitive(PrimitiveLiteral::Long(y))) && y == down(x as int, w as int) },
                PrimitiveLiteral::Int128(x) => if down(x as int, w as int) < i128::MIN { r is None } else { r matches Some(Literal::Primitive(PrimitiveLiteral::Int128(y))) && y == down(x as int, w as int) },
                PrimitiveLiteral::String(s) => r matches Some(Literal::Primitive(PrimitiveLiteral::String(y))) && y@ == first(s@, w as int),
                _ => false,
            },
            Transform::Bucket(n) => match lit->Primitive_0 {
                PrimitiveLiteral::Int(x) => is_int(r, bucket_of(le8(x as int), n as int)),
                PrimitiveLiteral::Long(x) => is_int(r, bucket_of(le8(micros(ty->Primitive_0, x as int)), n as int)),
                PrimitiveLiteral::Int128(x) => is_int(r, bucket_of(min_be(be16(x as int), x < 0), n as int)),
                PrimitiveLiteral::String(s) => is_int(r, bucket_of(utf8(s@), n as int)),
                PrimitiveLiteral::UInt128(x) => is_int(r, bucket_of(be16u(x as int), n as int)),
                PrimitiveLiteral::Binary(b) => is_int(r, bucket_of(b@, n as int)),
                _ => false,
            },
            Transform::Year => r matches Some(Literal::Primitive(PrimitiveLiteral::Int(y))) && year_is(1970 + y, day_of(ty->Primitive_0, lit->Primitive_0)),
            Transform::Month => r matches Some(Literal::Primitive(PrimitiveLiteral::Int(m))) && month_is(m as int, day_of(ty->Primitive_0, lit->Primitive_0)),
            Transform::Day => is_int(r, day_of(ty->Primitive_0, lit->Primitive_0)),
            Transform::Hour => lit->Primitive_0 matches PrimitiveLiteral::Long(x) && { let h = micros(ty->Primitive_0, x as int) / 3_600_000_000; if i32::MIN <= h <= i32::MAX { is_int(r, h) } else { r is None } },
        },
    }
}
// the day number (since 1970-01-01) a date or timestamp falls on
spec fn day_of(p: PrimitiveType, v: PrimitiveLiteral) -> int {
    match v { PrimitiveLiteral::Int(d) => d as int, PrimitiveLiteral::Long(x) => micros(p, x as int) / DAY_US, _ => 0 }
}
// ---- order: truncation and the time transforms never put a larger value into a smaller partition (what pruning relies on)
proof fn thm_truncate_monotone(a: int, b: int, w: int)
    requires w > 0, a <= b,
    ensures down(a, w) <= down(b, w), down(a, w) <= a < down(a, w) + w
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, w);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, w);
    vstd::arithmetic::div_mod::lemma_mod_bound(a, w);
    vstd::arithmetic::div_mod::lemma_mod_bound(b, w);
    vstd::arithmetic::div_mod::lemma_div_is_ordered(a, b, w);
    vstd::arithmetic::mul::lemma_mul_inequality(a / w, b / w, w);
    assert(w * (a / w) == (a / w) * w && w * (b / w) == (b / w) * w) by (nonlinear_arith);
}
proof fn thm_year_monotone(a: int, b: int, ya: int, yb: int)
    requires a <= b, year_is(ya, a), year_is(yb, b),
    ensures ya <= yb
{
    if yb < ya { lemma_jan1_mono(yb + 1, ya); }
}
// the calendar repeats every 400 years
proof fn lemma_cycle(y: int, k: int)
    ensures jan1(y + 400 * k) == jan1(y) + 146097 * k, leap(y + 400 * k) == leap(y)
{
    lemma_period(y, 4, 100 * k); lemma_period(y, 100, 4 * k); lemma_period(y, 400, k);
    lemma_period(y - 1, 4, 100 * k); lemma_period(y - 1, 100, 4 * k); lemma_period(y - 1, 400, k);
}
proof fn lemma_period(y: int, d: int, m: int)
    requires d > 0,
    ensures (y + d * m) % d == y % d, (y + d * m) / d == y / d + m,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(y, d);
    vstd::arithmetic::mul::lemma_mul_is_distributive_add(d, y / d, m);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(y + d * m, d, y / d + m, y % d);
}
proof fn lemma_jan1_step(y: int) ensures jan1(y + 1) - jan1(y) == 365 + (if leap(y) { 1int } else { 0 }) {}
proof fn lemma_jan1_mono(a: int, b: int)
    requires a <= b,
    ensures jan1(a) <= jan1(b)
    decreases b - a
{
    if a < b { lemma_jan1_step(b - 1); lemma_jan1_mono(a, b - 1); }
}
