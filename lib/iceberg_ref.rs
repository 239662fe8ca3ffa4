use sail_iceberg::spec::types::values::{Literal, PrimitiveLiteral};
use sail_iceberg::spec::types::{NestedField, PrimitiveType, Type};
use sail_iceberg::spec::Transform;
use ordered_float::OrderedFloat;
use PrimitiveLiteral as P; use PrimitiveType as PT; use Transform as TR;
// reference: Murmur3 x86 32-bit, seed 0
fn mm3(b: &[u8]) -> i32 {
    let mut h = 0u32;
    let mix = |k: u32| k.wrapping_mul(0xcc9e2d51).rotate_left(15).wrapping_mul(0x1b873593);
    let mut c = b.chunks_exact(4);
    for w in &mut c { h ^= mix(u32::from_le_bytes(w.try_into().unwrap())); h = h.rotate_left(13).wrapping_mul(5).wrapping_add(0xe6546b64); }
    let r = c.remainder(); let mut k = 0u32;
    for (i, x) in r.iter().enumerate() { k |= (*x as u32) << (8 * i); }
    if !r.is_empty() { h ^= mix(k); }
    h ^= b.len() as u32; h ^= h >> 16; h = h.wrapping_mul(0x85ebca6b); h ^= h >> 13; h = h.wrapping_mul(0xc2b2ae35); h ^= h >> 16;
    h as i32
}
fn bucket(b: &[u8], n: u32) -> i32 { ((mm3(b) as i64 & 0x7fff_ffff) % n as i64) as i32 }
fn minbe(v: i128) -> Vec<u8> {
    for n in 1..=16usize { let lo = if n == 16 { i128::MIN } else { -(1i128 << (8 * n - 1)) }; let hi = if n == 16 { i128::MAX } else { (1i128 << (8 * n - 1)) - 1 };
        if v >= lo && v <= hi { return (0..n).rev().map(|i| (v >> (8 * i)) as u8).collect(); } }
    unreachable!()
}
// reference calendar: (year, month0) of a day number
fn civil(d: i64) -> (i64, i64) {
    let z = d + 719468; let era = z.div_euclid(146097); let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; let doy = doe - (365 * yoe + yoe / 4 - yoe / 100); let mp = (5 * doy + 2) / 153;
    let m = if mp < 10 { mp + 3 } else { mp - 9 }; (yoe + era * 400 + (m <= 2) as i64, m - 1)
}
fn want(t: Transform, p: &PT, v: &P) -> Option<P> {
    let ns = matches!(p, PT::TimestampNs | PT::TimestamptzNs); let us = |x: i64| if ns { x.div_euclid(1000) } else { x };
    let day = |v: &P| match v { P::Int(d) => *d as i64, P::Long(x) => us(*x).div_euclid(86_400_000_000), _ => unreachable!() };
    Some(match t {
        TR::Identity | TR::Unknown => v.clone(), TR::Void => return None,
        TR::Truncate(w) => match v { P::Int(x) => P::Int(i32::try_from((*x as i64).div_euclid(w as i64) * w as i64).ok()?), P::Long(x) => P::Long(i64::try_from((*x as i128).div_euclid(w as i128) * w as i128).ok()?),
            P::Int128(x) => P::Int128(x.div_euclid(w as i128).checked_mul(w as i128)?), P::String(s) => P::String(s.char_indices().nth(w as usize).map_or(s.as_str(), |(i, _)| &s[..i]).to_string()), _ => unreachable!() },
        TR::Bucket(n) => P::Int(match v { P::Int(x) => bucket(&(*x as i64).to_le_bytes(), n), P::Long(x) => bucket(&us(*x).to_le_bytes(), n), P::Int128(x) => bucket(&minbe(*x), n),
            P::String(s) => bucket(s.as_bytes(), n), P::UInt128(u) => bucket(&u.to_be_bytes(), n), P::Binary(b) => bucket(b, n), _ => unreachable!() }),
        TR::Year => P::Int((civil(day(v)).0 - 1970) as i32), TR::Month => { let (y, m) = civil(day(v)); P::Int(((y - 1970) * 12 + m) as i32) }
        TR::Day => P::Int(day(v) as i32), TR::Hour => match v { P::Long(x) => P::Int(i32::try_from(us(*x).div_euclid(3_600_000_000)).ok()?), _ => unreachable!() },
    })
}
fn legal(t: Transform, p: &PT) -> bool {
    let ts = matches!(p, PT::Timestamp | PT::Timestamptz | PT::TimestampNs | PT::TimestamptzNs);
    match t { TR::Identity | TR::Void | TR::Unknown => true,
        TR::Bucket(_) => ts || matches!(p, PT::Int | PT::Long | PT::Decimal { .. } | PT::Date | PT::Time | PT::String | PT::Uuid | PT::Fixed(_) | PT::Binary),
        TR::Truncate(_) => matches!(p, PT::Int | PT::Long | PT::Decimal { .. } | PT::String), TR::Hour => ts, _ => ts || matches!(p, PT::Date) }
}
