//@extern arrow_array
//@extern arrow_schema
//@extern arrow_buffer
use std::sync::Arc;
use arrow_array::{*, types::*, cast::AsArray};
use arrow_schema::{DataType, Field};
use arrow_buffer::{NullBufferBuilder, OffsetBuffer};
use std::fmt::Display;
type Result<T> = std::result::Result<T, VErr>;
fn reserve<T>(_v: &mut Vec<T>, n: usize) -> Result<()> { if n > 1 << 22 { Err(vx_err()) } else { Ok(()) } }
//@EXTRACTED@
const LIM: i128 = i32::MAX as i128 - 15;
// None: an error is required; Some((n, may)): n elements, `may` when an error is allowed too
fn want(a: i128, b: i128, s: i128) -> Option<(i128, bool)> {
    if !((s > 0 && a <= b) || (s < 0 && a >= b) || (s == 0 && a == b)) { return None }
    let n = if s == 0 { 1 } else { (b - a).abs() / s.abs() + 1 };
    if n > LIM { None } else { Some((n, i64::try_from(b - a).is_err())) }
}
fn lens(a: i64, b: i64, s: i64) -> std::result::Result<(), String> {
    let r = sequence_length(a, b, s);
    match (&r, want(a as i128, b as i128, s as i128)) { (Err(_), None) => {} (Ok(n), Some((m, _))) => { vcheck!(*n as i128 == m, "length {n} want {m}"); } (Err(_), Some((_, true))) => {} (g, w) => return Err(format!("length {g:?} want {w:?}")) }
    if let Some((n, may)) = want(a as i128, b as i128, s as i128) { if n < 300 {
        let w: Vec<i64> = (0..n).map(|i| (a as i128 + i * s as i128) as i64).collect();
        match integral_row(a, b, s, 1000) { Ok(v) => { vcheck!(v == w, "row {v:?} want {w:?}"); } Err(_) => { vcheck!(may, "integral_row refused"); } }
        if n > 1 { vcheck!(integral_row(a, b, s, n as usize - 1).is_err(), "more than the allowed number of values"); }
    } }
    Ok(())
}
macro_rules! arr { ($name:ident, $g:ident, $t:ty, $at:ty, $p:ty) => {
    fn $name(rows: &[(Option<$t>, Option<$t>, Option<$t>)], two: bool) -> std::result::Result<(), String> {
        let mk = |f: &dyn Fn(&(Option<$t>, Option<$t>, Option<$t>)) -> Option<$t>| Arc::new(<$at>::from(rows.iter().map(|r| f(r)).collect::<Vec<_>>())) as ArrayRef;
        let mut args = vec![mk(&|r| r.0), mk(&|r| r.1)]; if !two { args.push(mk(&|r| r.2)); }
        let w: Vec<Option<Option<(i128, bool, i128, i128)>>> = rows.iter().map(|r| match (r.0, r.1, r.2) { (Some(a), Some(b), s) if two || s.is_some() => { let s = if two { if a <= b { 1 } else { -1 } } else { s.unwrap() as i128 };
            Some(want(a as i128, b as i128, s).map(|(n, m)| (n, m, a as i128, s))) } _ => None }).collect();
        match $g(&args) {
            Err(_) => { vcheck!(w.iter().any(|x| matches!(x, Some(None)) || matches!(x, Some(Some((_, true, _, _))))), "refused"); }
            Ok(l) => { let l = l.as_list::<i32>(); vcheck!(l.len() == rows.len(), "{} rows", l.len());
                for (i, x) in w.iter().enumerate() { match x { None => { vcheck!(l.is_null(i) && l.value_length(i) == 0, "row {i} should be NULL"); }
                    Some(None) => return Err(format!("row {i} accepted")),
                    Some(Some((n, _, a, s))) => { vcheck!(!l.is_null(i), "row {i} is NULL"); let v = l.value(i); let g: Vec<i128> = v.as_primitive::<$p>().values().iter().map(|x| *x as i128).collect();
                        let e: Vec<i128> = (0..*n).map(|k| a + k * s).collect(); vcheck!(g == e, "row {i}: {g:?} want {e:?}"); } } } }
        }
        Ok(())
    }
} }
arr!(a8, gen_sequence_i8, i8, Int8Array, Int8Type);
arr!(a16, gen_sequence_i16, i16, Int16Array, Int16Type);
arr!(a32, gen_sequence_i32, i32, Int32Array, Int32Type);
arr!(a64, gen_sequence_i64, i64, Int64Array, Int64Type);
fn main() {
    let mut t = T::new();
    let e: Vec<i64> = vec![i64::MIN, i64::MIN + 1, i64::MIN + 9, -4294967296, -2147483648, -7, -2, -1, 0, 1, 2, 3, 10, 2147483631, 2147483632, 2147483633, 2147483647, 4294967295, i64::MAX - 9, i64::MAX - 1, i64::MAX];
    for &a in &e { for &b in &e { for &s in &e { t.case("sequence_length", || format!("sequence({a}, {b}, {s})"), || lens(a, b, s)); } } }
    for _ in 0..t.n(30000) {
        let a = t.wide(); let s = if t.below(2) == 0 { t.rng(-20, 20) } else { t.wide() };
        let b = match t.below(3) { 0 => t.wide(), 1 => a.saturating_add(t.rng(-300, 300)), _ => a.saturating_add(s.saturating_mul(t.rng(0, 40))).saturating_add(t.rng(-3, 3)) };
        t.case("sequence_length", || format!("sequence({a}, {b}, {s})"), || lens(a, b, s));
    }
    for _ in 0..t.n(6000) {
        let two = t.below(2) == 0; let n = t.below(5) as usize;
        let which = t.below(4);
        let (lo, hi) = match which { 0 => (i8::MIN as i64, i8::MAX as i64), 1 => (i16::MIN as i64, i16::MAX as i64), 2 => (i32::MIN as i64, i32::MAX as i64), _ => (i64::MIN, i64::MAX) };
        let bad = t.below(3) == 0;
        let rows: Vec<(Option<i64>, Option<i64>, Option<i64>)> = (0..n).map(|_| {
            let a = match t.below(4) { 0 => lo + t.rng(0, 5), 1 => hi - t.rng(0, 5), _ => t.rng(-100, 100) };
            let mut s = if t.below(5) == 0 { t.rng(-3, 3) } else { t.rng(-40, 40) };
            if t.below(10) == 0 { s = *t.pick(&[lo, hi, hi / 2]); }
            let mut b = (a as i128 + s as i128 * t.rng(0, 9) as i128).clamp(lo as i128, hi as i128) as i64;
            if bad && t.below(3) == 0 { b = (a as i128 + t.rng(-50, 50) as i128).clamp(lo as i128, hi as i128) as i64; }
            if s == 0 && !bad { b = a; }
            if two { b = (a as i128 + t.rng(-300, 300) as i128).clamp(lo as i128, hi as i128) as i64; }
            let o = |k: bool, v: i64| if k { None } else { Some(v) };
            let (x, y, z) = (t.below(9) == 0, t.below(9) == 0, t.below(9) == 0);
            (o(x, a), o(y, b), o(z, s)) }).collect();
        let d = format!("{} rows {rows:?}{}", ["i8", "i16", "i32", "i64"][which as usize], if two { " (two arguments)" } else { "" });
        macro_rules! c { ($f:ident, $t:ty) => { t.case("gen_sequence", || d.clone(), || $f(&rows.iter().map(|r| (r.0.map(|x| x as $t), r.1.map(|x| x as $t), r.2.map(|x| x as $t))).collect::<Vec<_>>(), two)) } }
        match which { 0 => c!(a8, i8), 1 => c!(a16, i16), 2 => c!(a32, i32), _ => c!(a64, i64) }
    }
    t.finish()
}
