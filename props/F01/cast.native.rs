//@extern arrow_array
use arrow_array::{Int32Array, Array};
//@EXTRACTED@
fn want(s: &str) -> Option<i32> {
    let t = s.trim_matches(|c: char| (c as u32) <= 32 || c as u32 == 127);
    let (neg, b) = if let Some(r) = t.strip_prefix('-') { (true, r) } else if let Some(r) = t.strip_prefix('+') { (false, r) } else { (false, t) };
    if b.is_empty() { return None }
    let (i, f) = b.split_once('.').unwrap_or((b, ""));
    if !i.bytes().all(|c| c.is_ascii_digit()) || !f.bytes().all(|c| c.is_ascii_digit()) { return None }
    let i = i.trim_start_matches('0');
    if i.len() > 12 { return None }
    let v: i64 = if i.is_empty() { 0 } else { i.parse().unwrap() };
    i32::try_from(if neg { -v } else { v }).ok()
}
fn main() {
    let mut t = T::new();
    let ab: Vec<char> = "019.+- \u{7f}\t\u{e9}a8\u{0}".chars().collect();
    let check = |s: &str| -> Result<(), String> {
        let (g, w) = (parse_spark_legacy_string_to_i32(s), want(s));
        vcheck!(g == w, "got {g:?} want {w:?}");
        let arr = parse_string_values(vec![None, Some(s), Some("7")].into_iter());
        vcheck!(arr.len() == 3 && arr.is_null(0) && arr.is_null(1) == w.is_none() && (w.is_none() || arr.value(1) == w.unwrap()) && arr.value(2) == 7, "array {arr:?}");
        Ok(()) };
    let mut all: Vec<String> = vec![String::new()];
    let mut cur = all.clone();
    for _ in 0..4 { cur = cur.iter().flat_map(|s| ab.iter().map(move |c| format!("{s}{c}"))).collect(); all.extend(cur.clone()); }
    for s in &all { t.case("parse_spark_legacy_string_to_i32", || format!("{s:?}"), || check(s)); }
    let edges = [i32::MAX as i64, i32::MAX as i64 + 1, i32::MIN as i64, i32::MIN as i64 - 1, 2147483639, 2147483640, 2147483650, 21474836470, 21474836480, 214748364, 214748365, 4294967295, 4294967296, 9999999999, 0];
    for e in edges { for d in -2i64..=2 { for pre in ["", "+", "-", "0", "-00", " ", "\t-"] { for suf in ["", ".", ".9", ".99999999999999", ".9a", " ", "0", "\u{7f}", " 1"] {
        let s = format!("{pre}{}{suf}", e.abs() + d); t.case("parse_spark_legacy_string_to_i32", || format!("{s:?}"), || check(&s)); } } } }
    for _ in 0..t.n(60000) {
        let l = t.below(16); let s: String = (0..l).map(|_| if t.below(3) > 0 { *t.pick(&['0', '1', '2', '4', '7', '8', '9', '3', '6']) } else { *t.pick(&ab) }).collect();
        t.case("parse_spark_legacy_string_to_i32", || format!("{s:?}"), || check(&s));
    }
    t.finish()
}
