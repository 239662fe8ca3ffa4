//@EXTRACTED@
fn want(s: i128, e: i128, t: i128, cap: usize) -> Option<Vec<i64>> {
    let mut v = vec![]; let mut x = s;
    while if t > 0 { x < e } else { x > e } { if v.len() >= cap { return None } v.push(x as i64); x += t; }
    Some(v)
}
fn drain(r: Range, cap: usize) -> Vec<i64> { let mut it = r.into_iter(); let mut v = vec![]; while let Some(x) = it.next() { v.push(x); if v.len() > cap { break } } v }
fn check(r: Range, np: usize) -> Result<(), String> {
    let (s, e, t) = (r.start as i128, r.end as i128, r.step as i128);
    let n: i128 = if t > 0 && e > s { (e - s + t - 1) / t } else if t < 0 && e < s { (s - e - t - 1) / -t } else { 0 };
    if n <= 4000 && np <= 400 {
        let w = want(s, e, t, 4001).unwrap();
        let mut got = vec![];
        for p in 0..np { got.extend(drain(r.partition(p, np), 4001)); }
        vcheck!(got == w, "partitions yield {:?}.. want {:?}..", &got[..got.len().min(8)], &w[..w.len().min(8)]);
        vcheck!(drain(r.clone(), 4001) == w, "iterator yields {:?} want {:?}", drain(r.clone(), 9), &w[..w.len().min(8)]);
    }
    // boundaries of a few partitions, whatever the size
    let npi = np as i128;
    for p in [0, 1, np / 2, np.saturating_sub(2), np - 1] { if p < np {
        let q = r.partition(p, np);
        let lo = p as i128 * n / npi; let hi = (p as i128 + 1) * n / npi;
        let (qs, qe, qt) = (q.start as i128, q.end as i128, q.step as i128);
        vcheck!(qt == t, "step {qt}");
        let m: i128 = if t > 0 && qe > qs { (qe - qs + t - 1) / t } else if t < 0 && qe < qs { (qs - qe - t - 1) / -t } else { 0 };
        vcheck!(m == hi - lo, "partition {p} has {m} elements, want {}", hi - lo);
        vcheck!(m == 0 || qs == s + lo * t, "partition {p} starts at {qs}, want {}", s + lo * t);
    } }
    Ok(())
}
fn main() {
    let mut t = T::new();
    let b: Vec<i64> = vec![i64::MIN, i64::MIN + 1, i64::MIN + 2, i64::MIN + 13, -11, -3, -1, 0, 1, 2, 10, i64::MAX - 13, i64::MAX - 2, i64::MAX - 1, i64::MAX];
    let st: Vec<i64> = vec![i64::MIN, i64::MIN + 1, -10, -3, -2, -1, 1, 2, 3, 7, 10, i64::MAX - 1, i64::MAX];
    let nps = [1usize, 2, 3, 4, 5, 7, 16, 100, i32::MAX as usize];
    for &s in &b { for &e in &b { for &k in &st { for &np in &nps {
        t.case("Range::partition/next", || format!("start={s} end={e} step={k} partitions={np}"), || check(Range { start: s, end: e, step: k }, np));
    } } } }
    for _ in 0..t.n(60000) {
        let s = t.wide(); let k = loop { let k = t.wide(); if k != 0 { break k } };
        let e = match t.below(4) { 0 => t.wide(), 1 => s.saturating_add(k.saturating_mul(t.rng(0, 50))), 2 => s.saturating_add(t.rng(-300, 300)), _ => s.wrapping_add(t.rng(-300, 300)) };
        let k = if t.below(2) == 0 { *t.pick(&st) } else { k };
        let np = match t.below(4) { 0 => t.below(9) as usize + 1, 1 => t.below(300) as usize + 1, 2 => t.below(1 << 31) as usize + 1, _ => 1 };
        t.case("Range::partition/next", || format!("start={s} end={e} step={k} partitions={np}"), || check(Range { start: s, end: e, step: k }, np));
    }
    t.finish()
}
