//@crate sail_iceberg crates/sail-iceberg
//@extern ordered_float
//@include lib/iceberg_ref.rs
use sail_iceberg::utils::transform::apply_transform;
fn one(t: Transform, p: &PT, v: &P) -> Result<(), String> {
    let ty = Type::Primitive(p.clone());
    vcheck!(apply_transform(t, &ty, None).is_none(), "null is not null any more");
    let g = apply_transform(t, &ty, Some(Literal::Primitive(v.clone()))); let w = want(t, p, v).map(Literal::Primitive);
    vcheck!(g == w, "got {g:?} want {w:?}"); Ok(())
}
fn main() {
    let mut t = T::new();
    assert!(mm3(&34i64.to_le_bytes()) == 2017239379 && mm3(&minbe(1420)) == -500754589 && mm3("iceberg".as_bytes()) == 1210000089 && mm3(&[0, 1, 2, 3]) == -188683207 && mm3(&17486i64.to_le_bytes()) == -653330422);
    let types = [PT::Boolean, PT::Int, PT::Long, PT::Float, PT::Double, PT::Decimal { precision: 38, scale: 2 }, PT::Date, PT::Time, PT::Timestamp, PT::Timestamptz, PT::TimestampNs, PT::TimestamptzNs, PT::String, PT::Uuid, PT::Fixed(4), PT::Binary];
    for p in &types { for tr in [TR::Identity, TR::Void, TR::Unknown, TR::Bucket(7), TR::Truncate(7), TR::Year, TR::Month, TR::Day, TR::Hour] {
        t.case("result_type", || format!("{tr:?} of {p:?}"), || {
            let r = tr.result_type(&Type::Primitive(p.clone())); vcheck!(r.is_ok() == legal(tr, p), "{r:?}");
            if let (Ok(r), false) = (r, tr == TR::Unknown) { let w = match tr { TR::Identity | TR::Void | TR::Truncate(_) => p.clone(), _ => PT::Int }; vcheck!(r == Type::Primitive(w), "{r:?}"); }
            vcheck!(tr.preserves_order() == !matches!(tr, TR::Bucket(_) | TR::Void | TR::Unknown), "preserves_order"); Ok(()) });
    } }
    let strs = ["", "a", "ab", "iceberg", "日本語テキスト", "a😀b", "é", "e\u{301}x", "   ", "0123456789abcdef0"];
    for _ in 0..t.n(60000) {
        let p = t.pick(&types).clone();
        let w = match t.below(4) { 0 => 1 + t.below(3) as u32, 1 => *t.pick(&[10u32, 16, 100, 1000]), 2 => i32::MAX as u32 - t.below(3) as u32, _ => 1 + (t.next() as u32 >> t.below(31)) / 2 }.clamp(1, i32::MAX as u32);
        let tr = match t.below(9) { 0 => TR::Identity, 1 | 2 => TR::Bucket(w), 3 | 4 => TR::Truncate(w), 5 => TR::Year, 6 => TR::Month, 7 => *t.pick(&[TR::Day, TR::Void]), _ => TR::Hour };
        if !legal(tr, &p) { continue }
        let lim = 95_000_000i64; let ns = matches!(p, PT::TimestampNs | PT::TimestamptzNs);
        let ymd = t.rng(-260000, 260000); let jan1 = { let y = ymd - 1; 365 * (ymd - 1970) + y.div_euclid(4) - y.div_euclid(100) + y.div_euclid(400) - 477 };
        let day = match t.below(4) { 0 => t.rng(-800, 800), 1 => t.rng(-60000, 60000), 2 => jan1 + t.rng(-1, 1) + if t.bool() { t.rng(0, 11) * 31 } else { 0 }, _ => t.rng(-lim, lim) }.clamp(-lim, lim);
        let v = match &p {
            PT::Boolean => P::Boolean(t.bool()),
            PT::Int => P::Int(t.wide() as i32), PT::Date => P::Int(if t.below(8) == 0 { t.wide() as i32 } else { day as i32 }),
            PT::Time => P::Long(t.rng(0, 86_399_999_999)),
            PT::Long => P::Long(t.wide()),
            PT::Float => P::Float(OrderedFloat(t.wide() as f32)), PT::Double => P::Double(OrderedFloat(t.wide() as f64)),
            PT::Decimal { .. } => P::Int128(t.wide128()),
            PT::String => { let a = *t.pick(&strs); let b = *t.pick(&strs); P::String(format!("{a}{b}")) }
            PT::Uuid => if t.bool() { P::UInt128(t.wide128() as u128) } else { P::Binary((0..16).map(|_| t.next() as u8).collect()) },
            PT::Fixed(_) => P::Binary((0..4).map(|_| t.next() as u8).collect()), PT::Binary => { let n = t.below(9); P::Binary((0..n).map(|_| t.next() as u8).collect()) }
            _ => { let u = match t.below(3) { 0 => day.saturating_mul(86_400_000_000).saturating_add(*t.pick(&[0i64, -1, 1, 3_600_000_000, 3_599_999_999])), 1 => t.wide(), _ => t.rng(-200_000_000_000, 200_000_000_000) };
                if ns { P::Long(if t.bool() { u } else { u.clamp(-9_000_000_000_000_000, 9_000_000_000_000_000) * 1000 + t.rng(-2, 2) }) } else { P::Long(u) } }
        };
        t.case("apply_transform", || format!("{tr:?} on {p:?} value {v:?}"), || one(tr, &p, &v));
    }
    t.finish()
}
