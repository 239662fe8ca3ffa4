// Shared runner of the native replay / bounded stand-in harnesses. Concatenated in front of each harness.
#![allow(dead_code, unused_imports, unused_variables, unused_mut, unused_assignments, unused_parens, unused_macros, unreachable_patterns, unused_braces, clippy::all)]
mod vx {
    use std::panic::{catch_unwind, AssertUnwindSafe};
    use std::sync::atomic::{AtomicU64, Ordering};
    pub static CUR: AtomicU64 = AtomicU64::new(0);
    pub struct T {
        s: u64,
        pub seed: u64,
        pub cases: u64,
        pub nontrivial: u64,
        pub fails: u64,
        pub thorough: bool,
        pub only: Option<u64>,
        pub samples: Vec<String>,
        fns: std::collections::BTreeMap<&'static str, u64>,
        nf: std::collections::BTreeMap<String, u64>,
    }
    fn esc(s: &str) -> String {
        let mut o = String::new();
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                c => o.push(c),
            }
        }
        o
    }
    impl T {
        pub fn new() -> T {
            let e = |k: &str| std::env::var(k).ok();
            let seed = e("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1u64);
            if e("VX_PANICS").is_none() { std::panic::set_hook(Box::new(|_| {})) }
            let only = e("VX_CASE").and_then(|s| s.parse().ok());
            std::thread::spawn(|| {
                let mut last = u64::MAX;
                let mut same = 0;
                loop {
                    std::thread::sleep(std::time::Duration::from_millis(500));
                    let c = CUR.load(Ordering::Relaxed);
                    if c == last { same += 1 } else { same = 0; last = c }
                    if same > 60 {
                        println!("VXHANG {}", c);
                        std::process::exit(4);
                    }
                }
            });
            T { s: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03, seed, cases: 0, nontrivial: 0, fails: 0,
                thorough: e("VERIF_TIER").as_deref() == Some("thorough"), only, samples: vec![], fns: Default::default(), nf: Default::default() }
        }
        /// Number of random rounds: `q` in the quick tier, 20x in the thorough one.
        pub fn n(&self, q: u64) -> u64 { if self.thorough { q * 20 } else { q } }
        pub fn next(&mut self) -> u64 {
            self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = self.s;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        }
        pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
        pub fn rng(&mut self, lo: i64, hi: i64) -> i64 { lo.wrapping_add(self.below((hi.wrapping_sub(lo)) as u64 + 1) as i64) }
        pub fn bool(&mut self) -> bool { self.next() & 1 == 1 }
        pub fn pick<'a, X>(&mut self, v: &'a [X]) -> &'a X { let i = self.below(v.len() as u64) as usize; &v[i] }
        /// An integer with a uniformly chosen bit width, either sign: reaches both small values and extremes.
        pub fn wide(&mut self) -> i64 {
            let b = self.below(65);
            let v = if b == 0 { 0 } else { (self.next() >> (64 - b)) as i64 };
            match self.below(8) { 0 => i64::MAX.wrapping_sub(v.wrapping_abs() >> 1), 1 => i64::MIN.wrapping_add(v.wrapping_abs() >> 1), 2..=4 => v.wrapping_neg(), _ => v }
        }
        pub fn wide128(&mut self) -> i128 {
            let b = self.below(129);
            let r = ((self.next() as u128) << 64) | self.next() as u128;
            let v = if b == 0 { 0 } else { (r >> (128 - b)) as i128 };
            if self.bool() { v.wrapping_neg() } else { v }
        }
        /// One case: `f` returns Err(what differs) when the contract is broken; a panic counts as broken.
        pub fn case(&mut self, name: &'static str, desc: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
            self.cases += 1;
            let n = self.cases;
            if let Some(o) = self.only { if o != n { return } else { println!("VXCASE {} {}", n, desc()) } }
            CUR.store(n, Ordering::Relaxed);
            *self.fns.entry(name).or_default() += 1;
            let r = catch_unwind(AssertUnwindSafe(f));
            if *self.fns.get(name).unwrap_or(&0) <= 2 && self.samples.len() < 40 { self.samples.push(format!("{name}: {}", desc())) }
            let why = match r {
                Ok(Ok(())) => return,
                Ok(Err(e)) => e,
                Err(p) => format!("panicked: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
            };
            self.fails += 1;
            let k = self.nf.entry(name.to_string()).or_default();
            *k += 1;
            if *k <= 20 {
                println!("VXFAIL {{\"fn\":\"{}\",\"case\":{},\"input\":\"{}\",\"why\":\"{}\"}}", esc(name), n, esc(&desc()), esc(&why));
            }
        }
        pub fn finish(self) -> ! {
            let s: Vec<String> = self.samples.iter().map(|s| format!("\"{}\"", esc(s))).collect();
            let f: Vec<String> = self.fns.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect();
            println!("VXRESULT {{\"cases\":{},\"fails\":{},\"by_fn\":{{{}}},\"samples\":[{}]}}", self.cases, self.fails, f.join(","), s.join(","));
            std::process::exit(if self.fails > 0 { 1 } else { 0 })
        }
    }
    /// Runs a step of a history: a panic of the code under test is a failure of the step.
    pub fn guard<X>(f: impl FnOnce() -> Result<X, String>) -> Result<X, String> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(p) => Err(format!("panicked: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
        }
    }
    #[macro_export]
    macro_rules! vcheck { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }
}
use vx::{guard, T};
// any error, as the extracted code's `?` needs it
#[derive(Clone)] struct VErr(String);
impl<X: std::fmt::Display> From<X> for VErr { fn from(x: X) -> VErr { VErr(x.to_string()) } }
impl std::fmt::Debug for VErr { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
fn vx_err() -> VErr { VErr("error".into()) }
