//! vx: mechanical extraction of functions from /repo, with contracts spliced in.
//!
//! usage: vx REPO SPEC OUTDIR
//!
//! Reads the overlay SPEC (contracts, loop invariants, rewrite rules), finds every named function, type and
//! constant in REPO's *current* source, and writes
//!   OUTDIR/extracted_verus.rs   text for the verifier, contracts spliced in
//!   OUTDIR/extracted_native.rs  the same text without ghost code, for native replay
//!   OUTDIR/report.json          what was extracted, from where, and what was dropped or rewritten
mod overlay;
mod extract;

use std::path::PathBuf;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() != 4 {
        eprintln!("usage: vx REPO SPEC OUTDIR");
        std::process::exit(2);
    }
    let ov = match overlay::parse(&std::fs::read_to_string(&a[2]).expect("spec")) {
        Ok(o) => o,
        Err(e) => {
            eprintln!("overlay error: {e}");
            std::process::exit(2);
        }
    };
    let out = PathBuf::from(&a[3]);
    std::fs::create_dir_all(&out).expect("outdir");
    let r = extract::run(PathBuf::from(&a[1]), &ov);
    std::fs::write(out.join("extracted_verus.rs"), r.verus).unwrap();
    std::fs::write(out.join("extracted_native.rs"), r.native).unwrap();
    std::fs::write(out.join("report.json"), r.report).unwrap();
    for m in &r.missing {
        eprintln!("MISSING {m}");
    }
    if !r.missing.is_empty() {
        std::process::exit(3);
    }
}
