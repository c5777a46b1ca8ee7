//! C36: results do not depend on build configuration.
//!
//! This program only computes: for every generated case it writes down what the library returned.
//! The driver (special.py) runs it in every configuration and compares.
use std::fmt::Write as _;
use std::io::Write as _;
use vh::engine::*;
#[path = "../sweep.rs"]
mod sweep;
use sweep::*;

fn hash(v: &[u64], mut h: u64) -> u64 {
    for x in v {
        h = mix(h, *x);
    }
    mix(h, v.len() as u64)
}
/// Results of every build, then those that this build may lack.
fn line(o: &Out) -> String {
    format!("{}\t|\t{}", digest(&o.0), if cfg!(feature = "extras") { digest(&o.1) } else { "-".into() })
}
/// A digest of the exact results, then the others.
fn digest(o: &[Item]) -> String {
    let (mut h, mut s) = (0u64, String::new());
    for i in o {
        match i {
            Item::Exact(_, v) => h = hash(v, h),
            Item::Near(_, v, tol) => {
                let _ = write!(s, "\t{:e}", tol);
                for x in v {
                    let _ = write!(s, ",{:?}", x);
                }
            }
        }
    }
    format!("{:016x}{}", h, s)
}
fn run(f: Job, s: Src, show: bool) -> (Cx, Out) {
    let mut cx = Cx::with_src(s, show);
    let mut o = Out::default();
    if let Err(m) = guard(|| f(&mut cx, &mut o)) {
        eprintln!("the harness panicked: {}", m);
        std::process::exit(7);
    }
    (cx, o)
}
fn main() {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned());
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let scale: f64 = opt("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let out = opt("--out").expect("--out");
    let mut w = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let jobs = jobs();
    // evaluate given choice sequences: lines of comma-separated numbers
    if let Some(file) = opt("--choices") {
        let f = jobs.iter().find(|j| j.0 == opt("--sub").unwrap()).expect("unknown sub-check").2;
        for l in std::fs::read_to_string(file).unwrap().lines() {
            let c: Vec<u64> = l.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            let (cx, o) = run(f, Src::replay(c), false);
            writeln!(w, "{}\t{}", cx.s.rec.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), line(&o)).unwrap();
        }
        return;
    }
    // everything about one choice sequence
    if let Some(c) = opt("--detail") {
        let f = jobs.iter().find(|j| j.0 == opt("--sub").unwrap()).expect("unknown sub-check").2;
        let c: Vec<u64> = c.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        let (cx, o) = run(f, Src::replay(c), true);
        writeln!(w, "{}", cx.shown().replace('\n', " ")).unwrap();
        for i in o.0.iter().chain(&o.1) {
            match i {
                Item::Exact(t, v) if v[..] == [PANIC] => writeln!(w, "exact\t{}\tpanic", t).unwrap(),
                Item::Exact(t, v) => writeln!(w, "exact\t{}\t{}", t, v.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(" ")).unwrap(),
                Item::Near(t, v, tol) => writeln!(w, "near\t{}\t{:e}{}", t, tol, v.iter().map(|x| format!(",{:?}", x)).collect::<String>()).unwrap(),
            }
        }
        return;
    }
    let only = opt("--only");
    for (name, n, f) in &jobs {
        if only.as_ref().map(|o| !name.contains(o.as_str())).unwrap_or(false) {
            continue;
        }
        let n = ((*n as f64 * scale).round() as u64).max(1);
        for case in 0..n {
            let (cx, o) = run(*f, Src::random(case_seed(seed, name, case)), false);
            let sample = case == 0;
            let rec = if sample || args.iter().any(|a| a == "--record") { cx.s.rec.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") } else { String::new() };
            let input = hash(&cx.s.rec, 0);
            writeln!(w, "{}\t{}\t{}\t{:016x}\t{}\t{}", name, case, cx.is_nontrivial() as u8, input, rec, line(&o)).unwrap();
        }
    }
}
