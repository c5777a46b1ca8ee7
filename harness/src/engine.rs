//! A small choice-sequence property-testing engine.
//!
//! A case is a pure function of a sequence of bounded integer choices.  In search mode the choices
//! come from a PRNG seeded from (seed, sub-check name, case number) and are recorded; in replay and
//! shrink mode they come from a given sequence (0, the simplest choice, past its end).
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicUsize, Ordering},
        Mutex,
    },
    time::Instant,
};

pub struct Fail {
    pub msg: String,
}
impl Fail {
    pub fn new<S: Into<String>>(s: S) -> Self {
        Fail { msg: s.into() }
    }
}
pub type Res = Result<(), Fail>;

/// Fail the case unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)+) => {
        if !$c { return Err($crate::engine::Fail::new(format!($($a)+))); }
    };
}
/// Fail the case unless both sides are equal.
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($m:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) {
            return Err($crate::engine::Fail::new(format!("{}: got {:?}, expected {:?}", format!($($m)+), a, b)));
        }
    }};
}

#[derive(Clone)]
pub struct Rng64(u64);
impl Rng64 {
    pub fn new(seed: u64) -> Self {
        Rng64(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng64(a ^ b.wrapping_mul(0xA24B_AED4_963E_E407));
    r.next();
    r.next()
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// Source of choices.
pub struct Src {
    rng: Rng64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    /// Every choice is written here as it is made.
    pub log: Option<std::fs::File>,
}
impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: Rng64(seed), replay: None, pos: 0, rec: Vec::new(), log: None }
    }
    pub fn replay(c: Vec<u64>) -> Self {
        Src { rng: Rng64(0), replay: Some(c), pos: 0, rec: Vec::new(), log: None }
    }
    /// A choice in `0..n` (`n == 0` means the full 64-bit range).  Smaller is simpler.
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 1 {
            return 0;
        }
        let x = match &self.replay {
            Some(r) => {
                let x = r.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                x
            }
            None => self.rng.next(),
        };
        let v = if n == 0 { x } else { x % n };
        self.rec.push(v);
        if let Some(f) = &mut self.log {
            use std::io::Write;
            let _ = writeln!(f, "{}", v);
        }
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn bits(&mut self) -> u64 {
        self.below(0)
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True with probability `num / den`; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    /// Integer in `lo..=hi`, shrinking towards `lo`.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo) as u64 + 1) as i64
    }
    /// Integer in `-m..=m`, shrinking towards 0.
    pub fn zigzag(&mut self, m: u64) -> i64 {
        let v = self.below(2 * m + 1);
        if v % 2 == 1 {
            (v / 2 + 1) as i64
        } else {
            -((v / 2) as i64)
        }
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.idx(xs.len())]
    }
}

pub struct Cx {
    pub s: Src,
    nontrivial: bool,
    labels: Vec<&'static str>,
    want_show: bool,
    shown: Option<String>,
}
impl Cx {
    pub fn with_src(s: Src, want_show: bool) -> Self {
        Cx { s, nontrivial: false, labels: Vec::new(), want_show, shown: None }
    }
    pub fn shown(&self) -> String {
        self.shown.clone().unwrap_or_default()
    }
    pub fn is_nontrivial(&self) -> bool {
        self.nontrivial
    }
    pub fn nontrivial(&mut self, yes: bool) {
        if yes {
            self.nontrivial = true;
        }
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
    pub fn show<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_show {
            self.shown = Some(f());
        }
    }
}

type Body = Box<dyn Fn(&mut Cx) -> Res + Send + Sync>;
struct Sub {
    name: String,
    cases: u64,
    f: Body,
}
struct Finding {
    id: String,
    what: String,
    f: Box<dyn Fn() -> Res + Send + Sync>,
}
/// Of every thread that runs cases.
const STACK: usize = 256 << 20;
pub struct Prop {
    id: String,
    rule: String,
    subs: Vec<Sub>,
    findings: Vec<Finding>,
    names: HashSet<String>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Marker for panics thrown on purpose by the harness.
pub const INJECTED: &str = "vh-injected-panic";

fn run_case(f: &Body, cx: &mut Cx) -> Res {
    match catch_unwind(AssertUnwindSafe(|| f(cx))) {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(Fail::new(format!("panic: {}", m)))
        }
    }
}

/// Run a closure, turning a panic into `Err(message)`.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let mut m = msg;
        // an injected panic is reported often: keep that cheap (interpreted runs)
        if m != INJECTED {
            if let Some(l) = info.location() {
                let _ = write!(m, " at {}:{}", l.file(), l.line());
            }
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(m));
    }));
}

#[derive(Default)]
struct SubStat {
    evals: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    sample_case: Option<u64>,
    fail: Option<(u64, String, Vec<u64>)>,
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn case_seed(seed: u64, name: &str, case: u64) -> u64 {
    mix(mix(seed, hash_str(name)), case)
}

impl Prop {
    pub fn new(id: &str, rule: &str) -> Self {
        Prop { id: id.into(), rule: rule.into(), subs: Vec::new(), findings: Vec::new(), names: HashSet::new() }
    }
    /// Add a sub-check with its quick-tier number of cases.
    pub fn sub<N: Into<String>, F>(&mut self, name: N, cases: u64, f: F)
    where
        F: Fn(&mut Cx) -> Res + Send + Sync + 'static,
    {
        let name = name.into();
        assert!(self.names.insert(name.clone()), "duplicate sub-check {}", name);
        self.subs.push(Sub { name, cases, f: Box::new(f) });
    }
    /// Add a recorded defect: a fixed input on which the property is known to fail.
    pub fn finding<F>(&mut self, id: &str, what: &str, f: F)
    where
        F: Fn() -> Res + Send + Sync + 'static,
    {
        self.findings.push(Finding { id: id.into(), what: what.into(), f: Box::new(f) });
    }

    fn shrink(&self, sub: &Sub, rec: Vec<u64>, msg: String) -> (Vec<u64>, String) {
        let mut best = rec;
        let mut best_msg = msg;
        let mut budget = 6000usize;
        let deadline = Instant::now() + std::time::Duration::from_secs(10);
        let attempt = |c: &Vec<u64>, budget: &mut usize| -> Option<(Vec<u64>, String)> {
            if *budget == 0 || Instant::now() > deadline {
                *budget = 0;
                return None;
            }
            *budget -= 1;
            let mut cx = Cx::with_src(Src::replay(c.clone()), false);
            match run_case(&sub.f, &mut cx) {
                Ok(()) => None,
                Err(f) => {
                    let mut r = cx.s.rec;
                    while r.last() == Some(&0) {
                        r.pop();
                    }
                    Some((r, f.msg))
                }
            }
        };
        let key = |c: &Vec<u64>| (c.len(), c.iter().map(|x| 64 - x.leading_zeros() as u64).sum::<u64>(), c.clone());
        loop {
            let mut improved = false;
            let take = |c: Vec<u64>, best: &mut Vec<u64>, best_msg: &mut String, budget: &mut usize| -> bool {
                if key(&c) >= key(best) {
                    return false;
                }
                if let Some((r, m)) = attempt(&c, budget) {
                    if key(&r) < key(best) {
                        *best = r;
                        *best_msg = m;
                        return true;
                    }
                }
                false
            };
            // delete chunks
            let mut size = best.len();
            while size > 0 {
                let mut i = 0;
                while i + size <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + size);
                    if take(c, &mut best, &mut best_msg, &mut budget) {
                        improved = true;
                    } else {
                        i += size;
                    }
                }
                size /= 2;
            }
            // zero / minimise single choices
            let mut i = 0;
            while i < best.len() {
                let mut c = best.clone();
                c[i] = 0;
                if best[i] != 0 && !take(c, &mut best, &mut best_msg, &mut budget) {
                    let mut sh = 32;
                    while sh > 0 && i < best.len() {
                        let mut c = best.clone();
                        c[i] >>= sh;
                        if c[i] == best[i] || !take(c, &mut best, &mut best_msg, &mut budget) {
                            sh /= 2;
                        } else {
                            improved = true;
                        }
                    }
                    for d in [1u64, 2, 3] {
                        if i < best.len() && best[i] >= d {
                            let mut c = best.clone();
                            c[i] -= d;
                            improved |= take(c, &mut best, &mut best_msg, &mut budget);
                        }
                    }
                } else {
                    improved |= i < best.len();
                }
                i += 1;
            }
            if !improved || budget == 0 {
                break;
            }
            // `improved` is set generously above; stop once a full pass no longer changes the key
            let k = key(&best);
            let mut changed = false;
            for i in 0..best.len() {
                let mut c = best.clone();
                c.remove(i);
                if take(c, &mut best, &mut best_msg, &mut budget) {
                    changed = true;
                    break;
                }
            }
            if !changed && key(&best) == k {
                break;
            }
        }
        (best, best_msg)
    }

    fn describe(&self, sub: &Sub, choices: &[u64]) -> (String, Option<String>) {
        let mut cx = Cx::with_src(Src::replay(choices.to_vec()), true);
        let r = run_case(&sub.f, &mut cx);
        (cx.shown.unwrap_or_default(), r.err().map(|f| f.msg))
    }

    pub fn main(self) {
        if cfg!(miri) {
            return self.run();
        }
        // a generous stack: some matrices are large
        std::thread::scope(|sc| {
            let h = std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, move || self.run()).unwrap();
            if h.join().is_err() {
                std::process::exit(101);
            }
        });
    }
    fn run(self) {
        install_hook();
        let args: Vec<String> = std::env::args().collect();
        let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned());
        let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
        let scale: f64 = opt("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
        let only = opt("--only");
        if args.iter().any(|a| a == "--list") {
            for s in &self.subs {
                println!("{} {}", s.name, s.cases);
            }
            return;
        }
        if let Some(name) = opt("--replay-sub") {
            if let Some(fid) = name.strip_prefix("finding:") {
                let f = self.findings.iter().find(|f| f.id == fid).expect("unknown finding");
                match guard(|| (f.f)()).unwrap_or_else(|m| Err(Fail::new(m))) {
                    Ok(()) => println!("PASS"),
                    Err(f) => {
                        println!("FAIL: {}", f.msg);
                        std::process::exit(1);
                    }
                }
                return;
            }
            let sub = self.subs.iter().find(|s| s.name == name).expect("unknown sub-check");
            let choices: Vec<u64> = if let Some(case) = opt("--case") {
                let mut src = Src::random(case_seed(seed, &sub.name, case.parse().unwrap()));
                src.log = opt("--choice-log").map(|p| std::fs::File::create(p).unwrap());
                let mut cx = Cx::with_src(src, false);
                let _ = run_case(&sub.f, &mut cx);
                cx.s.rec
            } else {
                opt("--choices")
                    .unwrap_or_default()
                    .split(',')
                    .filter(|x| !x.is_empty())
                    .map(|x| x.parse().expect("choice"))
                    .collect()
            };
            let (shown, msg) = self.describe(sub, &choices);
            println!("input: {}", shown);
            match msg {
                None => println!("PASS"),
                Some(m) => {
                    println!("FAIL: {}", m);
                    std::process::exit(1);
                }
            }
            return;
        }
        let threads: usize = opt("--threads").and_then(|s| s.parse().ok()).unwrap_or_else(|| {
            std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
        });
        let trace = opt("--trace");
        let shard: Option<(usize, usize)> = opt("--shard").map(|s| {
            let (k, n) = s.split_once('/').expect("k/n");
            (k.parse().unwrap(), n.parse().unwrap())
        });
        let t0 = Instant::now();
        let subs: Vec<&Sub> = self
            .subs
            .iter()
            .filter(|s| only.as_ref().map(|o| s.name.contains(o.as_str())).unwrap_or(true))
            .enumerate()
            .filter(|(i, _)| shard.map(|(k, n)| i % n == k).unwrap_or(true))
            .map(|(_, s)| s)
            .collect();
        // work items: (sub, from, to)
        let mut items: Vec<(usize, u64, u64)> = Vec::new();
        for (i, s) in subs.iter().enumerate() {
            let n = ((s.cases as f64 * scale).round() as u64).max(1);
            let chunk = if threads == 1 { n } else { (n / 8).clamp(1, 20_000).max(64) };
            let mut a = 0;
            while a < n {
                let b = (a + chunk).min(n);
                items.push((i, a, b));
                a = b;
            }
        }
        let stats: Vec<Mutex<SubStat>> = subs.iter().map(|_| Mutex::new(SubStat::default())).collect();
        let next = AtomicUsize::new(0);
        // watchdog: what each worker is doing since when
        type Slot = Mutex<Option<(usize, u64, Instant)>>;
        let slots: Vec<Slot> = (0..threads.max(1)).map(|_| Mutex::new(None)).collect();
        let limit: u64 = opt("--case-timeout").and_then(|s| s.parse().ok()).unwrap_or(90);
        let worker = |me: usize, trace_file: Option<&std::fs::File>| loop {
            let k = next.fetch_add(1, Ordering::Relaxed);
            if k >= items.len() {
                *slots[me].lock().unwrap() = None;
                break;
            }
            let (si, a, b) = items[k];
            let sub = subs[si];
            let mut st = SubStat::default();
            for case in a..b {
                if let Some(f) = trace_file {
                    use std::os::unix::fs::FileExt;
                    // no formatting: this is interpreted in some runs
                    let mut line = [b' '; 222];
                    line[..sub.name.len().min(200)].copy_from_slice(&sub.name.as_bytes()[..sub.name.len().min(200)]);
                    let (mut n, mut k) = (case, 220);
                    loop {
                        line[k] = b'0' + (n % 10) as u8;
                        n /= 10;
                        k -= 1;
                        if n == 0 {
                            break;
                        }
                    }
                    line[221] = b'\n';
                    let _ = f.write_all_at(&line, 0);
                }
                *slots[me].lock().unwrap() = Some((si, case, Instant::now()));
                let mut cx = Cx::with_src(Src::random(case_seed(seed, &sub.name, case)), false);
                let r = run_case(&sub.f, &mut cx);
                st.evals += 1;
                for l in &cx.labels {
                    *st.labels.entry(l).or_insert(0) += 1;
                }
                if cx.nontrivial {
                    st.nontrivial += 1;
                    let mut h = 0x1234_5678u64;
                    for c in &cx.s.rec {
                        h = (h ^ c).wrapping_mul(0x9E37_79B9_7F4A_7C15);
                        h ^= h >> 29;
                    }
                    st.distinct.insert(h);
                    if st.sample_case.is_none() {
                        st.sample_case = Some(case);
                    }
                }
                if let Err(f) = r {
                    st.fail = Some((case, f.msg, cx.s.rec));
                    break;
                }
            }
            let mut g = stats[si].lock().unwrap();
            g.evals += st.evals;
            g.nontrivial += st.nontrivial;
            g.distinct.extend(st.distinct);
            for (l, n) in st.labels {
                *g.labels.entry(l).or_insert(0) += n;
            }
            if let Some(c) = st.sample_case {
                if g.sample_case.map(|x| c < x).unwrap_or(true) {
                    g.sample_case = Some(c);
                }
            }
            if let Some(f) = st.fail {
                if g.fail.as_ref().map(|x| f.0 < x.0).unwrap_or(true) {
                    g.fail = Some(f);
                }
            }
        };
        if threads == 1 {
            let f = trace.as_ref().map(|p| std::fs::File::create(p).unwrap());
            worker(0, f.as_ref());
        } else {
            let done = std::sync::atomic::AtomicBool::new(false);
            std::thread::scope(|sc| {
                let (worker, slots, subs, done, id, rule) = (&worker, &slots, &subs, &done, &self.id, &self.rule);
                let out = opt("--out");
                sc.spawn(move || {
                    while !done.load(Ordering::Relaxed) {
                        std::thread::sleep(std::time::Duration::from_millis(20));
                        for s in slots.iter() {
                            let g = *s.lock().unwrap();
                            if let Some((si, case, t)) = g {
                                if t.elapsed().as_secs() >= limit {
                                    let m = format!("the case did not finish within {} s", limit);
                                    let line = format!(
                                        "{{\"property\":{},\"rule\":{},\"evaluations\":0,\"nontrivial\":0,\"distinct_nontrivial\":0,\"subchecks\":0,\"labels\":{{}},\"samples\":[],\"fails\":[{{\"sub\":{},\"case\":{},\"first_message\":{},\"message\":{},\"input\":\"\",\"choices\":null}}],\"findings\":[],\"search_s\":0}}\n",
                                        json_str(id), json_str(rule), json_str(&subs[si].name), case, json_str(&m), json_str(&m)
                                    );
                                    match &out {
                                        Some(p) => std::fs::write(p, line).unwrap(),
                                        None => print!("{}", line),
                                    }
                                    std::process::exit(1);
                                }
                            }
                        }
                    }
                });
                let hs: Vec<_> = (0..threads)
                    .map(|i| {
                        std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, move || worker(i, None)).unwrap()
                    })
                    .collect();
                for h in hs {
                    h.join().unwrap();
                }
                done.store(true, Ordering::Relaxed);
            });
        }
        // Report
        let mut fails = Vec::new();
        let mut samples = Vec::new();
        let (mut evals, mut nontriv, mut distinct) = (0u64, 0u64, 0u64);
        let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
        let step = (subs.len() / if shard.is_some() { 3 } else { 24 }).max(1);
        for (i, s) in subs.iter().enumerate() {
            let g = stats[i].lock().unwrap();
            evals += g.evals;
            nontriv += g.nontrivial;
            distinct += g.distinct.len() as u64;
            for (l, n) in &g.labels {
                *labels.entry(l).or_insert(0) += n;
            }
            if i % step == 0 && g.fail.is_none() {
                if let Some(c) = g.sample_case {
                    let mut cx = Cx::with_src(Src::random(case_seed(seed, &s.name, c)), true);
                    let _ = run_case(&s.f, &mut cx);
                    let mut t = cx.shown.unwrap_or_default();
                    if t.len() > 400 {
                        let mut cut = 400;
                        while !t.is_char_boundary(cut) {
                            cut -= 1;
                        }
                        t.truncate(cut);
                        t.push_str("...");
                    }
                    samples.push(format!("{} case {}: {}", s.name, c, t));
                }
            }
            if let Some((case, msg, rec)) = &g.fail {
                let (ch, m, shown) = if fails.len() < 4 {
                    let (ch, m) = self.shrink(s, rec.clone(), msg.clone());
                    let shown = self.describe(s, &ch).0;
                    (ch, m, shown)
                } else {
                    (rec.clone(), msg.clone(), String::new())
                };
                fails.push(format!(
                    "{{\"sub\":{},\"case\":{},\"first_message\":{},\"message\":{},\"input\":{},\"choices\":[{}]}}",
                    json_str(&s.name),
                    case,
                    json_str(msg),
                    json_str(&m),
                    json_str(&shown),
                    ch.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
                ));
            }
        }
        let mut finds = Vec::new();
        for f in &self.findings {
            let r = guard(|| (f.f)()).unwrap_or_else(|m| Err(Fail::new(m)));
            evals += 1;
            finds.push(format!(
                "{{\"id\":{},\"what\":{},\"fails\":{},\"message\":{}}}",
                json_str(&f.id),
                json_str(&f.what),
                r.is_err(),
                json_str(&r.err().map(|e| e.msg).unwrap_or_default())
            ));
        }
        let out = format!(
            "{{\"property\":{},\"rule\":{},\"evaluations\":{},\"nontrivial\":{},\"distinct_nontrivial\":{},\"subchecks\":{},\"labels\":{{{}}},\"samples\":[{}],\"fails\":[{}],\"findings\":[{}],\"search_s\":{:.3}}}\n",
            json_str(&self.id),
            json_str(&self.rule),
            evals,
            nontriv,
            distinct,
            subs.len(),
            labels.iter().map(|(l, n)| format!("{}:{}", json_str(l), n)).collect::<Vec<_>>().join(","),
            samples.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(","),
            fails.join(","),
            finds.join(","),
            t0.elapsed().as_secs_f64()
        );
        match opt("--out") {
            Some(p) => std::fs::write(p, out).unwrap(),
            None => print!("{}", out),
        }
        if !fails.is_empty() {
            std::process::exit(1);
        }
    }
}
