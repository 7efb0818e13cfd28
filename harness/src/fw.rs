//! The monitoring framework: addressable cases, a parallel runner with CPU-time and memory
//! monitors, violation records, known findings, and the evidence file.
use crate::rng::Rng;
use serde_json::{json, Map, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::panic;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, id: *mut i32) -> i32;
    fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32;
    fn _exit(code: i32) -> !;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
}

// ---------------------------------------------------------------- memory monitor
pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        account(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as i64));
        System.dealloc(p, l)
    }
}
fn account(n: i64) {
    let _ = LIVE.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        if n > 0 {
            PEAK.with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
            if v > LIMIT.with(|l| l.get()) {
                LIMIT.with(|l| l.set(i64::MAX));
                let slot = SLOT.with(|s| s.get());
                emergency(slot, "memory");
            }
        }
    });
}
pub fn mem_start(limit: i64) {
    LIVE.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    LIMIT.with(|c| c.set(limit));
}
pub fn mem_peak() -> i64 {
    LIMIT.with(|c| c.set(i64::MAX));
    PEAK.with(|c| c.get())
}

// ---------------------------------------------------------------- cases
pub struct Failure {
    pub sig: String,
    pub detail: String,
}
pub struct Case {
    pub seed: u64,
    pub family: &'static str,
    pub idx: u64,
    pub rng: Rng,
    pub thorough: bool,
    pub failures: Vec<Failure>,
    pub seen: Vec<u64>,
    pub evals: u64,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub sample: Option<Value>,
    pub artifact: Vec<(String, Vec<u8>)>,
    pub inconclusive: Vec<String>,
}
impl Case {
    pub fn new(seed: u64, family: &'static str, idx: u64, thorough: bool) -> Case {
        Case {
            seed, family, idx, thorough,
            rng: Rng::stream(seed, family, idx),
            failures: vec![], seen: vec![], evals: 0,
            counters: BTreeMap::new(), maxima: BTreeMap::new(), sample: None, artifact: vec![], inconclusive: vec![],
        }
    }
    /// a violation: `sig` identifies what fails (stable across runs), `detail` this occurrence
    pub fn fail(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
        if self.failures.len() < 40 {
            self.failures.push(Failure { sig: sig.into(), detail: detail.into() });
        }
    }
    /// one evaluated execution, non-trivial and identified by `key`
    pub fn eval(&mut self, key: impl AsRef<[u8]>) {
        self.evals += 1;
        self.seen.push(crate::rng::fnv(key.as_ref()));
    }
    pub fn count(&mut self, name: &str, n: u64) {
        *self.counters.entry(name.to_string()).or_insert(0) += n;
    }
    pub fn max(&mut self, name: &str, n: u64) {
        let e = self.maxima.entry(name.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn attach(&mut self, name: &str, b: &[u8]) {
        self.artifact.push((name.to_string(), b.to_vec()));
    }
}
type RunFn = Box<dyn Fn(&mut Case) + Sync + Send>;
pub struct Family {
    pub name: &'static str,
    pub count: u64,
    pub run: RunFn,
}
pub fn family(name: &'static str, count: u64, f: impl Fn(&mut Case) + Sync + Send + 'static) -> Family {
    Family { name, count, run: Box::new(f) }
}
pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub families: Vec<Family>,
    /// CPU seconds one case may take
    pub cpu_limit: u64,
    /// extra evidence
    pub assumptions: Vec<String>,
}

// ---------------------------------------------------------------- paths
pub fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".to_string())
}
pub fn scratch() -> String {
    let d = format!("{}/target/scratch", root());
    let _ = std::fs::create_dir_all(&d);
    d
}

// ---------------------------------------------------------------- monitors
const MAXT: usize = 64;
struct Slot {
    thread: AtomicUsize,
    start_cpu: AtomicU64,
    fam: AtomicUsize,
    idx: AtomicU64,
    busy: AtomicBool,
}
#[allow(clippy::declare_interior_mutable_const)]
const EMPTY: Slot = Slot { thread: AtomicUsize::new(0), start_cpu: AtomicU64::new(0), fam: AtomicUsize::new(0), idx: AtomicU64::new(0), busy: AtomicBool::new(false) };
static SLOTS: [Slot; MAXT] = [EMPTY; MAXT];
static EMERGENCY: Mutex<Option<(&'static str, Vec<&'static str>, u64)>> = Mutex::new(None);

fn cpu_ns(thread: usize) -> u64 {
    unsafe {
        let mut id = 0;
        if pthread_getcpuclockid(thread, &mut id) != 0 {
            return 0;
        }
        let mut ts = [0i64; 2];
        if clock_gettime(id, &mut ts) != 0 {
            return 0;
        }
        ts[0] as u64 * 1_000_000_000 + ts[1] as u64
    }
}
/// CPU time of the calling thread in nanoseconds
pub fn thread_cpu() -> u64 {
    cpu_ns(unsafe { pthread_self() })
}
/// a case ran out of its CPU or memory budget: report it and end the process
fn emergency(slot: usize, what: &str) {
    if slot >= MAXT {
        unsafe { _exit(3) }
    }
    let (fam, idx) = (SLOTS[slot].fam.load(SeqCst), SLOTS[slot].idx.load(SeqCst));
    let g = match EMERGENCY.try_lock() {
        Ok(g) => g,
        Err(_) => return,
    };
    if let Some((id, fams, seed)) = g.as_ref() {
        let sig = format!("{}:{}", what, fams[fam]);
        let path = format!("{}/replay/{}-{}-{}-{}.json", root(), id, what, fams[fam], idx);
        let _ = std::fs::create_dir_all(format!("{}/replay", root()));
        let _ = std::fs::write(&path, json!({"property": id, "seed": seed, "family": fams[fam], "index": idx, "sig": sig, "detail": format!("{} budget exhausted", what),
            "replay": format!("vharness replay {} {} {} {}", id, fams[fam], idx, seed)}).to_string());
        let ev = json!({"property": id, "tier": tier(), "seed": seed, "level": "exploration", "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "run ended early: a case exhausted its budget", "samples": [path]}, "wall_s": 0.0, "violations": 1});
        let _ = std::fs::write(format!("{}/evidence/{}.json", root(), id), ev.to_string());
        let line = format!("VIOLATION property={} replay={}\n  {}: family {} case {} exceeded its {} budget\n", id, path, sig, fams[fam], idx, what);
        unsafe {
            write(1, line.as_ptr(), line.len());
            _exit(1)
        }
    }
    unsafe { _exit(3) }
}
pub fn tier() -> &'static str {
    if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" }
}
thread_local! { static LAST_PANIC: Cell<Option<String>> = const { Cell::new(None) }; }
pub fn install_hook() {
    panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| p.set(Some(format!("{} at {}", msg, loc))));
    }));
}
/// run library code; a panic becomes Err(message)
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match panic::catch_unwind(panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.take()).unwrap_or_else(|| "panic".into())),
    }
}
/// signature of a panic message: digits and line numbers removed, so that it is stable
pub fn panic_sig(m: &str) -> String {
    let at = m.rfind(" at ").unwrap_or(m.len());
    let loc = m[at..].trim_start_matches(" at ");
    let file = loc.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("");
    let mut s = String::new();
    for c in m[..at].chars().take(60) {
        if c.is_ascii_digit() {
            if !s.ends_with('#') {
                s.push('#')
            }
        } else {
            s.push(if c.is_ascii_graphic() { c } else { '_' })
        }
    }
    format!("panic:{}:{}", file, s)
}

// ---------------------------------------------------------------- known findings
/// lines "finding: property=<id> sig=<sig> <text>"; "fixed:" lines suppress nothing
pub fn known(id: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let t = std::fs::read_to_string(format!("{}/known_findings.txt", root())).unwrap_or_default();
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("finding: ") {
            let mut it = r.splitn(3, ' ');
            let (p, s, d) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
            if p == format!("property={}", id) {
                if let Some(s) = s.strip_prefix("sig=") {
                    m.insert(s.to_string(), d.to_string());
                }
            }
        }
    }
    m
}

// ---------------------------------------------------------------- runner
pub fn run_one(check: &Check, fam: &str, idx: u64, seed: u64, thorough: bool) -> Option<Case> {
    let f = check.families.iter().find(|f| f.name == fam)?;
    let mut c = Case::new(seed, f.name, idx, thorough);
    exec(f, &mut c);
    Some(c)
}
fn exec(f: &Family, c: &mut Case) {
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| (f.run)(c)));
    if r.is_err() {
        let m = LAST_PANIC.with(|p| p.take()).unwrap_or_else(|| "panic".into());
        if m.starts_with("harness:") {
            c.inconclusive.push(m);
        } else {
            c.fail(panic_sig(&m), format!("panicked: {}", m));
        }
    }
}
pub fn run(check: Check) -> i32 {
    let t0 = Instant::now();
    install_hook();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = tier() == "thorough";
    let budget = Duration::from_secs(std::env::var("VERIF_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 300 }));
    let nt: usize = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)).min(MAXT);
    *EMERGENCY.lock().unwrap() = Some((check.id, check.families.iter().map(|f| f.name).collect(), seed));
    let progress = std::fs::File::create(format!("{}/progress-{}", scratch(), check.id)).expect("progress file");
    // interleave the families so that a shortened run still touches all of them
    let mut order: Vec<(usize, u64)> = vec![];
    let maxc = check.families.iter().map(|f| f.count).max().unwrap_or(0);
    for (fi, f) in check.families.iter().enumerate() {
        for i in 0..f.count {
            order.push((fi, i));
        }
    }
    order.sort_by_key(|(fi, i)| {
        let c = check.families[*fi].count.max(1);
        ((*i as u128 * maxc.max(1) as u128 * 16 / c as u128) as u64, *fi, *i)
    });
    // for measuring the checks only: a sample of the cases
    if let Some(n) = std::env::var("VERIF_PERMILLE").ok().and_then(|x| x.parse::<u64>().ok()) {
        order.retain(|(fi, i)| (*i ^ (*fi as u64) << 40).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 32 & 0xffff < n * 65536 / 1000);
    }
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicUsize::new(0);
    struct Agg {
        evals: u64,
        seen: HashSet<u64>,
        counters: BTreeMap<String, u64>,
        maxima: BTreeMap<String, u64>,
        samples: Vec<Value>,
        per_family: BTreeMap<&'static str, u64>,
        fails: BTreeMap<String, (String, u64, &'static str, u64, Vec<(String, Vec<u8>)>)>,
        inconclusive: Vec<String>,
        failing_cases: u64,
        known_hit: BTreeMap<String, u64>,
    }
    let known = known(check.id);
    let agg = Mutex::new(Agg { evals: 0, seen: HashSet::new(), counters: BTreeMap::new(), maxima: BTreeMap::new(), samples: vec![], per_family: BTreeMap::new(), fails: BTreeMap::new(), inconclusive: vec![], failing_cases: 0, known_hit: BTreeMap::new() });
    std::thread::scope(|s| {
        for t in 0..nt {
            let (order, next, stop, done, agg, check, progress, known) = (&order, &next, &stop, &done, &agg, &check, &progress, &known);
            std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, move || {
                SLOT.with(|x| x.set(t));
                SLOTS[t].thread.store(unsafe { pthread_self() }, SeqCst);
                loop {
                    if stop.load(SeqCst) {
                        break;
                    }
                    let k = next.fetch_add(1, SeqCst);
                    if k >= order.len() {
                        break;
                    }
                    let (fi, idx) = order[k];
                    let f = &check.families[fi];
                    let mut rec = format!("{} {}", f.name, idx);
                    rec.push_str(&" ".repeat(127usize.saturating_sub(rec.len())));
                    rec.push('\n');
                    let _ = progress.write_at(rec.as_bytes(), (t * 128) as u64);
                    SLOTS[t].fam.store(fi, SeqCst);
                    SLOTS[t].idx.store(idx, SeqCst);
                    SLOTS[t].start_cpu.store(cpu_ns(unsafe { pthread_self() }), SeqCst);
                    SLOTS[t].busy.store(true, SeqCst);
                    let mut c = Case::new(seed, f.name, idx, thorough);
                    exec(f, &mut c);
                    SLOTS[t].busy.store(false, SeqCst);
                    let mut a = agg.lock().unwrap();
                    a.evals += c.evals;
                    a.seen.extend(c.seen.iter());
                    for (k, v) in c.counters {
                        *a.counters.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in c.maxima {
                        let e = a.maxima.entry(k).or_insert(0);
                        *e = (*e).max(v);
                    }
                    if let Some(s) = c.sample {
                        if a.samples.len() < 6 {
                            a.samples.push(s);
                        }
                    }
                    *a.per_family.entry(f.name).or_insert(0) += 1;
                    a.inconclusive.extend(c.inconclusive.into_iter().take(3));
                    let mut fresh = false;
                    for x in c.failures {
                        if known.contains_key(&x.sig) {
                            *a.known_hit.entry(x.sig).or_insert(0) += 1;
                            continue;
                        }
                        fresh = true;
                        let art = &c.artifact;
                        let e = a.fails.entry(x.sig).or_insert_with(|| (x.detail, 0, f.name, idx, art.clone()));
                        e.1 += 1;
                    }
                    if fresh {
                        a.failing_cases += 1;
                        let cap = std::env::var("VERIF_STOP_AFTER").ok().and_then(|x| x.parse().ok()).unwrap_or(200);
                        if a.failing_cases >= cap {
                            stop.store(true, SeqCst);
                        }
                    }
                    drop(a);
                }
                done.fetch_add(1, SeqCst);
            }).expect("spawn");
        }
        // watchdog
        let limit = check.cpu_limit * 1_000_000_000;
        while done.load(SeqCst) < nt {
            std::thread::sleep(Duration::from_millis(20));
            if t0.elapsed() > budget {
                stop.store(true, SeqCst);
            }
            for (t, s) in SLOTS.iter().enumerate().take(nt) {
                if s.busy.load(SeqCst) {
                    let start = s.start_cpu.load(SeqCst);
                    let idx = s.idx.load(SeqCst);
                    let now = cpu_ns(s.thread.load(SeqCst));
                    if now > start && now - start > limit && s.busy.load(SeqCst) && s.idx.load(SeqCst) == idx && s.start_cpu.load(SeqCst) == start {
                        emergency(t, "cpu");
                    }
                }
            }
        }
    });
    let a = agg.into_inner().unwrap();
    let executed: u64 = a.per_family.values().sum();
    let planned = order.len() as u64;
    for (sig, n) in &a.known_hit {
        println!("KNOWN-FINDING: property={} {} ({}, seen {} times)", check.id, known[sig], sig, n);
    }
    let _ = std::fs::create_dir_all(format!("{}/replay", root()));
    let mut nv = 0;
    for (k, (sig, (detail, n, fam, idx, art))) in a.fails.iter().enumerate() {
        nv += 1;
        if k >= 12 {
            continue;
        }
        let base = format!("{}/replay/{}-{}-{}", root(), check.id, fam, idx);
        let path = format!("{}.json", base);
        let mut files = vec![];
        for (name, b) in art.iter().take(6) {
            let p = format!("{}.{}", base, name);
            let _ = std::fs::write(&p, b);
            files.push(p);
        }
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&json!({"property": check.id, "seed": seed, "family": fam, "index": idx, "sig": sig, "detail": detail, "occurrences": n, "files": files,
            "replay": format!("/verif/target/debug/vharness replay {} {} {} {}", check.id, fam, idx, seed)})).unwrap());
        println!("VIOLATION property={} replay={}", check.id, path);
        println!("  {} ({} times): {}", sig, n, detail.chars().take(600).collect::<String>());
    }
    for m in a.inconclusive.iter().take(5) {
        println!("NOTE: inconclusive case: {}", m);
    }
    let mut cov = Map::new();
    cov.insert("evaluations".into(), json!(a.evals));
    cov.insert("distinct_nontrivial".into(), json!(a.seen.len()));
    cov.insert("rule".into(), json!(check.rule));
    cov.insert("samples".into(), json!(a.samples));
    cov.insert("cases_executed_per_family".into(), json!(a.per_family));
    cov.insert("cases_planned".into(), json!(planned));
    cov.insert("cases_not_run_for_time".into(), json!(planned - executed));
    cov.insert("observed".into(), json!(a.counters));
    cov.insert("maxima".into(), json!(a.maxima));
    cov.insert("inconclusive".into(), json!(a.inconclusive.len()));
    cov.insert("known_findings_hit".into(), json!(a.known_hit));
    let ev = json!({"property": check.id, "tier": tier(), "seed": seed, "level": check.level, "coverage": cov, "assumptions": check.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": nv});
    let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
    std::fs::write(format!("{}/evidence/{}.json", root(), check.id), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!("{}: {} evaluations, {} distinct, {} of {} cases, {} inconclusive, {} violations, {:.1}s", check.id, a.evals, a.seen.len(), executed, planned, a.inconclusive.len(), nv, t0.elapsed().as_secs_f64());
    if nv > 0 { 1 } else { 0 }
}

/// Supervise the worker process: turn a crash of the process (stack overflow, abort, segfault)
/// into an attributed violation.  Anything that is not reproducible is not a violation.
pub fn supervise(id: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    use std::process::Command;
    let exe = std::env::current_exe().expect("exe");
    let prog = format!("{}/progress-{}", scratch(), id);
    let mut rounds = 0;
    loop {
        let st = Command::new(&exe).args(["worker", id]).status().expect("spawn worker");
        if let Some(c) = st.code() {
            return c;
        }
        let sig = st.signal().unwrap_or(0);
        println!("NOTE: worker ended by signal {}", sig);
        if sig != 9 && sig != 15 {
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let p = std::fs::read_to_string(&prog).unwrap_or_default();
            for l in p.lines() {
                let mut it = l.split_whitespace();
                let (f, i) = match (it.next(), it.next()) {
                    (Some(f), Some(i)) => (f, i),
                    _ => continue,
                };
                let s2 = Command::new(&exe).args(["replay", id, f, i, &seed.to_string()]).stdout(std::process::Stdio::null()).status().expect("spawn replay");
                if let Some(g) = s2.signal() {
                    if g == 6 || g == 11 || g == 7 || g == 4 || g == 8 {
                        let path = format!("{}/replay/{}-crash-{}-{}.json", root(), id, f, i);
                        let _ = std::fs::create_dir_all(format!("{}/replay", root()));
                        let _ = std::fs::write(&path, json!({"property": id, "seed": seed, "family": f, "index": i, "sig": format!("crash:signal{}", g), "detail": "the process was ended by a signal (stack overflow, abort or memory error)",
                            "replay": format!("vharness replay {} {} {} {}", id, f, i, seed)}).to_string());
                        let ev = json!({"property": id, "tier": tier(), "seed": seed, "level": "exploration", "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "run ended early: a case crashed the process", "samples": [path]}, "wall_s": 0.0, "violations": 1});
                        let _ = std::fs::write(format!("{}/evidence/{}.json", root(), id), ev.to_string());
                        println!("VIOLATION property={} replay={}", id, path);
                        println!("  crash:signal{}: family {} case {} ended the process", g, f, i);
                        return 1;
                    }
                }
            }
        }
        rounds += 1;
        if rounds >= 2 {
            println!("NOTE: {}: the worker died twice without a reproducible case; no verdict", id);
            return 3;
        }
    }
}
