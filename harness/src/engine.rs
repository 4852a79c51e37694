//! Case runner: workers, crash isolation, shrinking, known findings, evidence.
use crate::src::{splitmix, Src};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- allocation accounting
pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
/// single requests above this are refused (the process then aborts, which the parent reports)
pub const ALLOC_REFUSE: usize = 3 << 30;
/// and so is everything once this much is in use (except where pages of gigabytes, that nobody
/// touches, are made): code that never stops allocating ends here, and is reported, rather than
/// at the limit of the machine
pub const LIVE_REFUSE: usize = (7 << 30) / 2;
static LIVE_LIMIT: AtomicUsize = AtomicUsize::new(LIVE_REFUSE);
fn refused(n: usize) -> bool {
    n > ALLOC_REFUSE || n + LIVE.load(Ordering::Relaxed) > LIVE_LIMIT.load(Ordering::Relaxed)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refused(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refused(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        LIVE.fetch_sub(l.size(), Ordering::Relaxed);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > ALLOC_REFUSE || (n > l.size() && refused(n - l.size())) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            LIVE.fetch_sub(l.size(), Ordering::Relaxed);
            add(n);
        }
        q
    }
}
fn add(n: usize) {
    let v = LIVE.fetch_add(n, Ordering::Relaxed) + n;
    PEAK.fetch_max(v, Ordering::Relaxed);
}
/// bytes by which the live heap grew at most while `f` ran
pub fn peak_during<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = LIVE.load(Ordering::Relaxed);
    PEAK.store(base, Ordering::Relaxed);
    let r = f();
    (r, PEAK.load(Ordering::Relaxed).saturating_sub(base))
}

// ---------------------------------------------------------------- cases
#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
impl Fail {
    pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Self {
        Fail { sig: sig.into(), msg: msg.into() }
    }
}
impl From<parquet2::error::Error> for Fail {
    fn from(e: parquet2::error::Error) -> Self {
        Fail::new("unexpected-error", format!("unexpected error: {e:?}"))
    }
}
impl From<std::io::Error> for Fail {
    fn from(e: std::io::Error) -> Self {
        Fail::new("unexpected-io-error", format!("unexpected io error: {e:?}"))
    }
}
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($sig:expr, $($arg:tt)*) => { return Err($crate::engine::Fail::new($sig, format!($($arg)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => { if !($cond) { return Err($crate::engine::Fail::new($sig, format!($($arg)*))) } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $sig:expr) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err($crate::engine::Fail::new($sig, format!("{} is {:?} but should be {:?}", stringify!($a), $crate::engine::clip(a), $crate::engine::clip(b)))) }
    }};
    ($a:expr, $b:expr, $sig:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err($crate::engine::Fail::new($sig, format!("{}: {} is {:?} but should be {:?}", format!($($arg)*), stringify!($a), $crate::engine::clip(a), $crate::engine::clip(b)))) }
    }};
}
pub struct Clip(String);
impl std::fmt::Debug for Clip {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
pub fn clip(x: &impl std::fmt::Debug) -> Clip {
    let mut s = format!("{x:?}");
    if s.len() > 600 {
        let mut k = 600;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
        s.push_str("...");
    }
    Clip(s)
}

pub struct Case {
    pub s: Src,
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub want_desc: bool,
    pub desc: String,
    /// number of individual executions this case stands for (default 1)
    pub evals: u64,
    pub thorough: bool,
}
impl Case {
    pub fn new(s: Src) -> Self {
        Case { s, labels: vec![], nontrivial: false, want_desc: false, desc: String::new(), evals: 1, thorough: false }
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l)
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn nontrivial(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            let d = f();
            if !self.desc.is_empty() {
                self.desc.push_str("; ");
            }
            self.desc.push_str(&d);
        }
    }
}

#[derive(Clone, Copy)]
pub struct Part {
    pub name: &'static str,
    pub f: fn(&mut Case) -> R,
    pub quick: u64,
    pub thorough: u64,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: Vec<Part>,
}

// ---------------------------------------------------------------- running one case
thread_local! { static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) }; }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let (file, line) = info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        // where in the repository the panic was raised from, if it surfaced inside std or a dependency
        let mut via = String::new();
        if !file.contains("/repo/src") {
            let bt = std::backtrace::Backtrace::force_capture().to_string();
            for l in bt.lines() {
                let l = l.trim();
                if let Some(i) = l.find("/repo/src/") {
                    via = format!(" via {}", &l[i + 6..].split(':').next().unwrap_or(""));
                    break;
                }
            }
        }
        let short = file.rsplit_once("/repo/").map(|x| x.1.to_string()).unwrap_or_else(|| file.rsplit('/').next().unwrap_or("").to_string());
        let sig: String = format!("panic {short}{via}: {}", strip_digits(&msg));
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((sig, format!("panic at {file}:{line}{via}: {msg}"))));
    }));
}
fn strip_digits(s: &str) -> String {
    let mut out = String::new();
    for ch in s.chars().take(120) {
        if ch.is_ascii_digit() {
            if !out.ends_with('N') {
                out.push('N');
            }
        } else {
            out.push(ch);
        }
    }
    out
}

/// run `f`, turning a panic into a `Fail`
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, Fail> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let (sig, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("panic".into(), "panic".into()));
        Fail::new(sig, msg)
    })
}

pub fn run_case(part: &Part, case: &mut Case) -> R {
    LIVE_LIMIT.store(if part.name == "huge" { 64 << 30 } else { LIVE_REFUSE }, Ordering::Relaxed);
    match no_panic(|| (part.f)(case)) {
        Ok(r) => r,
        Err(f) => Err(f),
    }
}

fn case_seed(seed: u64, prop: &str, part: &str, idx: u64) -> u64 {
    let mut h = seed ^ 0xD6E8_FEB8_6659_FD93;
    for b in prop.bytes().chain([0]).chain(part.bytes()) {
        h = h.wrapping_add(b as u64).wrapping_mul(0x100_0000_01B3).rotate_left(13);
    }
    h = h.wrapping_add(idx.wrapping_mul(0x9E37_79B9_7F4A_7C15));
    splitmix(&mut h)
}

fn tape_hash(part: &str, t: &[u64]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in part.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01B3);
    }
    for v in t {
        h = (h ^ v).wrapping_mul(0x9FB2_1C65_1E98_DF25);
        h ^= h >> 29;
    }
    h
}

// ---------------------------------------------------------------- files
pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn write_tape(path: &Path, tape: &[u64]) {
    let mut v = Vec::with_capacity(tape.len() * 8);
    for t in tape {
        v.extend_from_slice(&t.to_le_bytes());
    }
    std::fs::write(path, v).expect("write tape");
}
fn read_tape(path: &Path) -> Vec<u64> {
    std::fs::read(path)
        .unwrap_or_default()
        .chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .collect()
}

#[derive(Clone, Debug)]
pub struct Known {
    pub property: String,
    pub part: String,
    pub sig: String,
    pub what: String,
}
pub fn known_findings() -> Vec<Known> {
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(verif_dir().join("known_findings.jsonl")) {
        for l in s.lines() {
            if let Ok(v) = serde_json::from_str::<serde_json::Value>(l) {
                if v["status"] == "known" {
                    let g = |k: &str| v[k].as_str().unwrap_or("").to_string();
                    out.push(Known { property: g("property"), part: g("part"), sig: g("sig"), what: g("what") });
                }
            }
        }
    }
    out
}

// ---------------------------------------------------------------- worker
/// runs in its own process: all cases idx % n == k of every part
pub fn worker(prop: &Prop, k: u64, n: u64, seed: u64, thorough: bool, dir: &Path) -> i32 {
    let known: Vec<Known> = known_findings().into_iter().filter(|x| x.property == prop.id).collect();
    let status = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(dir.join(format!("status.{k}"))).unwrap();
    use std::os::unix::fs::FileExt;
    let skip: HashSet<(u64, u64)> = std::fs::read(dir.join(format!("skip.{k}")))
        .unwrap_or_default()
        .chunks_exact(16)
        .map(|c| (u64::from_le_bytes(c[..8].try_into().unwrap()), u64::from_le_bytes(c[8..].try_into().unwrap())))
        .collect();
    let mut evals = 0u64;
    let mut cases = 0u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut part_cases: BTreeMap<String, u64> = BTreeMap::new();
    for (pi, part) in prop.parts.iter().enumerate() {
        let total = if thorough { part.thorough } else { part.quick };
        let mut described = 0;
        let mut idx = k;
        while idx < total {
            if skip.contains(&(pi as u64, idx)) {
                idx += n;
                continue;
            }
            let mut st = [0u8; 24];
            st[..8].copy_from_slice(&(pi as u64).to_le_bytes());
            st[8..16].copy_from_slice(&idx.to_le_bytes());
            st[16..].copy_from_slice(&1u64.to_le_bytes());
            status.write_at(&st, 0).unwrap();
            let mut case = Case::new(Src::from_seed(case_seed(seed, prop.id, part.name, idx)));
            case.thorough = thorough;
            case.want_desc = described < 3;
            let r = run_case(part, &mut case);
            cases += 1;
            evals += case.evals;
            *part_cases.entry(part.name.to_string()).or_default() += 1;
            for l in &case.labels {
                *labels.entry(format!("{}/{}", part.name, l)).or_default() += 1;
            }
            if case.nontrivial {
                hashes.insert(tape_hash(part.name, &case.s.tape));
                if case.want_desc && !case.desc.is_empty() {
                    described += 1;
                    let mut d = std::mem::take(&mut case.desc);
                    if d.len() > 700 {
                        let mut k = 700;
                        while !d.is_char_boundary(k) {
                            k -= 1;
                        }
                        d.truncate(k);
                        d.push_str("...");
                    }
                    samples.push(format!("{}#{}: {}", part.name, idx, d));
                }
            }
            if let Err(f) = r {
                if let Some(kn) = known.iter().find(|x| x.part == part.name && x.sig == f.sig) {
                    *hits.entry(kn.sig.clone()).or_default() += 1;
                } else {
                    write_tape(&dir.join(format!("fail.{k}.tape")), &case.s.tape[..case.s.used()]);
                    std::fs::write(
                        dir.join(format!("fail.{k}.json")),
                        serde_json::json!({"part": part.name, "idx": idx, "sig": f.sig, "msg": f.msg}).to_string(),
                    )
                    .unwrap();
                    return 10;
                }
            }
            idx += n;
        }
    }
    status.write_at(&[0u8; 24], 0).unwrap();
    let mut hb = vec![];
    for h in &hashes {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(dir.join(format!("hashes.{k}")), hb).unwrap();
    std::fs::write(
        dir.join(format!("summary.{k}.json")),
        serde_json::json!({"evals": evals, "cases": cases, "labels": labels, "samples": samples, "known": hits, "parts": part_cases}).to_string(),
    )
    .unwrap();
    0
}

/// executes one case (tape or generated) in this process; exit 0 ok, 10 fail (prints json)
pub fn exec_one(prop: &Prop, part_name: &str, src: Src, thorough: bool, print: bool) -> i32 {
    let part = prop.parts.iter().find(|p| p.name == part_name).expect("unknown part");
    let mut case = Case::new(src);
    case.thorough = thorough;
    case.want_desc = print;
    let r = run_case(part, &mut case);
    if print && !case.desc.is_empty() {
        println!("case: {}", case.desc);
    }
    match r {
        Ok(()) => 0,
        Err(f) => {
            println!("{}", serde_json::json!({"sig": f.sig, "msg": f.msg}));
            10
        }
    }
}

/// in-process shrinking; writes every improvement to `out`
pub fn shrink(prop: &Prop, part_name: &str, tape: Vec<u64>, out: &Path, known: &[String], secs: u64, thorough: bool) -> i32 {
    let part = prop.parts.iter().find(|p| p.name == part_name).expect("unknown part");
    let start = Instant::now();
    let mut best = tape;
    let mut run = |t: &[u64]| -> Option<Vec<u64>> {
        let mut case = Case::new(Src::from_tape(t.to_vec()));
        case.thorough = thorough;
        match run_case(part, &mut case) {
            Err(f) if !known.contains(&f.sig) => Some(case.s.tape[..case.s.used()].to_vec()),
            _ => None,
        }
    };
    shrink_with(&mut best, &mut run, &mut |b| write_tape(out, b), start, Duration::from_secs(secs));
    0
}

fn shrink_with(
    best: &mut Vec<u64>,
    run: &mut dyn FnMut(&[u64]) -> Option<Vec<u64>>,
    save: &mut dyn FnMut(&[u64]),
    start: Instant,
    budget: Duration,
) {
    let out_of_time = || start.elapsed() > budget;
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if out_of_time() {
                    return;
                }
                let mut t = best.clone();
                let e = (i + size).min(t.len());
                t.drain(i..e);
                if let Some(u) = run(&t) {
                    if u.len() < best.len() || (u.len() == best.len() && u < *best) {
                        *best = u;
                        save(best);
                        continue;
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if out_of_time() {
                    return;
                }
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut t = best.clone();
                    t[i..e].iter_mut().for_each(|x| *x = 0);
                    if run(&t).is_some() {
                        *best = t;
                        save(best);
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower single values
        for i in 0..best.len() {
            if i >= best.len() {
                break;
            }
            let mut lo = 0u64;
            let mut hi = best[i];
            let mut tries = 0;
            while lo < hi && tries < 40 {
                if out_of_time() {
                    return;
                }
                tries += 1;
                let mid = lo + (hi - lo) / 2;
                let mut t = best.clone();
                t[i] = mid;
                if run(&t).is_some() {
                    *best = t;
                    save(best);
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
            }
        }
        // lower a value and delete one of the following ones (lengths)
        for i in 0..best.len() {
            if i >= best.len() || best[i] == 0 {
                continue;
            }
            for d in 1..=3usize {
                if out_of_time() {
                    return;
                }
                if i + d < best.len() {
                    let mut t = best.clone();
                    t[i] -= 1;
                    t.drain(i + 1..i + 1 + d);
                    if let Some(u) = run(&t) {
                        if u.len() < best.len() {
                            *best = u;
                            save(best);
                            break;
                        }
                    }
                }
            }
        }
        if *best == before {
            return;
        }
    }
}

// ---------------------------------------------------------------- parent
pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub workers: u64,
    pub hang_s: u64,
}

fn exe() -> PathBuf {
    std::env::current_exe().unwrap()
}

fn signal_desc(st: &std::process::ExitStatus, stderr: &str) -> String {
    use std::os::unix::process::ExitStatusExt;
    let kind = if stderr.contains("stack overflow") {
        "stack overflow"
    } else if stderr.contains("memory allocation of") {
        "memory allocation refused (over 3 GiB requested at once, or over 3.5 GiB in use)"
    } else {
        "abnormal end"
    };
    format!("{kind} (signal {:?})", st.signal())
}
fn crash_sig(st: &std::process::ExitStatus, stderr: &str) -> String {
    let _ = st;
    if stderr.contains("stack overflow") {
        "crash stack overflow".into()
    } else if stderr.contains("memory allocation of") {
        "crash alloc".into()
    } else {
        "crash abort".into()
    }
}

/// outcome of executing a tape in a child process
enum Exec {
    Ok,
    Fail { sig: String, msg: String },
    Crash { sig: String, msg: String },
    Hang,
    Killed,
}

fn exec_child(args: &[String], hang: Duration) -> Exec {
    let mut child = Command::new(exe()).args(args).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("spawn");
    let mut so = child.stdout.take().unwrap();
    let mut se = child.stderr.take().unwrap();
    let t1 = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        s
    });
    let t2 = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = se.read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let start = Instant::now();
    let st = loop {
        if let Some(st) = child.try_wait().unwrap() {
            break st;
        }
        if start.elapsed() > hang {
            let _ = child.kill();
            let _ = child.wait();
            return Exec::Hang;
        }
        std::thread::sleep(Duration::from_millis(1));
    };
    let out = t1.join().unwrap();
    let err = t2.join().unwrap();
    match st.code() {
        Some(0) => Exec::Ok,
        Some(10) => {
            let v: serde_json::Value = out.lines().rev().find_map(|l| serde_json::from_str(l).ok()).unwrap_or_default();
            Exec::Fail { sig: v["sig"].as_str().unwrap_or("").into(), msg: v["msg"].as_str().unwrap_or("").into() }
        }
        _ => {
            use std::os::unix::process::ExitStatusExt;
            if st.signal() == Some(9) {
                Exec::Killed
            } else {
                Exec::Crash { sig: crash_sig(&st, &err), msg: signal_desc(&st, &err) }
            }
        }
    }
}

struct Found {
    part: String,
    tape: Vec<u64>,
    sig: String,
    msg: String,
}

/// Returns the process exit code.
pub fn check(prop: &Prop, o: &Opts) -> i32 {
    let start = Instant::now();
    let known: Vec<Known> = known_findings().into_iter().filter(|x| x.property == prop.id).collect();
    let dir = std::env::temp_dir().join(format!("verif-{}-{}", prop.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let n = o.workers;
    let tier = if o.thorough { "thorough" } else { "quick" };
    let mut running: Vec<(u64, std::process::Child)> = vec![];
    let spawn = |k: u64| {
        let err = std::fs::File::create(dir.join(format!("stderr.{k}"))).unwrap();
        Command::new(exe())
            .args(["worker", prop.id, &k.to_string(), &n.to_string(), &o.seed.to_string(), tier, dir.to_str().unwrap()])
            .stdout(Stdio::null())
            .stderr(err)
            .spawn()
            .expect("spawn worker")
    };
    for k in 0..n {
        running.push((k, spawn(k)));
    }
    let mut last: Vec<(Vec<u8>, Instant)> = (0..n).map(|_| (vec![], Instant::now())).collect();
    let mut found: Option<Found> = None;
    let mut error: Option<String> = None;
    let mut crash_known: BTreeMap<String, u64> = BTreeMap::new();
    'outer: while !running.is_empty() {
        std::thread::sleep(Duration::from_millis(20));
        let mut i = 0;
        while i < running.len() {
            let k = running[i].0;
            if let Some(st) = running[i].1.try_wait().unwrap() {
                running.remove(i);
                if st.success() {
                    continue;
                }
                if st.code() == Some(10) {
                    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(dir.join(format!("fail.{k}.json"))).unwrap()).unwrap();
                    found = Some(Found {
                        part: v["part"].as_str().unwrap().into(),
                        tape: read_tape(&dir.join(format!("fail.{k}.tape"))),
                        sig: v["sig"].as_str().unwrap().into(),
                        msg: v["msg"].as_str().unwrap().into(),
                    });
                    break 'outer;
                }
                // the worker died inside a case
                let stv = std::fs::read(dir.join(format!("status.{k}"))).unwrap_or_default();
                let stderr = std::fs::read(dir.join(format!("stderr.{k}"))).map(|x| String::from_utf8_lossy(&x).to_string()).unwrap_or_default();
                if stv.len() < 24 || stv[16] == 0 {
                    error = Some(format!("worker {k} ended abnormally outside a case: {st:?} {stderr}"));
                    break 'outer;
                }
                use std::os::unix::process::ExitStatusExt;
                if st.signal() == Some(9) {
                    error = Some(format!("worker {k} was killed (out of memory?)"));
                    break 'outer;
                }
                let pi = u64::from_le_bytes(stv[..8].try_into().unwrap());
                let idx = u64::from_le_bytes(stv[8..16].try_into().unwrap());
                let part = &prop.parts[pi as usize];
                // confirm in a fresh process, recovering the tape
                let dump = dir.join(format!("dump.{k}.tape"));
                let args: Vec<String> = ["gen", prop.id, part.name, &o.seed.to_string(), &idx.to_string(), tier, dump.to_str().unwrap()]
                    .iter()
                    .map(|x| x.to_string())
                    .collect();
                match exec_child(&args, Duration::from_secs(o.hang_s)) {
                    Exec::Crash { sig, msg } | Exec::Fail { sig, msg } => {
                        if known.iter().any(|x| x.part == part.name && x.sig == sig) {
                            *crash_known.entry(sig).or_default() += 1;
                            // restart the worker without that case
                            let mut f = std::fs::OpenOptions::new().create(true).append(true).open(dir.join(format!("skip.{k}"))).unwrap();
                            f.write_all(&pi.to_le_bytes()).unwrap();
                            f.write_all(&idx.to_le_bytes()).unwrap();
                            running.push((k, spawn(k)));
                            last[k as usize] = (vec![], Instant::now());
                            continue;
                        }
                        found = Some(Found { part: part.name.into(), tape: read_tape(&dump), sig, msg });
                    }
                    Exec::Ok => error = Some(format!("worker {k} died in {}#{idx} but the case passes alone: {st:?} {stderr}", part.name)),
                    Exec::Hang => error = Some(format!("case {}#{idx} hangs", part.name)),
                    Exec::Killed => error = Some(format!("case {}#{idx} was killed", part.name)),
                }
                break 'outer;
            }
            // watchdog
            let stv = std::fs::read(dir.join(format!("status.{k}"))).unwrap_or_default();
            if stv != last[k as usize].0 {
                last[k as usize] = (stv, Instant::now());
            } else if last[k as usize].1.elapsed() > Duration::from_secs(o.hang_s) {
                let (pi, idx) = if stv.len() >= 16 { (stv[0] as usize, u64::from_le_bytes(stv[8..16].try_into().unwrap())) } else { (0, 0) };
                error = Some(format!("watchdog: case {}#{idx} ran over {} s", prop.parts[pi].name, o.hang_s));
                break 'outer;
            }
            i += 1;
        }
    }
    for (_, c) in running.iter_mut() {
        let _ = c.kill();
        let _ = c.wait();
    }
    let code = if let Some(e) = error {
        println!("ERROR property={} {}", prop.id, e);
        2
    } else if let Some(f) = found {
        let known_sigs: Vec<String> = known.iter().filter(|x| x.part == f.part).map(|x| x.sig.clone()).collect();
        let path = report_violation(prop, f, &known_sigs, &dir, o);
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        1
    } else {
        0
    };
    if code != 2 {
        write_evidence(prop, o, &dir, n, start, code, &known, &crash_known);
    }
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn report_violation(prop: &Prop, f: Found, known_sigs: &[String], dir: &Path, o: &Opts) -> PathBuf {
    let tier = if o.thorough { "thorough" } else { "quick" };
    let cur = dir.join("cur.tape");
    let best_path = dir.join("best.tape");
    write_tape(&cur, &f.tape);
    write_tape(&best_path, &f.tape);
    let mut best = f.tape.clone();
    let is_crash = f.sig.starts_with("crash ");
    if is_crash {
        let start = Instant::now();
        let mut run = |t: &[u64]| -> Option<Vec<u64>> {
            write_tape(&cur, t);
            let args: Vec<String> = ["exec", prop.id, &f.part, tier, cur.to_str().unwrap()].iter().map(|x| x.to_string()).collect();
            match exec_child(&args, Duration::from_secs(30)) {
                Exec::Crash { sig, .. } if sig == f.sig => Some(t.to_vec()),
                _ => None,
            }
        };
        shrink_with(&mut best, &mut run, &mut |_| {}, start, Duration::from_secs(40));
    } else {
        let args: Vec<String> = ["shrink", prop.id, &f.part, tier, cur.to_str().unwrap(), best_path.to_str().unwrap(), &known_sigs.join("\u{1}")]
            .iter()
            .map(|x| x.to_string())
            .collect();
        let _ = exec_child(&args, Duration::from_secs(90));
        best = read_tape(&best_path);
    }
    // describe the minimal case
    write_tape(&cur, &best);
    let args: Vec<String> = ["exec", prop.id, &f.part, tier, cur.to_str().unwrap()].iter().map(|x| x.to_string()).collect();
    let (sig, msg) = match exec_child(&args, Duration::from_secs(60)) {
        Exec::Fail { sig, msg } | Exec::Crash { sig, msg } => (sig, msg),
        _ => (f.sig.clone(), f.msg.clone()),
    };
    let out = Command::new(exe()).args(["exec-print", prop.id, &f.part, tier, cur.to_str().unwrap()]).output();
    let desc = out.map(|x| String::from_utf8_lossy(&x.stdout).to_string()).unwrap_or_default();
    let rdir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&rdir);
    let path = rdir.join(format!("{}-{}-{:016x}.json", prop.id, f.part, tape_hash(&f.part, &best)));
    let body = serde_json::json!({
        "property": prop.id, "part": f.part, "tier": tier, "sig": sig, "message": msg,
        "case": desc, "tape": best, "original_message": f.msg,
        "how": format!("/verif/check {} --replay {}", prop.id, path.display()),
    });
    std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).expect("write replay");
    println!("part {}: [{}] {}", f.part, sig, clip_str(&msg));
    path
}
fn clip_str(s: &str) -> String {
    s.chars().take(1500).collect()
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(prop: &Prop, o: &Opts, dir: &Path, n: u64, start: Instant, code: i32, known: &[Known], crash_known: &BTreeMap<String, u64>) {
    let mut evals = 0;
    let mut cases = 0;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut parts: BTreeMap<String, u64> = BTreeMap::new();
    let mut hits: BTreeMap<String, u64> = crash_known.clone();
    let mut samples: Vec<String> = vec![];
    let mut hashes: HashSet<u64> = HashSet::new();
    let add = |m: &mut BTreeMap<String, u64>, v: &serde_json::Value| {
        if let Some(o) = v.as_object() {
            for (k, x) in o {
                *m.entry(k.clone()).or_default() += x.as_u64().unwrap_or(0);
            }
        }
    };
    for k in 0..n {
        if let Ok(s) = std::fs::read_to_string(dir.join(format!("summary.{k}.json"))) {
            let v: serde_json::Value = serde_json::from_str(&s).unwrap();
            evals += v["evals"].as_u64().unwrap();
            cases += v["cases"].as_u64().unwrap();
            add(&mut labels, &v["labels"]);
            add(&mut parts, &v["parts"]);
            add(&mut hits, &v["known"]);
            for x in v["samples"].as_array().unwrap() {
                samples.push(x.as_str().unwrap().to_string());
            }
        }
        for h in std::fs::read(dir.join(format!("hashes.{k}"))).unwrap_or_default().chunks_exact(8) {
            hashes.insert(u64::from_le_bytes(h.try_into().unwrap()));
        }
    }
    for kn in known {
        println!("KNOWN-FINDING: property={} {} (seen in {} cases of this run)", prop.id, kn.what, hits.get(&kn.sig).copied().unwrap_or(0));
    }
    samples.sort();
    // at most three per part
    let mut per: BTreeMap<String, u32> = BTreeMap::new();
    samples.retain(|s| {
        let p = s.split('#').next().unwrap_or("").to_string();
        let c = per.entry(p).or_default();
        *c += 1;
        *c <= 3
    });
    let ev = serde_json::json!({
        "property": prop.id,
        "tier": if o.thorough { "thorough" } else { "quick" },
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "cases": cases,
            "distinct_nontrivial": hashes.len(),
            "rule": prop.rule,
            "samples": samples,
            "classes": labels,
            "cases_per_part": parts,
            "known_findings_seen": hits,
        },
        "assumptions": prop.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": if code == 1 { 1 } else { 0 },
    });
    let d = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    std::fs::write(d.join(format!("{}.json", prop.id)), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    println!(
        "{}: {} cases ({} evaluations), {} distinct non-trivial, {:.1} s",
        prop.id,
        cases,
        evals,
        hashes.len(),
        start.elapsed().as_secs_f64()
    );
}

/// the seed of a generated case (for `gen`)
pub fn seed_of(seed: u64, prop: &str, part: &str, idx: u64) -> u64 {
    case_seed(seed, prop, part, idx)
}
pub fn load_tape(p: &Path) -> Vec<u64> {
    read_tape(p)
}
