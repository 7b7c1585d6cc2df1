//! Parent/worker machinery: deterministic proptest runs in subprocesses, shrinking, replay files,
//! known findings and evidence.

use crate::tape::Tape;
use proptest::collection::vec;
use proptest::prelude::any;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub type CaseResult = Result<(), String>;

/// Per-worker measurement context handed to every case.
#[derive(Default)]
pub struct Cx {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    /// text describing the current case, shown with a failure
    pub describe: String,
    pub quiet: bool,
    pub thorough: bool,
    /// write every note to a file (VERIF_TRACE, for finding cases which do not end)
    pub trace: bool,
}

impl Cx {
    /// one property evaluation (one oracle comparison)
    pub fn eval(&mut self) {
        if !self.quiet {
            self.evaluations += 1;
        }
    }
    pub fn class(&mut self, name: &str) {
        if !self.quiet {
            *self.classes.entry(name.to_string()).or_insert(0) += 1;
        }
    }
    pub fn class_if(&mut self, cond: bool, name: &str) {
        if cond {
            self.class(name)
        }
    }
    pub fn nontrivial<T: Hash + ?Sized>(&mut self, key: &T) {
        if !self.quiet {
            let mut h = DefaultHasher::new();
            key.hash(&mut h);
            self.nontrivial.insert(h.finish());
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if !self.quiet && self.samples.len() < 4 && self.evaluations % 37 == 5 {
            let mut s = f();
            if s.len() > 1500 {
                let mut n = 1500;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
    pub fn note(&mut self, s: String) {
        if self.trace {
            let _ = fs::write("/tmp/rngverif.trace", &s);
        }
        self.describe = s;
    }
}

pub struct Known {
    pub slug: &'static str,
    /// Ok = the defect is gone, Err = what still fails
    pub run: fn() -> CaseResult,
}

pub struct Prop {
    pub id: &'static str,
    pub tape_len: usize,
    pub quick: u32,
    pub thorough: u32,
    pub run: fn(&mut Tape, &mut Cx) -> CaseResult,
    /// explicit regression inputs, run before the random search
    pub fixed: fn(&mut Cx) -> CaseResult,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub known: &'static [Known],
    pub shrink_iters: u32,
}

pub fn no_fixed(_: &mut Cx) -> CaseResult {
    Ok(())
}

static PANIC_INFO: Mutex<Option<(String, String)>> = Mutex::new(None);
static PROGRESS: AtomicU64 = AtomicU64::new(0);
static IN_LIBRARY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// CPU time (not wall-clock time) after which a single case is given up; cases use milliseconds
const HANG_CPU_SECS: f64 = 60.0;
const EXIT_HANG: i32 = 98;

/// Marks calls of the library, so that the watchdog can tell its endless loops from slow cases.
pub struct InLibrary;
impl InLibrary {
    pub fn enter() -> InLibrary {
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        IN_LIBRARY.store(true, Ordering::Relaxed);
        InLibrary
    }
}
impl Drop for InLibrary {
    fn drop(&mut self) {
        IN_LIBRARY.store(false, Ordering::Relaxed);
    }
}

pub const STACK: usize = 256 << 20;

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        *PANIC_INFO.lock().unwrap() = Some((loc, msg));
    }));
}

#[derive(Debug)]
pub enum Outcome {
    Pass,
    Fail(String),
    HarnessBug(String),
}

fn run_guarded(f: impl FnOnce() -> CaseResult) -> Outcome {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(e)) => Outcome::Fail(e),
        Err(_) => {
            let (loc, msg) = PANIC_INFO
                .lock()
                .unwrap()
                .take()
                .unwrap_or(("?".into(), "?".into()));
            if loc.starts_with("src/") || loc.contains("/verif/harness/") {
                Outcome::HarnessBug(format!("harness panic at {loc}: {msg}"))
            } else {
                let mut msg = msg;
                if msg.len() > 600 {
                    let mut n = 600;
                    while !msg.is_char_boundary(n) {
                        n -= 1;
                    }
                    msg.truncate(n);
                }
                Outcome::Fail(format!("the library panicked at {loc}: {msg}"))
            }
        }
    }
}

fn cpu_secs() -> f64 {
    let s = fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let u: f64 = f.get(11).and_then(|v| v.parse().ok()).unwrap_or(0.0);
    let k: f64 = f.get(12).and_then(|v| v.parse().ok()).unwrap_or(0.0);
    (u + k) / 100.0
}

fn start_watchdog(marker: PathBuf) {
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        let mut since = 0.0;
        loop {
            std::thread::sleep(Duration::from_secs(2));
            let p = PROGRESS.load(Ordering::Relaxed);
            let c = cpu_secs();
            if p != last {
                last = p;
                since = c;
            } else if c - since > HANG_CPU_SECS {
                if IN_LIBRARY.load(Ordering::Relaxed) {
                    // one call of the library has not returned
                    std::process::exit(EXIT_HANG);
                }
                let _ = fs::write(&marker, "hang");
                std::process::exit(97);
            }
        }
    });
}

fn on_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, f)
            .unwrap()
            .join()
            .expect("worker thread")
    })
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

fn seed_bytes(seed: u64, id: &str, shard: usize) -> [u8; 32] {
    let mut s = mix(seed ^ 0x52454c4158);
    for b in id.bytes() {
        s = mix(s ^ b as u64);
    }
    s = mix(s ^ (shard as u64) << 8);
    let mut out = [0u8; 32];
    for i in 0..4 {
        s = mix(s);
        out[i * 8..i * 8 + 8].copy_from_slice(&s.to_le_bytes());
    }
    out
}

fn tape_to_string(t: &[u32]) -> String {
    t.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ")
}

pub fn tape_from_str(s: &str) -> Vec<u32> {
    s.split_whitespace().filter_map(|v| v.parse().ok()).collect()
}

fn write_cur(f: &fs::File, words: &[u32]) {
    let mut b = Vec::with_capacity(8 + words.len() * 4);
    b.extend_from_slice(&(words.len() as u64).to_le_bytes());
    for w in words {
        b.extend_from_slice(&w.to_le_bytes());
    }
    let _ = f.write_all_at(&b, 0);
}

fn read_cur(p: &Path) -> Option<Vec<u32>> {
    let b = fs::read(p).ok()?;
    let n = u64::from_le_bytes(b.get(0..8)?.try_into().ok()?) as usize;
    if n == usize::MAX {
        return None;
    }
    let mut v = vec![];
    for i in 0..n {
        v.push(u32::from_le_bytes(
            b.get(8 + i * 4..12 + i * 4)?.try_into().ok()?,
        ));
    }
    Some(v)
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

// ------------------------------------------------------------------------------------ worker

pub fn worker(prop: &'static Prop, shard: usize, cases: u32, seed: u64, thorough: bool, dir: &Path) -> i32 {
    install_hook();
    start_watchdog(dir.join(format!("hang{shard}")));
    on_big_stack(|| worker_inner(prop, shard, cases, seed, thorough, dir))
}

fn worker_inner(prop: &'static Prop, shard: usize, cases: u32, seed: u64, thorough: bool, dir: &Path) -> i32 {
    let cx = RefCell::new(Cx {
        thorough,
        ..Cx::default()
    });
    let cur = fs::File::create(dir.join(format!("cur{shard}"))).unwrap();
    let harness_bug: RefCell<Option<String>> = RefCell::new(None);
    let mut out = String::new();
    let mut failure: Option<(String, Vec<u32>, String)> = None; // kind, tape, message

    if shard == 0 {
        let _ = cur.write_all_at(&u64::MAX.to_le_bytes(), 0);
        match run_guarded(|| (prop.fixed)(&mut cx.borrow_mut())) {
            Outcome::Pass => {}
            Outcome::Fail(m) => failure = Some(("fixed".into(), vec![], m)),
            Outcome::HarnessBug(m) => *harness_bug.borrow_mut() = Some(m),
        }
    }
    if failure.is_none() && harness_bug.borrow().is_none() {
        let config = Config {
            cases,
            failure_persistence: None,
            source_file: None,
            max_shrink_iters: std::env::var("VERIF_SHRINK").ok().and_then(|s| s.parse().ok()).unwrap_or(prop.shrink_iters),
            max_shrink_time: 120_000,
            ..Config::default()
        };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, prop.id, shard));
        let mut runner = TestRunner::new_with_rng(config, rng);
        let strategy = vec(any::<u32>(), prop.tape_len / 8..=prop.tape_len);
        let res = runner.run(&strategy, |tape| {
            if harness_bug.borrow().is_some() {
                return Ok(());
            }
            write_cur(&cur, &tape);
            let o = run_guarded(|| (prop.run)(&mut Tape::new(&tape), &mut cx.borrow_mut()));
            match o {
                Outcome::Pass => Ok(()),
                Outcome::Fail(m) => {
                    cx.borrow_mut().quiet = true;
                    Err(TestCaseError::fail(m))
                }
                Outcome::HarnessBug(m) => {
                    *harness_bug.borrow_mut() = Some(format!("{m}; tape {}", tape_to_string(&tape)));
                    Ok(())
                }
            }
        });
        match res {
            Ok(()) => {}
            Err(TestError::Fail(reason, tape)) => {
                failure = Some(("tape".into(), tape, reason.message().to_string()));
            }
            Err(TestError::Abort(r)) => {
                *harness_bug.borrow_mut() = Some(format!("proptest aborted: {}", r.message()));
            }
        }
    }
    let cx = cx.into_inner();
    out.push_str(&format!("evaluations {}\n", cx.evaluations));
    for (k, v) in &cx.classes {
        out.push_str(&format!("class {v} {k}\n"));
    }
    for s in &cx.samples {
        out.push_str(&format!("sample {}\n", esc(s)));
    }
    if let Some((kind, tape, msg)) = failure {
        out.push_str(&format!("fail {} {}\n", kind, esc(&msg)));
        out.push_str(&format!("tape {}\n", tape_to_string(&tape)));
    }
    if let Some(b) = harness_bug.into_inner() {
        out.push_str(&format!("bug {}\n", esc(&b)));
    }
    let mut nt = Vec::with_capacity(cx.nontrivial.len() * 8);
    for v in &cx.nontrivial {
        nt.extend_from_slice(&v.to_le_bytes());
    }
    fs::write(dir.join(format!("nt{shard}")), nt).unwrap();
    out.push_str("done\n");
    fs::write(dir.join(format!("res{shard}")), out).unwrap();
    0
}

/// Runs one tape (or the fixed cases) in this process; exit code 0 pass, 1 fail, 3 harness bug.
pub fn one(prop: &'static Prop, tape: Option<Vec<u32>>, outfile: &Path) -> i32 {
    install_hook();
    start_watchdog(outfile.with_extension("hang"));
    on_big_stack(|| {
        let mut cx = Cx {
            quiet: true,
            thorough: std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"),
            trace: std::env::var_os("VERIF_TRACE").is_some(),
            ..Cx::default()
        };
        let o = match &tape {
            Some(t) => run_guarded(|| (prop.run)(&mut Tape::new(t), &mut cx)),
            None => run_guarded(|| (prop.fixed)(&mut cx)),
        };
        let (code, msg) = match o {
            Outcome::Pass => (0, String::new()),
            Outcome::Fail(m) => (1, m),
            Outcome::HarnessBug(m) => (3, m),
        };
        let _ = fs::write(outfile, format!("{}\n--\n{}\n", msg, cx.describe));
        code
    })
}

#[derive(Debug, PartialEq)]
enum OneResult {
    Pass,
    Fail(String, String),
    Crash(String),
    Error(String),
}

fn run_one_sub(prop: &Prop, tape: Option<&[u32]>, dir: &Path) -> OneResult {
    let tf = dir.join("one.tape");
    let of = dir.join("one.out");
    let _ = fs::remove_file(&of);
    let spec = match tape {
        Some(t) => {
            fs::write(&tf, tape_to_string(t)).unwrap();
            tf.to_string_lossy().to_string()
        }
        None => "fixed".to_string(),
    };
    let st = Command::new(std::env::current_exe().unwrap())
        .args(["one", prop.id, &spec, &of.to_string_lossy()])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status();
    let st = match st {
        Ok(s) => s,
        Err(e) => return OneResult::Error(e.to_string()),
    };
    match (st.code(), st.signal()) {
        (Some(0), _) => OneResult::Pass,
        (Some(1), _) => {
            let t = fs::read_to_string(&of).unwrap_or_default();
            let (m, d) = t.split_once("\n--\n").unwrap_or((&t, ""));
            OneResult::Fail(m.to_string(), d.to_string())
        }
        (None, Some(s)) if s == 6 || s == 11 || s == 7 || s == 4 => {
            OneResult::Crash(format!("the process died with signal {s} (stack overflow or abort)"))
        }
        (Some(crate::budget::EXIT_WORK), _) => OneResult::Crash("the library does not come to an end: the budget of work for this input is used up".into()),
        (Some(EXIT_HANG), _) => OneResult::Crash(format!("the library does not come to an end: one call used {HANG_CPU_SECS} s of CPU time")),
        (Some(crate::budget::EXIT_MEMORY), _) => OneResult::Crash("the library uses memory without bound: the budget for this input is used up".into()),
        (c, s) => OneResult::Error(format!("exit {c:?} signal {s:?}")),
    }
}

/// How often a case which failed is run again, each time in a fresh process, until it fails again. The outcome may depend
/// on the random order of a hash table.
const AGAIN: usize = 30;

fn run_again(prop: &Prop, tape: Option<&[u32]>, dir: &Path) -> OneResult {
    for _ in 0..AGAIN {
        match run_one_sub(prop, tape, dir) {
            OneResult::Pass => (),
            r => return r,
        }
    }
    OneResult::Pass
}

/// The cases of one worker, for failures which need the cases before them in the same process.
struct History {
    shard: usize,
    cases: u32,
    seed: u64,
    thorough: bool,
}

impl std::fmt::Display for History {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "history {} {} {} {}", self.shard, self.cases, self.seed, if self.thorough { "thorough" } else { "quick" })
    }
}

impl History {
    fn parse(s: &str) -> Option<History> {
        let mut it = s.strip_prefix("history ")?.split(' ');
        Some(History {
            shard: it.next()?.parse().ok()?,
            cases: it.next()?.parse().ok()?,
            seed: it.next()?.parse().ok()?,
            thorough: it.next()? == "thorough",
        })
    }
}

fn shard_cases(total: u32, shards: usize, i: usize) -> u32 {
    total / shards as u32 + u32::from((i as u32) < total % shards as u32)
}

/// Runs the cases of a worker again; the message of the failure, if there is one.
fn run_history(prop: &Prop, h: &History, dir: &Path) -> Option<String> {
    let sub = dir.join("history");
    fs::create_dir_all(&sub).ok()?;
    let st = Command::new(std::env::current_exe().unwrap())
        .args(["worker", prop.id, &h.shard.to_string(), &h.cases.to_string(), &h.seed.to_string()])
        .args([if h.thorough { "thorough" } else { "quick" }, &sub.to_string_lossy()])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .ok()?;
    if let Some(sig @ (4 | 6 | 7 | 11)) = st.signal() {
        return Some(format!("the process died with signal {sig} (stack overflow or abort)"));
    }
    let res = fs::read_to_string(sub.join(format!("res{}", h.shard))).ok()?;
    let l = res.lines().find_map(|l| l.strip_prefix("fail "))?;
    Some(unesc(l.split_once(' ').map_or("", |x| x.1)))
}

// ------------------------------------------------------------------------------------ parent

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn verif_root() -> PathBuf {
    std::env::var("VERIF_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn known_slugs(id: &str) -> Vec<(String, String)> {
    let p = verif_root().join("known_findings.txt");
    let mut v = vec![];
    for line in fs::read_to_string(p).unwrap_or_default().lines() {
        // known: property=<id> name=<slug> <text>
        if let Some(rest) = line.strip_prefix("known: property=") {
            let mut it = rest.splitn(3, ' ');
            let pid = it.next().unwrap_or("");
            let slug = it.next().unwrap_or("").strip_prefix("name=").unwrap_or("");
            let text = it.next().unwrap_or("");
            if pid == id {
                v.push((slug.to_string(), text.to_string()));
            }
        }
    }
    v
}

fn write_replay(prop: &Prop, kind: &str, tape: &[u32], msg: &str, describe: &str) -> PathBuf {
    let dir = verif_root().join("replay");
    let _ = fs::create_dir_all(&dir);
    let mut h = DefaultHasher::new();
    (kind, tape).hash(&mut h);
    let p = dir.join(format!("{}-{:016x}.txt", prop.id, h.finish()));
    let mut s = format!("property {}\nkind {}\ntape {}\n", prop.id, kind, tape_to_string(tape));
    s.push_str("# to replay: /verif/check.sh --replay <this file>\n");
    for l in msg.lines() {
        s.push_str(&format!("# {l}\n"));
    }
    s.push_str("# ---- case\n");
    for l in describe.lines() {
        s.push_str(&format!("# {l}\n"));
    }
    fs::write(&p, s).unwrap();
    p
}

pub fn replay(props: &'static [Prop], file: &Path) -> i32 {
    let text = fs::read_to_string(file).unwrap();
    let mut id = "";
    let mut kind = "tape";
    let mut tape = vec![];
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("property ") {
            id = r;
        } else if let Some(r) = l.strip_prefix("kind ") {
            kind = r;
        } else if let Some(r) = l.strip_prefix("tape ") {
            tape = tape_from_str(r);
        }
    }
    let prop = props.iter().find(|p| p.id == id).expect("property");
    let dir = verif_root().join(format!(".run/replay-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let r = match History::parse(kind) {
        Some(h) => run_history(prop, &h, &dir).map_or(OneResult::Pass, OneResult::Crash),
        None => run_again(prop, if kind == "fixed" { None } else { Some(&tape) }, &dir),
    };
    let _ = fs::remove_dir_all(&dir);
    match r {
        OneResult::Pass => {
            println!("replay: the property holds on this input");
            0
        }
        OneResult::Fail(m, d) => {
            println!("{m}\n---- case\n{d}");
            println!("VIOLATION property={id} replay={}", file.display());
            1
        }
        OneResult::Crash(m) => {
            println!("{m}");
            println!("VIOLATION property={id} replay={}", file.display());
            1
        }
        OneResult::Error(m) => {
            println!("error: {m}");
            2
        }
    }
}

/// (only how small the reported input is depends on this)
const SHRINK_CRASH_SECS: u64 = 60;

fn shrink_crash(prop: &Prop, tape: Vec<u32>, dir: &Path) -> Vec<u32> {
    // a crash kills the process, so proptest cannot shrink it: bisect on the tape from outside
    let t0 = Instant::now();
    let mut best = tape;
    let mut budget = 120;
    let mut chunk = (best.len() / 2).max(1);
    while chunk >= 1 && budget > 0 {
        let mut i = 0;
        let mut changed = false;
        while i < best.len() && budget > 0 {
            let end = (i + chunk).min(best.len());
            let mut cand = best.clone();
            cand.drain(i..end);
            // a crash may need seconds to happen
            budget = if t0.elapsed().as_secs() < SHRINK_CRASH_SECS { budget - 1 } else { 0 };
            if let OneResult::Crash(_) = run_one_sub(prop, Some(&cand), dir) {
                best = cand;
                changed = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !changed {
            break;
        }
        chunk = if chunk == 1 { 1 } else { chunk / 2 };
    }
    best
}

pub fn check(prop: &'static Prop) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let total = ((if thorough { prop.thorough } else { prop.quick }) as f64 * scale) as u32;
    // (compiled recursive schemas are never freed, so a process must not run too many cases)
    let shards = (total as usize / 4000).clamp(if thorough { 24 } else { 8 }, 512);
    let par = std::thread::available_parallelism().map(|v| v.get()).unwrap_or(4).clamp(2, 8);
    let dir = verif_root().join(format!(".run/{}-{}", prop.id, std::process::id()));
    fs::create_dir_all(&dir).unwrap();

    // run the shards
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let statuses: Mutex<BTreeMap<usize, Option<i32>>> = Mutex::new(BTreeMap::new());
    std::thread::scope(|s| {
        for _ in 0..par.min(shards) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst) as usize;
                if i >= shards || stop.load(Ordering::SeqCst) {
                    break;
                }
                let cases = shard_cases(total, shards, i);
                let st = Command::new(std::env::current_exe().unwrap())
                    .args([
                        "worker",
                        prop.id,
                        &i.to_string(),
                        &cases.to_string(),
                        &seed.to_string(),
                        if thorough { "thorough" } else { "quick" },
                        &dir.to_string_lossy(),
                    ])
                    .stdin(Stdio::null())
                    .stdout(Stdio::null())
                    .stderr(Stdio::null())
                    .status();
                let sig = match st {
                    Ok(st) => st.signal().map(|v| v + 1000).or(st.code()),
                    Err(_) => Some(2000),
                };
                let ok = fs::read_to_string(dir.join(format!("res{i}"))).is_ok_and(|r| r.ends_with("done\n") && !r.lines().any(|l| l.starts_with("fail ")));
                if !ok {
                    // enough is known
                    stop.store(true, Ordering::SeqCst);
                }
                statuses.lock().unwrap().insert(i, sig);
            });
        }
    });

    // merge
    let mut evaluations = 0u64;
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut nt: HashSet<u64> = HashSet::new();
    let mut failures: Vec<(String, Vec<u32>, String, usize)> = vec![]; // kind, tape, message, shard
    let mut errors: Vec<String> = vec![];
    let mut hung = false;
    for i in 0..shards {
        let Some(&st) = statuses.lock().unwrap().get(&i) else { continue };
        let res = fs::read_to_string(dir.join(format!("res{i}"))).unwrap_or_default();
        if !res.ends_with("done\n") {
            if matches!(st, Some(1006) | Some(1011) | Some(1007) | Some(1004) | Some(crate::budget::EXIT_WORK) | Some(crate::budget::EXIT_MEMORY) | Some(EXIT_HANG)) {
                hung |= st == Some(EXIT_HANG);
                match read_cur(&dir.join(format!("cur{i}"))) {
                    Some(t) => failures.push(("crash".into(), t, String::new(), i)),
                    None => failures.push(("fixed".into(), vec![], String::new(), i)),
                }
            } else if dir.join(format!("hang{i}")).exists() {
                let t = read_cur(&dir.join(format!("cur{i}"))).unwrap_or_default();
                let p = verif_root().join(format!(".run/hang-{}-{i}.tape", prop.id));
                let _ = fs::write(&p, tape_to_string(&t));
                errors.push(format!(
                    "shard {i}: a case used more than {HANG_CPU_SECS} s of CPU time; inconclusive; tape in {}",
                    p.display()
                ));
            } else {
                errors.push(format!("shard {i} ended with status {st:?} and no result"));
            }
            continue;
        }
        let mut pending: Option<(String, String)> = None;
        for l in res.lines() {
            if let Some(r) = l.strip_prefix("evaluations ") {
                evaluations += r.parse::<u64>().unwrap_or(0);
            } else if let Some(r) = l.strip_prefix("class ") {
                if let Some((n, k)) = r.split_once(' ') {
                    *classes.entry(k.to_string()).or_insert(0) += n.parse::<u64>().unwrap_or(0);
                }
            } else if let Some(r) = l.strip_prefix("sample ") {
                if samples.len() < 12 {
                    samples.push(unesc(r));
                }
            } else if let Some(r) = l.strip_prefix("fail ") {
                let (k, m) = r.split_once(' ').unwrap_or((r, ""));
                pending = Some((k.to_string(), unesc(m)));
            } else if let Some(r) = l.strip_prefix("tape ") {
                if let Some((k, m)) = pending.take() {
                    failures.push((k, tape_from_str(r), m, i));
                }
            } else if let Some(r) = l.strip_prefix("bug ") {
                errors.push(unesc(r));
            }
        }
        if let Ok(b) = fs::read(dir.join(format!("nt{i}"))) {
            for c in b.chunks_exact(8) {
                nt.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }

    let mut violations = 0;
    // known findings: replay each listed input
    let listed = known_slugs(prop.id);
    for k in prop.known {
        let f = k.run;
        install_hook();
        let r = on_big_stack(|| run_guarded(f));
        let _ = std::panic::take_hook();
        match (r, listed.iter().find(|(s, _)| s == k.slug)) {
            (Outcome::Pass, Some(_)) => {
                println!("note: listed finding {} of {} no longer fails", k.slug, prop.id)
            }
            (Outcome::Pass, None) => {}
            (Outcome::Fail(_), Some((_, text))) => {
                println!("KNOWN-FINDING: property={} {} {}", prop.id, k.slug, text)
            }
            (Outcome::Fail(m), None) => {
                let p = write_replay(prop, "fixed", &[], &m, k.slug);
                println!("VIOLATION property={} replay={}", prop.id, p.display());
                violations += 1;
            }
            (Outcome::HarnessBug(m), _) => errors.push(m),
        }
    }

    // confirm failures in a fresh process and write replay files
    failures.sort_by_key(|f| f.1.len());
    for (kind, tape, msg, shard) in failures.into_iter().take(if hung { 1 } else { 3 }) {
        if violations > 0 && t0.elapsed().as_secs() > 300 {
            break;
        }
        let tape = if kind == "crash" && !hung {
            shrink_crash(prop, tape, &dir)
        } else {
            tape
        };
        let arg = if kind == "fixed" { None } else { Some(&tape[..]) };
        match run_again(prop, arg, &dir) {
            OneResult::Fail(m, d) => {
                let p = write_replay(prop, &kind, &tape, &m, &d);
                println!("{}", m.lines().next().unwrap_or(""));
                println!("VIOLATION property={} replay={}", prop.id, p.display());
                violations += 1;
            }
            OneResult::Crash(m) => {
                let p = write_replay(prop, &kind, &tape, &m, "");
                println!("{m}");
                println!("VIOLATION property={} replay={}", prop.id, p.display());
                violations += 1;
            }
            // the input alone does not fail: the cases before it in the same process matter (or chance, such as
            // the order of a hash table), so the replay file names the whole run of the worker
            OneResult::Pass => {
                let h = History { shard, cases: shard_cases(total, shards, shard), seed, thorough };
                let again = run_history(prop, &h, &dir);
                if kind == "crash" && again.is_none() {
                    errors.push(format!("a crash did not happen again: tape {}", tape_to_string(&tape)));
                    continue;
                }
                let m = again.unwrap_or(msg);
                let note = "(depends on the cases before it in the same process, or on chance)";
                let p = write_replay(prop, &h.to_string(), &tape, &format!("{m}\n{note}"), "");
                println!("{} {note}", m.lines().next().unwrap_or(""));
                println!("VIOLATION property={} replay={}", prop.id, p.display());
                violations += 1;
            }
            OneResult::Error(e) => errors.push(format!("replaying a failure: {e} (first: {msg})")),
        }
    }
    let wall = t0.elapsed().as_secs_f64();

    // evidence
    let ev_dir = verif_root().join("evidence");
    let _ = fs::create_dir_all(&ev_dir);
    let mut j = String::from("{\n");
    j.push_str(&format!("  \"property\": {},\n", json_str(prop.id)));
    j.push_str(&format!("  \"tier\": \"{}\",\n", if thorough { "thorough" } else { "quick" }));
    j.push_str(&format!("  \"seed\": {seed},\n  \"level\": \"exploration\",\n"));
    j.push_str("  \"coverage\": {\n");
    j.push_str(&format!("    \"evaluations\": {evaluations},\n"));
    j.push_str(&format!("    \"distinct_nontrivial\": {},\n", nt.len()));
    j.push_str(&format!("    \"rule\": {},\n", json_str(prop.rule)));
    j.push_str("    \"classes\": {");
    j.push_str(
        &classes
            .iter()
            .map(|(k, v)| format!("{}: {v}", json_str(k)))
            .collect::<Vec<_>>()
            .join(", "),
    );
    j.push_str("},\n    \"samples\": [\n");
    j.push_str(&samples.iter().map(|s| format!("      {}", json_str(s))).collect::<Vec<_>>().join(",\n"));
    j.push_str("\n    ]\n  },\n");
    j.push_str("  \"assumptions\": [");
    j.push_str(&prop.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    j.push_str(&format!("],\n  \"wall_s\": {wall:.3},\n  \"violations\": {violations}\n}}\n"));
    fs::write(ev_dir.join(format!("{}.json", prop.id)), j).unwrap();
    let _ = fs::remove_dir_all(&dir);
    println!(
        "{}: {evaluations} evaluations, {} distinct non-trivial, {wall:.1} s",
        prop.id,
        nt.len()
    );
    for (k, v) in &classes {
        println!("    {k}: {v}");
    }
    if violations > 0 {
        for e in errors {
            println!("note: {e}");
        }
        return 1;
    }
    if !errors.is_empty() {
        for e in errors {
            println!("ERROR: {e}");
        }
        return 2;
    }
    if evaluations == 0 {
        println!("ERROR: nothing was evaluated");
        return 2;
    }
    0
}
