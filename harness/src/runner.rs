//! Runs the sub-checks of one property: seeded random search or bounded-exhaustive enumeration, in parallel,
//! with shrinking, replay files, crash and hang attribution, and the evidence file.

use crate::src::{odometer_next, shrink, Src};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub trait Case: Serialize + DeserializeOwned + Debug + Clone + Hash + Send + 'static {}
impl<T: Serialize + DeserializeOwned + Debug + Clone + Hash + Send + 'static> Case for T {}

/// What a test observed about the case it ran
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    /// Executions of the code under test inside this case (inputs matched, operations performed, ...)
    pub inner: u64,
    pub labels: BTreeMap<&'static str, u64>,
}
impl Obs {
    pub fn label(&mut self, l: &'static str) { *self.labels.entry(l).or_insert(0) += 1; }
    pub fn label_if(&mut self, c: bool, l: &'static str) { if c { self.label(l) } }
    pub fn ran(&mut self, n: u64) { self.inner += n; }
}

pub type Res = Result<(), String>;

/// Use inside tests for faults of the harness itself: reported as an error, never as a violation
pub fn harness_bug<T>(msg: String) -> Result<T, String> { Err(format!("HARNESS: {}", msg)) }

#[derive(Clone, Copy)]
pub enum Mode {
    /// Number of cases in the quick and thorough tiers
    Random(u64, u64),
    /// Largest number of cases enumerated in the quick and thorough tiers (normally above the size of the space)
    Exhaustive(u64, u64),
}

pub struct Sub<C: Case> {
    pub name: &'static str,
    pub mode: Mode,
    pub gen: fn(&mut Src) -> C,
    pub test: fn(&C, &mut Obs) -> Res,
}

pub trait AnySub: Sync + Send {
    fn name(&self) -> &'static str;
    fn mode(&self) -> Mode;
    /// Generates and runs; returns (hash of the case, verdict)
    fn run(&self, src: &mut Src, obs: &mut Obs) -> (u64, Res);
    fn describe(&self, src: &mut Src) -> Value;
    fn skip(&self, src: &mut Src);
    fn run_json(&self, v: &Value) -> Res;
}

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 { let mut x = self.0; crate::src::splitmix(&mut x) }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3); } }
}

thread_local! { static PANIC: RefCell<Option<String>> = const { RefCell::new(None) }; }

fn guarded<C: Case>(test: fn(&C, &mut Obs) -> Res, c: &C, obs: &mut Obs) -> Res {
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(|| test(c, obs))) {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if m.contains("HARNESS:") { Err(m) } else { Err(format!("unexpected panic: {}", m)) }
        }
    }
}

/// Runs `f`; true if it panicked (for operations that are documented to refuse their argument by panicking)
pub fn panics(f: impl FnOnce()) -> bool { catch_unwind(AssertUnwindSafe(f)).is_err() }

impl<C: Case> AnySub for Sub<C> {
    fn name(&self) -> &'static str { self.name }
    fn mode(&self) -> Mode { self.mode }
    fn run(&self, src: &mut Src, obs: &mut Obs) -> (u64, Res) {
        PANIC.with(|p| *p.borrow_mut() = None);
        let c = match catch_unwind(AssertUnwindSafe(|| (self.gen)(src))) {
            Ok(c) => c,
            Err(_) => return (0, Err(format!("HARNESS: the generator panicked: {}", PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()))),
        };
        let mut h = Fnv(0xcbf29ce484222325);
        c.hash(&mut h);
        (h.finish(), guarded(self.test, &c, obs))
    }
    fn describe(&self, src: &mut Src) -> Value { serde_json::to_value((self.gen)(src)).unwrap_or(Value::Null) }
    fn skip(&self, src: &mut Src) { let _ = (self.gen)(src); }
    fn run_json(&self, v: &Value) -> Res {
        let c: C = serde_json::from_value(v.clone()).map_err(|e| format!("HARNESS: cannot decode the case: {}", e))?;
        // What happens between threads may take many tries
        for _ in 1..if self.name.starts_with("shared") { 500 } else { 1 } { guarded(self.test, &c, &mut Obs::default())?; }
        guarded(self.test, &c, &mut Obs::default())
    }
}

pub fn sub<C: Case>(name: &'static str, mode: Mode, gen: fn(&mut Src) -> C, test: fn(&C, &mut Obs) -> Res) -> Box<dyn AnySub> {
    Box::new(Sub { name, mode, gen, test })
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Box<dyn AnySub>>,
}

const HANG_CPU_S: u64 = 20;
const CONFIRM_CPU_S: u64 = 20;
/// Sub-checks with very large cases get more, so that merely slower code is not taken for code that hangs
fn cpu_limit(sub: &str, base: u64) -> u64 { if sub.starts_with("huge-billions") { 30 * base } else if sub.starts_with("huge") { 6 * base } else { base } }
/// No new random cases are begun after this long (the search is then smaller, as the evidence says)
fn wall_limit(thorough: bool) -> Duration { Duration::from_secs(if thorough { 7200 } else { 420 }) }
const MEM_KB: u64 = 12 * 1024 * 1024;

fn case_seed(seed: u64, prop: &str, sub: &str, idx: u64) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325 ^ seed.wrapping_mul(0x9E37_79B9_7F4A_7C15));
    h.write(prop.as_bytes()); h.write(b"/"); h.write(sub.as_bytes());
    let mut x = h.finish() ^ idx.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    crate::src::splitmix(&mut x)
}

struct Env { seed: u64, thorough: bool, root: PathBuf, scale: f64 }
fn env() -> Env {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64;
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let root = std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"));
    let scale = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    Env { seed, thorough, root, scale }
}

fn src_for(p: &Property, si: usize, idx: u64, e: &Env) -> Src {
    let s = &p.subs[si];
    match s.mode() {
        Mode::Random(..) => Src::random(case_seed(e.seed, p.id, s.name(), idx), e.thorough),
        Mode::Exhaustive(..) => {
            let mut rec = vec![];
            for _ in 0..idx {
                let mut src = Src::odometer(rec, e.thorough);
                s.skip(&mut src);
                rec = odometer_next(src.rec).unwrap_or_default();
            }
            Src::odometer(rec, e.thorough)
        }
    }
}

#[derive(Default)]
struct SubStats { evaluations: u64, inner: u64, hashes: HashSet<u64>, labels: BTreeMap<&'static str, u64>, complete: bool, samples: Vec<Value>, wall: f64, slowest: f64 }

fn truncate(v: Value) -> Value {
    let s = v.to_string();
    if s.len() <= 1500 { v } else { json!({ "truncated_json": s.chars().take(1500).collect::<String>(), "full_length": s.len() }) }
}

pub fn main_with(p: Property) {
    let args: Vec<String> = std::env::args().collect();
    let e = env();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("check");
    std::panic::set_hook(Box::new(|info| {
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into());
        let at = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(msg + &at));
    }));
    let code = match cmd {
        "check" => parent(&p, &e),
        "worker" => on_big_stack(|| worker(&p, &e, Path::new(&args[2]))),
        "one" => on_big_stack(|| one(&p, &e, args[2].parse().unwrap(), args[3].parse().unwrap())),
        "choices" => on_big_stack(|| {
            let si: usize = args[2].parse().unwrap();
            let v: Vec<u64> = serde_json::from_str(&std::fs::read_to_string(&args[3]).unwrap()).unwrap();
            let (_, r) = p.subs[si].run(&mut Src::replay(v, e.thorough), &mut Obs::default());
            match r { Ok(()) => 0, Err(m) if m.contains("HARNESS:") => 3, Err(_) => 1 }
        }),
        "bytes" => on_big_stack(|| bytes_file(&p, &e, &args[2], Path::new(&args[3]))),
        "replay" => replay_file(&p, Path::new(&args[2])),
        "replay-here" => on_big_stack(|| replay_here(&p, Path::new(&args[2]))),
        "subs" => { for s in &p.subs { println!("{}", s.name()); } 0 }
        _ => { eprintln!("unknown command {}", cmd); 3 }
    };
    std::process::exit(code);
}

fn on_big_stack<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, f).unwrap().join().unwrap_or_else(|_| std::process::exit(3)))
}

/// Replays one saved case, bypassing the generators, in a process of its own
fn replay_file(p: &Property, path: &Path) -> i32 {
    let exe = std::env::current_exe().expect("own path");
    match limited(&exe, Some(10 * CONFIRM_CPU_S), &["replay-here", path.to_str().unwrap_or("")], false) {
        End::Code(c) => c,
        End::Died => {
            println!("replay {}: crashes or does not terminate", path.display());
            println!("VIOLATION property={} replay={}", p.id, path.display());
            1
        }
    }
}
fn replay_here(p: &Property, path: &Path) -> i32 {
    match replay_file_quiet(p, path) {
        Ok(()) => { println!("replay {}: property {} holds on this case", path.display(), p.id); 0 }
        Err(m) if m.contains("HARNESS:") => { eprintln!("{}", m); 3 }
        Err(m) => { println!("replay {}: {}", path.display(), m); println!("VIOLATION property={} replay={}", p.id, path.display()); 1 }
    }
}

fn write_replay(p: &Property, e: &Env, si: usize, case: Value, choices: &[u64], why: &str, before: Vec<Value>) -> PathBuf {
    let dir = e.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-seed{}.json", p.id, p.subs[si].name(), e.seed));
    let mut v = json!({ "property": p.id, "sub": p.subs[si].name(), "why": why, "case": case, "choices": choices, "seed": e.seed });
    if !before.is_empty() { v["before"] = Value::Array(before); }
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

/// Runs one generated case by number, without shrinking (used to attribute crashes and hangs)
fn one(p: &Property, e: &Env, si: usize, idx: u64) -> i32 {
    let t0 = Instant::now();
    for i in 0..10 {
        if i > 0 && t0.elapsed() > Duration::from_secs(4) { break; }
        let mut src = src_for(p, si, idx, e);
        let (_, r) = p.subs[si].run(&mut src, &mut Obs::default());
        match r {
            Ok(()) => {}
            Err(m) if m.contains("HARNESS:") => { eprintln!("{}", m); return 3; }
            Err(m) => {
                let ch = src.choices();
                let case = p.subs[si].describe(&mut Src::replay(ch.clone(), e.thorough));
                let path = write_replay(p, e, si, case, &ch, &m, vec![]);
                println!("[{}] {}: {}", p.id, p.subs[si].name(), m.chars().take(2000).collect::<String>());
                println!("VIOLATION property={} replay={}", p.id, path.display());
                return 1;
            }
        }
    }
    0
}

/// Decodes a byte-level (fuzzer) input with the generator, and if it fails shrinks it and writes a replay file
fn bytes_file(p: &Property, e: &Env, name: &str, path: &Path) -> i32 {
    let si = match p.subs.iter().position(|s| s.name() == name) { Some(i) => i, None => return 3 };
    let b = match std::fs::read(path) { Ok(b) => b, Err(_) => return 3 };
    let mut src = Src::bytes(b, e.thorough);
    let (_, r) = p.subs[si].run(&mut src, &mut Obs::default());
    match r {
        Ok(()) => { println!("holds on this input"); 0 }
        Err(m) if m.contains("HARNESS:") => { eprintln!("{}", m); 3 }
        Err(m) => report_shrunk(p, e, si, src.choices(), m, &[])
    }
}

/// If a case fails only after others have been run in the same process, finds a short list of such cases: each candidate list is
/// tried in a process of its own
fn history(p: &Property, e: &Env, si: usize, choices: &[u64], why: &str, earlier: &[Vec<u64>]) -> Vec<Value> {
    let sub = &p.subs[si];
    let exe = match std::env::current_exe() { Ok(x) => x, Err(_) => return vec![] };
    let t0 = Instant::now();
    let decode = |c: &Vec<u64>| sub.describe(&mut Src::replay(c.clone(), e.thorough));
    let fails = |list: &[Vec<u64>]| {
        if t0.elapsed() > Duration::from_secs(60) { return false; }
        let path = write_replay(p, e, si, decode(&choices.to_vec()), choices, why, list.iter().map(decode).collect());
        matches!(limited(&exe, Some(CONFIRM_CPU_S), &["replay-here", path.to_str().unwrap_or("")], true), End::Code(1))
    };
    if fails(&[]) { return vec![]; }
    let mut list: Vec<Vec<u64>> = earlier.to_vec();
    if !fails(&list) { return vec![]; }
    let mut n = list.len();
    while n > 0 {
        let mut i = 0;
        while i < list.len() {
            let mut shorter = list.clone();
            shorter.drain(i..(i + n).min(list.len()));
            if fails(&shorter) { list = shorter } else { i += n }
        }
        n /= 2;
    }
    list.iter().map(decode).collect()
}

fn report_shrunk(p: &Property, e: &Env, si: usize, choices: Vec<u64>, first: String, earlier: &[Vec<u64>]) -> i32 {
    let sub = &p.subs[si];
    let t0 = Instant::now();
    MAIN_LIMIT.store(cpu_limit(sub.name(), HANG_CPU_S), SeqCst);
    // One failure out of `tries` runs counts: the library's hash tables are ordered at random
    let fail = |c: &[u64], tries: u32| -> Option<(Vec<u64>, String)> {
        for _ in 0..tries {
            let mut s = Src::replay(c.to_vec(), e.thorough);
            match main_case(|| sub.run(&mut s, &mut Obs::default()).1) { Err(m) if !m.contains("HARNESS:") => return Some((s.choices(), m)), _ => {} }
        }
        None
    };
    let sure = (0..6).all(|_| fail(&choices, 1).is_some());
    let tries = if sure { 1 } else { 10 };
    // Not shrunk if it takes earlier cases to make it fail: what these left behind in this process has its own way
    let before = if sure || earlier.is_empty() { vec![] } else { history(p, e, si, &choices, &first, earlier) };
    let best = if !before.is_empty() { choices } else { shrink(choices, 20_000, &mut |c| if t0.elapsed() > Duration::from_secs(60) { None } else { fail(c, tries).map(|f| f.0) }) };
    let why = if !before.is_empty() { format!("{} (after {} other case(s) in the same process)", first, before.len()) } else { match fail(&best, 200) { Some(f) => f.1, None => format!("{} (observed once; this case does not fail every time)", first) } };
    let case = sub.describe(&mut Src::replay(best.clone(), e.thorough));
    let text = case.to_string();
    let path = write_replay(p, e, si, case, &best, &why, before);
    println!("[{}] {}: {}", p.id, sub.name(), why.chars().take(2000).collect::<String>());
    println!("[{}] minimal case: {}{}", p.id, text.chars().take(2000).collect::<String>(), if sure { "" } else { " (fails on some runs only)" });
    println!("VIOLATION property={} replay={}", p.id, path.display());
    1
}

fn thread_cpu_ticks(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

/// Number of the case the main thread is at work on (saved cases, candidates of the shrinker); 0 if none
static MAIN_CASE: AtomicU64 = AtomicU64::new(0);
static MAIN_LIMIT: AtomicU64 = AtomicU64::new(6 * HANG_CPU_S);
fn main_case<R>(f: impl FnOnce() -> R) -> R {
    static N: AtomicU64 = AtomicU64::new(1);
    MAIN_CASE.store(N.fetch_add(1, SeqCst), SeqCst);
    let r = f();
    MAIN_CASE.store(0, SeqCst);
    r
}

fn worker(p: &Property, e: &Env, scratch: &Path) -> i32 {
    let t0 = Instant::now();
    let n_threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let main_tid = AtomicU64::new(own_tid());
    let done = AtomicBool::new(false);
    std::thread::scope(|scope| {
        struct Finish<'a>(&'a AtomicBool);
        impl Drop for Finish<'_> { fn drop(&mut self) { self.0.store(true, SeqCst) } }
        let _finish = Finish(&done);
        let in_case: Vec<AtomicU64> = (0..n_threads).map(|_| AtomicU64::new(0)).collect();
        let tids: Vec<AtomicU64> = (0..n_threads).map(|_| AtomicU64::new(0)).collect();
        let (in_case, tids) = (std::sync::Arc::new(in_case), std::sync::Arc::new(tids));
        // Watchdog: CPU time (not wall time) spent by one thread inside one single case
        {
            let (in_case, tids, done, main_tid) = (in_case.clone(), tids.clone(), &done, &main_tid);
            scope.spawn(move || {
                let mut seen = vec![(0u64, 0u64); n_threads + 1];
                while !done.load(SeqCst) {
                    std::thread::sleep(Duration::from_millis(100));
                    for t in 0..=n_threads {
                        let (c, tid) = if t == n_threads { (MAIN_CASE.load(SeqCst), main_tid.load(SeqCst)) } else { (in_case[t].load(SeqCst), tids[t].load(SeqCst)) };
                        let ticks = thread_cpu_ticks(tid).unwrap_or(0);
                        if c == 0 || c != seen[t].0 { seen[t] = (c, ticks); }
                        else if ticks.saturating_sub(seen[t].1) > 100 * if t == n_threads { MAIN_LIMIT.load(SeqCst) } else { cpu_limit(p.subs[(c >> 48) as usize - 1].name(), HANG_CPU_S) } {
                            eprintln!("[{}] a single case has used more than its limit of CPU time", p.id);
                            std::process::exit(42);
                        }
                    }
                }
            });
        }
        search(p, e, scratch, t0, n_threads, &in_case, &tids)
    })
}

fn own_tid() -> u64 {
    std::fs::read_link("/proc/thread-self").ok().and_then(|l| l.file_name().and_then(|n| n.to_str()).and_then(|n| n.parse().ok())).unwrap_or(0)
}

fn search(p: &Property, e: &Env, scratch: &Path, t0: Instant, n_threads: usize, in_case: &[AtomicU64], tids: &[AtomicU64]) -> i32 {

    // Saved regression cases first
    let mut corpus_cases = 0u64;
    if let Ok(dir) = std::fs::read_dir(e.root.join("corpus").join(p.id)) {
        let mut files: Vec<PathBuf> = dir.filter_map(|f| f.ok()).map(|f| f.path()).filter(|f| f.extension().map(|x| x == "json").unwrap_or(false)).collect();
        files.sort();
        for (i, f) in files.iter().enumerate() {
            let _ = std::fs::write(scratch.join("corpus"), format!("{}", i));
            corpus_cases += 1;
            match main_case(|| replay_file_quiet(p, f)) {
                Ok(()) => {}
                Err(m) if m.contains("HARNESS:") => { eprintln!("{}: {}", f.display(), m); return 3; }
                Err(m) => {
                    println!("[{}] saved case: {}", p.id, m);
                    println!("VIOLATION property={} replay={}", p.id, f.display());
                    evidence(p, e, &[], corpus_cases, t0, 1);
                    return 1;
                }
            }
        }
        let _ = std::fs::remove_file(scratch.join("corpus"));
    }

    let only = std::env::var("VERIF_SUB").ok();
    {
        let mut stats: Vec<(usize, SubStats)> = vec![];
        let wall = wall_limit(e.thorough);
        let mut result = 0;
        for (si, s) in p.subs.iter().enumerate() {
            if let Some(o) = &only { if o != s.name() { continue; } }
            let ts = Instant::now();
            let (limit, exhaustive) = match s.mode() {
                Mode::Random(q, t) => (((if e.thorough { t } else { q }) as f64 * e.scale).ceil() as u64, false),
                Mode::Exhaustive(q, t) => (if e.thorough { t } else { q }, true),
            };
            let next = AtomicU64::new(0);
            let min_fail = AtomicU64::new(u64::MAX);
            let finished_space = AtomicUsize::new(0);
            let fails: Mutex<BTreeMap<u64, (Vec<u64>, String, Vec<u64>)>> = Mutex::new(BTreeMap::new());
            let merged: Mutex<SubStats> = Mutex::new(SubStats::default());
            std::thread::scope(|inner| {
                for t in 0..n_threads {
                    let (next, min_fail, fails, merged, in_case, tids, finished_space) = (&next, &min_fail, &fails, &merged, in_case, tids, &finished_space);
                    std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(inner, move || {
                        tids[t].store(own_tid(), SeqCst);
                        let journal = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(scratch.join(format!("j{}", t))).ok();
                        let mut st = SubStats::default();
                        let mut rec: Vec<(u64, u64)> = vec![];
                        let mut pos = 0u64; // odometer position
                        let mut chunk = (0u64, 0u64);
                        let mut recent: std::collections::VecDeque<u64> = Default::default();
                        loop {
                            // Pick the next case number
                            if chunk.0 == chunk.1 {
                                let step = if exhaustive { 64 } else if limit < 1000 { 1 } else { 8 };
                                let a = next.fetch_add(step, SeqCst);
                                chunk = (a, a + step);
                            }
                            let idx = chunk.0;
                            chunk.0 += 1;
                            if idx >= limit || idx > min_fail.load(SeqCst) { break; }
                            if (limit < 10_000 || idx % 64 == 0) && t0.elapsed() > wall { break; }
                            let mut src = if exhaustive {
                                let mut over = false;
                                while pos < idx {
                                    let mut s2 = Src::odometer(std::mem::take(&mut rec), e.thorough);
                                    s.skip(&mut s2);
                                    match odometer_next(s2.rec) { Some(r) => { rec = r; pos += 1; } None => { over = true; break; } }
                                }
                                if over { finished_space.fetch_add(1, SeqCst); break; }
                                Src::odometer(rec.clone(), e.thorough)
                            } else { src_for(p, si, idx, e) };
                            if let Some(j) = &journal {
                                let mut b = [0u8; 24];
                                b[..8].copy_from_slice(&1u64.to_le_bytes());
                                b[8..16].copy_from_slice(&(si as u64).to_le_bytes());
                                b[16..].copy_from_slice(&idx.to_le_bytes());
                                let _ = j.write_all_at(&b, 0);
                            }
                            in_case[t].store(idx + 1 + ((si as u64 + 1) << 48), SeqCst);
                            let mut obs = Obs::default();
                            let t_case = Instant::now();
                            let (h, r) = s.run(&mut src, &mut obs);
                            st.slowest = st.slowest.max(t_case.elapsed().as_secs_f64());
                            in_case[t].store(0, SeqCst);
                            if exhaustive {
                                match odometer_next(src.rec.clone()) { Some(r2) => { rec = r2; pos = idx + 1; } None => { finished_space.fetch_add(1, SeqCst); chunk = (limit, limit + 1); } }
                            }
                            st.evaluations += 1;
                            st.inner += obs.inner;
                            for (k, v) in obs.labels { *st.labels.entry(k).or_insert(0) += v; }
                            if obs.nontrivial {
                                st.hashes.insert(h);
                                if st.samples.len() < 1 && idx % 7 == 3 {
                                    st.samples.push(truncate(s.describe(&mut Src::replay(src.choices(), e.thorough))));
                                }
                            }
                            if let Err(m) = r {
                                min_fail.fetch_min(idx, SeqCst);
                                fails.lock().unwrap().insert(idx, (src.choices(), m, recent.iter().copied().collect()));
                            }
                            if !exhaustive { if recent.len() == 300 { recent.pop_front(); } recent.push_back(idx); }
                        }
                        if let Some(j) = &journal { let _ = j.write_all_at(&[0u8; 24], 0); }
                        let mut m = merged.lock().unwrap();
                        m.evaluations += st.evaluations;
                        m.inner += st.inner;
                        m.hashes.extend(st.hashes);
                        m.samples.extend(st.samples);
                        m.slowest = m.slowest.max(st.slowest);
                        for (k, v) in st.labels { *m.labels.entry(k).or_insert(0) += v; }
                    }).unwrap();
                }
            });
            let mut st = merged.into_inner().unwrap();
            st.complete = exhaustive && finished_space.load(SeqCst) > 0 && min_fail.load(SeqCst) == u64::MAX;
            st.wall = ts.elapsed().as_secs_f64();
            stats.push((si, st));
            let fails = fails.into_inner().unwrap();
            if let Some((idx, (choices, msg, recent))) = fails.into_iter().next() {
                if msg.contains("HARNESS:") { eprintln!("[{}] {} case {}: {}", p.id, s.name(), idx, msg); result = 3; break; }
                // Journal the case, in case shrinking runs into a hang
                let mut b = [0u8; 24];
                b[..8].copy_from_slice(&1u64.to_le_bytes()); b[8..16].copy_from_slice(&(si as u64).to_le_bytes()); b[16..].copy_from_slice(&idx.to_le_bytes());
                let _ = std::fs::write(scratch.join("j0"), b);
                let earlier: Vec<Vec<u64>> = recent.iter().map(|i| { let mut src = src_for(p, si, *i, e); s.skip(&mut src); src.choices() }).collect();
                result = report_shrunk(p, e, si, choices, msg, &earlier);
                break;
            }
        }
        evidence(p, e, &stats, corpus_cases, t0, if result == 1 { 1 } else { 0 });
        result
    }
}

fn replay_file_quiet(p: &Property, path: &Path) -> Res {
    let v: Value = std::fs::read_to_string(path).map_err(|e| format!("HARNESS: {}", e)).and_then(|s| serde_json::from_str(&s).map_err(|e| format!("HARNESS: {}", e)))?;
    let name = v["sub"].as_str().unwrap_or("");
    match p.subs.iter().find(|s| s.name() == name) { None => Err(format!("HARNESS: no sub-check {}", name)), Some(s) => (0..20).try_for_each(|_| {
        for earlier in v["before"].as_array().into_iter().flatten() { let _ = s.run_json(earlier); }
        s.run_json(&v["case"])
    }) }
}

fn evidence(p: &Property, e: &Env, stats: &[(usize, SubStats)], corpus: u64, t0: Instant, violations: u64) {
    let mut subs = vec![];
    let mut samples = vec![];
    let (mut ev, mut nt, mut inner) = (0u64, 0u64, 0u64);
    for (si, s) in stats {
        ev += s.evaluations; nt += s.hashes.len() as u64; inner += s.inner;
        for x in s.samples.iter().take(2) { samples.push(json!({ "sub": p.subs[*si].name(), "case": x })); }
        let (kind, bound) = match p.subs[*si].mode() { Mode::Random(..) => ("random", Value::Null), Mode::Exhaustive(..) => ("bounded-exhaustive", json!(s.complete)) };
        subs.push(json!({ "name": p.subs[*si].name(), "search": kind, "space_completed": bound, "cases": s.evaluations, "distinct_nontrivial": s.hashes.len(),
            "executions_of_the_code_under_test": s.inner, "classes": s.labels, "wall_s": (s.wall * 100.0).round() / 100.0, "slowest_case_s": (s.slowest * 1000.0).round() / 1000.0 }));
    }
    let v = json!({
        "property": p.id, "tier": if e.thorough { "thorough" } else { "quick" }, "seed": e.seed as i64, "level": "exploration",
        "coverage": { "evaluations": ev + corpus, "distinct_nontrivial": nt, "rule": p.rule, "samples": samples,
            "executions_of_the_code_under_test": inner, "saved_regression_cases": corpus, "sub_checks": subs },
        "assumptions": p.assumptions, "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0, "violations": violations
    });
    let dir = e.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(m) = std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&v).unwrap()) { eprintln!("cannot write evidence: {}", m); }
    println!("[{}] {} cases, {} distinct non-trivial, {} executions, {:.1} s", p.id, ev + corpus, nt, inner, t0.elapsed().as_secs_f64());
}

enum End { Code(i32), Died }
fn limited(exe: &Path, cpu: Option<u64>, args: &[&str], quiet: bool) -> End {
    let script = format!("ulimit -v {}; {} exec \"$0\" \"$@\"", MEM_KB, cpu.map(|c| format!("ulimit -t {};", c)).unwrap_or_default());
    let mut c = Command::new("sh");
    c.arg("-c").arg(script).arg(exe).args(args);
    if quiet { c.stdout(Stdio::null()).stderr(Stdio::null()); }
    match c.status() { Ok(s) => match s.code() { Some(c) => End::Code(c), None => End::Died }, Err(_) => End::Code(3) }
}

/// Runs the worker; if it dies or hangs, finds the case responsible by re-running the cases that were in flight
fn parent(p: &Property, e: &Env) -> i32 {
    let exe = std::env::current_exe().expect("own path");
    let scratch = std::env::temp_dir().join(format!("pbt-{}-{}", p.id, std::process::id()));
    let _ = std::fs::create_dir_all(&scratch);
    let code = parent_in(p, e, &exe, &scratch);
    let _ = std::fs::remove_dir_all(&scratch);
    code
}

fn parent_in(p: &Property, e: &Env, exe: &Path, scratch: &Path) -> i32 {
    let t0 = Instant::now();
    match limited(exe, None, &["worker", scratch.to_str().unwrap()], false) {
        End::Code(c @ (0 | 1 | 3)) => return c,
        _ => {}
    }
    eprintln!("[{}] the search process died or stopped making progress; looking for the case responsible", p.id);
    // A saved case?
    if scratch.join("corpus").exists() {
        let i: usize = std::fs::read_to_string(scratch.join("corpus")).ok().and_then(|s| s.parse().ok()).unwrap_or(0);
        let mut files: Vec<PathBuf> = std::fs::read_dir(e.root.join("corpus").join(p.id)).map(|d| d.filter_map(|f| f.ok()).map(|f| f.path()).filter(|f| f.extension().map(|x| x == "json").unwrap_or(false)).collect()).unwrap_or_default();
        files.sort();
        if let Some(f) = files.get(i) {
            if let End::Died = limited(exe, Some(CONFIRM_CPU_S), &["replay-here", f.to_str().unwrap()], true) {
                println!("[{}] saved case {} crashes or does not terminate ({} s of CPU time)", p.id, f.display(), CONFIRM_CPU_S);
                println!("VIOLATION property={} replay={}", p.id, f.display());
                evidence(p, e, &[], i as u64 + 1, t0, 1);
                return 1;
            }
        }
    }
    let mut suspects: Vec<(usize, u64)> = vec![];
    for t in 0..16 {
        if let Ok(b) = std::fs::read(scratch.join(format!("j{}", t))) {
            if b.len() >= 24 && b[0] == 1 {
                let si = u64::from_le_bytes(b[8..16].try_into().unwrap()) as usize;
                let idx = u64::from_le_bytes(b[16..24].try_into().unwrap());
                if si < p.subs.len() { suspects.push((si, idx)); }
            }
        }
    }
    suspects.sort();
    for (si, idx) in suspects {
        let (a, b) = (si.to_string(), idx.to_string());
        let huge = cpu_limit(p.subs[si].name(), 1) > 1;
        match limited(exe, Some(cpu_limit(p.subs[si].name(), CONFIRM_CPU_S)), &["one", &a, &b], false) {
            End::Code(1) => { evidence(p, e, &[], 1, t0, 1); return 1; }
            End::Died => {
                // Confirmed in isolation: shrink with one process per candidate, under a smaller CPU limit
                let mut src = src_for(p, si, idx, e);
                p.subs[si].skip(&mut src);
                let choices = src.choices();
                let t1 = Instant::now();
                let file = scratch.join("cand");
                let best = shrink(choices, if huge { 0 } else { 4000 }, &mut |c| {
                    if t1.elapsed() > Duration::from_secs(120) { return None; }
                    std::fs::write(&file, serde_json::to_string(c).unwrap()).ok()?;
                    match limited(exe, Some(4), &["choices", &a, file.to_str().unwrap()], true) {
                        End::Died => { let mut s = Src::replay(c.to_vec(), e.thorough); p.subs[si].skip(&mut s); Some(s.choices()) }
                        _ => None,
                    }
                });
                let case = p.subs[si].describe(&mut Src::replay(best.clone(), e.thorough));
                let why = format!("the case crashes the process or does not terminate within {} s of CPU time (confirmed in a process of its own)", cpu_limit(p.subs[si].name(), CONFIRM_CPU_S));
                let text = case.to_string();
                let path = write_replay(p, e, si, case, &best, &why, vec![]);
                println!("[{}] {}: {}", p.id, p.subs[si].name(), why);
                println!("[{}] minimal case: {}", p.id, text.chars().take(2000).collect::<String>());
                println!("VIOLATION property={} replay={}", p.id, path.display());
                evidence(p, e, &[], 1, t0, 1);
                return 1;
            }
            _ => {}
        }
    }
    eprintln!("[{}] could not reproduce the failure of the search process in isolation", p.id);
    3
}
