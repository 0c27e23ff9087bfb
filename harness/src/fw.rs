//! Bounded exhaustive exploration framework.
//!
//! A check is a list of *parts*; each part enumerates a finite space of cases completely
//! (no sampling) and calls an oracle on every one of them, on the real code.
//! A parent process supervises a child that does the exploration, so that a crash of the code
//! under test (stack overflow, abort, hang, runaway allocation) is attributed to the case that
//! was running and reported as a violation instead of taking the check down.
#![allow(dead_code)]

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashSet;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

// ---------------------------------------------------------------- allocation guard
/// Single allocations above this size fail (and abort): a malformed file must not make a reader
/// allocate memory out of all proportion to its size.
pub const MAX_ALLOC: usize = 1 << 30;
pub struct Guard;
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > MAX_ALLOC {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > MAX_ALLOC {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > MAX_ALLOC {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

// ---------------------------------------------------------------- shared slots
const SLOTS: usize = 64;
const SLOT_LEN: usize = 16384;
const HDR: usize = 64;
struct Shm {
    base: *mut u8,
}
unsafe impl Send for Shm {}
unsafe impl Sync for Shm {}
static mut SHM: Shm = Shm {
    base: std::ptr::null_mut(),
};
thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}
fn shm_base() -> *mut u8 {
    unsafe { SHM.base }
}
fn map_shm(path: &std::path::Path, create: bool) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(create)
        .truncate(false)
        .open(path)
        .expect("shm file");
    f.set_len((HDR + SLOTS * SLOT_LEN) as u64).expect("shm len");
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            HDR + SLOTS * SLOT_LEN,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    assert!(p != libc::MAP_FAILED);
    unsafe { SHM.base = p.cast() };
}
fn slot_write(i: usize, s: &str) {
    let base = shm_base();
    if base.is_null() || i >= SLOTS {
        return;
    }
    let b = s.as_bytes();
    let n = b.len().min(SLOT_LEN - 4);
    unsafe {
        let p = base.add(HDR + i * SLOT_LEN);
        std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(4), n);
        std::ptr::write_volatile(p.cast::<u32>(), n as u32);
    }
}
fn slot_read(i: usize) -> String {
    let base = shm_base();
    unsafe {
        let p = base.add(HDR + i * SLOT_LEN);
        let n = std::ptr::read_volatile(p.cast::<u32>()) as usize;
        let n = n.min(SLOT_LEN - 4);
        String::from_utf8_lossy(std::slice::from_raw_parts(p.add(4), n)).to_string()
    }
}
extern "C" fn on_fatal(sig: libc::c_int) {
    // async-signal-safe: records which slot was running, then dies by default action.
    let s = SLOT.try_with(Cell::get).unwrap_or(usize::MAX);
    let base = shm_base();
    if !base.is_null() {
        unsafe {
            std::ptr::write_volatile(base.cast::<u32>(), 0xDEAD);
            std::ptr::write_volatile(base.cast::<u32>().add(1), s as u32);
        }
    }
    unsafe {
        libc::signal(sig, libc::SIG_DFL);
        libc::raise(sig);
    }
}
fn install_handlers() {
    unsafe {
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_fatal as usize;
            sa.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
        let r = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &r);
    }
}

// ---------------------------------------------------------------- known findings
#[derive(Clone)]
struct Known {
    property: String,
    part: String,
    case: String,
    what: String,
}
fn load_known() -> Vec<Known> {
    let p = verif_dir().join("known-findings.json");
    let Ok(s) = std::fs::read_to_string(p) else {
        return vec![];
    };
    let v: serde_json::Value = serde_json::from_str(&s).expect("known-findings.json is valid");
    let mut out = vec![];
    for e in v["open"].as_array().cloned().unwrap_or_default() {
        for c in e["cases"].as_array().cloned().unwrap_or_default() {
            out.push(Known {
                property: e["property"].as_str().unwrap_or("").to_string(),
                part: e["part"].as_str().unwrap_or("").to_string(),
                case: c.as_str().unwrap_or("").to_string(),
                what: e["what"].as_str().unwrap_or("").to_string(),
            });
        }
    }
    out
}
pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

// ---------------------------------------------------------------- the check context
pub struct PartReport {
    name: String,
    rule: String,
    cases: u64,
    steps: u64,
    distinct: u64,
    secs: f64,
}
pub struct Violation {
    part: String,
    case: String,
    msg: String,
}
pub struct Ck {
    pub id: String,
    pub tier: Tier,
    pub seed: i64,
    level: Mutex<String>,
    start: Instant,
    parts: Mutex<Vec<PartReport>>,
    samples: Mutex<Vec<String>>,
    viol: Mutex<Vec<Violation>>,
    nviol: AtomicU64,
    known: Vec<Known>,
    known_hit: Mutex<HashSet<String>>,
    replay: Option<(String, String)>,
    replay_seen: AtomicUsize,
    only: Option<String>,
    assumptions: Mutex<Vec<String>>,
    pub threads: usize,
    hang_secs: AtomicU64,
}

/// What one case observed.
pub struct Obs {
    steps: u64,
    seen: HashSet<u64>,
    local: Vec<u64>,
}
impl Obs {
    /// number of model/implementation steps of this case
    pub fn steps(&mut self, n: u64) {
        self.steps += n;
    }
    /// register a distinct observed outcome (implementation state / output)
    pub fn state<H: Hash>(&mut self, h: H) {
        #[allow(deprecated)]
        let mut s = std::hash::SipHasher::new();
        h.hash(&mut s);
        self.seen.insert(s.finish());
    }
}

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => { match (&$a, &$b) { (a, b) => if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)); } } };
}

pub fn panic_message() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Run `f`, turning a panic into Err.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(format!("panicked: {}", panic_message())),
    }
}

impl Ck {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// pick a bound by tier
    pub fn t<T>(&self, quick: T, thorough: T) -> T {
        if self.tier == Tier::Quick {
            quick
        } else {
            thorough
        }
    }
    pub fn level(&self, l: &str) {
        *self.level.lock().unwrap() = l.to_string();
    }
    pub fn assume(&self, a: &str) {
        self.assumptions.lock().unwrap().push(a.to_string());
    }
    pub fn hang_secs(&self, s: u64) {
        self.hang_secs.store(s, Ordering::SeqCst);
    }
    fn record(&self, part: &str, case: &str, msg: String) {
        for k in &self.known {
            if k.property == self.id && k.part == part && k.case == case {
                self.known_hit.lock().unwrap().insert(k.what.clone());
                return;
            }
        }
        self.nviol.fetch_add(1, Ordering::SeqCst);
        let mut v = self.viol.lock().unwrap();
        if v.len() < 400 {
            v.push(Violation {
                part: part.into(),
                case: case.into(),
                msg,
            });
        }
    }

    /// Explore every case of `cases`. `rule` says how the cases are made.
    pub fn explore<C, I, F>(&self, part: &str, rule: &str, cases: I, f: F)
    where
        C: Debug + Send,
        I: IntoIterator<Item = C>,
        I::IntoIter: Send,
        F: Fn(&C, &mut Obs) -> R + Sync,
    {
        self.explore_n(part, rule, self.threads, cases, f);
    }

    pub fn explore_n<C, I, F>(&self, part: &str, rule: &str, threads: usize, cases: I, f: F)
    where
        C: Debug + Send,
        I: IntoIterator<Item = C>,
        I::IntoIter: Send,
        F: Fn(&C, &mut Obs) -> R + Sync,
    {
        if let Some(o) = &self.only {
            if o != part {
                return;
            }
        }
        if let Some((rp, _)) = &self.replay {
            if rp != part {
                return;
            }
        }
        let t0 = Instant::now();
        let it = Mutex::new(cases.into_iter());
        let total = AtomicU64::new(0);
        let steps = AtomicU64::new(0);
        let all: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
        let samples: Mutex<Vec<String>> = Mutex::new(vec![]);
        let done = AtomicBool::new(false);
        let begun: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
        let stop = AtomicBool::new(false);
        std::thread::scope(|s| {
            let mut hs = vec![];
            for w in 0..threads {
                let (it, total, steps, all, samples, f, begun, stop) =
                    (&it, &total, &steps, &all, &samples, &f, &begun, &stop);
                let me = self;
                let h = std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(s, move || {
                        SLOT.with(|c| c.set(w));
                        QUIET.with(|q| q.set(true));
                        let mut o = Obs {
                            steps: 0,
                            seen: HashSet::new(),
                            local: vec![],
                        };
                        let mut n = 0u64;
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let batch: Vec<C> = {
                                let mut g = it.lock().unwrap();
                                let mut b = Vec::with_capacity(16);
                                for _ in 0..16 {
                                    match g.next() {
                                        Some(c) => b.push(c),
                                        None => break,
                                    }
                                }
                                b
                            };
                            if batch.is_empty() {
                                break;
                            }
                            for c in batch {
                                let d = format!("{c:?}");
                                if let Some((_, rc)) = &me.replay {
                                    if rc != &d {
                                        continue;
                                    }
                                    me.replay_seen.fetch_add(1, Ordering::SeqCst);
                                }
                                n += 1;
                                {
                                    let mut sm = samples.lock().unwrap();
                                    let k = sm.len();
                                    if k < 3 && (n == 1 || n % 97 == 0) {
                                        sm.push(format!("{part}: {}", clip(&d, 300)));
                                    }
                                }
                                slot_write(w, &format!("{part}\n{d}"));
                                begun[w].store(now_ms(), Ordering::SeqCst);
                                let r = catch_unwind(AssertUnwindSafe(|| f(&c, &mut o)));
                                begun[w].store(0, Ordering::SeqCst);
                                match r {
                                    Ok(Ok(())) => {}
                                    Ok(Err(m)) => me.record(part, &d, m),
                                    Err(_) => {
                                        me.record(part, &d, format!("panic: {}", panic_message()))
                                    }
                                }
                                if me.nviol.load(Ordering::SeqCst) > 2000 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                        total.fetch_add(n, Ordering::SeqCst);
                        steps.fetch_add(o.steps, Ordering::SeqCst);
                        all.lock().unwrap().extend(o.seen);
                    })
                    .expect("spawn worker");
                hs.push(h);
            }
            // watchdog
            let (done, begun) = (&done, &begun);
            let hang = self.hang_secs.load(Ordering::SeqCst) * 1000;
            s.spawn(move || {
                while !done.load(Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(20));
                    for (w, b) in begun.iter().enumerate() {
                        let t = b.load(Ordering::SeqCst);
                        if t != 0 && now_ms() > t + hang {
                            let base = shm_base();
                            if !base.is_null() {
                                unsafe {
                                    std::ptr::write_volatile(base.cast::<u32>(), 0xBEEF);
                                    std::ptr::write_volatile(base.cast::<u32>().add(1), w as u32);
                                }
                            }
                            unsafe { libc::_exit(97) };
                        }
                    }
                }
            });
            for h in hs {
                h.join().expect("worker");
            }
            done.store(true, Ordering::SeqCst);
        });
        let rep = PartReport {
            name: part.into(),
            rule: rule.into(),
            cases: total.load(Ordering::SeqCst),
            steps: steps.load(Ordering::SeqCst),
            distinct: all.lock().unwrap().len() as u64,
            secs: t0.elapsed().as_secs_f64(),
        };
        eprintln!(
            "[{}] {:<28} cases={:<9} steps={:<10} distinct={:<9} {:.2}s violations={}",
            self.id,
            rep.name,
            rep.cases,
            rep.steps,
            rep.distinct,
            rep.secs,
            self.nviol.load(Ordering::SeqCst)
        );
        self.samples.lock().unwrap().extend(samples.into_inner().unwrap());
        self.parts.lock().unwrap().push(rep);
    }
}

fn now_ms() -> u64 {
    static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}
pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push('…');
        t
    }
}

// ---------------------------------------------------------------- enumeration helpers
/// All sequences over `alphabet` with length in `lo..=hi`, shortest first.
pub fn seqs<T: Clone + Send>(
    alphabet: &[T],
    lo: usize,
    hi: usize,
) -> impl Iterator<Item = Vec<T>> + Send {
    let a = alphabet.to_vec();
    (lo..=hi).flat_map(move |n| {
        let a = a.clone();
        let k = a.len() as u64;
        let total = k.pow(n as u32);
        (0..total).map(move |mut x| {
            let mut v = Vec::with_capacity(n);
            for _ in 0..n {
                v.push(a[(x % k) as usize].clone());
                x /= k;
            }
            v.reverse();
            v
        })
    })
}
pub fn product<A: Clone + Send, B: Clone + Send>(a: &[A], b: &[B]) -> Vec<(A, B)> {
    let mut v = vec![];
    for x in a {
        for y in b {
            v.push((x.clone(), y.clone()));
        }
    }
    v
}
/// All subsets of `a` (order preserved), of size in lo..=hi
pub fn subsets<T: Clone>(a: &[T], lo: usize, hi: usize) -> Vec<Vec<T>> {
    let mut out = vec![];
    for m in 0u64..(1 << a.len()) {
        let c = m.count_ones() as usize;
        if c >= lo && c <= hi {
            out.push(
                (0..a.len())
                    .filter(|i| m >> i & 1 == 1)
                    .map(|i| a[i].clone())
                    .collect(),
            );
        }
    }
    out.sort_by_key(|v: &Vec<T>| v.len());
    out
}
pub fn permutations<T: Clone>(a: &[T]) -> Vec<Vec<T>> {
    if a.len() <= 1 {
        return vec![a.to_vec()];
    }
    let mut out = vec![];
    for i in 0..a.len() {
        let mut rest = a.to_vec();
        let x = rest.remove(i);
        for mut p in permutations(&rest) {
            p.insert(0, x.clone());
            out.push(p);
        }
    }
    out
}
/// deterministic filler bytes (not random: a fixed function of index and salt)
pub fn fill(n: usize, salt: u32) -> Vec<u8> {
    let mut x = salt.wrapping_mul(2654435761).wrapping_add(12345);
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 17;
            x ^= x << 5;
            (x >> 11) as u8
        })
        .collect()
}

// ---------------------------------------------------------------- main
pub struct CheckDef {
    pub id: &'static str,
    pub run: fn(&Ck),
}

fn arg_value(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}

pub fn main_with(checks: &[CheckDef]) {
    let args: Vec<String> = std::env::args().collect();
    let Some(id) = args.get(1).cloned() else {
        for c in checks {
            println!("{}", c.id);
        }
        return;
    };
    let Some(def) = checks.iter().find(|c| c.id == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    if args.iter().any(|a| a == "--child") {
        child(def, &args);
    } else {
        parent(def, &args);
    }
}

fn tier_of(args: &[String]) -> Tier {
    let t = arg_value(args, "--tier").unwrap_or_else(|| std::env::var("VERIF_TIER").unwrap_or_default());
    if t == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}
fn seed_of() -> i64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
fn replay_dir() -> PathBuf {
    let d = verif_dir().join("evidence").join("replay");
    let _ = std::fs::create_dir_all(&d);
    d
}
fn write_replay(id: &str, n: usize, part: &str, case: &str, msg: &str) -> PathBuf {
    let p = replay_dir().join(format!("{id}-{n}.json"));
    let v = serde_json::json!({"property": id, "part": part, "case": case, "message": msg,
        "how": format!("/verif/run.sh {id} --replay {}", p.display())});
    std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap()).expect("write replay");
    p
}

fn parent(def: &CheckDef, args: &[String]) {
    let t0 = Instant::now();
    let dir = std::env::temp_dir().join(format!("mc-{}-{}", def.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch dir");
    let shm = dir.join("shm");
    map_shm(&shm, true);
    // replay files of an earlier run
    if arg_value(args, "--replay").is_none() {
        for i in 0..64 {
            let _ = std::fs::remove_file(replay_dir().join(format!("{}-{i}.json", def.id)));
        }
    }
    let mut cmd = std::process::Command::new(std::env::current_exe().expect("exe"));
    cmd.args(&args[1..]).arg("--child").env("MC_SHM", &shm).env("MC_SCRATCH", &dir);
    let status = cmd.status().expect("spawn child");
    let mut code = status.code();
    if code != Some(0) && code != Some(1) {
        let (mark, slot) = unsafe {
            let b = shm_base().cast::<u32>();
            (std::ptr::read_volatile(b), std::ptr::read_volatile(b.add(1)))
        };
        if (mark == 0xDEAD || mark == 0xBEEF) && (slot as usize) < SLOTS {
            let s = slot_read(slot as usize);
            let (part, case) = s.split_once('\n').unwrap_or(("?", &s));
            let msg = if mark == 0xDEAD {
                format!("the code under test crashed the process ({status:?})")
            } else {
                "the code under test did not terminate".to_string()
            };
            let k = load_known();
            if let Some(k) = k.iter().find(|k| k.property == def.id && k.part == part && k.case == case) {
                // a listed finding that kills the process: cannot continue past it in this run
                println!("KNOWN-FINDING: property={} {}", def.id, k.what);
                code = Some(2);
            } else {
                let p = write_replay(def.id, 0, part, case, &msg);
                println!("  part {part}, case {}: {msg}", clip(case, 400));
                println!("VIOLATION property={} replay={}", def.id, p.display());
                let ev = serde_json::json!({
                    "property": def.id, "tier": if tier_of(args) == Tier::Quick {"quick"} else {"thorough"},
                    "seed": seed_of(), "level": "other",
                    "coverage": {"explanation": format!("run ended early: {msg} on {}", clip(&s, 500))},
                    "wall_s": t0.elapsed().as_secs_f64(), "violations": 1});
                write_evidence(def.id, &ev);
                code = Some(1);
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    std::process::exit(code.unwrap_or(3));
}

fn write_evidence(id: &str, v: &serde_json::Value) {
    let d = verif_dir().join("evidence");
    std::fs::create_dir_all(&d).expect("evidence dir");
    std::fs::write(d.join(format!("{id}.json")), serde_json::to_string_pretty(v).unwrap()).expect("evidence");
}

/// A scratch directory of this run, removed by the parent.
pub fn scratch() -> PathBuf {
    let p = PathBuf::from(std::env::var("MC_SCRATCH").expect("MC_SCRATCH"));
    p
}

fn child(def: &CheckDef, args: &[String]) {
    if let Ok(p) = std::env::var("MC_SHM") {
        map_shm(&PathBuf::from(p), false);
    }
    install_handlers();
    std::panic::set_hook(Box::new(|info| {
        let m = format!("{info}").replace('\n', " ");
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
        if !QUIET.with(Cell::get) {
            // a panic on a helper thread of the code under test is reported by its joiner
            if std::env::var("MC_DEBUG").is_ok() {
                eprintln!("{info}");
            }
        }
    }));
    let tier = tier_of(args);
    let replay = arg_value(args, "--replay").map(|p| {
        let s = std::fs::read_to_string(p).expect("replay file");
        let v: serde_json::Value = serde_json::from_str(&s).expect("replay json");
        (
            v["part"].as_str().unwrap_or("").to_string(),
            v["case"].as_str().unwrap_or("").to_string(),
        )
    });
    let ck = Ck {
        id: def.id.to_string(),
        tier,
        seed: seed_of(),
        level: Mutex::new("model_checking".into()),
        start: Instant::now(),
        parts: Mutex::new(vec![]),
        samples: Mutex::new(vec![]),
        viol: Mutex::new(vec![]),
        nviol: AtomicU64::new(0),
        known: load_known(),
        known_hit: Mutex::new(HashSet::new()),
        replay,
        replay_seen: AtomicUsize::new(0),
        only: arg_value(args, "--part"),
        assumptions: Mutex::new(vec![]),
        threads: std::thread::available_parallelism().map_or(4, usize::from).clamp(2, 16),
        hang_secs: AtomicU64::new(60),
    };
    // the code under test looks for files relative to the working directory
    if let Ok(d) = std::env::var("MC_SCRATCH") {
        let d = PathBuf::from(d).join("cwd");
        std::fs::create_dir_all(&d).expect("cwd");
        std::env::set_current_dir(&d).expect("cwd");
    }
    let r = catch_unwind(AssertUnwindSafe(|| (def.run)(&ck)));
    if r.is_err() {
        eprintln!("check machinery panicked: {}", panic_message());
        std::process::exit(3);
    }
    let parts = ck.parts.lock().unwrap();
    let cases: u64 = parts.iter().map(|p| p.cases).sum();
    let steps: u64 = parts.iter().map(|p| p.steps).sum();
    let distinct: u64 = parts.iter().map(|p| p.distinct).sum();
    let nv = ck.nviol.load(Ordering::SeqCst);
    let rules: Vec<String> = parts.iter().map(|p| format!("{}: {}", p.name, p.rule)).collect();
    let detail: Vec<serde_json::Value> = parts
        .iter()
        .map(|p| serde_json::json!({"part": p.name, "rule": p.rule, "cases": p.cases, "steps": p.steps, "distinct_outcomes": p.distinct, "secs": p.secs}))
        .collect();
    let level = ck.level.lock().unwrap().clone();
    let mut cov = serde_json::json!({
        "samples": *ck.samples.lock().unwrap(),
        "rule": rules.join(" | "),
        "exhaustive": ck.replay.is_none() && ck.only.is_none() && nv == 0,
        "parts": detail,
    });
    if level == "model_checking" {
        cov["states"] = distinct.into();
        cov["transitions"] = steps.into();
        cov["traces_validated_against_impl"] = cases.into();
    } else {
        cov["evaluations"] = cases.into();
        cov["distinct_nontrivial"] = distinct.into();
    }
    let ev = serde_json::json!({
        "property": ck.id,
        "tier": if tier == Tier::Quick {"quick"} else {"thorough"},
        "seed": ck.seed,
        "level": level,
        "coverage": cov,
        "assumptions": *ck.assumptions.lock().unwrap(),
        "wall_s": ck.start.elapsed().as_secs_f64(),
        "violations": nv,
    });
    if ck.replay.is_none() {
        write_evidence(&ck.id, &ev);
    } else if ck.replay_seen.load(Ordering::SeqCst) == 0 {
        eprintln!("replay: the recorded case is not in the explored space of this tier");
        std::process::exit(2);
    }
    for k in ck.known_hit.lock().unwrap().iter() {
        println!("KNOWN-FINDING: property={} {}", ck.id, k);
    }
    let mut v = ck.viol.lock().unwrap();
    v.sort_by_key(|v| v.case.len());
    let show: usize = std::env::var("MC_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(5);
    for (i, x) in v.iter().take(show).enumerate() {
        let p = if ck.replay.is_none() {
            write_replay(&ck.id, i, &x.part, &x.case, &x.msg)
        } else {
            PathBuf::from(arg_value(args, "--replay").unwrap_or_default())
        };
        println!("  part {}, case {}: {}", x.part, clip(&x.case, 400), clip(&x.msg, 1200));
        println!("VIOLATION property={} replay={}", ck.id, p.display());
    }
    let _ = std::io::stdout().flush();
    if nv > 0 {
        println!("{nv} violating cases in total");
        std::process::exit(1);
    }
    if cases == 0 {
        eprintln!("nothing was explored");
        std::process::exit(2);
    }
    println!(
        "{}: held on {} cases ({} distinct outcomes, {} steps) in {:.1}s",
        ck.id,
        cases,
        distinct,
        steps,
        ck.start.elapsed().as_secs_f64()
    );
    std::process::exit(0);
}
