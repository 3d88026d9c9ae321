//! Exhaustive-exploration kit.
//!
//! A *check* is a set of *families*. A family deterministically enumerates
//! cases; every case is executed on the real implementation and judged by an
//! oracle. The kit never samples: every case the family enumerates is run, and
//! what was run is counted and written to the evidence file.
//!
//! Families are sharded by case index over worker threads. The whole
//! exploration runs in a child process, so that aborts, signals and hangs of
//! the code under test become violations with a replay file, too.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub mod alloc;
pub mod guard;
pub mod rng;

/// A case that broke the property.
#[derive(Debug, Clone)]
pub struct Failure {
    pub msg: String,
    /// Precise class of a defect, for the known-findings file.
    pub class: Option<String>,
}

impl From<String> for Failure {
    fn from(msg: String) -> Self {
        Failure { msg, class: None }
    }
}

impl From<&str> for Failure {
    fn from(msg: &str) -> Self {
        Failure {
            msg: msg.to_string(),
            class: None,
        }
    }
}

pub fn classified(class: &str, msg: impl Into<String>) -> Failure {
    Failure {
        msg: msg.into(),
        class: Some(class.to_string()),
    }
}

/// Fingerprint of what a case did. Zero means trivial.
pub type CaseResult = Result<u64, Failure>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::Failure::from(format!($($t)*))) };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::Failure::from(format!($($t)*))) } };
}

/// FNV-like incremental fingerprint.
#[derive(Clone, Copy)]
pub struct Fp(pub u64);

impl Default for Fp {
    fn default() -> Self {
        Fp(0xcbf2_9ce4_8422_2325)
    }
}

impl Fp {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn bytes(mut self, b: &[u8]) -> Self {
        for &x in b {
            self.0 = (self.0 ^ x as u64).wrapping_mul(0x0000_0100_0000_01b3);
        }
        self.0 = (self.0 ^ (b.len() as u64).wrapping_add(0x9e37_79b9))
            .wrapping_mul(0x0000_0100_0000_01b3);
        self
    }
    pub fn u64(self, v: u64) -> Self {
        self.bytes(&v.to_le_bytes())
    }
    pub fn str(self, s: &str) -> Self {
        self.bytes(s.as_bytes())
    }
    pub fn done(self) -> u64 {
        self.0 | 1
    }
}

pub fn fp(b: &[u8]) -> u64 {
    Fp::new().bytes(b).done()
}

#[derive(Default)]
pub struct IdHasher(u64);

impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    }
}

pub type IdSet = HashSet<u64, BuildHasherDefault<IdHasher>>;

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

const SLOTS: usize = 64;

#[repr(C)]
struct Crumb {
    /// family + 1, zero when idle.
    family: AtomicU64,
    index: AtomicU64,
    /// milliseconds since start at which the case began.
    began: AtomicU64,
}

static CRUMBS: AtomicUsize = AtomicUsize::new(0);

fn crumb(slot: usize) -> Option<&'static Crumb> {
    let base = CRUMBS.load(Ordering::Relaxed);
    if base == 0 || slot >= SLOTS {
        return None;
    }
    // SAFETY: the mapping has SLOTS entries and is never unmapped.
    Some(unsafe { &*(base as *const Crumb).add(slot) })
}

fn map_crumbs(path: &Path) {
    use std::os::fd::AsRawFd;
    let Ok(file) = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(false)
        .open(path)
    else {
        return;
    };
    let len = SLOTS * std::mem::size_of::<Crumb>();
    if file.set_len(len as u64).is_err() {
        return;
    }
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            file.as_raw_fd(),
            0,
        );
        if p != libc::MAP_FAILED {
            CRUMBS.store(p as usize, Ordering::SeqCst);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone)]
struct Violation {
    family: usize,
    family_name: String,
    index: u64,
    descr: String,
    failure: Failure,
    stable: bool,
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    fps: IdSet,
    states: u64,
    transitions: u64,
    traces: u64,
    skipped: u64,
    samples: Vec<(u64, String)>,
    labels: BTreeMap<String, u64>,
}

/// Handle given to a family.
pub struct Fam<'a> {
    name: &'a str,
    id: usize,
    tier: Tier,
    shard: u64,
    nshards: u64,
    only: Option<u64>,
    next: u64,
    stats: Stats,
    shared: &'a Shared,
    began: Instant,
}

struct Shared {
    violations: Mutex<Vec<Violation>>,
    nviol: AtomicUsize,
    known: Vec<Known>,
    known_hit: Mutex<BTreeMap<usize, (u64, String)>>,
    stop: AtomicBool,
    start: Instant,
}

struct Known {
    key: String,
    text: String,
}

impl<'a> Fam<'a> {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    /// Pick a bound by tier.
    pub fn bound(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }

    pub fn stopped(&self) -> bool {
        self.shared.stop.load(Ordering::Relaxed)
    }

    /// Is the next case ours? Use to avoid building expensive cases.
    #[inline]
    pub fn peek_mine(&self) -> bool {
        match self.only {
            Some(i) => i == self.next,
            None => self.next % self.nshards == self.shard,
        }
    }

    /// Skip `n` cases (which must be known not to be ours).
    #[inline]
    pub fn advance(&mut self, n: u64) {
        self.next += n;
    }

    /// Count a state, a transition or a model trace for state-space families.
    pub fn count_states(&mut self, n: u64) {
        if self.only.is_none() {
            self.stats.states += n;
        }
    }
    pub fn count_transitions(&mut self, n: u64) {
        if self.only.is_none() {
            self.stats.transitions += n;
        }
    }
    pub fn count_traces(&mut self, n: u64) {
        if self.only.is_none() {
            self.stats.traces += n;
        }
    }
    pub fn label(&mut self, l: &str, n: u64) {
        *self.stats.labels.entry(l.to_string()).or_default() += n;
    }

    /// One case, executed on the real code.
    #[inline]
    pub fn case<D, R>(&mut self, descr: D, run: R)
    where
        D: Fn() -> String,
        R: FnMut() -> CaseResult,
    {
        let index = self.next;
        self.next += 1;
        match self.only {
            Some(i) => {
                if i != index {
                    return;
                }
            }
            None => {
                if index % self.nshards != self.shard || self.stopped() {
                    return;
                }
            }
        }
        self.run_case(index, descr, run);
    }

    fn run_case<D, R>(&mut self, index: u64, descr: D, mut run: R)
    where
        D: Fn() -> String,
        R: FnMut() -> CaseResult,
    {
        let slot = SLOT.with(|s| s.get());
        if let Some(c) = crumb(slot) {
            c.index.store(index, Ordering::Relaxed);
            c.began.store(
                self.shared.start.elapsed().as_millis() as u64,
                Ordering::Relaxed,
            );
            c.family.store(self.id as u64 + 1, Ordering::Release);
        }
        let r = guarded(&mut run);
        self.stats.evaluations += 1;
        if self.only.is_some() {
            println!("replay: family={} index={index}", self.name);
            println!("replay: case {}", descr());
        }
        match r {
            Ok(f) => {
                if f != 0 {
                    self.stats.fps.insert(f);
                }
                let n = self.stats.evaluations;
                if n <= 2 || n.is_power_of_two() && self.stats.samples.len() < 24 {
                    let d = clip(&descr(), 300);
                    self.stats.samples.push((index, d));
                }
                if self.only.is_some() {
                    println!("replay: PASS");
                }
            }
            Err(failure) => {
                // Replay at once: the same case must fail the same way.
                let again = guarded(&mut run);
                let stable = matches!(&again, Err(f) if f.msg == failure.msg);
                let d = descr();
                if self.only.is_some() {
                    println!("replay: FAIL {}", failure.msg);
                }
                self.violation(index, d, failure, stable);
            }
        }
        if let Some(c) = crumb(slot) {
            c.family.store(0, Ordering::Release);
        }
    }

    fn violation(&mut self, index: u64, descr: String, failure: Failure, stable: bool) {
        let key = match &failure.class {
            Some(c) => format!("class:{c}"),
            None => format!("case:{}:{}", self.name, descr),
        };
        if let Some(i) = self.shared.known.iter().position(|k| k.key == key) {
            let mut h = self.shared.known_hit.lock().unwrap();
            let e = h
                .entry(i)
                .or_insert_with(|| (0, format!("{descr}: {}", failure.msg)));
            e.0 += 1;
            return;
        }
        let n = self.shared.nviol.fetch_add(1, Ordering::SeqCst);
        // KIT_ALL is for triage: go on however many there are.
        if n < if std::env::var_os("KIT_ALL").is_some() { 200_000 } else { 200 } {
            self.shared.violations.lock().unwrap().push(Violation {
                family: self.id,
                family_name: self.name.to_string(),
                index,
                descr,
                failure,
                stable,
            });
        } else {
            self.shared.stop.store(true, Ordering::SeqCst);
        }
    }

    /// Long-running (state-space) cases call this to show progress to the
    /// watchdog.
    pub fn tick(&self) {
        tick(self.shared.start);
    }

    pub fn elapsed(&self) -> Duration {
        self.began.elapsed()
    }
}

fn tick(start: Instant) {
    let slot = SLOT.with(|s| s.get());
    if let Some(c) = crumb(slot) {
        c.began
            .store(start.elapsed().as_millis() as u64, Ordering::Relaxed);
    }
}

static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();

/// Show progress to the watchdog from anywhere inside a case.
pub fn progress() {
    if let Some(s) = START.get() {
        tick(*s);
    }
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}… ({} bytes)", &s[..e], s.len())
}

/// Run code under test, turning a panic into a failure.
pub fn guarded<T>(run: &mut dyn FnMut() -> Result<T, Failure>) -> Result<T, Failure> {
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(run)) {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| "unknown panic".to_string());
            Err(Failure::from(format!("panicked: {m}")))
        }
    }
}

/// Run a piece of code under test and report its panic message, if any.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "unknown panic".to_string())),
    }
}

#[derive(Clone, Copy)]
pub enum Level {
    Exploration,
    FaultEnumeration,
    ModelChecking,
}

type FamFn = Box<dyn Fn(&mut Fam<'_>) + Send + Sync>;

struct FamilyDef {
    name: String,
    shards: u64,
    run: FamFn,
}

pub struct Check {
    id: &'static str,
    level: Level,
    rule: &'static str,
    assumptions: Vec<String>,
    families: Vec<FamilyDef>,
    tier: Tier,
}

impl Check {
    pub fn new(id: &'static str, level: Level, rule: &'static str) -> Self {
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        Check {
            id,
            level,
            rule,
            assumptions: Vec::new(),
            families: Vec::new(),
            tier,
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }

    /// A family run on one thread.
    pub fn fam<F>(&mut self, name: impl Into<String>, run: F)
    where
        F: Fn(&mut Fam<'_>) + Send + Sync + 'static,
    {
        self.fam_sharded(name, 1, run)
    }

    /// A family whose cases are spread over `shards` workers by index.
    pub fn fam_sharded<F>(&mut self, name: impl Into<String>, shards: u64, run: F)
    where
        F: Fn(&mut Fam<'_>) + Send + Sync + 'static,
    {
        let name = name.into();
        assert!(
            !self.families.iter().any(|f| f.name == name),
            "duplicate family {name}"
        );
        self.families.push(FamilyDef {
            name,
            shards,
            run: Box::new(run),
        });
    }

    pub fn run(self) -> ! {
        let code = if std::env::var_os("KIT_REPLAY").is_some() {
            self.replay()
        } else if std::env::var_os("KIT_CHILD").is_some() {
            self.child()
        } else {
            self.parent()
        };
        std::process::exit(code)
    }

    fn verif() -> PathBuf {
        PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string()))
    }

    fn replay_path(&self, family: &str, index: u64) -> PathBuf {
        let dir = Self::verif().join("replay").join(self.id);
        let _ = std::fs::create_dir_all(&dir);
        let safe: String = family
            .chars()
            .map(|c| if c.is_ascii_alphanumeric() { c } else { '_' })
            .collect();
        dir.join(format!("{safe}-{index}.txt"))
    }

    fn write_replay(&self, family: &str, index: u64, descr: &str, msg: &str) -> PathBuf {
        let p = self.replay_path(family, index);
        let tier = match self.tier {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        };
        let text = format!(
            "property: {}\nfamily: {family}\nindex: {index}\ntier: {tier}\ncase: {descr}\nfailure: {msg}\nreplay with: /verif/run.sh {} replay '{family}:{index}' {tier}\n",
            self.id, self.id
        );
        let _ = std::fs::write(&p, text);
        p
    }

    fn known(&self) -> Vec<Known> {
        let Ok(s) = std::fs::read_to_string(Self::verif().join("known_findings.txt")) else {
            return Vec::new();
        };
        let mut out = Vec::new();
        for l in s.lines() {
            // known: property=P05 key=<key> :: <text>
            let Some(rest) = l.strip_prefix(&format!("known: property={} key=", self.id)) else {
                continue;
            };
            let (key, text) = rest.split_once(" :: ").unwrap_or((rest, rest));
            out.push(Known {
                key: key.to_string(),
                text: text.to_string(),
            });
        }
        out
    }

    fn parent(self) -> i32 {
        let me = std::env::current_exe().expect("current_exe");
        let crumbs = std::env::temp_dir().join(format!("kit-{}-{}", self.id, std::process::id()));
        let _ = std::fs::remove_file(&crumbs);
        let start = Instant::now();
        let status = std::process::Command::new(&me)
            .env("KIT_CHILD", "1")
            .env("KIT_CRUMBS", &crumbs)
            .status();
        let code = match status.as_ref().ok().and_then(|s| s.code()) {
            Some(c @ (0 | 1)) => c,
            other => {
                println!("child ended abnormally: {status:?} {other:?}");
                self.post_mortem(&me, &crumbs, start)
            }
        };
        let _ = std::fs::remove_file(&crumbs);
        code
    }

    /// The child died: find which of the cases in flight killed it.
    fn post_mortem(&self, me: &Path, crumbs: &Path, start: Instant) -> i32 {
        let Ok(bytes) = std::fs::read(crumbs) else {
            return 2;
        };
        let mut found = 0u64;
        for c in bytes.chunks_exact(24) {
            let family = u64::from_ne_bytes(c[..8].try_into().unwrap());
            let index = u64::from_ne_bytes(c[8..16].try_into().unwrap());
            if family == 0 {
                continue;
            }
            let Some(f) = self.families.get(family as usize - 1) else {
                continue;
            };
            let r = run_timeout(
                std::process::Command::new(me).env("KIT_REPLAY", format!("{}:{index}", f.name)),
                Duration::from_secs(120),
            );
            let (bad, what) = match r {
                None => (true, "did not terminate within 120 s".to_string()),
                Some(s) => match s.code() {
                    Some(0) => (false, String::new()),
                    Some(1) => (true, "failed on replay".to_string()),
                    _ => (true, format!("killed the process: {s}")),
                },
            };
            if bad {
                let p = self.write_replay(&f.name, index, "(see replay)", &what);
                println!("case {}:{index} {what}", f.name);
                println!("VIOLATION property={} replay={}", self.id, p.display());
                found += 1;
            }
        }
        let shared_stats = Stats {
            evaluations: 1,
            ..Stats::default()
        };
        self.evidence(&shared_stats, found as usize, start.elapsed(), false);
        if found > 0 {
            1
        } else {
            println!("no case reproduces the crash on replay");
            2
        }
    }

    fn replay(self) -> i32 {
        let spec = std::env::var("KIT_REPLAY").unwrap();
        let Some((name, index)) = spec.rsplit_once(':') else {
            println!("KIT_REPLAY=<family>:<index>");
            return 2;
        };
        let Ok(index) = index.parse::<u64>() else {
            return 2;
        };
        let Some(id) = self.families.iter().position(|f| f.name == name) else {
            println!("no such family {name}");
            for f in &self.families {
                println!("  {}", f.name);
            }
            return 2;
        };
        hook();
        let shared = Shared {
            violations: Mutex::new(Vec::new()),
            nviol: AtomicUsize::new(0),
            known: Vec::new(),
            known_hit: Mutex::new(BTreeMap::new()),
            stop: AtomicBool::new(false),
            start: Instant::now(),
        };
        let tier = self.tier;
        let f = &self.families[id];
        let shared_ref = &shared;
        std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    let mut fam = Fam {
                        name: &f.name,
                        id,
                        tier,
                        shard: 0,
                        nshards: 1,
                        only: Some(index),
                        next: 0,
                        stats: Stats::default(),
                        shared: shared_ref,
                        began: Instant::now(),
                    };
                    (f.run)(&mut fam);
                })
                .unwrap();
        });
        let n = shared.nviol.load(Ordering::SeqCst);
        if n > 0 {
            1
        } else {
            0
        }
    }

    fn child(self) -> i32 {
        if let Some(p) = std::env::var_os("KIT_CRUMBS") {
            map_crumbs(Path::new(&p));
        }
        hook();
        let start = *START.get_or_init(Instant::now);
        let shared = Shared {
            violations: Mutex::new(Vec::new()),
            nviol: AtomicUsize::new(0),
            known: self.known(),
            known_hit: Mutex::new(BTreeMap::new()),
            stop: AtomicBool::new(false),
            start,
        };
        let filter = std::env::var("KIT_FAMILY").ok();
        let mut jobs = Vec::new();
        for (id, f) in self.families.iter().enumerate() {
            if let Some(flt) = &filter {
                if !f.name.contains(flt.as_str()) {
                    continue;
                }
            }
            for shard in 0..f.shards {
                jobs.push((id, shard));
            }
        }
        let next = AtomicUsize::new(0);
        let total = Mutex::new(Stats::default());
        let per_family: Mutex<BTreeMap<usize, (u64, usize, f64)>> = Mutex::new(BTreeMap::new());
        let workers = std::env::var("KIT_THREADS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| {
                std::thread::available_parallelism()
                    .map(|n| n.get())
                    .unwrap_or(4)
            })
            .clamp(1, SLOTS);
        let done = AtomicBool::new(false);
        std::thread::scope(|s| {
            let mut hs = Vec::new();
            for w in 0..workers {
                let (jobs, next, total, per_family, this, shared) =
                    (&jobs, &next, &total, &per_family, &self, &shared);
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(256 << 20)
                        .spawn_scoped(s, move || {
                            SLOT.with(|s| s.set(w));
                            loop {
                                let j = next.fetch_add(1, Ordering::SeqCst);
                                let Some(&(id, shard)) = jobs.get(j) else {
                                    break;
                                };
                                let f = &this.families[id];
                                let mut fam = Fam {
                                    name: &f.name,
                                    id,
                                    tier: this.tier,
                                    shard,
                                    nshards: f.shards,
                                    only: None,
                                    next: 0,
                                    stats: Stats::default(),
                                    shared,
                                    began: Instant::now(),
                                };
                                // A panic outside of a case is a bug of the
                                // harness: let it kill the child.
                                (f.run)(&mut fam);
                                let secs = fam.began.elapsed().as_secs_f64();
                                let st = fam.stats;
                                {
                                    let mut p = per_family.lock().unwrap();
                                    let e = p.entry(id).or_insert((0, 0, 0.0));
                                    e.0 += st.evaluations;
                                    e.1 += st.fps.len();
                                    e.2 += secs;
                                }
                                let mut t = total.lock().unwrap();
                                t.evaluations += st.evaluations;
                                t.states += st.states;
                                t.transitions += st.transitions;
                                t.traces += st.traces;
                                t.skipped += st.skipped;
                                if t.fps.is_empty() {
                                    t.fps = st.fps;
                                } else {
                                    t.fps.extend(st.fps);
                                }
                                for (k, v) in st.labels {
                                    *t.labels.entry(k).or_default() += v;
                                }
                                if shard == 0 {
                                    let keep = st.samples.len().min(6);
                                    for (i, d) in st.samples.into_iter().rev().take(keep) {
                                        t.samples.push((i, format!("{}#{i}: {d}", f.name)));
                                    }
                                }
                            }
                            if let Some(c) = crumb(w) {
                                c.family.store(0, Ordering::Release);
                            }
                        })
                        .unwrap(),
                );
            }
            // Watchdog.
            let done = &done;
            let this = &self;
            let sh = &shared;
            s.spawn(move || {
                while !done.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(20));
                    let now = start.elapsed().as_millis() as u64;
                    for w in 0..workers {
                        let Some(c) = crumb(w) else { continue };
                        let fam = c.family.load(Ordering::Acquire);
                        if fam == 0 {
                            continue;
                        }
                        let began = c.began.load(Ordering::Relaxed);
                        if now.saturating_sub(began) > 60_000 {
                            let index = c.index.load(Ordering::Relaxed);
                            let name = &this.families[fam as usize - 1].name;
                            let p = this.write_replay(
                                name,
                                index,
                                "(see replay)",
                                "did not terminate within 60 s",
                            );
                            println!("case {name}:{index} did not terminate within 60 s");
                            println!("VIOLATION property={} replay={}", this.id, p.display());
                            let st = Stats {
                                evaluations: 1,
                                ..Stats::default()
                            };
                            this.evidence(
                                &st,
                                1 + sh.nviol.load(Ordering::SeqCst),
                                start.elapsed(),
                                false,
                            );
                            std::process::exit(1);
                        }
                    }
                }
            });
            let mut bad = false;
            for h in hs {
                bad |= h.join().is_err();
            }
            done.store(true, Ordering::SeqCst);
            if bad {
                PANIC_OUTSIDE.store(true, Ordering::SeqCst);
            }
        });
        if PANIC_OUTSIDE.load(Ordering::SeqCst) {
            println!("harness error: panic outside of a case");
            return 3;
        }
        let total = total.into_inner().unwrap();
        let wall = start.elapsed();
        for (id, (e, d, secs)) in per_family.into_inner().unwrap() {
            println!(
                "family {:<44} evaluations={e:<9} distinct={d:<9} cpu={secs:.2}s",
                self.families[id].name
            );
        }
        for (k, v) in &total.labels {
            println!("  {k}: {v}");
        }
        let stopped = shared.stop.load(Ordering::SeqCst);
        let hits = shared.known_hit.into_inner().unwrap();
        for (i, (n, what)) in &hits {
            println!(
                "KNOWN-FINDING: property={} {} [{n} cases, first: {}]",
                self.id,
                shared.known[*i].text,
                clip(&what.replace('\n', " "), 200)
            );
        }
        let mut v = shared.violations.into_inner().unwrap();
        v.sort_by(|a, b| (a.family, a.index).cmp(&(b.family, b.index)));
        let nviol = shared.nviol.load(Ordering::SeqCst);
        let mut per: BTreeMap<usize, usize> = BTreeMap::new();
        for x in &v {
            let n = per.entry(x.family).or_default();
            *n += 1;
            if *n > 3 {
                continue;
            }
            let stable = if x.stable {
                ""
            } else {
                " (differs when replayed in-process)"
            };
            println!(
                "violation {}#{}{stable}: {}\n    {}",
                x.family_name,
                x.index,
                clip(&x.descr, 600),
                clip(&x.failure.msg, 1200)
            );
            let p = self.write_replay(&x.family_name, x.index, &x.descr, &x.failure.msg);
            println!("VIOLATION property={} replay={}", self.id, p.display());
        }
        println!(
            "{} {:?}: evaluations={} distinct={} states={} transitions={} traces={} violations={} wall={:.1}s",
            self.id,
            self.tier,
            total.evaluations,
            total.fps.len(),
            total.states,
            total.transitions,
            total.traces,
            nviol,
            wall.as_secs_f64()
        );
        self.evidence(&total, nviol, wall, !stopped && filter.is_none());
        if nviol > 0 {
            1
        } else {
            0
        }
    }

    fn evidence(&self, t: &Stats, violations: usize, wall: Duration, exhaustive: bool) {
        let mut o = String::new();
        let tier = match self.tier {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        };
        let level = match self.level {
            Level::Exploration => "exploration",
            Level::FaultEnumeration => "fault_enumeration",
            Level::ModelChecking => "model_checking",
        };
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse::<i64>().ok())
            .unwrap_or(1);
        let _ = write!(
            o,
            "{{\n  \"property\": {},\n  \"tier\": \"{tier}\",\n  \"seed\": {seed},\n  \"level\": \"{level}\",\n  \"coverage\": {{\n",
            js(self.id)
        );
        let mut f: Vec<String> = Vec::new();
        f.push(format!("\"evaluations\": {}", t.evaluations));
        f.push(format!("\"distinct_nontrivial\": {}", t.fps.len()));
        f.push(format!("\"rule\": {}", js(self.rule)));
        if t.states > 0 || matches!(self.level, Level::ModelChecking) {
            f.push(format!("\"states\": {}", t.states));
            f.push(format!("\"transitions\": {}", t.transitions));
            f.push(format!("\"traces_validated_against_impl\": {}", t.traces));
        }
        for (k, v) in &t.labels {
            f.push(format!("{}: {v}", js(&format!("n_{k}"))));
        }
        f.push(format!("\"families\": {}", self.families.len()));
        let mut s = String::from("[");
        let step = (t.samples.len() / 40).max(1);
        for (n, (_, d)) in t.samples.iter().step_by(step).take(40).enumerate() {
            if n > 0 {
                s.push_str(", ");
            }
            s.push_str(&js(d));
        }
        if t.samples.is_empty() {
            s.push_str("\"(the run ended before a sample was recorded)\"");
        }
        s.push(']');
        f.push(format!("\"samples\": {s}"));
        f.push(format!("\"exhaustive\": {exhaustive}"));
        let _ = write!(o, "    {}\n  }},\n", f.join(",\n    "));
        let a: Vec<String> = self.assumptions.iter().map(|a| js(a)).collect();
        let _ = write!(
            o,
            "  \"assumptions\": [{}],\n  \"wall_s\": {:.3},\n  \"violations\": {violations}\n}}\n",
            a.join(", "),
            wall.as_secs_f64()
        );
        let dir = Self::verif().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let _ = std::fs::write(dir.join(format!("{}.json", self.id)), o);
    }
}

static PANIC_OUTSIDE: AtomicBool = AtomicBool::new(false);

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hook() {
    let verbose = std::env::var_os("KIT_VERBOSE").is_some();
    std::panic::set_hook(Box::new(move |info| {
        let slot_idle = SLOT.with(|s| s.get()) != usize::MAX
            && crumb(SLOT.with(|s| s.get()))
                .map(|c| c.family.load(Ordering::Relaxed) == 0)
                .unwrap_or(false);
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if slot_idle || verbose {
            eprintln!("panic: {msg}{loc}");
        }
        if verbose {
            eprintln!("{}", std::backtrace::Backtrace::force_capture());
        }
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg}{loc}")));
    }));
}

fn run_timeout(
    cmd: &mut std::process::Command,
    limit: Duration,
) -> Option<std::process::ExitStatus> {
    let mut c = cmd
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn()
        .ok()?;
    let start = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(s)) => return Some(s),
            Ok(None) => {
                if start.elapsed() > limit {
                    let _ = c.kill();
                    let _ = c.wait();
                    return None;
                }
                std::thread::sleep(Duration::from_millis(10));
            }
            Err(_) => return None,
        }
    }
}

/// Hex rendering for descriptions.
pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}
