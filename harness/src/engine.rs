//! The exploration engine.
//!
//! * [`Run::explore`]: exhaustive depth-first enumeration of a choice tree
//!   (every sequence of answers to [`Chooser::choose`]), in parallel.
//! * [`Run::bfs`]: explicit-state breadth-first search; a state is rebuilt by
//!   replaying its history on a new real object, states are merged on an exact
//!   key.
//! * [`Run::range`]: dense sweep over a numeric range.
//!
//! Every execution runs the real code and compares it with a reference. A
//! panic is caught, a case that does not end is noticed by a watchdog, and a
//! dying process is noticed by the parent process; all are violations.
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const MAX_WORKERS: usize = 64;
const SLOT_WORDS: usize = 8192;
const SLOT_NAME_WORDS: usize = 32;
const HANG_SECS: u64 = 40;

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

static SLOTS: AtomicPtr<u32> = AtomicPtr::new(std::ptr::null_mut());

thread_local! {
    static PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub type Check = Result<(), String>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

/// Calls the code under test; a panic becomes an error text.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        let at = PANIC.with(|m| m.borrow_mut().take());
        at.unwrap_or_else(|| {
            p.downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into())
        })
    })
}

pub fn hash<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::{BuildHasher, BuildHasherDefault};
    BuildHasherDefault::<std::collections::hash_map::DefaultHasher>::default().hash_one(t)
}

struct Slot {
    p: *mut u32,
}

impl Slot {
    fn of(worker: usize) -> Slot {
        let base = SLOTS.load(Relaxed);
        Slot {
            p: unsafe { base.add(worker * SLOT_WORDS) },
        }
    }
    fn begin(&self, name: &str) {
        let mut b = [0u8; SLOT_NAME_WORDS * 4];
        let n = name.len().min(b.len());
        b[..n].copy_from_slice(&name.as_bytes()[..n]);
        unsafe {
            self.p.write_volatile(0);
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.p.add(1) as *mut u8, b.len());
        }
    }
    #[inline]
    fn set_len(&self, n: usize) {
        unsafe { self.p.write_volatile(n as u32) }
    }
    #[inline]
    fn put(&self, i: usize, v: u32) {
        if i < SLOT_WORDS - SLOT_NAME_WORDS - 1 {
            unsafe {
                self.p.add(1 + SLOT_NAME_WORDS + i).write_volatile(v);
                self.p.write_volatile(i as u32 + 1);
            }
        }
    }
    fn read(&self) -> (String, Vec<u32>) {
        unsafe {
            let n = self.p.read_volatile() as usize;
            let mut b = [0u8; SLOT_NAME_WORDS * 4];
            std::ptr::copy_nonoverlapping(self.p.add(1) as *const u8, b.as_mut_ptr(), b.len());
            let e = b.iter().position(|x| *x == 0).unwrap_or(b.len());
            let name = String::from_utf8_lossy(&b[..e]).into_owned();
            let v = (0..n.min(SLOT_WORDS - SLOT_NAME_WORDS - 1))
                .map(|i| self.p.add(1 + SLOT_NAME_WORDS + i).read_volatile())
                .collect();
            (name, v)
        }
    }
}

pub struct Chooser<'a> {
    run: &'a Run,
    prefix: &'a [u32],
    trail: Vec<(u32, u32)>,
    slot: Slot,
    pub verbose: bool,
    notes: Vec<String>,
    steps: u64,
}

impl<'a> Chooser<'a> {
    fn new(run: &'a Run, worker: usize, prefix: &'a [u32], verbose: bool) -> Self {
        let slot = Slot::of(worker);
        slot.set_len(0);
        Chooser {
            run,
            prefix,
            trail: Vec::new(),
            slot,
            verbose,
            notes: vec![],
            steps: 0,
        }
    }
    /// All values below `n` are explored.
    #[inline]
    pub fn choose(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        let i = self.trail.len();
        let c = match self.prefix.get(i) {
            Some(c) => (*c).min(n as u32 - 1),
            None => 0,
        };
        self.trail.push((c, n as u32));
        self.slot.put(i, c);
        c as usize
    }
    #[inline]
    pub fn pick<'t, T>(&mut self, xs: &'t [T]) -> &'t T {
        &xs[self.choose(xs.len())]
    }
    #[inline]
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    /// A line of the trace, made only when a trace is wanted.
    #[inline]
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.notes.push(s)
        }
    }
    /// `n` steps of the implementation were executed and compared.
    #[inline]
    pub fn step(&mut self, n: u64) {
        self.steps += n
    }
    /// A distinct observed state.
    #[inline]
    pub fn state(&mut self, h: u64) {
        self.run.see(h)
    }
    /// The observed deviation is exactly the one described by the finding
    /// `key`; it is a violation unless the finding is recorded.
    pub fn known(&mut self, key: &str, detail: impl FnOnce() -> String) -> Check {
        self.run.known(key, detail)
    }
}

pub trait System {
    /// Number of operations that can be applied in this state.
    fn ops(&self) -> usize;
    /// Applies the operation to the real object and to the model and compares.
    fn apply(&mut self, op: usize, c: &mut Chooser) -> Check;
    /// Exact key of the state.
    fn key(&self) -> Vec<u8>;
}

struct Violation {
    scenario: String,
    choices: Vec<u32>,
    message: String,
}

#[derive(Clone, Default)]
struct ScenarioStats {
    kind: &'static str,
    cases: u64,
    steps: u64,
    states: u64,
    wall_ms: u64,
}

struct KnownHit {
    count: u64,
    detail: String,
}

pub struct Run {
    pub prop: &'static str,
    tier: String,
    seed: u64,
    verif: PathBuf,
    threads: usize,
    start: Instant,
    single: Option<(String, Vec<u32>)>,
    single_hit: AtomicBool,
    stop: AtomicBool,
    violation: Mutex<Option<Violation>>,
    seen: Vec<Mutex<HashSet<u64>>>,
    seen_overflow: AtomicU64,
    listed: BTreeMap<String, String>,
    hits: Mutex<BTreeMap<String, KnownHit>>,
    stats: Mutex<Vec<(String, ScenarioStats)>>,
    samples: Mutex<Vec<String>>,
    beats: Vec<AtomicU64>,
    busy: Vec<AtomicBool>,
    only: Option<String>,
}

static RUN: AtomicPtr<Run> = AtomicPtr::new(std::ptr::null_mut());
const SEEN_CAP: usize = 1 << 17; // per shard

impl Run {
    pub fn new(prop: &'static str) -> &'static Run {
        let args: Vec<String> = std::env::args().collect();
        let arg = |n: &str| {
            args.iter()
                .position(|a| a == n)
                .and_then(|i| args.get(i + 1).cloned())
        };
        let tier = arg("--tier")
            .or_else(|| std::env::var("VERIF_TIER").ok())
            .unwrap_or_else(|| "quick".into());
        let tier = if tier == "thorough" { tier } else { "quick".into() };
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
        let replay = arg("--replay");

        let slots_file = match std::env::var("VERIF_SLOTS") {
            Ok(f) => f,
            Err(_) => supervise(prop, &verif, &tier, seed),
        };
        map_slots(&slots_file);

        let single = match (replay, arg("--single")) {
            (Some(path), _) => Some(read_replay(&path)),
            (_, Some(s)) => Some(parse_single(&s)),
            _ => None,
        };

        std::panic::set_hook(Box::new(|info| {
            let m = info.to_string();
            PANIC.with(|p| *p.borrow_mut() = Some(m));
        }));

        let threads = std::env::var("VERIF_THREADS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| std::thread::available_parallelism().map_or(8, |n| n.get()))
            .clamp(1, MAX_WORKERS - 1);

        let run = Box::leak(Box::new(Run {
            prop,
            tier,
            seed,
            threads,
            start: Instant::now(),
            single,
            single_hit: AtomicBool::new(false),
            stop: AtomicBool::new(false),
            violation: Mutex::new(None),
            seen: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
            seen_overflow: AtomicU64::new(0),
            listed: read_known(&verif, prop),
            verif,
            hits: Mutex::new(BTreeMap::new()),
            stats: Mutex::new(vec![]),
            samples: Mutex::new(vec![]),
            beats: (0..MAX_WORKERS).map(|_| AtomicU64::new(0)).collect(),
            busy: (0..MAX_WORKERS).map(|_| AtomicBool::new(false)).collect(),
            only: arg("--only"),
        }));
        RUN.store(run, SeqCst);
        let r: &'static Run = run;
        std::thread::spawn(move || r.watchdog());
        r
    }

    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// `q` in the quick tier, `t` in the thorough one.
    pub fn by_tier<T>(&self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }

    fn watchdog(&self) {
        let mut last: Vec<(u64, Instant)> = vec![(u64::MAX, Instant::now()); MAX_WORKERS];
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for w in 0..MAX_WORKERS {
                let beat = self.beats[w].load(Relaxed);
                if !self.busy[w].load(Relaxed) || last[w].0 != beat {
                    last[w] = (beat, Instant::now());
                } else if last[w].1.elapsed() > Duration::from_secs(HANG_SECS) {
                    let (scenario, choices) = Slot::of(w).read();
                    *self.violation.lock().unwrap() = Some(Violation {
                        scenario,
                        choices,
                        message: format!("did not end within {HANG_SECS} s"),
                    });
                    self.report_violation();
                }
            }
        }
    }

    fn see(&self, h: u64) {
        let mut s = self.seen[(h >> 58) as usize].lock().unwrap();
        if s.len() < SEEN_CAP {
            s.insert(h);
        } else if !s.contains(&h) {
            self.seen_overflow.fetch_add(1, Relaxed);
        }
    }
    fn seen_count(&self) -> u64 {
        self.seen.iter().map(|s| s.lock().unwrap().len() as u64).sum()
    }

    pub fn is_listed(&self, key: &str) -> bool {
        self.listed.contains_key(key)
    }

    pub fn known(&self, key: &str, detail: impl FnOnce() -> String) -> Check {
        if !self.listed.contains_key(key) {
            return Err(format!("{} (deviation {key})", detail()));
        }
        let mut h = self.hits.lock().unwrap();
        match h.get_mut(key) {
            Some(k) => k.count += 1,
            None => {
                h.insert(
                    key.to_string(),
                    KnownHit {
                        count: 1,
                        detail: detail(),
                    },
                );
            }
        }
        Ok(())
    }

    fn skip(&self, name: &str) -> bool {
        if let Some((n, _)) = &self.single {
            return n != name;
        }
        if let Some(o) = &self.only {
            return !name.contains(o.as_str());
        }
        false
    }

    fn found(&self, scenario: &str, choices: Vec<u32>, mut message: String) {
        if message.len() > 3000 {
            let mut e = 3000;
            while !message.is_char_boundary(e) {
                e -= 1
            }
            message.truncate(e);
            message.push('…');
        }
        let mut v = self.violation.lock().unwrap();
        if v.is_none() {
            *v = Some(Violation {
                scenario: scenario.to_string(),
                choices,
                message,
            });
        }
        self.stop.store(true, SeqCst);
    }

    fn one<F: Fn(&mut Chooser) -> Check>(
        &self,
        worker: usize,
        body: &F,
        prefix: &[u32],
        verbose: bool,
    ) -> (Check, Vec<(u32, u32)>, Vec<String>, u64) {
        let mut c = Chooser::new(self, worker, prefix, verbose);
        let r = catch_unwind(AssertUnwindSafe(|| body(&mut c)));
        let r = match r {
            Ok(r) => r,
            Err(_) => Err(format!(
                "panic: {}",
                PANIC
                    .with(|m| m.borrow_mut().take())
                    .unwrap_or_else(|| "?".into())
            )),
        };
        self.beats[worker].fetch_add(1, Relaxed);
        (r, c.trail, c.notes, c.steps)
    }

    fn run_single<F: Fn(&mut Chooser) -> Check>(&self, name: &str, body: &F) {
        let choices = &self.single.as_ref().unwrap().1;
        self.single_hit.store(true, SeqCst);
        self.busy[0].store(true, SeqCst);
        Slot::of(0).begin(name);
        let (r, trail, notes, _) = self.one(0, body, choices, true);
        self.busy[0].store(false, SeqCst);
        for n in notes {
            println!("  {n}");
        }
        if let Err(m) = r {
            println!("{m}");
            self.found(name, trail.iter().map(|t| t.0).collect(), m);
            self.report_violation();
        }
        println!("replay of {name}: no violation");
    }

    fn sample<F: Fn(&mut Chooser) -> Check>(&self, name: &str, body: &F, choices: &[u32]) {
        let (_, _, notes, _) = self.one(0, body, choices, true);
        let mut s = format!("{name} {choices:?}: {}", notes.join(" | "));
        if s.len() > 700 {
            let mut e = 700;
            while !s.is_char_boundary(e) {
                e -= 1
            }
            s.truncate(e);
            s.push('…');
        }
        self.samples.lock().unwrap().push(s);
    }

    /// Enumerates every execution of `body`.
    pub fn explore<F: Fn(&mut Chooser) -> Check + Sync>(&self, name: &str, body: F) {
        if self.skip(name) {
            return;
        }
        if self.single.is_some() {
            return self.run_single(name, &body);
        }
        let t0 = Instant::now();
        let seen0 = self.seen_count();
        Slot::of(0).begin(name);
        // expand the root into enough jobs
        let mut jobs: Vec<Vec<u32>> = vec![vec![]];
        let mut leaves: Vec<Vec<u32>> = vec![];
        self.busy[0].store(true, SeqCst);
        'expand: while !jobs.is_empty() && jobs.len() + leaves.len() < 512 {
            let mut next = vec![];
            let before = jobs.len();
            for p in &jobs {
                let (r, trail, _, _) = self.one(0, &body, p, false);
                if let Err(m) = r {
                    self.found(name, trail.iter().map(|t| t.0).collect(), m);
                    break 'expand;
                }
                if trail.len() <= p.len() {
                    leaves.push(p.clone());
                } else {
                    for i in 0..trail[p.len()].1 {
                        let mut q = p.clone();
                        q.push(i);
                        next.push(q);
                    }
                }
            }
            let _ = before;
            jobs = next;
        }
        self.busy[0].store(false, SeqCst);
        if self.violation.lock().unwrap().is_some() {
            self.report_violation();
        }
        jobs.extend(leaves);
        let cases = AtomicU64::new(0);
        let steps = AtomicU64::new(0);
        let at = AtomicUsize::new(0);
        let last: Mutex<Vec<u32>> = Mutex::new(vec![]);
        let mid: Mutex<Vec<u32>> = Mutex::new(vec![]);
        let mid_job = (self.seed as usize).wrapping_mul(0x9E3779B97F4A7C15u64 as usize) % jobs.len().max(1);
        std::thread::scope(|s| {
            for w in 0..self.threads {
                let (jobs, body, cases, steps, at, last, mid) =
                    (&jobs, &body, &cases, &steps, &at, &last, &mid);
                s.spawn(move || {
                    Slot::of(w).begin(name);
                    self.busy[w].store(true, SeqCst);
                    let (mut nc, mut ns) = (0u64, 0u64);
                    loop {
                        let j = at.fetch_add(1, SeqCst);
                        if j >= jobs.len() || self.stop.load(Relaxed) {
                            break;
                        }
                        let depth = jobs[j].len();
                        let mut p = jobs[j].clone();
                        loop {
                            let (r, trail, _, st) = self.one(w, body, &p, false);
                            nc += 1;
                            ns += st;
                            if let Err(m) = r {
                                self.found(name, trail.iter().map(|t| t.0).collect(), m);
                                break;
                            }
                            if self.stop.load(Relaxed) {
                                break;
                            }
                            // next leaf in depth-first order
                            p.clear();
                            p.extend(trail.iter().map(|t| t.0));
                            let mut i = trail.len();
                            let mut done = true;
                            while i > depth {
                                i -= 1;
                                if trail[i].0 + 1 < trail[i].1 {
                                    p.truncate(i + 1);
                                    p[i] += 1;
                                    done = false;
                                    break;
                                }
                            }
                            if done {
                                if j + 1 == jobs.len() {
                                    *last.lock().unwrap() = p.clone();
                                }
                                if j == mid_job {
                                    *mid.lock().unwrap() = p.clone();
                                }
                                break;
                            }
                        }
                    }
                    self.busy[w].store(false, SeqCst);
                    cases.fetch_add(nc, SeqCst);
                    steps.fetch_add(ns, SeqCst);
                });
            }
        });
        if self.violation.lock().unwrap().is_some() {
            self.report_violation();
        }
        for s in [&mid, &last] {
            let s = s.lock().unwrap().clone();
            self.sample(name, &body, &s);
        }
        self.record(name, "choice tree", cases.into_inner(), steps.into_inner(), self.seen_count() - seen0, t0);
    }

    /// Enumerates all sequences of exactly `depth` operations (or shorter ones
    /// where no operation is enabled), without merging states.
    pub fn sequences<S: System>(&self, name: &str, depth: usize, make: impl Fn() -> S + Sync) {
        self.explore(name, |c| {
            let mut s = make();
            for _ in 0..depth {
                let n = s.ops();
                if n == 0 {
                    break;
                }
                let op = c.choose(n);
                s.apply(op, c)?;
                c.step(1);
            }
            let k = s.key();
            c.state(hash(&k));
            Ok(())
        })
    }

    /// Explicit-state search of all states reachable within `max_depth`
    /// operations. Returns whether the state space was closed.
    pub fn bfs<S: System>(&self, name: &str, max_depth: usize, make: impl Fn() -> S + Sync) -> bool {
        if self.skip(name) {
            return false;
        }
        let body = |c: &mut Chooser| -> Check {
            let mut s = make();
            while c.trail.len() < c.prefix.len() {
                let n = s.ops();
                if n == 0 {
                    break;
                }
                let op = c.choose(n);
                s.apply(op, c)?;
                c.step(1);
            }
            Ok(())
        };
        if self.single.is_some() {
            self.run_single(name, &body);
            return false;
        }
        let t0 = Instant::now();
        let visited: Vec<Mutex<HashSet<Vec<u8>>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
        let (cases, steps, states) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(1));
        let k0 = make().key();
        visited[(hash(&k0) >> 58) as usize].lock().unwrap().insert(k0);
        let mut frontier: Vec<Vec<u32>> = vec![vec![]];
        let mut deepest: Vec<u32> = vec![];
        let mut depth = 0;
        let mut closed = false;
        while depth < max_depth {
            let at = AtomicUsize::new(0);
            let next: Mutex<Vec<Vec<u32>>> = Mutex::new(vec![]);
            std::thread::scope(|sc| {
                for w in 0..self.threads {
                    let (frontier, next, at, visited, make) = (&frontier, &next, &at, &visited, &make);
                    let (cases, steps, states) = (&cases, &steps, &states);
                    sc.spawn(move || {
                        Slot::of(w).begin(name);
                        self.busy[w].store(true, SeqCst);
                        let mut mine = vec![];
                        loop {
                            let j = at.fetch_add(1, SeqCst);
                            if j >= frontier.len() || self.stop.load(Relaxed) {
                                break;
                            }
                            let mut p = frontier[j].clone();
                            p.push(0);
                            loop {
                                let key: Mutex<Option<(Vec<u8>, usize)>> = Mutex::new(None);
                                let one = |c: &mut Chooser| -> Check {
                                    let mut s = make();
                                    for _ in 0..p.len() - 1 {
                                        let n = s.ops();
                                        let op = c.choose(n);
                                        s.apply(op, c)?;
                                        c.step(1);
                                    }
                                    let n = s.ops();
                                    if n == 0 {
                                        *key.lock().unwrap() = Some((vec![], 0));
                                        return Ok(());
                                    }
                                    let op = c.choose(n);
                                    s.apply(op, c)?;
                                    c.step(1);
                                    *key.lock().unwrap() = Some((s.key(), n));
                                    Ok(())
                                };
                                let (r, trail, _, st) = self.one(w, &one, &p, false);
                                cases.fetch_add(1, Relaxed);
                                steps.fetch_add(st, Relaxed);
                                if let Err(m) = r {
                                    self.found(name, trail.iter().map(|t| t.0).collect(), m);
                                    break;
                                }
                                let (k, n) = key.into_inner().unwrap().unwrap();
                                if n == 0 {
                                    break;
                                }
                                let fresh = visited[(hash(&k) >> 58) as usize].lock().unwrap().insert(k);
                                if fresh {
                                    states.fetch_add(1, Relaxed);
                                    mine.push(p.clone());
                                }
                                let l = p.len() - 1;
                                p[l] += 1;
                                if p[l] as usize >= n || self.stop.load(Relaxed) {
                                    break;
                                }
                            }
                        }
                        self.busy[w].store(false, SeqCst);
                        next.lock().unwrap().append(&mut mine);
                    });
                }
            });
            if self.violation.lock().unwrap().is_some() {
                self.report_violation();
            }
            frontier = next.into_inner().unwrap();
            frontier.sort();
            if frontier.is_empty() {
                closed = true;
                break;
            }
            deepest = frontier[frontier.len() / 2].clone();
            depth += 1;
        }
        Slot::of(0).begin(name);
        self.sample(name, &body, &deepest);
        self.record(
            name,
            if closed { "state graph, closed" } else { "state graph, depth-bounded" },
            cases.into_inner(),
            steps.into_inner(),
            states.into_inner(),
            t0,
        );
        closed
    }

    /// Sweeps `0..n`; one trace is a chunk of consecutive values, which `body`
    /// gets as a range. `body` sets the cell to the value it is working on.
    pub fn range<F>(&self, name: &str, n: u64, steps_per_value: u64, body: F)
    where
        F: Fn(std::ops::Range<u64>, &dyn Fn(u64)) -> Result<(), (u64, String)> + Sync,
    {
        if self.skip(name) {
            return;
        }
        let chunk = (n / 4096).clamp(1, 1 << 16);
        let exec = |w: usize, r: std::ops::Range<u64>| -> Result<(), (u64, String)> {
            let slot = Slot::of(w);
            slot.set_len(2);
            let cur = std::cell::Cell::new(r.start);
            let mark = |v: u64| cur.set(v);
            slot.put(0, (r.start >> 32) as u32);
            slot.put(1, r.start as u32);
            let out = catch_unwind(AssertUnwindSafe(|| body(r, &mark)));
            self.beats[w].fetch_add(1, Relaxed);
            match out {
                Ok(x) => x,
                Err(_) => Err((
                    cur.get(),
                    format!(
                        "panic: {}",
                        PANIC.with(|m| m.borrow_mut().take()).unwrap_or_else(|| "?".into())
                    ),
                )),
            }
        };
        if let Some((_, ch)) = &self.single {
            self.single_hit.store(true, SeqCst);
            let v = ((*ch.first().unwrap_or(&0) as u64) << 32) | *ch.get(1).unwrap_or(&0) as u64;
            let lo = v.saturating_sub(1);
            let hi = if ch.len() > 2 { v + 1 } else { (v + chunk).min(n) };
            Slot::of(0).begin(name);
            self.busy[0].store(true, SeqCst);
            println!("  {name}: values {lo}..{hi}");
            if let Err((at, m)) = exec(0, lo..hi) {
                println!("{m}");
                self.found(name, vec![(at >> 32) as u32, at as u32, 1], m);
                self.report_violation();
            }
            self.busy[0].store(false, SeqCst);
            println!("replay of {name}: no violation");
            return;
        }
        let t0 = Instant::now();
        let at = AtomicU64::new(0);
        let traces = AtomicU64::new(0);
        let values = AtomicU64::new(0);
        std::thread::scope(|s| {
            for w in 0..self.threads {
                let (at, exec, traces, values) = (&at, &exec, &traces, &values);
                s.spawn(move || {
                    Slot::of(w).begin(name);
                    self.busy[w].store(true, SeqCst);
                    loop {
                        let lo = at.fetch_add(chunk, SeqCst);
                        if lo >= n || self.stop.load(Relaxed) {
                            break;
                        }
                        let hi = (lo + chunk).min(n);
                        // overlap by one so that neighbours are compared
                        if let Err((v, m)) = exec(w, lo.saturating_sub(1)..hi) {
                            self.found(name, vec![(v >> 32) as u32, v as u32, 1], m);
                            break;
                        }
                        traces.fetch_add(1, Relaxed);
                        values.fetch_add(hi - lo, Relaxed);
                    }
                    self.busy[w].store(false, SeqCst);
                });
            }
        });
        if self.violation.lock().unwrap().is_some() {
            self.report_violation();
        }
        let v = values.into_inner();
        self.samples
            .lock()
            .unwrap()
            .push(format!("{name}: every value of 0..{n} in {} runs", traces.load(Relaxed)));
        self.record(name, "dense range", traces.into_inner(), v * steps_per_value, v, t0);
    }

    fn record(&self, name: &str, kind: &'static str, cases: u64, steps: u64, states: u64, t0: Instant) {
        let s = ScenarioStats {
            kind,
            cases,
            steps,
            states,
            wall_ms: t0.elapsed().as_millis() as u64,
        };
        println!(
            "[{}] {name}: {kind}, {cases} traces, {steps} steps, {states} states, {:.1} s",
            self.prop,
            s.wall_ms as f64 / 1000.0
        );
        self.stats.lock().unwrap().push((name.to_string(), s));
    }

    fn report_violation(&self) -> ! {
        let v = self.violation.lock().unwrap().take();
        let v = match v {
            Some(v) => v,
            None => loop {
                std::thread::sleep(Duration::from_secs(1))
            },
        };
        if std::env::var("VERIF_REPRODUCE").is_ok() {
            std::process::exit(1);
        }
        let path = if self.single.is_some() {
            std::env::args().skip_while(|a| a != "--replay").nth(1).map(PathBuf::from)
        } else {
            None
        };
        let path = path.unwrap_or_else(|| write_replay(&self.verif, self.prop, &v.scenario, &v.choices, &v.message));
        if self.single.is_none() {
            self.write_evidence("", &[], 1);
        }
        println!("{}", v.message);
        println!("VIOLATION property={} replay={}", self.prop, path.display());
        std::process::exit(1);
    }

    fn write_evidence(&self, bounds: &str, assumptions: &[&str], violations: u64) {
        let stats = self.stats.lock().unwrap().clone();
        let (mut traces, mut steps, mut states) = (0, 0, 0);
        let mut sc = String::new();
        for (n, s) in &stats {
            traces += s.cases;
            steps += s.steps;
            states += s.states;
            let _ = write!(
                sc,
                "{}{}: {{\"kind\": {}, \"traces\": {}, \"steps\": {}, \"states\": {}, \"wall_s\": {:.3}}}",
                if sc.is_empty() { "" } else { ", " },
                js(n),
                js(s.kind),
                s.cases,
                s.steps,
                s.states,
                s.wall_ms as f64 / 1000.0
            );
        }
        let samples = self.samples.lock().unwrap();
        let samples = samples.iter().take(40).map(|s| js(s)).collect::<Vec<_>>().join(", ");
        let known = self
            .hits
            .lock()
            .unwrap()
            .iter()
            .map(|(k, h)| format!("{}: {}", js(k), h.count))
            .collect::<Vec<_>>()
            .join(", ");
        let assumptions = assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ");
        let text = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {states},\n  \"transitions\": {steps},\n  \"traces_validated_against_impl\": {traces},\n  \"exhaustive\": {},\n  \"bounds\": {},\n  \"counting\": \"states: distinct observed states (states of state graphs, values of dense ranges, distinct outcomes of choice trees; lower bound when states_not_counted > 0); transitions: operations executed on the real code and compared with the reference; traces: complete executions compared\",\n  \"states_not_counted\": {},\n  \"scenarios\": {{{sc}}},\n  \"known_finding_hits\": {{{known}}},\n  \"samples\": [{samples}]\n }},\n \"assumptions\": [{assumptions}],\n \"wall_s\": {:.3},\n \"violations\": {violations}\n}}\n",
            js(self.prop),
            js(&self.tier),
            self.seed,
            violations == 0,
            js(bounds),
            self.seen_overflow.load(Relaxed),
            self.start.elapsed().as_secs_f64(),
        );
        let dir = self.verif.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(dir.join(format!("{}.json", self.prop)), text) {
            eprintln!("cannot write evidence: {e}");
            std::process::exit(3);
        }
    }

    pub fn finish(&self, bounds: &str, assumptions: &[&str]) -> ! {
        if self.single.is_some() {
            if !self.single_hit.load(SeqCst) {
                println!("no such scenario");
                std::process::exit(2);
            }
            std::process::exit(0);
        }
        for (k, h) in self.hits.lock().unwrap().iter() {
            println!(
                "KNOWN-FINDING: property={} {} [{}; {} executions, first: {}]",
                self.prop, self.listed[k], k, h.count, h.detail
            );
        }
        self.write_evidence(bounds, assumptions, 0);
        println!("[{}] held on everything explored ({:.1} s)", self.prop, self.start.elapsed().as_secs_f64());
        std::process::exit(0);
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_replay(verif: &std::path::Path, prop: &str, scenario: &str, choices: &[u32], message: &str) -> PathBuf {
    let dir = verif.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{prop}-{:016x}.replay", hash(&(scenario, choices))));
    let text = format!(
        "property {prop}\nscenario {scenario}\nchoices {}\n# run: check.sh {prop} --replay {}\n# {}\n",
        choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "),
        path.display(),
        message.replace('\n', "\n# ")
    );
    let _ = std::fs::write(&path, text);
    path
}

fn read_replay(path: &str) -> (String, Vec<u32>) {
    let t = std::fs::read_to_string(path).unwrap_or_else(|e| {
        eprintln!("{path}: {e}");
        std::process::exit(2)
    });
    let (mut s, mut c) = (String::new(), vec![]);
    for l in t.lines() {
        if let Some(x) = l.strip_prefix("scenario ") {
            s = x.trim().into();
        }
        if let Some(x) = l.strip_prefix("choices") {
            c = x.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        }
    }
    (s, c)
}

fn parse_single(s: &str) -> (String, Vec<u32>) {
    let mut it = s.splitn(2, '@');
    let n = it.next().unwrap_or("").to_string();
    let c = it
        .next()
        .unwrap_or("")
        .split(',')
        .filter_map(|x| x.parse().ok())
        .collect();
    (n, c)
}

/// `known: property=C01 key=some-key what fails`
fn read_known(verif: &std::path::Path, prop: &str) -> BTreeMap<String, String> {
    let t = std::fs::read_to_string(verif.join("known_findings.txt")).unwrap_or_default();
    let mut m = BTreeMap::new();
    for l in t.lines() {
        if let Some(rest) = l.strip_prefix(&format!("known: property={prop} key=")) {
            if let Some((k, what)) = rest.split_once(' ') {
                m.insert(k.to_string(), what.trim().to_string());
            }
        }
    }
    m
}

fn map_slots(file: &str) {
    use std::os::fd::AsRawFd;
    let len = MAX_WORKERS * SLOT_WORDS * 4;
    let f = std::fs::OpenOptions::new().read(true).write(true).open(file).expect("slot file");
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap");
    std::mem::forget(f);
    SLOTS.store(p as *mut u32, SeqCst);
}

/// Runs this program again as a child and turns its death into a violation if
/// one of the executions it was in kills it again.
fn supervise(prop: &str, verif: &std::path::Path, tier: &str, _seed: u64) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().expect("exe");
    let args: Vec<String> = std::env::args().skip(1).collect();
    let file = std::env::temp_dir().join(format!("verif-{prop}-{}.slots", std::process::id()));
    std::fs::write(&file, vec![0u8; MAX_WORKERS * SLOT_WORDS * 4]).expect("slot file");
    let status = std::process::Command::new(&exe)
        .args(&args)
        .env("VERIF_SLOTS", &file)
        .env("VERIF_TIER", tier)
        .status()
        .expect("child");
    if let Some(c) = status.code() {
        let _ = std::fs::remove_file(&file);
        std::process::exit(c);
    }
    eprintln!("the exploration died: signal {:?}", status.signal());
    map_slots(&file.to_string_lossy());
    let suspects: Vec<(String, Vec<u32>)> = (0..MAX_WORKERS)
        .map(|w| Slot::of(w).read())
        .filter(|(n, _)| !n.is_empty())
        .collect();
    for (n, c) in suspects {
        let arg = format!("{n}@{}", c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        let f2 = format!("{}-again", file.display());
        std::fs::write(&f2, vec![0u8; MAX_WORKERS * SLOT_WORDS * 4]).expect("slot file");
        let st = std::process::Command::new(&exe)
            .args(["--single", &arg])
            .env("VERIF_SLOTS", &f2)
            .env("VERIF_REPRODUCE", "1")
            .env("VERIF_TIER", tier)
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status();
        let _ = std::fs::remove_file(&f2);
        if let Ok(st) = st {
            if st.code().is_none() {
                let m = format!("the process died with signal {:?}", st.signal());
                let p = write_replay(verif, prop, &n, &c, &m);
                let _ = std::fs::create_dir_all(verif.join("evidence"));
                let _ = std::fs::write(
                    verif.join("evidence").join(format!("{prop}.json")),
                    format!(
                        "{{\"property\": {}, \"tier\": {}, \"seed\": {_seed}, \"level\": \"model_checking\", \"coverage\": {{\"states\": 0, \"transitions\": 0, \"traces_validated_against_impl\": 1, \"samples\": [{}]}}, \"wall_s\": 0, \"violations\": 1}}\n",
                        js(prop), js(tier), js(&arg)
                    ),
                );
                println!("{m}");
                println!("VIOLATION property={prop} replay={}", p.display());
                let _ = std::fs::remove_file(&file);
                std::process::exit(1);
            }
        }
    }
    let _ = std::fs::remove_file(&file);
    eprintln!("the death could not be reproduced");
    std::process::exit(3);
}
