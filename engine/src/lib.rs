//! A small stateless model-checking engine.
//!
//! An exploration is a function that runs ONE execution of the real code and draws every choice
//! (operation, argument, environment answer, crash point) from a [`Ch`]. The engine enumerates all
//! choice sequences depth first, so that every execution within the function's bounds is run
//! exactly once. Nothing is sampled.
//!
//! The process is split in two: a supervisor and the explorer itself. Whatever the explorer does,
//! including overflowing its stack or aborting, the supervisor knows which execution was running.

pub mod futex;
pub mod json;

use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

/// The source of choices of one execution.
pub struct Ch {
    tape: Vec<(u16, u16)>,
    pos: usize,
    steps: u64,
    tracing: bool,
    log: Vec<String>,
}

impl Ch {
    fn new(prefix: Vec<(u16, u16)>, tracing: bool) -> Self {
        Ch { tape: prefix, pos: 0, steps: 0, tracing, log: vec![] }
    }

    /// Chooses one of `n` alternatives; 0 is explored first.
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0 && n < 65536, "harness: choice among {n}");
        if n == 1 {
            return 0;
        }
        let c = if let Some(&(c, m)) = self.tape.get(self.pos) {
            // A replayed prefix that offers other alternatives means uncontrolled nondeterminism.
            if m as usize != n {
                harness_error(&format!("diverging replay at choice {}: {m} vs {n}", self.pos));
            }
            c as usize
        } else {
            self.tape.push((0, n as u16));
            0
        };
        self.pos += 1;
        c
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
    pub fn of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.pick(xs.len())]
    }
    /// Counts one step (transition) of the execution.
    pub fn step(&mut self) {
        self.steps += 1;
    }
    pub fn steps(&mut self, n: u64) {
        self.steps += n;
    }
    /// Adds a line to the trace, when one is being recorded.
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            self.log.push(f());
        }
    }
    pub fn tracing(&self) -> bool {
        self.tracing
    }
}

/// Ends the process with an error that is no verdict.
pub fn harness_error(msg: &str) -> ! {
    eprintln!("HARNESS ERROR: {msg}");
    let _ = std::io::stderr().flush();
    unsafe { libc::_exit(2) }
}

#[derive(Default)]
pub struct Stats {
    states: HashSet<u64>,
    outcomes: HashSet<u64>,
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    // FNV-like deterministic hashing (DefaultHasher::new() is keyed with constants).
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Stats {
    /// Records a state reached (of the reference model, which the real code was compared with).
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        self.states.insert(hash_of(t));
    }
    /// Records the observable outcome of an execution.
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) {
        self.outcomes.insert(hash_of(t));
    }
}

pub type Verdict = Result<(), String>;

/// One exploration: all executions of `f` from each of the roots.
pub trait Suite: Sync {
    fn name(&self) -> &str;
    fn bounds(&self) -> &str;
    fn roots(&self) -> usize;
    fn root_desc(&self, i: usize) -> String;
    fn run(&self, root: usize, ch: &mut Ch, st: &mut Stats) -> Verdict;
    /// Whether executions may run in parallel in this process.
    fn parallel(&self) -> bool {
        true
    }
}

pub struct FnSuite<R, F> {
    pub name: String,
    pub bounds: String,
    pub roots: Vec<R>,
    pub f: F,
    pub parallel: bool,
}

impl<R, F> Suite for FnSuite<R, F>
where
    R: Debug + Sync,
    F: Fn(&R, &mut Ch, &mut Stats) -> Verdict + Sync,
{
    fn name(&self) -> &str {
        &self.name
    }
    fn bounds(&self) -> &str {
        &self.bounds
    }
    fn roots(&self) -> usize {
        self.roots.len()
    }
    fn root_desc(&self, i: usize) -> String {
        format!("{:?}", self.roots[i])
    }
    fn run(&self, root: usize, ch: &mut Ch, st: &mut Stats) -> Verdict {
        (self.f)(&self.roots[root], ch, st)
    }
    fn parallel(&self) -> bool {
        self.parallel
    }
}

pub fn suite<R, F>(name: &str, bounds: impl Into<String>, roots: Vec<R>, f: F) -> Box<dyn Suite>
where
    R: Debug + Sync + 'static,
    F: Fn(&R, &mut Ch, &mut Stats) -> Verdict + Sync + 'static,
{
    Box::new(FnSuite { name: name.into(), bounds: bounds.into(), roots, f, parallel: true })
}

pub fn suite_seq<R, F>(name: &str, bounds: impl Into<String>, roots: Vec<R>, f: F) -> Box<dyn Suite>
where
    R: Debug + Sync + 'static,
    F: Fn(&R, &mut Ch, &mut Stats) -> Verdict + Sync + 'static,
{
    Box::new(FnSuite { name: name.into(), bounds: bounds.into(), roots, f, parallel: false })
}

/// The same executions, made by a destructor while the thread unwinds from a panic.
struct Unwinding {
    inner: Box<dyn Suite>,
    name: String,
    bounds: String,
}

struct OnDrop<F: FnMut()>(F);
impl<F: FnMut()> Drop for OnDrop<F> {
    fn drop(&mut self) {
        (self.0)()
    }
}

impl Suite for Unwinding {
    fn name(&self) -> &str {
        &self.name
    }
    fn bounds(&self) -> &str {
        &self.bounds
    }
    fn roots(&self) -> usize {
        self.inner.roots()
    }
    fn root_desc(&self, i: usize) -> String {
        self.inner.root_desc(i)
    }
    fn run(&self, root: usize, ch: &mut Ch, st: &mut Stats) -> Verdict {
        let mut verdict = None;
        let outer = catch_unwind(AssertUnwindSafe(|| {
            // A panic that leaves a destructor ends the process; it is kept instead.
            let _d = OnDrop(|| verdict = Some(catch_unwind(AssertUnwindSafe(|| self.inner.run(root, ch, st)))));
            inject(0)
        }));
        match (verdict, outer) {
            (Some(Ok(v)), _) => v,
            (Some(Err(p)), _) | (None, Err(p)) => resume_unwind(p),
            (None, Ok(())) => panic!("harness: nothing ran"),
        }
    }
    fn parallel(&self) -> bool {
        self.inner.parallel()
    }
}

/// Adds, to some suites of a property, the same executions made while the thread unwinds.
pub fn also_unwinding(names: &[&str], suites: fn(Tier) -> Vec<Box<dyn Suite>>, t: Tier) -> Vec<Box<dyn Suite>> {
    let mut v = suites(t);
    for s in suites(t) {
        if names.contains(&s.name()) {
            let name = format!("{}-unwinding", s.name());
            let bounds = format!("{}; all of it by a destructor while the thread unwinds from a panic", s.bounds());
            v.push(Box::new(Unwinding { inner: s, name, bounds }));
        }
    }
    assert_eq!(v.len(), suites(t).len() + names.len(), "harness: no such suite");
    v
}

/// A property: its suites for the tier.
pub struct Prop {
    pub id: &'static str,
    pub suites: fn(tier: Tier) -> Vec<Box<dyn Suite>>,
    pub assumptions: &'static [&'static str],
    pub level: &'static str,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
}

// ---------------------------------------------------------------------------------------------
// panics

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
    pub(crate) static IN_SUT: Cell<bool> = const { Cell::new(false) };
    static WORKER: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.try_with(|q| q.get()).unwrap_or(true);
        if quiet {
            let _ = LAST_PANIC.try_with(|p| {
                if let Ok(mut p) = p.try_borrow_mut() {
                    *p = Some(info.to_string());
                }
            });
        } else {
            old(info);
        }
    }));
}

/// Keeps panics of this thread from being printed; see `last_panic`.
pub fn quiet() {
    QUIET.with(|q| q.set(true));
}
/// The message of the last panic of this thread.
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "an injected panic escaped".into())
}

/// A panic thrown on purpose by the harness (an injected crash).
pub struct Injected(pub u32);

/// Throws an injected panic without running the panic hook.
pub fn inject(tag: u32) -> ! {
    std::panic::resume_unwind(Box::new(Injected(tag)))
}

// ---------------------------------------------------------------------------------------------
// slots: where each worker stands, readable by the supervisor after a crash

const SLOT: usize = 4096;
const WORKERS: usize = 16;

struct Slots(*mut u8);
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}

impl Slots {
    fn map(path: &Path, create: bool) -> Option<Slots> {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(create).truncate(create).open(path).ok()?;
        if create {
            f.set_len((SLOT * WORKERS) as u64).ok()?;
        }
        use std::os::fd::AsRawFd;
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), SLOT * WORKERS, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        (p != libc::MAP_FAILED).then_some(Slots(p as *mut u8))
    }
    fn put(&self, w: usize, suite: usize, root: usize, tape: &[(u16, u16)]) {
        unsafe {
            let p = self.0.add(w * SLOT) as *mut u32;
            p.write_volatile(0);
            p.add(1).write_volatile(suite as u32);
            p.add(2).write_volatile(root as u32);
            let n = tape.len().min((SLOT - 16) / 4);
            p.add(3).write_volatile(n as u32);
            for (i, &(c, m)) in tape[..n].iter().enumerate() {
                p.add(4 + i).write_volatile((c as u32) << 16 | m as u32);
            }
            p.write_volatile(1);
        }
    }
    fn clear(&self, w: usize) {
        unsafe { (self.0.add(w * SLOT) as *mut u32).write_volatile(0) }
    }
    fn get(&self, w: usize) -> Option<(usize, usize, Vec<(u16, u16)>)> {
        unsafe {
            let p = self.0.add(w * SLOT) as *const u32;
            if p.read_volatile() != 1 {
                return None;
            }
            let n = (p.add(3).read_volatile() as usize).min((SLOT - 16) / 4);
            let tape = (0..n)
                .map(|i| {
                    let x = p.add(4 + i).read_volatile();
                    ((x >> 16) as u16, x as u16)
                })
                .collect();
            Some((p.add(1).read_volatile() as usize, p.add(2).read_volatile() as usize, tape))
        }
    }
}

// ---------------------------------------------------------------------------------------------
// running

struct Found {
    suite: usize,
    root: usize,
    tape: Vec<(u16, u16)>,
    msg: String,
}

struct SuiteResult {
    execs: u64,
    steps: u64,
    states: u64,
    outcomes: u64,
    complete: bool,
    wall: f64,
}

struct Ctl {
    slots: Slots,
    /// Per worker: the time (ms since start) its current execution began, 0 if idle.
    since: Vec<AtomicU64>,
    start: Instant,
    deadline: Instant,
    out: PathBuf,
    id: &'static str,
}

fn one(s: &dyn Suite, root: usize, ch: &mut Ch, st: &mut Stats) -> Verdict {
    QUIET.with(|q| q.set(true));
    IN_SUT.with(|q| q.set(true));
    let r = catch_unwind(AssertUnwindSafe(|| s.run(root, ch, st)));
    IN_SUT.with(|q| q.set(false));
    QUIET.with(|q| q.set(false));
    match r {
        Ok(v) => v,
        Err(p) => {
            if let Some(Injected(t)) = p.downcast_ref::<Injected>() {
                return Err(format!("an injected panic ({t}) escaped where it should have been caught"));
            }
            let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "unknown panic".into());
            if m.contains("harness:") {
                harness_error(&m);
            }
            Err(format!("the code panicked: {m}"))
        }
    }
}

/// The part of an exploration still to be done by somebody: all executions starting with a prefix.
type Task = (usize, Vec<(u16, u16)>);

struct Queue {
    tasks: std::collections::VecDeque<Task>,
    busy: usize,
}

fn explore(ctl: &Ctl, si: usize, s: &dyn Suite, found: &Mutex<Option<Found>>) -> SuiteResult {
    let t0 = Instant::now();
    let nw = if s.parallel() {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)
    } else {
        1
    };
    let queue = Mutex::new(Queue { tasks: (0..s.roots()).map(|r| (r, vec![])).collect(), busy: 0 });
    let cond = Condvar::new();
    let hungry = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let execs = AtomicU64::new(0);
    let steps = AtomicU64::new(0);
    let capped = AtomicBool::new(false);
    let all = Mutex::new(Stats::default());
    std::thread::scope(|sc| {
        for w in 0..nw {
            let (queue, cond, hungry, stop, execs, steps, capped, all) = (&queue, &cond, &hungry, &stop, &execs, &steps, &capped, &all);
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(sc, move || {
                    WORKER.with(|x| x.set(w));
                    let mut st = Stats::default();
                    let (mut my_execs, mut my_steps) = (0, 0);
                    loop {
                        let (root, prefix) = {
                            let mut q = queue.lock().unwrap();
                            loop {
                                if stop.load(Ordering::SeqCst) {
                                    break (usize::MAX, vec![]);
                                }
                                if let Some(t) = q.tasks.pop_front() {
                                    q.busy += 1;
                                    break t;
                                }
                                if q.busy == 0 {
                                    break (usize::MAX, vec![]);
                                }
                                hungry.fetch_add(1, Ordering::SeqCst);
                                q = cond.wait(q).unwrap();
                                hungry.fetch_sub(1, Ordering::SeqCst);
                            }
                        };
                        if root == usize::MAX {
                            cond.notify_all();
                            break;
                        }
                        let mut base = prefix.len();
                        let mut tape = prefix;
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if Instant::now() > ctl.deadline {
                                capped.store(true, Ordering::SeqCst);
                                stop.store(true, Ordering::SeqCst);
                                break;
                            }
                            ctl.slots.put(w, si, root, &tape);
                            ctl.since[w].store(ctl.start.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                            let mut ch = Ch::new(std::mem::take(&mut tape), false);
                            let v = one(s, root, &mut ch, &mut st);
                            ctl.since[w].store(0, Ordering::Relaxed);
                            my_execs += 1;
                            my_steps += ch.steps;
                            ch.tape.truncate(ch.pos);
                            if let Err(msg) = v {
                                let mut f = found.lock().unwrap();
                                let better = |f: &Found| (ch.tape.len(), root) < (f.tape.len(), f.root);
                                if f.as_ref().map_or(true, better) {
                                    *f = Some(Found { suite: si, root, tape: ch.tape, msg });
                                }
                                stop.store(true, Ordering::SeqCst);
                                break;
                            }
                            tape = ch.tape;
                            // Give away the largest part of what is left when somebody is idle.
                            if hungry.load(Ordering::Relaxed) > 0 {
                                if let Some(i) = (base..tape.len()).find(|&i| tape[i].0 + 1 < tape[i].1) {
                                    let mut q = queue.lock().unwrap();
                                    for c in tape[i].0 + 1..tape[i].1 {
                                        let mut p = tape[..i].to_vec();
                                        p.push((c, tape[i].1));
                                        q.tasks.push_back((root, p));
                                    }
                                    base = i + 1;
                                    cond.notify_all();
                                }
                            }
                            // next sequence in depth-first order
                            while tape.len() > base {
                                let (c, n) = tape.pop().unwrap();
                                if c + 1 < n {
                                    tape.push((c + 1, n));
                                    break;
                                }
                            }
                            if tape.len() <= base {
                                break;
                            }
                        }
                        queue.lock().unwrap().busy -= 1;
                        cond.notify_all();
                    }
                    execs.fetch_add(my_execs, Ordering::Relaxed);
                    steps.fetch_add(my_steps, Ordering::Relaxed);
                    ctl.slots.clear(w);
                    let mut a = all.lock().unwrap();
                    a.states.extend(st.states);
                    a.outcomes.extend(st.outcomes);
                })
                .expect("harness: spawn worker");
        }
    });
    let a = all.into_inner().unwrap();
    SuiteResult {
        execs: execs.into_inner(),
        steps: steps.into_inner(),
        states: a.states.len() as u64,
        outcomes: a.outcomes.len() as u64,
        complete: !capped.into_inner(),
        wall: t0.elapsed().as_secs_f64(),
    }
}

fn replay_one(s: &dyn Suite, root: usize, tape: &[(u16, u16)]) -> (Verdict, Vec<String>) {
    let mut ch = Ch::new(tape.to_vec(), true);
    let mut st = Stats::default();
    WORKER.with(|x| x.set(0));
    let v = one(s, root, &mut ch, &mut st);
    (v, ch.log)
}

fn tape_str(tape: &[(u16, u16)]) -> String {
    tape.iter().map(|(c, n)| format!("{c}/{n}")).collect::<Vec<_>>().join(",")
}

fn parse_tape(s: &str) -> Vec<(u16, u16)> {
    s.split(',')
        .filter(|x| !x.is_empty())
        .map(|x| {
            let (a, b) = x.split_once('/').expect("harness: tape");
            (a.parse().expect("harness: tape"), b.parse().expect("harness: tape"))
        })
        .collect()
}

#[allow(clippy::too_many_arguments)]
fn write_replay(out: &Path, id: &str, tier: Tier, si: usize, s: &dyn Suite, root: usize, tape: &[(u16, u16)], msg: &str, trace: &[String], reproduced: u32) -> PathBuf {
    let dir = out.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}.json"));
    let j = json::obj(&[
        ("property", json::s(id)),
        ("checker", json::s(&checker())),
        ("tier", json::s(&format!("{tier:?}").to_lowercase())),
        ("suite_index", si.to_string()),
        ("suite", json::s(s.name())),
        ("root", root.to_string()),
        ("root_desc", json::s(&s.root_desc(root))),
        ("tape", json::s(&tape_str(tape))),
        ("message", json::s(msg)),
        ("reproduced_of_2", reproduced.to_string()),
        ("trace", json::arr(&trace.iter().map(|x| json::s(x)).collect::<Vec<_>>())),
    ]);
    let _ = std::fs::write(&path, j + "\n");
    path
}

fn announce(out: &Path, id: &str, tier: Tier, suites: &[Box<dyn Suite>], f: &Found, extra: Option<(&[String], u32)>) {
    let s = &*suites[f.suite];
    let (trace, rep): (Vec<String>, u32) = match extra {
        Some((t, r)) => (t.to_vec(), r),
        None => {
            let mut n = 0;
            let mut tr = vec![];
            for _ in 0..2 {
                let (v, t) = replay_one(s, f.root, &f.tape);
                if v.is_err() {
                    n += 1;
                    tr = t;
                }
            }
            (tr, n)
        }
    };
    let p = write_replay(out, id, tier, f.suite, s, f.root, &f.tape, &f.msg, &trace, rep);
    println!("suite {} root {} ({}): {}", s.name(), f.root, s.root_desc(f.root), f.msg);
    for l in trace.iter().take(60) {
        println!("    {l}");
    }
    println!("VIOLATION property={id} replay={}", p.display());
    let _ = std::io::stdout().flush();
}

/// The name of this binary.
fn checker() -> String {
    std::env::current_exe().ok().and_then(|p| p.file_name().map(|n| n.to_string_lossy().into_owned())).unwrap_or_default()
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}

static KNOWN_SEEN: Mutex<std::collections::BTreeSet<String>> = Mutex::new(std::collections::BTreeSet::new());
static KNOWN: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();

/// Whether the committed file lists the finding "property=ID finding=KEY ..."; if so, the check
/// mentions it at its end. To be called where an execution shows exactly this finding.
pub fn known_finding(id: &str, key: &str) -> bool {
    let known = KNOWN.get_or_init(|| {
        let text = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
        text.lines().filter_map(|l| l.strip_prefix("KNOWN-FINDING: ")).map(str::to_string).collect()
    });
    let head = format!("property={id} finding={key} ");
    match known.iter().find(|k| k.starts_with(&head)) {
        Some(k) => {
            let mut seen = KNOWN_SEEN.lock().unwrap();
            if !seen.contains(k) {
                seen.insert(k.clone());
            }
            true
        }
        None => false,
    }
}

fn seed() -> i64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

#[allow(clippy::too_many_arguments)]
fn evidence(p: &Prop, tier: Tier, suites: &[Box<dyn Suite>], res: &[SuiteResult], samples: &[String], wall: f64, violations: u32) {
    let tot = |f: fn(&SuiteResult) -> u64| res.iter().map(f).sum::<u64>();
    let per: Vec<String> = suites
        .iter()
        .zip(res)
        .map(|(s, r)| {
            json::obj(&[
                ("checker", json::s(&checker())),
                ("suite", json::s(s.name())),
                ("bounds", json::s(s.bounds())),
                ("executions", r.execs.to_string()),
                ("steps", r.steps.to_string()),
                ("distinct_states", r.states.to_string()),
                ("distinct_outcomes", r.outcomes.to_string()),
                ("enumerated_completely", r.complete.to_string()),
                ("wall_s", format!("{:.2}", r.wall)),
            ])
        })
        .collect();
    let complete = res.len() == suites.len() && res.iter().all(|r| r.complete) && violations == 0;
    let cov = json::obj(&[
        ("states", tot(|r| r.states).to_string()),
        ("transitions", tot(|r| r.steps).to_string()),
        ("traces_validated_against_impl", tot(|r| r.execs).to_string()),
        ("distinct_outcomes", tot(|r| r.outcomes).to_string()),
        ("exhaustive", complete.to_string()),
        ("rule", json::s("stateless exploration: every choice sequence within the bounds of each suite is one execution of the real code, compared with a reference model after every step; a state is a distinct state of the reference model (hash), a transition one operation executed on both")),
        ("suites", json::arr(&per)),
        ("samples", json::arr(&samples.iter().map(|x| json::s(x)).collect::<Vec<_>>())),
    ]);
    let e = json::obj(&[
        ("property", json::s(p.id)),
        ("tier", json::s(tier.pick("quick", "thorough"))),
        ("seed", seed().to_string()),
        ("level", json::s(p.level)),
        ("coverage", cov),
        ("assumptions", json::arr(&p.assumptions.iter().map(|x| json::s(x)).collect::<Vec<_>>())),
        ("wall_s", format!("{wall:.2}")),
        ("violations", violations.to_string()),
    ]);
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(dir.join(format!("{}.json", p.id)), e + "\n").is_err() {
        harness_error("cannot write the evidence file");
    }
}

/// Called by the futex layer when the code under test waits for itself.
pub(crate) fn on_self_deadlock() -> ! {
    unsafe { libc::_exit(77) }
}

const EXIT_DEADLOCK: i32 = 77;
const EXIT_HANG: i32 = 78;
const HANG_MS: u64 = 120_000;

fn child(p: &Prop, tier: Tier, out: &Path) -> i32 {
    install_panic_hook();
    futex::init();
    let t0 = Instant::now();
    let cap: u64 = std::env::var("MC_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(tier.pick(400, 840));
    let Some(slots) = Slots::map(&out.join(format!("{}.slots", p.id)), true) else { harness_error("slots") };
    let ctl = Ctl {
        slots,
        since: (0..WORKERS).map(|_| AtomicU64::new(0)).collect(),
        start: t0,
        deadline: t0 + Duration::from_secs(cap),
        out: out.to_path_buf(),
        id: p.id,
    };
    let ctl: &'static Ctl = Box::leak(Box::new(ctl));
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let now = ctl.start.elapsed().as_millis() as u64;
        for (w, s) in ctl.since.iter().enumerate() {
            let t = s.load(Ordering::Relaxed);
            if t != 0 && now > t + HANG_MS {
                // Only this worker's position is of interest.
                for o in 0..WORKERS {
                    if o != w {
                        ctl.slots.clear(o);
                    }
                }
                unsafe { libc::_exit(EXIT_HANG) }
            }
        }
        let _ = (&ctl.out, ctl.id);
    });
    let suites = (p.suites)(tier);
    let only = std::env::var("MC_SUITE").ok();
    let mut res = vec![];
    let mut samples = vec![];
    let mut code = 0;
    for (si, s) in suites.iter().enumerate() {
        if only.as_ref().is_some_and(|o| !s.name().contains(o.as_str())) {
            res.push(SuiteResult { execs: 0, steps: 0, states: 0, outcomes: 0, complete: false, wall: 0.0 });
            continue;
        }
        let found = Mutex::new(None);
        let r = explore(ctl, si, &**s, &found);
        println!(
            "{} {:<26} roots={} executions={} steps={} states={} outcomes={}{} {:.2}s",
            p.id,
            s.name(),
            s.roots(),
            r.execs,
            r.steps,
            r.states,
            r.outcomes,
            if r.complete { "" } else { " CAPPED" },
            r.wall
        );
        res.push(r);
        if let Some(f) = found.into_inner().unwrap() {
            announce(out, p.id, tier, &suites, &f, None);
            code = 1;
            break;
        }
        // Two executions of this suite written out: the first one and one from the last root.
        for (root, spread) in [(0usize, 0u16), (s.roots().saturating_sub(1), 1)] {
            if s.roots() == 0 || samples.len() > 24 {
                continue;
            }
            let tape = if spread == 0 { vec![] } else { spread_tape(&**s, root) };
            ctl.slots.put(0, si, root, &tape);
            let (_, log) = replay_one(&**s, root, &tape);
            let text = log.join(" ; ");
            samples.push(format!("[{}] root {} tape {}: {}", s.name(), clip(&s.root_desc(root), 200), clip(&tape_str(&tape), 160), clip(&text, 900)));
        }
    }
    for k in KNOWN_SEEN.lock().unwrap().iter() {
        println!("KNOWN-FINDING: {k}");
    }
    evidence(p, tier, &suites, &res, &samples, t0.elapsed().as_secs_f64(), code as u32);
    let _ = std::io::stdout().flush();
    code
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}…", &s[..e])
}

/// A tape that takes a middle alternative at each choice, to show a non-trivial sample.
fn spread_tape(s: &dyn Suite, root: usize) -> Vec<(u16, u16)> {
    let mut tape: Vec<(u16, u16)> = vec![];
    for _ in 0..6 {
        let mut ch = Ch::new(tape.clone(), false);
        let mut st = Stats::default();
        let _ = one(s, root, &mut ch, &mut st);
        ch.tape.truncate(ch.pos);
        let k = tape.len();
        if ch.tape.len() <= k {
            break;
        }
        tape = ch.tape[..=k].to_vec();
        let n = tape[k].1;
        tape[k].0 = n / 2;
    }
    tape
}

/// Entry point of a checker binary.
pub fn main(props: &[Prop]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let usage = "usage: <bin> PROPERTY [quick|thorough] | <bin> --replay FILE";
    let out = verif_dir().join("out");
    let _ = std::fs::create_dir_all(&out);
    if args.len() >= 3 && args[1] == "--replay" {
        let text = std::fs::read_to_string(&args[2]).unwrap_or_else(|e| harness_error(&e.to_string()));
        let get = |k| json::field(&text, k).unwrap_or_else(|| harness_error("bad replay file"));
        let p = props.iter().find(|p| p.id == get("property")).unwrap_or_else(|| harness_error("unknown property"));
        let tier = if get("tier") == "thorough" { Tier::Thorough } else { Tier::Quick };
        install_panic_hook();
        futex::init();
        let suites = (p.suites)(tier);
        let si: usize = get("suite_index").parse().unwrap();
        let (v, log) = replay_one(&*suites[si], get("root").parse().unwrap(), &parse_tape(&get("tape")));
        for l in log {
            println!("    {l}");
        }
        match v {
            Ok(()) => {
                println!("the execution satisfies the property");
                std::process::exit(0)
            }
            Err(m) => {
                println!("VIOLATED: {m}");
                std::process::exit(1)
            }
        }
    }
    let Some(p) = args.get(1).and_then(|a| props.iter().find(|p| p.id == a)) else { harness_error(usage) };
    let tier = match args.get(2).map(|s| s.as_str()) {
        Some("thorough") => Tier::Thorough,
        Some("quick") => Tier::Quick,
        _ if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    if args.get(3).map(|s| s.as_str()) == Some("--child") {
        std::process::exit(child(p, tier, &out));
    }
    if args.get(3).map(|s| s.as_str()) == Some("--one") {
        install_panic_hook();
        futex::init();
        std::thread::spawn(|| {
            std::thread::sleep(Duration::from_millis(HANG_MS));
            unsafe { libc::_exit(EXIT_HANG) }
        });
        let suites = (p.suites)(tier);
        let si: usize = args[4].parse().unwrap();
        let root: usize = args[5].parse().unwrap();
        let tape = parse_tape(args.get(6).map(|s| s.as_str()).unwrap_or(""));
        let v = std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(sc, || replay_one(&*suites[si], root, &tape).0)
                .unwrap()
                .join()
        });
        std::process::exit(if matches!(v, Ok(Ok(()))) { 0 } else { 1 });
    }
    // supervisor
    let exe = std::env::current_exe().expect("harness: exe");
    let tier_s = tier.pick("quick", "thorough");
    let t0 = Instant::now();
    let status = std::process::Command::new(&exe)
        .args([p.id, tier_s, "--child"])
        .status()
        .unwrap_or_else(|e| harness_error(&e.to_string()));
    use std::os::unix::process::ExitStatusExt;
    let how = match (status.code(), status.signal()) {
        (Some(c @ (0 | 1)), _) => std::process::exit(c),
        (Some(EXIT_DEADLOCK), _) => "the code under test waits for a lock it holds itself: it never returns".to_string(),
        (Some(EXIT_HANG), _) => format!("the execution did not finish within {} s", HANG_MS / 1000),
        (None, Some(sig)) if matches!(sig, libc::SIGSEGV | libc::SIGABRT | libc::SIGBUS | libc::SIGILL | libc::SIGFPE) => {
            format!("the process died with signal {sig} (crash or stack overflow)")
        }
        _ => harness_error(&format!("explorer ended with {status}")),
    };
    let Some(slots) = Slots::map(&out.join(format!("{}.slots", p.id)), false) else { harness_error("no slots") };
    let suites = (p.suites)(tier);
    for w in 0..WORKERS {
        let Some((si, root, tape)) = slots.get(w) else { continue };
        let mut n = 0;
        for _ in 0..2 {
            let st = std::process::Command::new(&exe)
                .args([p.id, tier_s, "--one", &si.to_string(), &root.to_string(), &tape_str(&tape)])
                .stderr(std::process::Stdio::null())
                .status()
                .unwrap_or_else(|e| harness_error(&e.to_string()));
            if st.code() == Some(2) {
                harness_error("replay of the crash failed");
            }
            if st.code() != Some(0) {
                n += 1;
            }
            if n == 0 {
                break;
            }
        }
        if n > 0 {
            let f = Found { suite: si, root, tape, msg: how };
            let res: Vec<SuiteResult> = vec![];
            evidence(p, tier, &suites, &res, &["interrupted: see the replay file".into()], t0.elapsed().as_secs_f64(), 1);
            announce(&out, p.id, tier, &suites, &f, Some((&[], n)));
            std::process::exit(1);
        }
    }
    harness_error(&format!("{how}, but no execution in progress reproduces it"))
}
