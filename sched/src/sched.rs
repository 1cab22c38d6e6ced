//! Runs groups of threads under the controlled scheduler.
use engine::Ch;
use std::cell::{RefCell, UnsafeCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

#[repr(C)]
struct Raw {
    _p: [u8; 0],
}
extern "C" {
    fn rt_new() -> *mut Raw;
    fn rt_reset(s: *mut Raw, n: i32, budget: i32, ch: *mut u8);
    fn rt_run(s: *mut Raw) -> i32;
    fn rt_wait_turn(s: *mut Raw, tid: i32);
    fn rt_enter(s: *mut Raw, tid: i32);
    fn rt_leave();
    fn rt_point();
    fn rt_stat(s: *mut Raw, k: i32) -> u64;
    fn rt_futex(addr: usize, op: usize, val: usize) -> i64;
}

#[no_mangle]
unsafe extern "C" fn sched_pick(ch: *mut u8, n: i32) -> i32 {
    (*(ch as *mut Ch)).pick(n as usize) as i32
}

/// A place in the harness where the scheduler may switch.
pub fn point() {
    unsafe { rt_point() }
}

type Job = Box<dyn FnOnce()>;
struct Slot(UnsafeCell<Option<Job>>, UnsafeCell<Option<String>>);
unsafe impl Sync for Slot {}
unsafe impl Send for Slot {}

struct Pool {
    s: *mut Raw,
    slots: Arc<Vec<Slot>>,
}
const MAX: usize = 4;

fn pool() -> Pool {
    unsafe { engine::futex::HOOK = Some(rt_futex) };
    let s = unsafe { rt_new() };
    let slots: Arc<Vec<Slot>> = Arc::new((0..MAX).map(|_| Slot(UnsafeCell::new(None), UnsafeCell::new(None))).collect());
    for tid in 0..MAX {
        let slots = slots.clone();
        let s = s as usize;
        std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn(move || {
                let s = s as *mut Raw;
                engine::quiet();
                loop {
                    unsafe { rt_wait_turn(s, tid as i32) };
                    let job = unsafe { (*slots[tid].0.get()).take().expect("harness: job") };
                    unsafe { rt_enter(s, tid as i32) };
                    let r = catch_unwind(AssertUnwindSafe(job));
                    if r.is_err() {
                        let m = engine::last_panic();
                        unsafe { *slots[tid].1.get() = Some(m) };
                    }
                    unsafe { rt_leave() };
                }
            })
            .expect("harness: spawn");
    }
    Pool { s, slots }
}

thread_local! {
    static POOL: RefCell<Option<Pool>> = const { RefCell::new(None) };
}

pub struct Ran {
    pub points: u64,
    pub preemptions: u64,
    pub waits: u64,
}

/// Runs the jobs as threads; every switch is chosen by `ch`, with at most `budget` preemptions
/// (switches away from a thread that could go on).
pub fn run(ch: &mut Ch, budget: usize, jobs: Vec<Box<dyn FnOnce() + '_>>) -> Result<Ran, String> {
    let n = jobs.len();
    assert!(n <= MAX, "harness: too many threads");
    let p = POOL.with(|p| p.borrow_mut().take()).unwrap_or_else(pool);
    for (i, j) in jobs.into_iter().enumerate() {
        // The jobs run only while this function does.
        unsafe { *p.slots[i].0.get() = Some(std::mem::transmute::<Box<dyn FnOnce() + '_>, Job>(j)) };
    }
    let dead = unsafe {
        rt_reset(p.s, n as i32, budget as i32, ch as *mut Ch as *mut u8);
        rt_run(p.s)
    };
    if dead != 0 {
        // The threads stay where they are; so does the pool.
        std::mem::forget(p);
        return Err("deadlock: no thread can go on".into());
    }
    let ran = unsafe { Ran { points: rt_stat(p.s, 0), preemptions: rt_stat(p.s, 2), waits: rt_stat(p.s, 3) } };
    for i in 0..n {
        let m = unsafe { (*p.slots[i].1.get()).take() };
        if let Some(m) = m {
            return Err(format!("thread {i} panicked: {m}"));
        }
    }
    POOL.with(|q| *q.borrow_mut() = Some(p));
    Ok(ran)
}
